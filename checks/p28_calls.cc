// P28: the assembler reports exactly the calls that leave the program, and the declared conventions.
#include "checks/flow.h"
using namespace flow;

struct Item {
  Line l;
  int far = -1;        // address called or jumped to; -2 - n: n within the bank
  bool remote = false;
  sim::Mode in{2, 2, 2};
  int conv = 0;        // .entry or .remote: 1 yields, 2 noreturn
  sim::Mode to{2, 2, 2};
};
static int Bit(BitState b) { return b == B_off ? 0 : b == B_on ? 1 : 2; }
static Item Call(const std::string& text, const char* name, const char* mode, int arg, int far, bool exit, const char* yields, bool noreturn) {
  Item i;
  i.l = L(text, name, mode, arg);
  i.far = far;
  i.l.exit = exit;
  if (yields) { i.l.ins.yields = true; sim::FindMode(yields, &i.l.ins.to); }
  i.l.ins.noreturn = noreturn;
  return i;
}
static Item Remote(int at, const char* mode, int conv, const char* to) {
  Item i;
  i.l = L(mc::Fmt(".remote $%06x %s", at, mode) + (conv == 1 ? std::string(" yields ") + to : conv == 2 ? " noreturn" : ""), "nop", "");
  i.l.ins.name = ".equ";  // no effect on execution
  i.l.kind = 'n';
  i.remote = true; i.far = at; i.conv = conv;
  sim::FindMode(mode, &i.in);
  if (to) sim::FindMode(to, &i.to);
  return i;
}
static Item Entry(const char* mode, int conv, const char* to) {
  Item i;
  i.l = L(std::string(".entry ") + mode + (conv == 1 ? std::string(" yields ") + to : conv == 2 ? " noreturn" : ""), "", "");
  i.l.kind = 'e'; i.l.modename = mode;
  sim::FindMode(mode, &i.l.mode);
  i.conv = conv;
  if (to) sim::FindMode(to, &i.to);
  return i;
}
static std::vector<Item> Menu2(const std::string& pick, int lines) {
  std::vector<Item> r;
  auto has = [&](const std::string& k) { return (" " + pick + " ").find(" " + k + " ") != std::string::npos || pick == "*"; };
  for (auto& l : Menu(pick == "*" ? "nop lda# sep20 rep30 clc sec php plp xce rts mode-m8 bne bra bcc" : pick, lines)) { Item i; i.l = l; r.push_back(i); }
  auto call = [&](const std::string& key, const std::string& text, const char* name, const char* mode, int arg, int far, bool exit, const char* yields, bool noreturn) {
    if (has(key)) r.push_back(Call(text, name, mode, arg, far, exit, yields, noreturn));
  };
  call("call", "jsr $9000", "jsr", "a", 0x9000, -2 - 0x9000, false, nullptr, false);
  call("call-yields", "jsr $9000 yields m16", "jsr", "a", 0x9000, -2 - 0x9000, false, "m16", false);
  call("call-sum", "jsr $8ffe + $0002", "jsr", "a", 0x9000, -2 - 0x9000, false, nullptr, false);
  call("call-inside", "jsr $8002", "jsr", "a", 0x8002, -2 - 0x8002, false, nullptr, false);
  call("long", "jsl $009000", "jsl", "l", 0x009000, 0x009000, false, nullptr, false);
  call("long-noreturn", "jsl $029500 noreturn", "jsl", "l", 0x029500, 0x029500, true, nullptr, true);
  call("long-yields", "jsl $029500 yields m16x16", "jsl", "l", 0x029500, 0x029500, false, "m16x16", false);
  call("jump", "jmp $9000", "jmp", "a", 0x9000, -2 - 0x9000, true, nullptr, false);
  call("jump-long", "jmp $029500", "jmp", "l", 0x029500, 0x029500, true, nullptr, false);
  call("jump-ind", "jmp ($9000)", "jmp", "(a)", 0x9000, -1, true, nullptr, false);
  call("jsr-ind", "jsr ($9000, x)", "jsr", "(a,x)", 0x9000, -1, false, nullptr, false);
  call("lda-abs", "lda $9000", "lda", "a", 0x9000, -1, false, nullptr, false);
  auto remote = [&](const std::string& key, int at, const char* mode, int conv, const char* to) {
    if (has(key)) r.push_back(Remote(at, mode, conv, to));
  };
  remote("remote-m8", 0x009000, "m8x8", 0, nullptr);
  remote("remote-yields", 0x009000, "m16x8", 1, "m8x16");
  remote("remote-emu", 0x009000, "emu", 1, "unk");
  remote("remote-noreturn", 0x029500, "m16x16", 2, nullptr);
  remote("remote-inside", 0x008001, "m8x8", 1, "m16");
  auto entry = [&](const std::string& key, const char* mode, int conv, const char* to) {
    if (has(key)) r.push_back(Entry(mode, conv, to));
  };
  entry("entry-yields", "m16x16", 1, "m8");
  entry("entry-noreturn", "m8x8", 2, nullptr);
  return r;
}
struct Unit {
  std::vector<const Item*> is;
  uint32_t base = 0x8000;
  const char* entry = "m8x8";
  bool named = true;
  std::string Text(int name) const {
    std::string s = (named ? mc::Fmt(".module u%d\n", name) : "{\n") + mc::Fmt(".org $%06x\n.entry %s\n", base, entry);
    for (size_t i = 0; i < is.size(); ++i) s += mc::Fmt("l%d ", int(i)) + is[i]->l.text + "\n";
    if (!named) s += "}\n";
    return s;
  }
};
struct Count { uint64_t n = 0, ok = 0, refused = 0, targets = 0, exact = 0, convs = 0, steps = 0, inside = 0; };
struct Want {
  std::vector<const sim::Cpu*> sound;  // each state of each call
  int seen[3] = {};                    // values of e, m, x
  bool exact = true;
};
static void One(mc::Ctx& c, const std::vector<Unit>& us, Count* k) {
  ++k->n;
  std::vector<File> files;
  std::string name;
  for (size_t i = 0; i < us.size(); ++i) { files.push_back(MakeFakeFile(mc::Fmt("u%d.asm", int(i)), us[i].Text(i))); name += "[" + us[i].Text(i) + "]"; }
  Sink sink;
  auto r = Assemble(files, &sink);
  if (!r.ok()) { ++k->refused; return; }
  ++k->ok;
  auto fail = [&](const std::string& why) { c.fail("program " + name, "program " + name + ": " + why); };
  std::map<uint32_t, Want> want;
  std::map<uint32_t, std::vector<const Item*>> convs;
  std::set<uint32_t> mine;
  for (auto& w : sink.w) for (size_t i = 0; i < w.second.size(); ++i) mine.insert((w.first & 0xff0000) | ((w.first + i) & 0xffff));
  std::deque<std::vector<States>> keep;
  for (auto& u : us) {
    Prog p;
    bool precise = true;
    for (auto* i : u.is) { p.ls.push_back(&i->l); if (!i->l.precise) precise = false; }
    sim::Mode em;
    sim::FindMode(u.entry, &em);
    if (em.e != 0) precise = false;
    for (auto* i : u.is) if (i->l.kind == 'e' && i->l.mode.e != 0) precise = false;
    keep.emplace_back();
    auto& at = keep.back();
    if (!Explore(p, em, false, &at, &k->steps)) return;
    std::vector<States> loose;
    if (!Explore(p, em, true, &loose, &k->steps)) return;
    uint32_t pc = u.base;
    for (size_t n = 0; n < u.is.size(); ++n) {
      auto& i = *u.is[n];
      if (i.l.kind == 'i') {
        int far = i.far <= -2 ? int((pc & 0xff0000) | (-2 - i.far)) : i.far;
        if (far >= 0) {
          Want& w = want[far];
          for (auto& s : at[n]) w.sound.push_back(&s);
          if (!precise) w.exact = false;
          for (auto& s : loose[n]) { w.seen[0] |= 1 << s.e; w.seen[1] |= 1 << s.m; w.seen[2] |= 1 << s.x; }
        }
        auto it = sink.w.find(pc);
        if (it == sink.w.end()) return fail(mc::Fmt("nothing is written at $%06x", pc));
        pc = (pc & 0xff0000) | ((pc + it->second.size()) & 0xffff);
      } else if (i.remote) {
        Want& w = want[i.far];
        int m[3] = {i.in.e, i.in.m, i.in.x};
        for (int b = 0; b < 3; ++b) w.seen[b] |= m[b] == 2 ? 3 : 1 << m[b];
        if (i.conv) convs[i.far].push_back(&i);
      } else if (i.l.kind == 'e' && i.conv) convs[pc].push_back(&i);
    }
  }
  auto got = r->JumpTargets();
  for (auto& w : want) {
    bool inside = mine.count(w.first);
    if (r->Contains(Address(w.first)) != inside) return fail(mc::Fmt("$%06x is%s said to be in the program", w.first, inside ? " not" : ""));
    auto it = got.find(Address(w.first));
    if (inside) { ++k->inside; if (it != got.end()) return fail(mc::Fmt("target $%06x is in the program and reported", w.first)); continue; }
    if (it == got.end()) return fail(mc::Fmt("target $%06x is not reported", w.first));
    ++k->targets;
    auto& f = it->second;
    int have[4] = {Bit(f.EBit()), Bit(f.MBit()), Bit(f.XBit()), Bit(f.CBit())};
    for (auto* s : w.second.sound) {
      int is[4] = {s->e, s->m, s->x, s->c};
      for (int b = 0; b < 4; ++b) if (have[b] != 2 && have[b] != is[b]) return fail(mc::Fmt("target $%06x is reported with flags %s, but it can be entered with e=%d m=%d x=%d c=%d", w.first, f.ToString().c_str(), is[0], is[1], is[2], is[3]));
    }
    for (int b = 0; b < 3; ++b) {
      // what .remote says counts like a call in that state
      int seen = w.second.seen[b];
      if (have[b] != 2 && !(seen & 1 << have[b])) return fail(mc::Fmt("target $%06x is reported with flags %s, which no call or declaration has", w.first, f.ToString().c_str()));
      if (w.second.exact && (seen == 1 || seen == 2) && have[b] == 2) return fail(mc::Fmt("target $%06x is reported with flags %s, weaker than every call and declaration", w.first, f.ToString().c_str()));
      if (w.second.exact && seen == 3 && have[b] != 2) return fail(mc::Fmt("target $%06x is reported with flags %s, although calls and declarations differ", w.first, f.ToString().c_str()));
    }
    k->exact += w.second.exact;
  }
  for (auto& g : got) if (!want.count(uint32_t(g.first.Bank()) << 16 | g.first.BankAddress())) return fail("target " + g.first.ToString() + " is reported but never called or declared");
  auto rc = r->JumpTargetReturnConventions();
  for (auto& w : convs) {
    auto it = rc.find(Address(w.first));
    if (it == rc.end()) return fail(mc::Fmt("the return convention of $%06x is not reported", w.first));
    ++k->convs;
    bool match = false;
    for (auto* i : w.second) {
      auto y = it->second.YieldFlags();
      if (i->conv == 2) match |= it->second.IsExitCall();
      else match |= y && Bit(y->EBit()) == i->to.e && Bit(y->MBit()) == i->to.m && Bit(y->XBit()) == i->to.x;
    }
    if (!match) return fail(mc::Fmt("$%06x is reported to return as no declaration says", w.first));
  }
  for (auto& g : rc) if (!convs.count(uint32_t(g.first.Bank()) << 16 | g.first.BankAddress())) return fail("a return convention of " + g.first.ToString() + " is reported but not declared");
}
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  static std::deque<std::vector<Item>> menus;
  static Item rts;
  rts.l = Menu("rts", 0)[0];
  // others: 0 none, otherwise index of a second unit, before or after the first
  std::vector<Unit> seconds;
  menus.push_back(Menu2("*", 0));
  auto pickone = [&](const std::string& text) -> const Item* { for (auto& i : menus[0]) if (i.l.text == text) return &i; abort(); };
  auto second = [&](uint32_t base, const char* entry, std::vector<const char*> lines) { Unit u; u.base = base; u.entry = entry; for (auto* l : lines) u.is.push_back(pickone(l)); u.is.push_back(&rts); seconds.push_back(u); };
  second(0x009000, "m8x8", {"nop"});
  second(0x008ffe, "m8x8", {"jsr $9000"});
  second(0x00a000, "m16x16", {"jsr $9000", "jsl $029500 noreturn"});
  second(0x00a000, "m8x8", {".remote $009000 m16x8 yields m8x16", ".remote $029500 m16x16 noreturn"});
  second(0x029000, "m16x8", {"jsr $9000", ".entry m16x16 yields m8", "nop"});
  second(0x00a000, "emu", {"jsl $009000"});
  auto all = [&](const char* part, const std::string& pick, int len, uint32_t base, const std::vector<const char*>& entries, const std::vector<int>& others, bool named = true) {
    menus.push_back(Menu2(pick, len));
    auto& menu = menus.back();
    int m = menu.size();
    for (int first = 0; first < m; ++first)
      for (int other : others) {
        c.part(part);
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%s: every program of %d lines and rts at $%06x that starts with [%s]%s", part, len, base, menu[first].l.text.c_str(), other ? (other > 0 ? mc::Fmt(", with second file %d", other) : mc::Fmt(", after file %d", -other)).c_str() : ""); });
        Count k;
        std::vector<int> ix(len, 0);
        ix[0] = first;
        while (true) {
          for (auto* e : entries) {
            Unit u;
            u.base = base; u.entry = e;
            for (int i = 0; i < len; ++i) u.is.push_back(&menu[ix[i]]);
            u.is.push_back(&rts);
            u.named = named;
            std::vector<Unit> us{u};
            if (other > 0) us.push_back(seconds[other - 1]);
            if (other < 0) us.insert(us.begin(), seconds[-other - 1]);
            One(c, us, &k);
            if (!named && us.size() > 1) { for (auto& x : us) x.named = false; One(c, us, &k); }
          }
          int i = len - 1;
          for (; i >= 1; --i) { if (++ix[i] < m) break; ix[i] = 0; }
          if (i < 1) break;
        }
        c.step(k.steps + k.n); c.trace(k.n);
        c.outcome("assembled", k.ok); c.outcome("refused", k.refused); c.outcome("targets", k.targets); c.outcome("targets judged exactly", k.exact); c.outcome("targets inside the program", k.inside); c.outcome("conventions", k.convs);
        c.state(mc::HashStr(part, first * 100 + other + 10));
      }
  };
  const std::vector<int> alone{0}, with{1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -5, -6};
  const std::vector<const char*> modes{"m8x8", "m16", "unk", "emu"};
  all("one file", "*", 1, 0x008000, modes, alone);
  all("one file", "*", 2, 0x008000, modes, alone);
  all("one file", "*", 3, 0x008000, {"m8x8", "unk"}, alone);
  all("bank $02", "*", 2, 0x028000, {"m8x8", "emu"}, alone);
  all("end of a bank", "*", 2, 0x02fffd, {"m8x8"}, alone);
  all("two files", "*", 2, 0x008000, {"m8x8", "m16"}, with);
  all("without modules", "*", 2, 0x008000, {"m8x8", "m16"}, alone, false);
  all("without modules", t ? "*" : "nop call call-yields long-yields long-noreturn remote-m8 remote-yields remote-noreturn remote-inside entry-yields entry-noreturn sep20", 2, 0x008000, {"m8x8"}, with, false);
  const std::string flow = "sep20 rep30 bne bra rts call call-yields long jump remote-m8";
  all("paths", flow, 4, 0x008000, {"m16"}, alone);
  all("declared", "nop rts call call-inside remote-m8 remote-yields remote-emu remote-noreturn remote-inside entry-yields entry-noreturn long-noreturn", 4, 0x008000, {"m8x8"}, alone);
  // Calls, jumps and declarations from every bank to every bank.
  static std::deque<Item> made;
  static const char* const kinds[] = {"m8x8", "m8x16", "m16x8", "m16x16", "emu", "native", "unk"};
  auto count = [&](Count& k, uint64_t state) {
    c.step(k.steps + k.n); c.trace(k.n);
    c.outcome("assembled", k.ok); c.outcome("refused", k.refused); c.outcome("targets", k.targets); c.outcome("targets judged exactly", k.exact); c.outcome("targets inside the program", k.inside); c.outcome("conventions", k.convs);
    c.state(state);
  };
  auto add = [&](const Item& i) { made.push_back(i); return &made.back(); };
  for (int b = 0; b < 256; ++b) {
    c.part("every bank");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("calls, jumps and declarations in bank $%02x, with targets at the ends and in the middle of each bank", b); });
    Count k;
    for (int to = 0; to < 256; to += t ? 1 : 5)
      for (int at : {0x0000, 0x0001, 0x00ff, 0x7fff, 0x8000, 0x9000, 0xc123, 0xfffe, 0xffff})
        for (int kind = 0; kind < 4; ++kind) {
          made.clear();
          Unit u;
          u.base = uint32_t(b) << 16 | (at & 0x8000 ? 0x1000 : 0xa000); u.entry = kinds[(b + to) % 4];
          int far = to << 16 | at;
          u.is.push_back(add(Call(mc::Fmt("jsr $%04x", at), "jsr", "a", at, -2 - at, false, nullptr, false)));
          u.is.push_back(add(Call(mc::Fmt("jsl $%06x", far), "jsl", "l", far, far, false, nullptr, false)));
          if (kind == 1) u.is.push_back(add(Remote(far, kinds[at % 7], 1 + to % 2, kinds[to % 7])));
          if (kind == 2) u.is.push_back(add(Call(mc::Fmt("jmp $%06x", far), "jmp", "l", far, far, true, nullptr, false)));
          if (kind == 3) u.is.push_back(add(Call(mc::Fmt("jmp $%04x", at), "jmp", "a", at, -2 - at, true, nullptr, false)));
          if (kind < 2) u.is.push_back(&rts);
          One(c, {u}, &k);
        }
    count(k, mc::Mix(77, b));
  }
  // Many calls and declarations, in one file and in many.
  for (int n : {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 100, 128, 200})
    for (int shape = 0; shape < 6; ++shape)
      for (int units : {1, 2, 3, 5, 12}) {
        c.part("many calls");
        if (!c.want()) continue;
        static const char* const shapes[] = {"each to its own address", "all to one address", "to one address, in another state every time", "declared, each with its own convention", "declared and called", "to each other file"};
        c.describe([&] { return mc::Fmt("%d calls or declarations in each of %d files: %s", n, units, shapes[shape]); });
        Count k;
        for (int named = 0; named < 3; ++named)
          for (int rev = 0; rev < 2; ++rev) {
            made.clear();
            std::vector<Unit> us;
            for (int f = 0; f < units; ++f) {
              Unit u;
              u.base = 0x028000 + f * 0x10000; u.entry = "m8x8"; u.named = named == 0 || (named == 2 && f % 2);
              for (int j = 0; j < n; ++j) {
                int i = rev ? n - 1 - j : j;
                int far = 0x409000 + (i * 7 + f * 3) % 500 * 0x101;
                auto call = [&](int to) { u.is.push_back(add(Call(mc::Fmt("jsl $%06x", to), "jsl", "l", to, to, false, nullptr, false))); };
                auto flag = [&](bool up, int bits) { made.push_back({}); made.back().l = L(mc::Fmt("%s #$%02x", up ? "sep" : "rep", bits), up ? "sep" : "rep", "#b", bits); u.is.push_back(&made.back()); };
                if (shape == 0) call(far);
                if (shape == 1) call(0x409000);
                if (shape == 2) { if (i % 3 == 1) flag(i & 1, 0x20); if (i % 3 == 2) flag(i & 2, 0x10); call(i < n - 1 ? 0x409000 + i % 2 : 0x409003); }
                if (shape == 3) u.is.push_back(add(Remote(far, kinds[i % 7], 1 + i % 2, kinds[(i + f) % 7])));
                if (shape == 4) { if (i % 4) call(far); if (i % 3) u.is.push_back(add(Remote(far, kinds[i % 7], i % 5 ? 1 + i % 2 : 0, kinds[(i + f) % 7]))); }
                if (shape == 5) { int o = (f + 1 + i) % units; call(0x028000 + o * 0x10000 + i % 4); if (i % 2) u.is.push_back(add(Remote(0x028000 + o * 0x10000, "m16x16", 1, "m8"))); }
              }
              u.is.push_back(&rts);
              us.push_back(u);
            }
            One(c, us, &k);
          }
        if (k.refused) c.fail(mc::Fmt("many %d %d %d", n, shape, units), "refused");
        count(k, mc::Mix(n * 10 + shape, units));
      }
  if (t) {
    all("one file", "*", 4, 0x008000, {"m8x8"}, alone);
    all("two files", "*", 3, 0x008000, {"m8x8"}, with);
    all("paths", flow, 5, 0x008000, {"m16", "m8x8"}, alone);
    all("declared", "nop rts call call-inside remote-m8 remote-yields remote-emu remote-noreturn remote-inside entry-yields entry-noreturn long-noreturn", 5, 0x008000, {"m8x8"}, alone);
  }
}
static const mc::Check kCheck = {
    .property = "P28", .level = "model_checking",
    .rule = "every program of the menu is assembled by the real assembler; all processor states that can reach each call are found by exploring every path, and the reported targets, flags and conventions are compared with them and with the declarations",
    .bounds_quick = "all programs of up to 3 lines and rts from about 45 line forms, 4 lines of path and declaration menus, 2 lines with each of six other files before or after, with and without modules; calls and jumps from every bank to ends and middle of 52 banks; up to 200 calls and declarations in up to 12 files",
    .bounds_thorough = "4 lines of all forms, 5 of the path and declaration menus, 3 with each other file, targets in every bank", .run = Run, .chunk = 1, .hang_seconds = 300,
    .assumptions = {"calls return with e, m, x and the stack unchanged unless a yields suffix says otherwise", "calls to names are not reported by design (only numeric targets and .remote are)", "when declarations for one address differ, any of them may be reported"}};
MC_MAIN(kCheck)
