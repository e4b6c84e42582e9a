// P18: an assembled program runs every instruction at the width it was encoded for.
#include "checks/flow.h"
using namespace flow;

struct Count { uint64_t ok = 0, refused = 0, exact = 0, dep = 0, steps = 0, n = 0, lenient = 0; };
static void One(mc::Ctx& c, const Prog& p, const char* entry, Count* k) {
  ++k->n;
  size_t n = p.ls.size();
  std::string text = p.Text(entry);
  Sink sink;
  auto r = Assemble({MakeFakeFile("p.asm", text)}, &sink);
  auto fail = [&](const std::string& why) { c.fail("program " + text, "program [" + text + "]: " + why); };
  // Lines that control flow can reach from an entry, whatever the flags.
  std::vector<bool> reach(n + 1);
  std::vector<int> todo{0};
  for (size_t i = 0; i < n; ++i) if (p.ls[i]->kind == 'e') todo.push_back(i + 1);
  while (!todo.empty()) {
    int i = todo.back();
    todo.pop_back();
    if (reach[i]) continue;
    reach[i] = true;
    if (i == int(n)) continue;
    const Line& l = *p.ls[i];
    if (l.kind == 'd' || l.kind == 'o') continue;
    if (!l.exit) todo.push_back(i + 1);
    if (l.target) todo.push_back(l.target - 1);
  }
  std::string bad;  // why it must be refused
  int origins = 0;
  bool precise = true, foreign = false, moded = false;
  sim::Mode em;
  sim::FindMode(entry, &em);
  if (em.e != 0) precise = false;
  for (size_t i = 0; i <= n && bad.empty(); ++i) {
    if (i == n) { if (reach[n]) bad = "execution can pass the end of the file"; break; }
    const Line& l = *p.ls[i];
    if (l.ins.known == false) foreign = true;
    if (!l.precise) precise = false;
    if (l.ins.name == ".mode") moded = true;
    if (reach[i] && l.target && l.target <= int(n) && p.ls[l.target - 1]->ins.name == ".equ") bad = mc::Fmt("line l%d branches to a name that is not a place in the program", int(i));
    if (l.target && p.Inside(l.target - 1) && !p.Inside(i)) bad = mc::Fmt("line l%d branches into a scope", int(i));
    if (reach[i] && (l.kind == 'd' || l.kind == 'o')) bad = mc::Fmt("execution can run into line l%d", int(i));
    for (int j = 0; j < int(n) && l.target; ++j) {  // an origin change between a short branch and its target
      int lo = std::min(int(i), l.target - 1), hi = std::max(int(i), l.target - 1);
      if (l.target && l.ins.mode == "r" && p.ls[j]->kind == 'o' && j > lo && j <= hi) bad = mc::Fmt("line l%d branches too far", int(i));
    }
    origins += l.kind == 'o';
    if (!reach[i] && l.kind == 'i') bad = mc::Fmt("line l%d cannot be reached", int(i));
  }
  if (foreign) {  // the name has no definition: assembling must fail in the end, but only then
    if (r.ok()) fail("an undefined name was assembled");
    ++k->refused;
    return;
  }
  if (!bad.empty()) {
    if (r.ok()) fail("assembled although " + bad);
    ++k->refused;
    return;
  }
  std::vector<States> at;
  if (r.ok()) {
    ++k->ok;
    Explore(p, em, false, &at, &k->steps);
    // The bytes: each instruction in order, sized as encoded.
    uint32_t pc = 0x8000;
    size_t used = 0;
    std::vector<uint32_t> addr(n + 1);
    std::vector<int> size(n);
    for (size_t i = 0; i < n; ++i) {
      const Line& l = *p.ls[i];
      if (l.kind == 'o') pc = 0x9000;
      addr[i] = pc;
      size[i] = 0;
      if (l.kind == 'd') size[i] = 1;
      if (l.kind == 'i') {
        auto it = sink.w.find(pc);
        if (it == sink.w.end()) return fail(mc::Fmt("nothing is written at $%06x for line l%d", pc, int(i)));
        size[i] = it->second.size();
      }
      if (size[i]) { ++used; if (!sink.w.count(pc)) return fail("missing bytes"); }
      pc += size[i];
    }
    if (used != sink.w.size() || sink.twice) return fail("more is written than the program has");
    addr[n] = pc;
    for (size_t i = 0; i < n; ++i) {
      const Line& l = *p.ls[i];
      if (l.kind != 'i') continue;
      auto& b = sink.w[addr[i]];
      int code = isa::Find(l.ins.name, l.ins.mode);
      int want = 1 + (l.dep ? 0 : isa::Mode(l.ins.mode).args);
      if (b.empty() || b[0] != code) return fail(mc::Fmt("line l%d has the wrong opcode", int(i)));
      if (l.dep ? (b.size() != 2 && b.size() != 3) : int(b.size()) != want) return fail(mc::Fmt("line l%d has the wrong size", int(i)));
      if (l.target) {
        int off = int(addr[l.target - 1]) - int(addr[i] + b.size()), got = b.size() == 2 ? int8_t(b[1]) : int16_t(b[1] | b[2] << 8);
        if (off != got) return fail(mc::Fmt("line l%d branches to %+d instead of %+d", int(i), got, off));
      } else if (b.size() > 1) {
        int v = b[1] | (b.size() > 2 ? b[2] << 8 : 0);
        if (v != l.ins.arg) return fail(mc::Fmt("line l%d has the wrong operand", int(i)));
      }
      if (!l.dep) {
        if (l.suffix && precise && !moded) {
          bool fits = at[i].empty();
          for (auto& s : at[i]) if (s.m == (l.suffix == 'b')) fits = true;
          if (!fits) return fail(mc::Fmt("line l%d asks for a width it never runs at", int(i)));
        }
        continue;
      }
      ++k->dep;
      for (auto& s : at[i]) {
        int w = (l.dep == 'm' ? s.m : s.x) ? 1 : 2;
        if (w != int(b.size()) - 1) return fail(mc::Fmt("line l%d is encoded with a %d-byte operand but can run with e=%d m=%d x=%d", int(i), int(b.size()) - 1, s.e, s.m, s.x));
      }
      if (l.suffix && (l.suffix == 'b') != (b.size() == 2)) return fail(mc::Fmt("line l%d is not encoded with its suffix", int(i)));
    }
    return;
  }
  ++k->refused;
  if (!precise || origins > 1) { ++k->lenient; return; }
  // Native mode throughout and no pulled flags: the analysis must accept unless some path gives a reason not to.
  Explore(p, em, true, &at, &k->steps);
  for (size_t i = 0; i < n; ++i) {
    const Line& l = *p.ls[i];
    if (!l.dep && !l.suffix) continue;
    char f = l.dep ? l.dep : 'm';
    int seen = 0;
    for (auto& s : at[i]) seen |= 1 << (f == 'm' ? s.m : s.x);
    if (l.dep && seen == 3) return;
    if (l.suffix && (seen & (l.suffix == 'b' ? 1 : 2))) return;
  }
  ++k->exact;
  fail("refused (" + r.error().ToString() + ") although every path gives every instruction one width");
}
// --- long programs --------------------------------------------------------------------------------
static const Line* Made(const std::string& text) {
  static std::map<std::string, Line> known;
  auto it = known.find(text);
  if (it != known.end()) return &it->second;
  if (known.empty()) for (auto& l : Menu("*", 0)) if (!l.target) known[l.text] = l;
  it = known.find(text);
  if (it != known.end()) return &it->second;
  Line l = L(text, text.substr(0, 3), text.substr(0, 3) == "brl" ? "rl" : "r");
  if (text.substr(3, 2) != " l" || text[0] != 'b') { fprintf(stderr, "no line %s\n", text.c_str()); abort(); }
  l.target = std::stoi(text.substr(5)) + 1;
  l.exit = text[2] == 'a' || text[2] == 'l';
  return &(known[text] = l);
}
static void Long(mc::Ctx& c) {
  bool t = c.thorough();
  auto note = [&](Count& k, uint64_t state) {
    c.step(k.steps + k.n); c.trace(k.n);
    c.outcome("assembled", k.ok); c.outcome("refused with a reason", k.refused - k.lenient); c.outcome("refused, not judged", k.lenient); c.outcome("width-dependent instructions checked", k.dep);
    c.state(state);
  };
  // Branches at the ends of their range, both ways, over fillers of one, two, three and four bytes.
  for (auto* b : {"bcc", "bcs", "beq", "bmi", "bne", "bpl", "bra", "brl", "bvc", "bvs"})
    for (int back = 0; back < 2; ++back)
      for (int fill = 1; fill <= 4; ++fill) {
        c.part("branch distance");
        if (!c.want()) continue;
        bool wide = std::string(b) == "brl";
        int size = wide ? 3 : 2, max = wide ? 0x7fff : 0x7f;
        c.describe([&] { return mc::Fmt("%s %s over every number of %d-byte statements about the end of its range", b, back ? "back" : "ahead", fill); });
        static const char* const fillers[] = {"nop", "lda #1", "sta $1234", "sta $123456"};
        Count k;
        std::vector<int> counts;
        for (int n = 0; n <= (wide ? 4 : 140); ++n) counts.push_back(n);
        if (wide) for (int d = -5; d <= 5; ++d) counts.push_back((max + (back ? 1 - size : 0)) / fill + d);
        for (int n : counts) {
          int off = back ? -(n * fill + size) : n * fill;
          bool fits = wide || (off >= -max - 1 && off <= max);  // brl goes round within its bank
          std::string text = ".org $4001\n.entry m8x8\n", body;
          for (int i = 0; i < n; ++i) body += std::string(fillers[fill - 1]) + (i % 3 ? "\n" : " : ");
          body += "\n";
          bool jump = wide || std::string(b) == "bra";
          if (back) text += "there:\n" + body + b + " there\n" + "rts\n"; else text += std::string(b) + " there\n.entry m8x8\n" + body + "there: rts\n";
          if (back && jump) text.resize(text.size() - 4);
          Sink sink;
          auto r = Assemble({MakeFakeFile("p.asm", text)}, &sink);
          ++k.n;
          std::string what = mc::Fmt("%s %s over %d times [%s] (offset %d)", b, back ? "back" : "ahead", n, fillers[fill - 1], off);
          if (r.ok() != fits) { c.fail(what, what + (fits ? " is refused: " + r.error().ToString() : " is assembled")); continue; }
          if (!fits) { ++k.refused; continue; }
          ++k.ok;
          uint32_t at = 0x4001 + (back ? n * fill : 0);
          auto it = sink.w.find(at);
          if (it == sink.w.end() || int(it->second.size()) != size || int(it->second[0]) != isa::Find(b, wide ? "rl" : "r")) { c.fail(what, what + ": the branch is not where it should be"); continue; }
          int got = wide ? int16_t(it->second[1] | it->second[2] << 8) : int8_t(it->second[1]);
          if ((got - off) & 0xffff) c.fail(what, what + mc::Fmt(": goes %+d", got));
        }
        note(k, mc::Mix(mc::HashStr(b, 5), back * 8 + fill));
      }
  // Many blocks. A block is two lines; each ends by going on or elsewhere.
  static const char* const shapes[] = {"each goes back to the one before", "each goes back to the first", "each goes on over the next", "each goes to the one a third further round", "each pushes, and as many pull at the end", "each changes and changes back", "pushes all ahead, pulls all behind a loop each", "entries all over"};
  for (int n : {1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 40, 60, 64, 100, 200, 400})
    for (int shape = 0; shape < 8; ++shape) {
      if (n > 100 && !t && shape == 3) continue;
      c.part("many blocks");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%d blocks, %s, with each flag change at each of several places, from each entry state", n, shapes[shape]); });
      Count k;
      if ((shape == 4 || shape == 6) && n > 60) continue;
      kMaxStack = 130;
      for (auto* change : {"nop", "sep #$20", "rep #$20", "rep #$30", "sep #$10", ".mode m8"})
        for (int spot : {0, 1, n / 2, n - 1, n})
          for (auto* use : {"lda #$12", "ldx #$12", "lda.b #$12", "nop"})
            for (auto* entry : {"m8x8", "m16x16"}) {
              Prog p;
              auto line = [&](const std::string& s) { p.ls.push_back(Made(s)); };
              // brl where the blocks lie far apart
              for (int i = 0; i < n; ++i) {
                int at = p.ls.size();
                line(i == spot ? change : shape == 5 ? (i % 2 ? "sep #$20" : "rep #$20") : shape == 4 ? "php" : shape == 6 ? "pha" : (i == 0 || i == n / 2 || i == n - 1) ? use : "nop");
                if (shape == 0) line(i ? mc::Fmt("bne l%d", at - 2) : "nop");
                if (shape == 1) line(n > 30 || !i ? std::string("nop") : std::string("bne l0"));
                if (shape == 2) line(i < n - 2 ? mc::Fmt("bne l%d", at + 4) : "nop");
                if (shape == 3) { int to = (i + n / 3 + 1) % n; line(n <= 40 ? mc::Fmt("bne l%d", 2 * to) : "nop"); }
                if (shape == 4) line(i % 4 == 3 ? "sep #$20" : i % 4 == 1 ? "rep #$20" : "nop");
                if (shape == 5) line(i % 2 ? "rep #$20" : "sep #$20");
                if (shape == 6) line("php");
                if (shape == 7) { if (i % 3 == 2) { line("rts"); line(".entry m16x16"); } else line("nop"); }
              }
              if (spot == n) line(change);
              if (shape == 4) for (int i = 0; i < n; ++i) { if (i != spot) line("plp"); if (i == n - 1 || i == n / 2 || i == 0) line(use); }
              if (shape == 6) for (int i = n - 1; i >= 0; --i) { int at = p.ls.size(); line("nop"); line(mc::Fmt("bne l%d", at)); line("plp"); if (i % 7 == 0) line(use); if (i != spot) line("pla"); }
              if (shape == 1) for (int i = 1; i < 8; ++i) line(n <= 30 ? mc::Fmt("bne l%d", i) : mc::Fmt("bne l%d", 2 * n - 2 * i));
              line(use);
              line("rts");
              One(c, p, entry, &k);
            }
      kMaxStack = 6;
      note(k, mc::Mix(n, 900 + shape));
    }
}
// Every instruction in every form, between lines that set and use the flags, and beside a branch over it.
static void Every(mc::Ctx& c) {
  std::vector<Line> ops;
  for (auto& o : isa::Ops()) {
    if (o.name == "per") continue;  // its operand is a name
    static const std::map<std::string, std::string> forms = {{"i", ""}, {"A", " A"}, {"#b", " #$12"}, {"#w", " #$1234"}, {"#m", " #$12"}, {"#x", " #$12"}, {"d", " $12"}, {"a", " $1234"}, {"l", " $123456"}, {"dx", " $12,x"}, {"dy", " $12,y"}, {"ax", " $1234,x"}, {"ay", " $1234,y"}, {"lx", " $123456,x"}, {"(d)", " ($12)"}, {"(a)", " ($1234)"}, {"(dx)", " ($12,x)"}, {"(d)y", " ($12),y"}, {"(ax)", " ($1234,x)"}, {"[d]", " [$12]"}, {"[a]", " [$1234]"}, {"[d]y", " [$12],y"}, {"s", " $12,s"}, {"(s)y", " ($12,s),y"}, {"mv", " #$34,#$12"}, {"r", ""}, {"rl", ""}};
    std::string text = o.name + forms.at(o.mode);
    if (o.name == "pei") text = "pei $12";
    static const std::string ends = " jmp rts rtl rti stp bra brl ";
    for (int to = 1; to <= (o.mode[0] == 'r' ? 6 : 1); ++to) {
      Line l = L(text, o.name, o.mode, o.args == 1 || o.args < 0 ? 0x12 : o.mode == "mv" ? 0x3412 : o.args == 2 ? 0x1234 : o.args == 3 ? 0x3456 : 0);
      if (o.mode[0] == 'r') { l.text += mc::Fmt(" l%d", to - 1); l.target = to; l.ins.arg = 0; }
      if (o.mode == "#m") l.dep = 'm';
      if (o.mode == "#x") l.dep = 'x';
      l.exit = ends.find(" " + o.name + " ") != std::string::npos;
      if (o.name == "plp" || o.name == "xce") l.precise = false;
      ops.push_back(l);
    }
  }
  auto before = Menu("nop sep20 rep30 php sec clc xce mode-m8", 0), over = Menu("bne", 5), after = Menu("lda# ldx# lda.b# plp nop", 0);
  static Line rts = Menu("rts", 0)[0], nop = Menu("nop", 0)[0];
  const Line* skip = nullptr;
  for (auto& l : over) if (l.target == 4) skip = &l;
  for (auto& o : ops) {
    c.part("every instruction");
    if (!c.want()) continue;
    c.describe([&] { return "every program of a flag change, a branch over or not, [" + o.text + "], a use of the flags, rts"; });
    Count k;
    for (auto& b : before)
      for (auto* s : {skip, (const Line*)&nop})
        for (auto& a : after)
          for (auto* e : {"m8x8", "m16x16", "m16x8", "unk", "emu", "native"}) {
            Prog p;
            p.ls = {&b, s, &o, &a, &rts};
            One(c, p, e, &k);
            p.ls.insert(p.ls.begin() + 3, &rts);
            if (s == skip) One(c, p, e, &k);
          }
    c.step(k.steps + k.n); c.trace(k.n);
    c.outcome("assembled", k.ok); c.outcome("refused with a reason", k.refused - k.lenient); c.outcome("refused, not judged", k.lenient); c.outcome("width-dependent instructions checked", k.dep);
    c.state(mc::HashStr(o.text, 77));
  }
}
static void Run(mc::Ctx& c) {
  auto all = [&](const char* part, const std::string& pick, int lines, const std::vector<const char*>& entries, bool tail, int scopes = 0) {
    auto menu = Menu(pick, lines + tail);
    static Line rts = Menu("rts", 0)[0];
    int m = menu.size();
    for (int first = 0; first < m; ++first)
      for (int second = 0; second < (lines > 1 ? m : 1); ++second) {
        c.part(part);
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%s: every program of %d lines%s whose first lines are [%s%s%s], from each entry state", part, lines, tail ? " and a final rts" : "", menu[first].text.c_str(), lines > 1 ? "; " : "", lines > 1 ? menu[second].text.c_str() : ""); });
        Count k;
        Prog p;
        p.ls.assign(lines + tail, &rts);
        std::vector<int> ix(lines, 0);
        ix[0] = first;
        if (lines > 1) ix[1] = second;
        while (true) {
          for (int i = 0; i < lines; ++i) p.ls[i] = &menu[ix[i]];
          for (auto* e : entries) {
            if (!scopes) { One(c, p, e, &k); continue; }
            p.deep = scopes;
            for (p.open = 0; p.open <= lines + tail; ++p.open) for (p.close = p.open; p.close <= lines + tail; ++p.close) One(c, p, e, &k);
          }
          int i = lines - 1;
          for (; i >= 2; --i) { if (++ix[i] < m) break; ix[i] = 0; }
          if (i < 2) break;
        }
        c.step(k.steps + k.n); c.trace(k.n);
        c.outcome("assembled", k.ok); c.outcome("refused with a reason", k.refused - k.lenient); c.outcome("refused, not judged", k.lenient); c.outcome("width-dependent instructions checked", k.dep);
        c.state(mc::HashStr(part, first * 1000 + second));
      }
  };
  bool t = c.thorough();
  // Longer programs of one shape: the places named by capitals are filled in every way.
  auto shape = [&](const char* part, const std::vector<std::string>& lines, const std::map<std::string, std::string>& fill, const std::vector<const char*>& entries) {
    int n = lines.size();
    std::vector<std::vector<Line>> at(n);
    for (int i = 0; i < n; ++i) {
      auto f = fill.find(lines[i]);
      for (auto& l : Menu("*", n)) {
        bool pick = l.text == lines[i];
        if (f != fill.end() && ("|" + f->second + "|").find("|" + l.text + "|") != std::string::npos) pick = true;
        if (pick) at[i].push_back(l);
      }
      if (at[i].empty()) abort();
    }
    std::vector<size_t> ix(n, 0);
    Prog p;
    p.ls.resize(n);
    int open = -1, second = -1;
    for (int i = 0; i < n; ++i) if (at[i].size() > 1) { if (open < 0) open = i; else if (second < 0) second = i; }
    for (ix[open] = 0; ix[open] < at[open].size(); ++ix[open]) for (ix[second] = 0; ix[second] < at[second].size(); ++ix[second]) {
      c.part(part);
      if (!c.want()) continue;
      c.describe([&] { std::string s; for (auto& l : lines) s += l + "; "; return mc::Fmt("every program [%s] with %s and %s first, from each entry state", s.c_str(), at[open][ix[open]].text.c_str(), at[second][ix[second]].text.c_str()); });
      Count k;
      while (true) {
        for (int i = 0; i < n; ++i) p.ls[i] = &at[i][ix[i]];
        for (auto* e : entries) One(c, p, e, &k);
        int i = n - 1;
        for (; i > second; --i) { if (++ix[i] < at[i].size()) break; ix[i] = 0; }
        if (i <= second) break;
      }
      c.step(k.steps + k.n); c.trace(k.n);
      c.outcome("assembled", k.ok); c.outcome("refused with a reason", k.refused - k.lenient); c.outcome("refused, not judged", k.lenient); c.outcome("width-dependent instructions checked", k.dep);
      c.state(mc::HashStr(part, ix[open] * 100 + ix[second]));
    }
  };
  const std::string flags = "nop|sep #$20|rep #$20|sep #$10|rep #$30" + std::string(t ? "|sec|clc|xce|.mode m8|.mode x16" : ""), use = "lda #$12|ldx #$12|lda.b #$12";
  const std::vector<const char*> from = {"m8x8", "m16x16", "unk", "m16x8"};
  shape("loop over pushed flags", {"A", "php", "B", "bne l9", "plp", "C", "php", "D", "bra l2", "plp", "use", "rts"}, {{"A", flags}, {"B", flags}, {"C", flags}, {"D", flags}, {"use", use}}, from);
  shape("two pushed flags", {"A", "php", "B", "php", "bne l6", "C", "plp", "use", "plp", "use", "rts"}, {{"A", flags}, {"B", flags}, {"C", flags}, {"use", use}}, from);
  shape("pushed on one path or another", {"A", "P", "B", "bne l6", "Q", "P", "Q", "use", "rts"}, {{"A", flags}, {"B", flags}, {"P", "php|pha|phx|nop"}, {"Q", "plp|pla|plx|nop"}, {"use", use}}, from);
  shape("nested loops", {"A", "B", "bne l1", "C", "bne l0", "use", "bne l3", "use", "rts"}, {{"A", flags}, {"B", flags}, {"C", flags}, {"use", use}}, from);
  shape("an entry in the middle", {"A", "bne l4", "B", "rts", ".entry m16x16", "C", "bra l2"}, {{"A", flags + "|php"}, {"B", use + "|plp"}, {"C", flags + "|php|pha"}}, from);
  all("all lines", "*", 1, {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"}, false);
  all("all lines", "*", 2, {"unk", "emu", "native", "m8x8", "m16x16", "m16x8"}, false);
  all("all lines", "*", 2, {"unk", "emu", "native", "m8x8", "m16x16", "m16x8"}, true);
  all("all lines", "*", 3, {"unk", "m8x8"}, true);
  if (t) all("all lines", "*", 3, {"emu", "m16"}, false);
  all("flow", "lda# sep20 rep20 bne bra bcc rts", 4, {"unk", "m8x8"}, true);
  all("flow", "lda# sep20 php plp bne bcs xce sec", 4, {"unk", "m16x16"}, true);
  all("stack", "lda# ldx# sep20 rep30 php plp pha pla clc xce bne", 4, {"m16"}, true);
  all("flow", "lda# rep20 sep20 bne bra", 5, {"m8x8"}, true);
  all("a scope anywhere", "lda# sep20 php plp bne bra rts halt equ entry-m16x16 jsr-noreturn", t ? 4 : 3, {"m8x8"}, false, 1);
  all("a scope anywhere", "lda# sep20 bne bra rts", t ? 5 : 4, {"m8x8"}, true, 1);
  all("scopes within each other", "lda# sep20 bne bra rts", t ? 4 : 3, {"m8x8"}, true, 4);
  all("scopes within each other", "lda# sep20 bne bra rts equ halt", t ? 3 : 2, {"m8x8"}, false, 20);
  Long(c);
  Every(c);
  if (t) {
    all("all lines", "*", 4, {"m8x8"}, true);
    all("flow", "lda# sep20 rep20 bne bra bcc rts", 5, {"unk", "m8x8"}, true);
    all("flow", "lda# rep20 bne bra", 6, {"m8x8"}, true);
    all("stack", "lda# ldx# sep20 rep30 php plp pha pla clc xce bne", 5, {"m16", "unk"}, true);
  }
}
static const mc::Check kCheck = {
    .property = "P18", .level = "model_checking",
    .rule = "every program of the menu is assembled by the real assembler and, independently, all processor states that can reach each line are found by exploring every path; accepted programs are compared state by state with the bytes written, refused ones with the reasons there are to refuse",
    .bounds_quick = "five shapes of 7 to 12 lines (loops over pushed flags, nested loops, pushes on one path, an entry in the middle) with up to five places filled in every way; all programs of up to 3 lines of 50-60 line forms (each branch to each line and to the end), 4 and 5 lines of smaller flow and stack menus, a scope opened and closed at any two lines of programs of 3 and 4 lines, several entry states, tracked stack up to 6 bytes deep; every instruction form between 8 flag changes and 5 uses, branched over or not; every branch at every distance about the ends of its range; 8 shapes of up to 400 blocks with a flag change at several places, stack up to 130 bytes",
    .bounds_thorough = "4 lines of all forms, 5 and 6 lines of the flow and stack menus, shapes over 10 flag changes", .run = Run, .chunk = 2, .hang_seconds = 120,
    .assumptions = {"calls return with e, m, x and the stack unchanged unless a yields suffix says otherwise", ".mode states the truth", "code entered by jmp or jsr states its entry flags with .entry"}};
MC_MAIN(kCheck)
