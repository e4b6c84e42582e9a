// P20: the listing of a disassembly assembles back to the bytes it was made from.
#include <algorithm>
#include "checks/dis.h"
#include "nsasm/assembler.h"
using namespace dis;

struct Sink : OutputSink {
  std::map<uint32_t, uint8_t> w;
  bool twice = false;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    uint32_t at = Num(a);
    for (auto b : d) { if (!w.emplace(at, b).second) twice = true; at = Wrap(at, 1); }
    return {};
  }
};
struct Start { uint32_t at; const char* mode; };
// The listing as the tools print it.  The language takes only names as targets
// of PER, and the disassembler prints a number (a known finding, judged by the
// first case): |per_names| gives the targets names, so that the rest is judged.
static std::string Listing(const Disassembler& d, bool per_names = true) {
  std::string s;
  if (per_names)
    for (auto& n : d.Result())
      if (n.second.instruction.mnemonic == M_per && n.second.instruction.arg1.ToString()[0] != 'l' && n.second.instruction.arg1.ToString()[0] != 'e') {
        auto v = n.second.instruction.arg1.Evaluate(NullLookupContext());
        if (v.ok()) s += mc::Fmt("pertarget%06x .equ $%06x\n", Num(n.first), Wrap(Num(n.first), 3 + *v));
      }
  std::optional<uint32_t> pc;
  for (auto& n : d.Result()) {
    if (!pc || *pc != Num(n.first)) s += mc::Fmt(".org $%06x\n", Num(n.first));
    pc = Num(n.first);
    std::string label = n.second.label;
    if (!label.empty()) label += ":";
    if (n.second.is_entry) { s += label + " .entry " + n.second.current_execution_state.Flags().ToName() + "\n"; label.clear(); }
    std::string ins = n.second.instruction.ToString();
    std::string per = mc::Fmt("pertarget%06x", Num(n.first));
    if (s.find(per) != s.npos) ins = "per " + per;
    s += label + " " + ins + "\n";
    pc = Wrap(*pc, n.second.instruction.SerializedSize());
  }
  return s;
}
struct Count { uint64_t n = 0, ok = 0, refused = 0, torn = 0, ins = 0, folded = 0; };
static void Judge(mc::Ctx& c, const Image& im, const std::vector<Start>& starts, Count* k) {
  ++k->n;
  std::string name = im.ToString() + ", from";
  for (auto& s : starts) name += mc::Fmt(" $%06x %s", s.at, s.mode);
  auto fail = [&](const std::string& why) { c.fail("image" + name, why + " [" + name + "]"); };
  std::optional<std::string> other;
  std::vector<std::vector<Start>> orders = {starts};
  if (starts.size() > 1) orders.push_back({starts.rbegin(), starts.rend()});
  if (starts.size() > 2) { orders.push_back(starts); std::rotate(orders[2].begin(), orders[2].begin() + starts.size() / 2, orders[2].end()); }
  bool all_ok = true;
  for (auto& order : orders) {
    Disassembler d(std::make_unique<Source>(&im));
    d.AddTargetReturnConventions(RealConventions());
    bool any = false;
    std::set<uint32_t> entries;
    for (auto& s : order) if (d.Disassemble(Address(s.at), *StatusFlags::FromName(s.mode)).ok()) { any = true; entries.insert(s.at); } else all_ok = false;
    if (!any) { ++k->refused; continue; }
    // What was found: the place and size of every instruction.
    std::map<uint32_t, int> size;
    std::map<uint32_t, nsasm::ExecutionState> after;
    std::map<uint32_t, uint8_t> want;
    bool overlap = false, wraps = false, named = true;
    for (auto& n : d.Result()) {
      uint32_t pc = Num(n.first);
      size[pc] = n.second.instruction.SerializedSize();
      after[pc] = n.second.next_execution_state;
      for (int i = 0; i < size[pc]; ++i) if (!want.emplace(Wrap(pc, i), im.at.at(Wrap(pc, i))).second) overlap = true;
      if (!n.second.instruction.IsExitInstruction() && Wrap(pc, size[pc]) < pc) wraps = true;
      if (entries.count(pc)) {
        auto& f = n.second.current_execution_state.Flags();
        auto again = StatusFlags::FromName(f.ToName());
        if (!again) return fail("the entry flags have no name");
        auto known = [](BitState b) { return b == B_on || b == B_off; };
        if ((known(f.MBit()) && !known(again->MBit())) || (known(f.XBit()) && !known(again->XBit())) || known(f.CBit())) named = false;
      }
    }
    if (!d.Cleanup().ok()) return fail("Cleanup() failed");
    size_t total = 0;
    std::set<std::string> labels;
    for (auto& n : d.Result()) {
      uint32_t pc = Num(n.first);
      total += n.second.instruction.SerializedSize();
      auto mn = n.second.instruction.mnemonic;
      int was = mn == PM_add ? 0x18 : mn == PM_sub ? 0x38 : -1;
      if (was >= 0 && (im.at.at(pc) != was || !size.count(Wrap(pc, 1)) || n.second.instruction.SerializedSize() != 1 + size[Wrap(pc, 1)] || isa::Ops()[im.at.at(Wrap(pc, 1))].name != (was == 0x18 ? "adc" : "sbc")))
        return fail(mc::Fmt("%s at $%06x is not what the image has there", mn == PM_add ? "add" : "sub", pc));
      if (was < 0 && (!size.count(pc) || n.second.instruction.SerializedSize() != size[pc] || isa::Ops()[im.at.at(pc)].mn != mn)) return fail(mc::Fmt("the instruction at $%06x is not what the image has there", pc));
      if (!n.second.label.empty() && !labels.insert(n.second.label).second) return fail("label " + n.second.label + " is given twice");
      if (!(after.at(was < 0 ? pc : Wrap(pc, 1)) == n.second.next_execution_state)) return fail(mc::Fmt("the state after $%06x is no longer those after its last instruction", pc));
      if (auto o = Fetch(im, was < 0 ? pc : Wrap(pc, 1), false, false); o && o->far && entries.count(*o->far)) {
        auto t = d.Result().find(Address(*o->far));
        if (t == d.Result().end() || !n.second.instruction.arg1.ToString().ends_with(t->second.label)) return fail(mc::Fmt("the jump or call at $%06x does not name the entry point it goes to", pc));
      }
      if (n.second.is_entry != bool(entries.count(Num(n.first)))) return fail(mc::Fmt("$%06x %s as an entry point", Num(n.first), n.second.is_entry ? "is shown" : "is not shown"));
    }
    k->ins += d.Result().size();
    k->folded += size.size() - d.Result().size();
    if (overlap) { ++k->torn; continue; }
    if (total != want.size()) return fail("the listing covers more or fewer bytes than the code");
    std::string text = Listing(d);
    if (!other) other = text;
    else if (all_ok && *other != text) return fail("the listing depends on the order of the entry points: " + text + " or " + *other);
    Sink sink;
    auto r = Assemble({MakeFakeFile("listing.asm", text)}, &sink);
    std::string flat = text;
    for (auto& ch : flat) if (ch == '\n') ch = '|';
    if (!r.ok()) {
      if (wraps || !named) { ++k->torn; continue; }
      return fail("the listing does not assemble: " + r.error().ToString() + "; listing " + flat);
    }
    ++k->ok;
    if (sink.twice) return fail("a byte is written twice");
    if (sink.w != want) return fail("the listing assembles to other bytes; listing " + flat);
  }
}
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  c.part("numeric operand of per");
  if (c.want()) {
    c.describe([&] { return std::string("per to data"); });
    static const Frag per = F("per", {0x62, 0x34, 0x12}), rts = F("rts", {0x60});
    Image im;
    Lay({&per, &rts}, 0x808000, &im);
    Disassembler d(std::make_unique<Source>(&im));
    if (!d.Disassemble(Address(0x808000), *StatusFlags::FromName("m8x8")).ok() || !d.Cleanup().ok()) c.fail("per", "per is not disassembled");
    Sink sink;
    auto r = Assemble({MakeFakeFile("listing.asm", Listing(d, false))}, &sink);
    if (!r.ok()) c.fail("per-to-data-refused", "the listing of [per $1237 bytes ahead | rts] does not assemble: " + r.error().ToString());
    else if (sink.w != std::map<uint32_t, uint8_t>{{0x808000, 0x62}, {0x808001, 0x34}, {0x808002, 0x12}, {0x808003, 0x60}}) c.fail("per", "the listing of [per | rts] assembles to other bytes");
    c.step(2); c.trace(1);
  }
  auto all = [&](const char* part, const std::vector<Frag>& menu, const std::vector<Frag>& lead, int len, uint32_t base, const std::vector<std::vector<std::pair<int, const char*>>>& plans, bool gap) {
    static Frag rts = F("rts", {0x60});
    int m = menu.size();
    for (size_t first = 0; first < lead.size(); ++first)
      for (int second = 0; second < (len > 2 ? m : 1); ++second) {
        c.part(part);
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%s: every image of %d pieces and rts at $%06x that starts with [%s%s%s], %d sequences of entry points", part, len, base, lead[first].text.c_str(), len > 2 ? " " : "", len > 2 ? menu[second].text.c_str() : "", int(plans.size())); });
        Count k;
        std::vector<const Frag*> fs(len + 1, &rts);
        std::vector<int> ix(len, 0);
        fs[0] = &lead[first];
        if (len > 2) ix[1] = second;
        int fixed = len > 2 ? 2 : 1;
        Image im;
        while (true) {
          std::vector<uint32_t> off{base, Wrap(base, fs[0]->b.size())};
          for (int i = 1; i < len; ++i) { fs[i] = &menu[ix[i]]; off.push_back(Wrap(off.back(), fs[i]->b.size())); }
          if (Lay(fs, base, &im)) {
            for (auto& p : plans) {
              std::vector<Start> st;
              for (auto& q : p) if (q.first <= len) st.push_back({off[q.first], q.second});
              Judge(c, im, st, &k);
            }
          }
          int i = len - 1;
          for (; i >= fixed; --i) { if (++ix[i] < m) break; ix[i] = 0; }
          if (i < fixed) break;
        }
        c.step(k.ins); c.trace(k.ok);
        c.outcome("assembled back", k.ok); c.outcome("not disassembled", k.refused); c.outcome("overlapping or not expressible", k.torn); c.outcome("instructions folded", k.folded);
        c.state(mc::HashStr(part, mc::Mix(base + len, first * 1000 + second)));
      }
  };
  {
    const std::vector<Frag> m = Menu("nop clc sec adc# sbc#", 0);
    for (size_t w = 0; w < m.size(); ++w) {
      c.part("in two banks");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("code that runs across the ends of banks $01 and $02, %s at $01ffff", m[w].text.c_str()); });
      Count k;
      for (auto& x : m) for (auto& y : m) for (auto& z : m) {
        Image im;
        auto put = [&](uint32_t at, const Frag& f) { for (auto b : f.b) { im.at[at] = b; at = Wrap(at, 1); } return at; };
        im.at[put(put(0x01ffff, m[w]), x)] = 0x60;
        im.at[put(put(0x02ffff, y), z)] = 0x60;
        for (const char* mode : {"m8x8", "m16x16"}) { Judge(c, im, {{0x01ffff, mode}, {0x02ffff, mode}}, &k); Judge(c, im, {{0x01ffff, mode}}, &k); }
      }
      c.step(k.ins); c.trace(k.ok);
      c.outcome("assembled back", k.ok); c.outcome("overlapping or not expressible", k.torn); c.outcome("instructions folded", k.folded);
    }
  }
  // Jumps and calls to entry points in the same bank, the next one, and one that shares its low bits.
  for (int bank = 0; bank < 256; ++bank) {
    c.part("names of targets");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("jumps and calls from bank $%02x to entry points there and in other banks", bank); });
    Count k;
    struct Op { int op, n; };
    static const Op ops[] = {{0x4c, 2}, {0x20, 2}, {0x5c, 3}, {0x22, 3}};
    const uint32_t here = bank << 16, next = ((bank + 1) & 0xff) << 16, twin = (bank ^ 0x80) << 16;
    const uint32_t places[] = {here + 0x8000, here + 0x8010, next + 0x8010, twin + 0x8010, here + 0x0010, next};
    const int np = 6;
    for (auto& a : ops) for (auto& b : ops) for (int from = 0; from < np; ++from) for (int to = 0; to < np; ++to) for (int plan = 0; plan < 4; ++plan) {
      if (!t && from > 1 && &a != &b) continue;
      Image im;
      auto put = [&](uint32_t at, const Op& o, uint32_t target) { im.at[at] = o.op; for (int i = 0; i < o.n; ++i) im.at[Wrap(at, 1 + i)] = target >> 8 * i; return Wrap(at, 1 + o.n); };
      for (int i = 0; i < np; ++i) if (i != from) im.at[places[i]] = 0x60;
      uint32_t at = put(places[from], a, places[to]);
      at = put(at, b, places[(to + 1) % np]);
      im.at[at] = 0x60;
      std::vector<Start> st{{places[from], "m8x8"}};
      if (plan & 1 && to != from) st.push_back({places[to], "m8x8"});
      if (plan & 2 && (to + 1) % np != from) st.push_back({places[(to + 1) % np], "m16x16"});
      Judge(c, im, st, &k);
    }
    c.step(k.ins); c.trace(k.ok);
    c.outcome("assembled back", k.ok); c.outcome("not disassembled", k.refused); c.outcome("overlapping or not expressible", k.torn);
    c.state(bank);
  }
  typedef std::vector<std::vector<std::pair<int, const char*>>> Plans;
  const Plans one = {{{0, "m8x8"}}, {{0, "m16x16"}}, {{0, "unk"}}, {{0, "emu"}}, {{0, "m16x8"}}, {{0, "x16"}}};
  const Plans two = {{{0, "m8x8"}, {1, "m8x8"}}, {{0, "m16x8"}, {1, "m16x16"}}, {{0, "m8x8"}, {2, "m16x16"}}};
  const Plans few = {{{0, "m8x8"}}, {{0, "m16x16"}, {1, "m16x16"}}, {{0, "m16x8"}, {2, "m16x16"}}};
  // Every opcode, with operand bytes at the edges of their kinds.
  std::vector<Frag> every;
  for (int op = 0; op < 256; ++op) {
    auto& o = isa::Ops()[op];
    for (int form = 0; form < 6; ++form) {
      int n = o.args < 0 ? 2 : o.args;
      if (n == 0 && form) break;
      static const int bytes[6][3] = {{0x12, 0x34, 0x56}, {0, 0, 0}, {0xff, 0xff, 0xff}, {0x80, 0x00, 0x00}, {0x7f, 0x80, 0x01}, {0x60, 0xff, 0x00}};
      Frag f = F(mc::Fmt("%s %s form %d", o.name.c_str(), o.mode.c_str(), form), {op});
      for (int i = 0; i < n; ++i) f.b.push_back(bytes[form][i]);
      every.push_back(f);
    }
  }
  for (int kind = 0; kind < kLongKinds; ++kind)
    for (int n : kLongSizes)
      for (int order = 0; order < 1; ++order) {
        Image im;
        std::vector<uint32_t> at;
        std::string text;
        c.part("long code");
        if (n > 130 && kind == 9) continue;
        if (!Long(kind, n, 0x808000, &im, &at, &text)) continue;
        if (at.size() == 1 && order) continue;
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%d times: %s", n, text.c_str()); });
        Count k;
        for (auto* mode : {"m8x8", "m16x16", "unk"}) {
          std::vector<Start> st;
          for (size_t i = 0; i < at.size(); ++i) st.push_back({at[order == 0 ? i : order == 1 ? at.size() - 1 - i : i % 2 ? at.size() - 1 - i / 2 : i / 2], mode});
          Judge(c, im, st, &k);
        }
        c.step(k.ins); c.trace(k.ok);
        c.outcome("assembled back", k.ok); c.outcome("not disassembled", k.refused); c.outcome("overlapping or not expressible", k.torn); c.outcome("instructions folded", k.folded);
      }
  // Groups of branches into the same small blocks, each group an entry point of its own.
  auto shared = [&](int groups, int targets, bool entry) {
    const int sets = (1 << targets) - 1;
    for (int first = 1; first <= sets; ++first) {
      c.part("entries that share code");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%d entry points that branch to every choice of %d blocks%s, the first to choice %d", groups, targets, entry ? ", one of them an entry point itself" : "", first); });
      Count k;
      std::vector<int> pick(groups, 1);
      pick[0] = first;
      while (true) {
        Image im;
        uint32_t at = 0x808000;
        std::vector<Start> st;
        int left = 0;
        for (int p : pick) left += 2 * __builtin_popcount(p) + 1;
        uint32_t block = at + left;
        for (int p : pick) {
          st.push_back({at, "m8x8"});
          for (int i = 0; i < targets; ++i)
            if (p >> i & 1) { im.at[at] = 0xd0; im.at[at + 1] = block + 2 * i - (at + 2); at += 2; }
          im.at[at++] = 0x60;
        }
        for (int i = 0; i < targets; ++i) { im.at[block + 2 * i] = 0xea; im.at[block + 2 * i + 1] = 0x60; }
        if (entry) st.insert(st.begin() + 1, Start{block + 2, "m16x8"});
        Judge(c, im, st, &k);
        int i = groups - 1;
        for (; i >= 1; --i) { if (++pick[i] <= sets) break; pick[i] = 1; }
        if (i < 1) break;
      }
      c.step(k.ins); c.trace(k.ok);
      c.outcome("assembled back", k.ok); c.outcome("not disassembled", k.refused); c.outcome("overlapping or not expressible", k.torn);
    }
  };
  {
    const auto pieces = Menu("nop lda# sta.w rep20 sep20 bne bcc php plp jsr jsr-yields", 3);
    for (int n : kLongSizes) {
      if (n > (t ? 300 : 66)) break;
      for (size_t first = 0; first < pieces.size(); ++first) {
        c.part("into earlier code");
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%d instructions that run into [%s, any piece, rts], which is an entry point too", n, pieces[first].text.c_str()); });
        Count k;
        for (auto& second : pieces) {
          Image im;
          uint32_t block;
          if (!Into(n, pieces[first], second, 0x808000, &im, &block)) continue;
          for (auto* mode : {"m8x8", "m16x8", "m16x16"})
            for (auto* later : {"m8x8", "m16x16"}) { Judge(c, im, {{block, mode}, {0x808000, later}}, &k); Judge(c, im, {{0x808000, later}, {block, mode}}, &k); }
        }
        c.step(k.ins); c.trace(k.ok);
        c.outcome("assembled back", k.ok); c.outcome("not disassembled", k.refused); c.outcome("overlapping or not expressible", k.torn); c.outcome("instructions folded", k.folded);
      }
    }
  }
  shared(2, 6, false);
  shared(2, 4, true);
  shared(3, 3, false);
  shared(3, 3, true);
  if (t) { shared(2, 8, false); shared(3, 5, true); shared(4, 3, true); }
  auto menu = [](const std::string& pick, int n) { return Menu(pick, n); };
  {
    auto tail = menu("nop lda# jsr-self per", 2);
    all("every opcode", tail, every, 2, 0x808000, one, false);
  }
  all("all pieces", menu("*", 3), menu("*", 3), 2, 0x808000, one, false);
  all("all pieces", menu("*", 4), menu("*", 4), 3, 0x808000, few, false);
  all("all pieces", menu("*", 3), menu("*", 3), 2, 0x808000, two, false);
  all("all pieces", menu("*", 3), menu("*", 3), 2, 0x008000, one, false);
  all("folding", menu("clc adc# sec sbc# bne jmp rts", 5), menu("clc adc# sec sbc# bne jmp rts", 5), 4, 0x808000, two, false);
  all("calls", menu("lda# rep30 jsr jsr-yields jsl-noreturn jsr-self jml-first jsl-first per bne", 5), menu("lda# rep30 jsr jsr-yields jsl-noreturn jsr-self jml-first jsl-first per bne", 5), 4, 0x808000, few, false);
  for (uint32_t base : {0x01fffcu, 0x01fffeu}) all("at the end of a bank", menu("*", 3), menu("*", 3), 2, base, few, false);
  if (t) {
    all("all pieces", menu("*", 4), menu("*", 4), 3, 0x808000, one, false);
    all("all pieces", menu("*", 4), menu("*", 4), 3, 0x808000, two, false);
    all("folding", menu("clc adc# sec sbc# bne jmp rts", 6), menu("clc adc# sec sbc# bne jmp rts", 6), 5, 0x808000, two, false);
    all("flow", menu("lda# sep20 rep20 bne bra bcc rts", 5), menu("lda# sep20 rep20 bne bra bcc rts", 5), 4, 0x808000, two, false);
    all("calls", menu("lda# rep30 jsr jsr-yields jsl-noreturn jsr-self jml-first jsl-first per bne", 6), menu("lda# rep30 jsr jsr-yields jsl-noreturn jsr-self jml-first jsl-first per bne", 6), 5, 0x808000, few, false);
    all("at the end of a bank", menu("*", 4), menu("*", 4), 3, 0x01fffd, few, false);
  }
}
static const mc::Check kCheck = {
    .property = "P20", .level = "model_checking",
    .rule = "every image built from the pieces is disassembled, cleaned up, printed the way the tools print it, and the listing is assembled again by the real assembler; the bytes must be those of the image, and the listing may not depend on the order of the entry points",
    .bounds_quick = "every opcode with 6 operand patterns in 6 modes; images of up to 3 pieces of about 50 kinds, 4 pieces of folding and call menus, one or two entry points, also across a bank end; jumps and calls between 6 places in, next to and opposite every bank; 14 kinds of code of up to 1000 units and 129 entries; 2 or 3 entries that branch to every choice of up to 6 blocks they share; up to 65 instructions that run into code found before",
    .bounds_thorough = "up to 4 entries and 8 shared blocks, 3 pieces with all entry plans, 5 pieces of folding and call menus, 4 of flow", .run = Run, .chunk = 2, .hang_seconds = 120,
    .assumptions = {"the listing is judged if no two instructions overlap; it must assemble unless code runs across a bank end or entry flags have no name in the language"}};
MC_MAIN(kCheck)
