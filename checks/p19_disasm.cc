// P19: the disassembler finds exactly the code that can run, decoded as it would run.
#include "checks/dis.h"
using namespace dis;

struct Start { uint32_t at; const char* mode; };
struct Count { uint64_t n = 0, ok = 0, refused = 0, lenient = 0, ins = 0, steps = 0; };
static int Bit(BitState b) { return b == B_off ? 0 : b == B_on ? 1 : 2; }
static void Judge(mc::Ctx& c, const Image& im, const std::vector<Start>& starts, Count* k) {
  ++k->n;
  Disassembler d(std::make_unique<Source>(&im));
  d.AddTargetReturnConventions(RealConventions());
  std::vector<std::pair<uint32_t, sim::Mode>> good;
  std::map<uint32_t, StatusFlags> far;
  std::string name = im.ToString() + ", from";
  for (auto& s : starts) name += mc::Fmt(" $%06x %s", s.at, s.mode);
  auto fail = [&](const std::string& why) { c.fail("image" + name, why + " [" + name + "]"); };
  for (size_t n = 0; n < starts.size(); ++n) {
    const Start& st = starts[n];
    // Of hundreds of entry points, the result is judged after some only.
    const bool judge = starts.size() <= 40 || n < 2 || n + 1 == starts.size() || n % 97 == 40;
    std::string before = judge ? Dump(d) : "";
    sim::Mode m;
    sim::FindMode(st.mode, &m);
    auto r = d.Disassemble(Address(st.at), *StatusFlags::FromName(st.mode));
    auto with = good;
    with.push_back({st.at, m});
    if (!r.ok()) {
      ++k->refused;
      if (judge && Dump(d) != before) return fail("a failed disassembly changed the result");
      World w;
      Explore(im, with, true, &w);
      k->steps += w.steps;
      if (!w.precise || !w.complete) { ++k->lenient; continue; }
      if (!w.unreadable && !w.torn) return fail("refused (" + r.error().ToString() + ") although every path is there and gives each instruction one width");
      continue;
    }
    ++k->ok;
    good = with;
    for (auto& n : *r) { auto it = far.find(Num(n.first)); if (it == far.end()) far.emplace(Num(n.first), n.second); else it->second |= n.second; }
    if (!judge) continue;
    World w, loose;
    Explore(im, good, false, &w);
    Explore(im, good, true, &loose);
    k->steps += w.steps + loose.steps;
    if (w.unreadable) return fail("succeeded although the code runs out of the image");
    if (w.torn) return fail("succeeded although an instruction can run at two widths");
    auto& res = d.Result();
    for (auto& a : w.at) if (!a.second.empty() && !res.count(Address(a.first))) return fail(mc::Fmt("code at $%06x is missing", a.first));
    std::set<uint32_t> why;  // addresses some instruction leads to
    for (auto& g : good) why.insert(g.first);
    std::map<uint32_t, std::vector<uint32_t>> calls;  // target -> callers
    std::set<std::string> labels;
    for (auto& n : res) {
      uint32_t pc = Num(n.first);
      auto& di = n.second;
      ++k->ins;
      bool wide = di.instruction.addressing_mode == A_imm_w;
      auto o = Fetch(im, pc, !wide, !wide);
      if (!o) return fail(mc::Fmt("an instruction at $%06x that is not there", pc));
      AddressingMode am = o->op->args < 0 ? (wide ? A_imm_w : A_imm_b) : o->op->am;
      if (di.instruction.mnemonic != o->op->mn || di.instruction.addressing_mode != am) return fail(mc::Fmt("wrong instruction at $%06x", pc));
      if (di.instruction.SerializedSize() != o->size) return fail(mc::Fmt("wrong size at $%06x", pc));
      if (di.instruction.return_convention.IsExitCall() != o->ins.noreturn || di.instruction.return_convention.YieldFlags().has_value() != o->ins.yields) return fail(mc::Fmt("wrong return convention at $%06x", pc));
      if (!o->exit) why.insert(o->next);
      if (o->branch) {
        why.insert(*o->branch);
        auto t = res.find(Address(*o->branch));
        if (t == res.end()) return fail(mc::Fmt("the branch at $%06x leads nowhere", pc));
        if (t->second.label.empty() || di.instruction.arg1.ToString() != t->second.label) return fail(mc::Fmt("the branch at $%06x does not name its target", pc));
      } else if (o->op->name == "per") {  // shown as a name or a distance
      } else if (o->size > 1 && o->op->mode != "mv") {
        auto v = di.instruction.arg1.Evaluate(NullLookupContext());
        if (!v.ok() || *v != o->ins.arg) return fail(mc::Fmt("wrong operand at $%06x", pc));
      }
      if (o->far) calls[*o->far].push_back(pc);
      if (!di.label.empty() && !labels.insert(di.label).second) return fail("label " + di.label + " is given twice");
      // Widths and flags hold in every state that gets here.
      auto& f = di.current_execution_state.Flags();
      auto ws = w.at.find(pc);
      if (ws == w.at.end()) continue;
      bool of_x = isa::Width(o->op->name) == 'x';
      for (auto& s : ws->second) {
        if (di.instruction.suffix != S_none && (of_x ? s.x : s.m) != (di.instruction.suffix == S_b)) return fail(mc::Fmt("the instruction at $%06x is shown with suffix %s, which is not its width", pc, std::string(ToString(di.instruction.suffix)).c_str()));
        if (o->op->args < 0 && (o->op->mode == "#m" ? s.m : s.x) != !wide) return fail(mc::Fmt("the instruction at $%06x is decoded at a width it does not run at", pc));
        if ((Bit(f.EBit()) != 2 && Bit(f.EBit()) != s.e) || (Bit(f.MBit()) != 2 && Bit(f.MBit()) != s.m) || (Bit(f.XBit()) != 2 && Bit(f.XBit()) != s.x) || (Bit(f.CBit()) != 2 && Bit(f.CBit()) != s.c))
          return fail(mc::Fmt("flags %s at $%06x, but it can run with e=%d m=%d x=%d c=%d", f.ToString().c_str(), pc, s.e, s.m, s.x, s.c));
      }
    }
    for (auto& n : res) if (!why.count(Num(n.first))) return fail(mc::Fmt("nothing leads to $%06x", Num(n.first)));
    for (auto& g : good) if (res.at(Address(g.first)).label.empty()) return fail("an entry point has no label");
    if (loose.precise && loose.complete) for (auto& n : res) if (!loose.at.count(Num(n.first))) return fail(mc::Fmt("$%06x cannot be reached", Num(n.first)));
    // Far targets: exactly those of the code found, with flags that hold for every call.
    for (auto& f : far) if (!calls.count(f.first)) return fail(mc::Fmt("$%06x is reported as a target", f.first));
    for (auto& t : calls) {
      auto it = far.find(t.first);
      if (it == far.end()) return fail(mc::Fmt("target $%06x is not reported", t.first));
      int seen[3] = {};
      for (auto pc : t.second) {
        if (w.at.count(pc))
          for (auto& s : w.at[pc])
            if ((Bit(it->second.EBit()) != 2 && Bit(it->second.EBit()) != s.e) || (Bit(it->second.MBit()) != 2 && Bit(it->second.MBit()) != s.m) || (Bit(it->second.XBit()) != 2 && Bit(it->second.XBit()) != s.x))
              return fail(mc::Fmt("target $%06x is reported with flags %s, but it can be called with e=%d m=%d x=%d", t.first, it->second.ToString().c_str(), s.e, s.m, s.x));
        if (loose.at.count(pc)) for (auto& s : loose.at[pc]) { seen[0] |= 1 << s.e; seen[1] |= 1 << s.m; seen[2] |= 1 << s.x; }
      }
      if (loose.precise && loose.complete) {
        int got[3] = {Bit(it->second.EBit()), Bit(it->second.MBit()), Bit(it->second.XBit())};
        for (int b = 0; b < 3; ++b) if ((seen[b] == 1 || seen[b] == 2) && got[b] == 2) return fail(mc::Fmt("target $%06x is reported with flags %s, weaker than every call gives", t.first, it->second.ToString().c_str()));
      }
    }
  }
}
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  auto all = [&](const char* part, const std::string& pick, int len, uint32_t base, const std::vector<std::vector<std::pair<int, const char*>>>& plans, bool tail) {
    auto menu = Menu(pick, len + tail);
    static Frag rts = F("rts", {0x60});
    int m = menu.size();
    for (int first = 0; first < m; ++first)
      for (int second = 0; second < (len > 2 ? m : 1); ++second) {
        c.part(part);
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%s: every image of %d pieces%s at $%06x that starts with [%s%s%s], %d sequences of entry points", part, len, tail ? " and rts" : "", base, menu[first].text.c_str(), len > 2 ? " " : "", len > 2 ? menu[second].text.c_str() : "", int(plans.size())); });
        Count k;
        std::vector<const Frag*> fs(len + tail, &rts);
        std::vector<int> ix(len, 0);
        ix[0] = first;
        if (len > 2) ix[1] = second;
        int fixed = len > 2 ? 2 : 1;
        Image im;
        while (true) {
          std::vector<uint32_t> off{base};
          for (int i = 0; i < len; ++i) { fs[i] = &menu[ix[i]]; off.push_back(Wrap(off.back(), fs[i]->b.size())); }
          if (Lay(fs, base, &im))
            for (auto& p : plans) {
              std::vector<Start> st;
              for (auto& q : p) if (q.first <= len) st.push_back({off[q.first], q.second});
              Judge(c, im, st, &k);
            }
          int i = len - 1;
          for (; i >= fixed; --i) { if (++ix[i] < m) break; ix[i] = 0; }
          if (i < fixed) break;
        }
        c.step(k.steps); c.trace(k.n);
        c.outcome("disassembled", k.ok); c.outcome("refused with a reason", k.refused - k.lenient); c.outcome("refused, not judged", k.lenient); c.outcome("instructions checked", k.ins);
        c.state(mc::HashStr(part, mc::Mix(base, first * 1000 + second)));
      }
  };
  typedef std::vector<std::vector<std::pair<int, const char*>>> Plans;
  const Plans one = {{{0, "m8x8"}}, {{0, "m16x16"}}, {{0, "unk"}}, {{0, "emu"}}, {{0, "native"}}};
  const Plans two = {{{0, "m8x8"}, {1, "m8x8"}}, {{1, "m8x8"}, {0, "m16x8"}}, {{0, "m8"}, {0, "m16"}}, {{1, "m16x16"}, {0, "unk"}}};
  const Plans few = {{{0, "m8x8"}}, {{0, "m16x16"}, {1, "m8x8"}}};
  for (int kind = 0; kind < kLongKinds; ++kind)
    for (int n : kLongSizes)
      for (int order = 0; order < 3; ++order) {
        Image im;
        std::vector<uint32_t> at;
        std::string text;
        c.part("long code");
        if (n > 130 && kind == 9) continue;
        if (!Long(kind, n, 0x808000, &im, &at, &text)) continue;
        if (at.size() == 1 && order) continue;
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%d times: %s; entries in order %d", n, text.c_str(), order); });
        Count k;
        for (auto* mode : {"m8x8", "m16x16", "unk"}) {
          std::vector<Start> st;
          for (size_t i = 0; i < at.size(); ++i) st.push_back({at[order == 0 ? i : order == 1 ? at.size() - 1 - i : i % 2 ? at.size() - 1 - i / 2 : i / 2], mode});
          Judge(c, im, st, &k);
        }
        c.step(k.steps); c.trace(k.n);
        c.outcome("disassembled", k.ok); c.outcome("refused with a reason", k.refused - k.lenient); c.outcome("refused, not judged", k.lenient); c.outcome("instructions checked", k.ins);
      }
  {
    const auto pieces = Menu("nop lda# sta.w rep20 sep20 bne bcc php plp jsr jsr-yields", 3);
    for (int n : kLongSizes) {
      if (n > (t ? 300 : 66)) break;
      for (size_t first = 0; first < pieces.size(); ++first) {
        c.part("into earlier code");
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%d instructions that run into [%s, any piece, rts], which is an entry point too", n, pieces[first].text.c_str()); });
        Count k;
        for (auto& second : pieces) {
          Image im;
          uint32_t block;
          if (!Into(n, pieces[first], second, 0x808000, &im, &block)) continue;
          for (auto* mode : {"m8x8", "m16x8", "m16x16"})
            for (auto* later : {"m8x8", "m16x16"}) { Judge(c, im, {{block, mode}, {0x808000, later}}, &k); Judge(c, im, {{0x808000, later}, {block, mode}}, &k); }
        }
        c.step(k.steps); c.trace(k.n);
        c.outcome("disassembled", k.ok); c.outcome("refused with a reason", k.refused - k.lenient); c.outcome("refused, not judged", k.lenient); c.outcome("instructions checked", k.ins);
      }
    }
  }
  // Every opcode, before and after pieces that set or use the flags, among bytes that end every path.
  {
    const auto before = Menu("nop sep20 rep30 php clc sec xce bne", 1), after = Menu("nop lda# ldx# plp adc# rts jsr-self pla", 1);
    for (auto& o : isa::Ops()) {
      c.part("every opcode");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("opcode %02x with up to 8 operands between two pieces, from 5 entry states and two entry points", o.code); });
      Count k;
      for (auto& b : before)
        for (auto& a : after)
          for (uint32_t v : {0x123456u, 0x000000u, 0x029500u, 0x809400u, 0x0000feu, 0x00fff8u, 0x808010u, 0x313131u}) {
            if (b.rel && b.into) continue;
            int n = o.args < 0 ? 2 : o.args;
            if (v != 0x123456 && n == 0) break;
            static const std::string leads = " jmp jsr jsl rep sep ";
            if (v != 0x123456 && v != 0x00fff8 && o.mode[0] != 'r' && leads.find(" " + o.name + " ") == std::string::npos) continue;
            std::vector<uint8_t> code = b.b;
            if (b.rel) code[1] = 1 + n;  // over the instruction, for 16-bit operands
            const uint32_t mid = 0x808020 + code.size();
            code.push_back(o.code);
            for (int i = 0; i < n; ++i) code.push_back(v >> (8 * i));
            if (a.rel) continue;
            code.insert(code.end(), a.b.begin(), a.b.end());
            Image im;
            for (int i = 0; i < 0x60; ++i) im.at[0x808000 + i] = 0x60;
            for (size_t i = 0; i < code.size(); ++i) im.at[0x808020 + i] = code[i];
            for (auto* mode : {"m8x8", "m16x16", "m8", "unk", "emu"}) Judge(c, im, {{0x808020, mode}}, &k);
            Judge(c, im, {{mid, "m16x16"}, {0x808020, "m8x16"}}, &k);
          }
      c.step(k.steps); c.trace(k.n);
      c.outcome("disassembled", k.ok); c.outcome("refused with a reason", k.refused - k.lenient); c.outcome("refused, not judged", k.lenient); c.outcome("instructions checked", k.ins);
      c.state(o.code);
    }
  }
  all("all pieces", "*", 1, 0x808000, one, false);
  all("all pieces", "*", 2, 0x808000, one, false);
  all("all pieces", "*", 2, 0x808000, one, true);
  all("all pieces", "*", 2, 0x808000, two, true);
  for (uint32_t base : {0x01fffcu, 0x01fffeu, 0x01ffffu}) all("at the end of a bank", "*", 2, base, few, true);
  all("all pieces", "*", 3, 0x808000, few, true);
  all("flow", "lda# sep20 rep20 bne bra bcc rts", 4, 0x808000, few, true);
  all("calls", "lda# sep20 rep30 bne jsr jsr-yields jsl-noreturn jmp", 4, 0x808000, few, true);
  all("stack", "lda# sep20 php plp pha pla bne xce clc", 4, 0x808000, few, true);
  if (t) {
    all("all pieces", "*", 3, 0x808000, one, false);
    all("all pieces", "*", 3, 0x808000, two, true);
    all("at the end of a bank", "*", 3, 0x01fffd, few, true);
    all("flow", "lda# sep20 rep20 bne bcc", 5, 0x808000, two, true);
    all("calls", "lda# sep20 rep30 bne jsr jsr-yields jsl-noreturn", 5, 0x808000, few, true);
    all("stack", "lda# sep20 php plp pha pla bne xce clc", 5, 0x808000, few, true);
  }
}
static const mc::Check kCheck = {
    .property = "P19", .level = "model_checking",
    .rule = "every image built from the pieces is disassembled by the real disassembler from each sequence of entry points; independently every processor state that can reach each address is found by running the bytes in every way, and instructions, widths, flags, labels, call targets and verdicts are compared",
    .bounds_quick = "images of up to 3 pieces of about 50 kinds (branches to every piece and into its middle), 4 pieces of flow, call and stack menus, one or two entry points in 8 modes, also across a bank end; every opcode with up to 8 operands between two other pieces; 14 kinds of code of up to 1000 units and 129 entries; up to 65 instructions that run into code found before; tracked stack up to 5 bytes",
    .bounds_thorough = "3 pieces with all entry plans, 5 pieces of flow, call and stack menus", .run = Run, .chunk = 2, .hang_seconds = 120,
    .assumptions = {"calls return with e, m, x and the stack unchanged unless a return convention says otherwise", "entry flags are as stated"}};
MC_MAIN(kCheck)
