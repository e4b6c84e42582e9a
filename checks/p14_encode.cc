// P14: decoding and encoding of single instructions are exact inverses; branches reach exactly what they can.
#include "checks/isa.h"
#include "lib/mc.h"
#include "nsasm/decode.h"
#include "nsasm/instruction.h"
using namespace nsasm;

struct Sink : OutputSink {
  std::vector<std::pair<uint32_t, std::vector<uint8_t>>> w;
  bool fail = false;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    w.push_back({uint32_t(a.Bank()) << 16 | a.BankAddress(), std::vector<uint8_t>(d.begin(), d.end())});
    if (fail) return Error("sink failed");
    return {};
  }
  std::vector<uint8_t> all() const { std::vector<uint8_t> r; for (auto& x : w) r.insert(r.end(), x.second.begin(), x.second.end()); return r; }
  bool at(uint32_t base) const { for (auto& x : w) { if (x.first != base) return false; base = (base & 0xff0000) | ((base + x.second.size()) & 0xffff); } return true; }
};
static std::string Show(const std::vector<uint8_t>& b) { return mc::Hex(b); }
static Instruction Make(Mnemonic m, AddressingMode a) { Instruction i; i.mnemonic = m; i.suffix = S_none; i.addressing_mode = a; return i; }

static int OperandBytes(const isa::Op& o, int m, int x) { return o.args >= 0 ? o.args : (o.mode == "#m" ? m : x); }

// Checks one encoding; returns "" or what is wrong.
static std::string One(mc::Ctx& c, const isa::Op& o, int ms, int xs, const std::vector<uint8_t>& bytes, size_t extra, bool full) {
  // ms, xs: 0 known 16 bit, 1 known 8 bit, 2 original, 3 unknown
  static const BitState st[] = {B_off, B_on, B_original, B_unknown};
  StatusFlags fl(B_off, st[ms], st[xs]);
  int width = o.mode == "#m" ? (ms == 0 ? 2 : ms == 1 ? 1 : 0) : o.mode == "#x" ? (xs == 0 ? 2 : xs == 1 ? 1 : 0) : o.args;
  bool unknown = o.args < 0 && width == 0;
  std::vector<uint8_t> in = bytes;
  in.resize(bytes.size() + extra, 0xa5);
  c.step();
  auto r = Decode(in, fl);
  if (unknown) return r.ok() ? "decoded although its width is not known" : "";
  if (!r.ok()) return "not decoded: " + r.error().ToString();
  if (r->mnemonic != o.mn) return "decoded as another instruction";
  AddressingMode want = o.am == A_imm_fm || o.am == A_imm_fx ? (width == 1 ? A_imm_b : A_imm_w) : o.am;
  if (r->addressing_mode != want) return "decoded in mode " + ToString(r->addressing_mode);
  if (r->suffix != S_none || !r->return_convention.IsDefault()) return "decoded with a suffix or return convention";
  long v = 0;
  for (int i = 0; i < width; ++i) v |= long(bytes[1 + i]) << (8 * i);
  bool rel = o.mode == "r" || o.mode == "rl";
  if (o.mode == "r") v = int8_t(v);
  if (o.mode == "rl") v = int16_t(v);
  auto a1 = r->arg1.Evaluate(NullLookupContext()), a2 = r->arg2.Evaluate(NullLookupContext());
  if (o.mode == "mv") { if (!a1.ok() || !a2.ok() || *a1 != bytes[2] || *a2 != bytes[1]) return "source and destination banks are wrong"; }
  else if (width == 0) { if (r->arg1 || r->arg2) return "an operand appeared"; }
  else if (!a1.ok() || *a1 != v || r->arg2) return "operand is wrong";
  if (width && !rel && o.mode != "mv") { NumericType t = width == 1 ? T_byte : width == 2 ? T_word : T_long; if (r->arg1.Type() != t) return "operand has type " + ToString(r->arg1.Type()); }
  if (r->SerializedSize() != int(bytes.size())) return mc::Fmt("size is given as %d", r->SerializedSize());
  c.state(mc::HashBytes(bytes.data(), std::min<size_t>(bytes.size(), 2), width));
  static const uint32_t addrs[] = {0x008000, 0x7effff, 0xff7ffe, 0x80fffd, 0x000000};
  int n = full ? 5 : 1;
  for (int k = 0; k < n; ++k) {
    uint32_t at = addrs[k];
    Instruction ins = *r;
    if (rel) ins.arg1 = std::make_unique<Literal>((at & 0xff0000) | ((at + bytes.size() + v) & 0xffff));
    Sink s;
    auto e = ins.Assemble(Address(at), NullLookupContext(), &s);
    c.step();
    if (!e.ok()) return "not encoded again: " + e.error().ToString();
    if (s.all() != bytes || !s.at(at)) return mc::Fmt("encodes at $%06x as ", at) + Show(s.all());
    auto ft = ins.FarBranchTarget(Address(at));
    bool far = (o.name == "jmp" || o.name == "jsr" || o.name == "jsl") && (o.mode == "a" || o.mode == "l");
    if (bool(ft) != far) return "far branch target present or missing";
    if (far) { uint32_t t = o.mode == "l" ? v : (at & 0xff0000) | v; if (*ft != Address(t)) return "far branch target is " + ft->ToString(); }
    if (ins.IsLocalBranch() != (rel && o.name != "per")) return "wrongly classed as a branch";
    static const std::string exits = "jmp rts rtl rti stp bra brl ";
    if (ins.IsExitInstruction() != (exits.find(o.name + " ") != std::string::npos)) return "wrongly classed as ending the flow";
  }
  if (full) {
    for (size_t cut = 0; cut < bytes.size(); ++cut)
      if (Decode(absl::Span<const uint8_t>(bytes.data(), cut), fl).ok()) return mc::Fmt("decoded from its first %d bytes", int(cut));
    Sink s;
    s.fail = true;
    Instruction ins = *r;
    if (rel) ins.arg1 = std::make_unique<Literal>(0x8000);
    if (ins.Assemble(Address(0x8000), NullLookupContext(), &s).ok()) return "a failing sink is not reported";
    c.step(1 + bytes.size());
  }
  return "";
}
static void Run(mc::Ctx& c) {
  // The same encoding by the same 5 addresses, every operand value.
  for (int op = 0; op < 256; ++op)
    for (int fl = 0; fl < 16; ++fl) {
      auto& o = isa::Ops()[op];
      if (o.args >= 0 && fl != 0 && fl != 5 && fl != 15) continue;
      c.part("instructions");
      if (!c.want()) continue;
      int ms = fl & 3, xs = fl >> 2;
      c.describe([&] { return mc::Fmt("opcode $%02x (%s %s), m state %d, x state %d, all operands", op, o.name.c_str(), o.mode.c_str(), ms, xs); });
      int width = o.args >= 0 ? o.args : o.mode == "#m" ? (ms == 0 ? 2 : 1) : (xs == 0 ? 2 : 1);
      std::vector<uint8_t> b(1 + width);
      b[0] = op;
      bool bad = false;
      uint64_t n = 0;
      auto run = [&](bool full) {
        if (bad) return;
        ++n;
        std::string w = One(c, o, ms, xs, b, n % 4, full);
        if (!w.empty()) { bad = true; c.fail(mc::Fmt("opcode %02x m%d x%d", op, ms, xs), Show(b) + " (" + o.name + " " + o.mode + "): " + w); }
      };
      if (width == 0) run(true);
      if (width == 1) for (int v = 0; v < 256; ++v) { b[1] = v; run(true); }
      if (width == 2) for (int v = 0; v < 65536; ++v) { b[1] = v; b[2] = v >> 8; run(v % 257 == 0 || v < 256 || c.thorough()); }
      if (width == 3) {
        static const int e[] = {0, 1, 0x7f, 0x80, 0xff};
        for (int x : e) for (int y : e) for (int z : e) { b[1] = x; b[2] = y; b[3] = z; run(true); }
        for (int k = 1; k <= 3; ++k) for (int v = 0; v < 256; ++v) { b[1] = b[2] = b[3] = 0x5a; b[k] = v; run(true); }
        if (c.thorough()) for (int v = 0; v < 1 << 24; v += 7) { b[1] = v; b[2] = v >> 8; b[3] = v >> 16; run(false); }
      }
      c.outcome(o.args < 0 && ((o.mode == "#m" ? ms : xs) > 1) ? "width not known" : "round trip", n);
      c.trace();
    }
  // Branches: every target of the bank from edge addresses, and targets elsewhere.
  static const int lows[] = {0, 1, 2, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0x7ffd, 0x7fff, 0x8000, 0xff7d, 0xff7e, 0xff80, 0xfffc, 0xfffd, 0xfffe, 0xffff};
  for (auto& o : isa::Ops()) {
    if (o.mode != "r" && o.mode != "rl") continue;
    for (int bank : {0x00, 0x7e, 0xff}) {
      c.part("branches");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%s from edge addresses of bank $%02x to every address of the bank and to other banks", o.name.c_str(), bank); });
      bool bad = false;
      int len = o.mode == "r" ? 2 : 3;
      uint64_t near = 0, far = 0;
      for (int low : lows) {
        uint32_t at = bank << 16 | low;
        Instruction ins = Make(o.mn, o.am);
        auto expect = [&](long target, bool ok, int off) {
          if (bad) return;
          ins.arg1 = std::make_unique<Literal>(int(target));
          Sink s;
          auto e = ins.Assemble(Address(at), NullLookupContext(), &s);
          c.step();
          std::string what = mc::Fmt("%s at $%06x to $%lx", o.name.c_str(), at, target);
          if (e.ok() != ok) { bad = true; c.fail("branch " + what, what + (ok ? " is refused" : " is accepted")); return; }
          ++(ok ? near : far);
          if (!ok) { if (!s.w.empty()) { bad = true; c.fail("branch " + what, what + " is refused but writes"); } return; }
          std::vector<uint8_t> w{uint8_t(o.code), uint8_t(off)};
          if (len == 3) w.push_back(uint8_t(off >> 8));
          if (s.all() != w || !s.at(at)) { bad = true; c.fail("branch " + what, what + " encodes as " + Show(s.all()) + ", expected " + Show(w)); }
        };
        for (int t = 0; t < 65536; ++t) {
          int16_t off = int16_t(t - (low + len));
          expect(long(bank) << 16 | t, len == 3 || (off >= -128 && off <= 127), off);
        }
        for (int b2 : {bank ^ 1, (bank + 1) & 255, (bank - 1) & 255, bank ^ 0x80}) for (int d : {-2, -1, 0, 1, 2, 100}) expect(long(b2) << 16 | ((low + len + d) & 0xffff), false, 0);
        for (long t : {-1L, -2L, -128L, -0x8000L, -0x1000000L, 0x1000000L, 0x1000001L, 0x1000000L + at, 0x7fffffffL, -0x80000000L}) expect(t, false, 0);
      }
      c.outcome("reachable", near);
      c.outcome("refused", far);
      c.trace();
    }
  }
  // Operands that cannot be evaluated, widths that are not chosen, and the two pseudo-instructions.
  for (auto& o : isa::Ops()) {
    c.part("refusals and pseudo-instructions");
    if (!c.want()) continue;
    c.describe([&] { return "unresolved operands of " + o.name + " " + o.mode + ", and add/sub in its mode"; });
    Instruction ins = Make(o.mn, o.am);
    ins.arg1 = std::make_unique<IdentifierExpression>(FullIdentifier("nowhere"));
    ins.arg2 = std::make_unique<Literal>(1);
    auto refuse = [&](const char* what) {
      Sink s;
      c.step();
      if (ins.Assemble(Address(0x8000), NullLookupContext(), &s).ok() || !s.w.empty()) c.fail(o.name + " " + o.mode + " " + what, o.name + " " + o.mode + " with " + what + " is encoded");
    };
    if (o.args != 0) refuse("an unresolved operand");
    if (o.mode == "mv") { std::swap(ins.arg1, ins.arg2); refuse("an unresolved second operand"); }
    if (o.args < 0) { ins.arg1 = std::make_unique<Literal>(1); refuse("no chosen width"); }
    if (o.name == "adc" || o.name == "sbc")
      for (int w = 1; w <= 2; ++w) {
        if (o.args >= 0 && w == 2) continue;
        AddressingMode am = o.args >= 0 ? o.am : w == 1 ? A_imm_b : A_imm_w;
        int n = o.args >= 0 ? o.args : w;
        Instruction p = Make(o.name == "adc" ? PM_add : PM_sub, am);
        for (int v : {0, 0x12, 0xff, 0x1234, 0xffff, 0x123456}) {
          if (v >> (8 * n)) continue;
          p.arg1 = std::make_unique<Literal>(v);
          std::vector<uint8_t> want{uint8_t(o.name == "adc" ? 0x18 : 0x38), uint8_t(o.code)};
          for (int k = 0; k < n; ++k) want.push_back(v >> (8 * k));
          Sink s;
          auto e = p.Assemble(Address(0x12fffe), NullLookupContext(), &s);
          c.step();
          if (!e.ok() || s.all() != want || !s.at(0x12fffe) || p.SerializedSize() != int(want.size())) c.fail("pseudo " + o.name + " " + o.mode, (o.name == "adc" ? "add" : "sub") + std::string(" in mode ") + o.mode + " encodes as " + Show(s.all()) + ", expected " + Show(want));
        }
      }
    c.trace();
  }
}
MC_MAIN((mc::Check{.property = "P14", .level = "model_checking",
  .rule = "every opcode under every known and unknown m and x with every 1- and 2-byte operand (3-byte: edges and every value of each byte), decoded, encoded again at bank edges and from every shorter prefix; every branch from edge addresses to all 65536 targets of its bank and to other banks. Oracle: the data sheet matrix. A state is a distinct (opcode, first operand byte, width)",
  .bounds_quick = "256 opcodes x 16 flag states x all 1- and 2-byte operands; 11 branches x 57 places x 65536 targets", .bounds_thorough = "as quick, with every 2-byte operand at 5 addresses and every 7th 3-byte operand", .run = Run, .hang_seconds = 120}))
