// P13: opcodes, addressing forms, widths and flag requirements of the whole instruction set.
#include "checks/form.h"
#include "lib/mc.h"
#include "nsasm/instruction.h"
#include "nsasm/opcode_map.h"
using namespace nsasm;
using isa::Find;

using isa::Form;
struct Arg { std::string text; ExpressionOrNull e; int w; bool known; long v; bool name; };
static std::vector<Arg> Args() {
  std::vector<Arg> r;
  const std::pair<NumericType, int> types[] = {{T_unknown, 0}, {T_byte, 1}, {T_word, 2}, {T_long, 3}, {T_signed_byte, 1}, {T_signed_word, 2}, {T_signed_long, 3}};
  for (auto& t : types)
    for (int v : {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0xffffff, 0x1000000, -1, -128, -129, -32768, -32769}) {
      auto e = std::make_unique<Literal>(v, t.first);
      long now = *e->Evaluate(NullLookupContext());
      r.push_back({mc::Fmt("%d as %s", v, ToString(t.first).c_str()), ExpressionOrNull(std::move(e)), t.second, true, now, false});
    }
  r.push_back({"name", std::make_unique<IdentifierExpression>(FullIdentifier("foo")), 2, false, 0, true});
  r.push_back({"@name", std::make_unique<IdentifierExpression>(FullIdentifier("foo"), T_long), 3, false, 0, true});
  r.push_back({"m::name", std::make_unique<IdentifierExpression>(FullIdentifier("m", "foo")), 2, false, 0, false});
  r.push_back({"@::name", std::make_unique<IdentifierExpression>(FullIdentifier("", "foo"), T_long), 3, false, 0, false});
  auto lit = [](int v, NumericType t) { return ExpressionOrNull(std::make_unique<Literal>(v, t)); };
  auto id = [](NumericType t) { return ExpressionOrNull(std::make_unique<IdentifierExpression>(FullIdentifier("foo"), t)); };
  r.push_back({"name+1", std::make_unique<BinaryExpression>(id(T_word), lit(1, T_unknown), MakePlusOp()), 2, false, 0, false});
  r.push_back({"<name", std::make_unique<UnaryExpression>(id(T_word), MakeLowbyteOp()), 1, false, 0, false});
  r.push_back({"-name", std::make_unique<UnaryExpression>(id(T_word), MakeNegateOp()), 2, false, 0, false});
  r.push_back({"1/0", std::make_unique<BinaryExpression>(lit(1, T_unknown), lit(0, T_unknown), MakeDivideOp()), 0, false, 0, false});
  r.push_back({"100+100", std::make_unique<BinaryExpression>(lit(100, T_unknown), lit(100, T_unknown), MakePlusOp()), 0, true, 200, false});
  r.push_back({"200+100", std::make_unique<BinaryExpression>(lit(200, T_unknown), lit(100, T_unknown), MakePlusOp()), 0, true, 300, false});
  r.push_back({"$80+1", std::make_unique<BinaryExpression>(lit(0x80, T_byte), lit(1, T_unknown), MakePlusOp()), 1, true, 0x81, false});
  r.push_back({"$80+$1234", std::make_unique<BinaryExpression>(lit(0x80, T_byte), lit(0x1234, T_word), MakePlusOp()), 2, true, 0x12b4, false});
  r.push_back({"$1-$123456", std::make_unique<BinaryExpression>(lit(1, T_byte), lit(0x123456, T_long), MakeMinusOp()), 3, true, 1 - 0x123456, false});
  return r;
}
static void Run(mc::Ctx& c) {
  c.part("opcodes");
  for (int op = 0; op < 256; ++op) {
    if (!c.want()) continue;
    auto& o = isa::Ops()[op];
    c.describe([&] { return mc::Fmt("opcode $%02x is %s in form %s", op, o.name.c_str(), o.mode.c_str()); });
    auto d = DecodeOpcode(op);
    c.step();
    c.state(op);
    if (d.first != o.mn || d.second != o.am) c.fail(mc::Fmt("opcode %02x", op), mc::Fmt("opcode $%02x decodes as %s %s, expected %s %s", op, std::string(ToString(d.first)).c_str(), ToString(d.second).c_str(), o.name.c_str(), ToString(o.am).c_str()));
    if (o.args >= 0) {
      if (InstructionLength(o.am) != o.args + 1) c.fail(mc::Fmt("length %02x", op), mc::Fmt("length of %s is %d, expected %d", ToString(o.am).c_str(), InstructionLength(o.am), o.args + 1));
      NumericType at = Arg1Type(o.am), want = o.args == 0 ? T_unknown : o.mode == "mv" ? T_byte : o.args == 1 ? T_byte : o.args == 2 ? T_word : T_long;
      if (at != want) c.fail(mc::Fmt("argument type %02x", op), mc::Fmt("operand of %s is a %s, expected %s", ToString(o.am).c_str(), ToString(at).c_str(), ToString(want).c_str()));
    }
    c.outcome("opcode");
    c.trace();
  }
  auto args = Args();
  for (auto& nv : vf::kOps) {
    std::string n = nv.first;
    Mnemonic m = Mnemonic(nv.second);
    c.part("instructions");
    if (!c.want()) continue;
    c.describe([&] { return "instruction " + n + ": every mode, every written form with every operand"; });
    bool pseudo = n == "add" || n == "sub";
    std::string real = n == "add" ? "adc" : n == "sub" ? "sbc" : n;
    for (auto& mi : isa::kModes) {
      int w = pseudo ? -1 : Find(n, mi.text);
      if (w < 0 && !pseudo && (mi.mode == A_imm_b || mi.mode == A_imm_w)) w = std::max(Find(n, "#m"), Find(n, "#x"));
      auto e = EncodeOpcode(m, mi.mode);
      int g = e ? int(*e) : -1;
      c.step();
      if (g != w) c.fail(n + " " + mi.text, mc::Fmt("%s in mode %s has opcode %d, expected %d", n.c_str(), mi.text, g, w));
      if (IsLegalCombination(m, mi.mode) != (w >= 0)) c.fail(n + " legal " + mi.text, mc::Fmt("%s in mode %s: legality is wrong", n.c_str(), mi.text));
    }
    char width = isa::Width(n);
    StatusFlagUsed f = FlagControllingInstructionSize(m);
    if (f != (width == 'm' ? kUsesMFlag : width == 'x' ? kUsesXFlag : kNotVariable)) c.fail("width of " + n, "the flag giving the data width of " + n + " is wrong");
    if (ImmediateArgumentUsesMBit(m) != (Find(real, "#m") >= 0)) c.fail("m immediate of " + n, "whether the immediate of " + n + " follows m is wrong");
    if (ImmediateArgumentUsesXBit(m) != (Find(real, "#x") >= 0)) c.fail("x immediate of " + n, "whether the immediate of " + n + " follows x is wrong");
    if (TakesLongOffsetArgument(m) != (Find(n, "rl") >= 0)) c.fail("long offset of " + n, "whether " + n + " takes a long offset is wrong");
    if (TakesOffsetArgument(m) != (Find(n, "rl") >= 0 || Find(n, "r") >= 0)) c.fail("offset of " + n, "whether " + n + " takes an offset is wrong");
    bool bad = false;
    auto one = [&](SyntacticAddressingMode s, const Arg* a, const Arg* b) {
      auto byte = [](const Arg* x) { return x && (x->w == 1 || (x->w == 0 && x->known && x->v >= -128 && x->v <= 255)); };
      std::string want = Form(n, s, a ? a->w : 0, a && a->known, a ? a->v : 0, a && a->name, byte(a) && byte(b));
      ExpressionOrNull null;
      auto r = DeduceMode(m, s, a ? static_cast<const Expression&>(a->e) : null, b ? static_cast<const Expression&>(b->e) : null);
      c.step();
      std::string got = r.ok() ? isa::Mode(*r).text : "";
      c.state(mc::HashStr(n + "/" + want, s * 8 + (a ? a->w : 7)));
      c.outcome(want.empty() ? "refused form" : "accepted form");
      if (got != want && !bad) {
        bad = true;
        std::string what = n + " " + ToString(s) + (a ? " " + a->text : "") + (b ? " and " + b->text : "");
        c.fail("form " + what, what + " selects mode '" + got + "', expected '" + want + "'");
      }
    };
    one(SA_imp, nullptr, nullptr);
    one(SA_acc, nullptr, nullptr);
    for (int s = SA_imm; s <= SA_stk_y; ++s) for (auto& a : args) one(SyntacticAddressingMode(s), &a, nullptr);
    for (auto& a : args) for (auto& b : args) one(SA_mov, &a, &b);
    c.trace();
  }
  // Consistency with what is known about the flags, for every instruction, mode, suffix and flag state.
  for (auto& nv : vf::kOps) {
    std::string n = nv.first;
    c.part("flags");
    if (!c.want()) continue;
    c.describe([&] { return "instruction " + n + ": every mode and suffix under every flag knowledge"; });
    std::string real = n == "add" ? "adc" : n == "sub" ? "sbc" : n;
    char imm = Find(real, "#m") >= 0 ? 'm' : Find(real, "#x") >= 0 ? 'x' : 0, width = isa::Width(n);
    bool bad = false;
    for (auto& mi : isa::kModes) {
      bool sentinel = mi.mode == A_imm_fm || mi.mode == A_imm_fx, by_flag = sentinel || (imm && (mi.mode == A_imm_b || mi.mode == A_imm_w));
      bool legal = Find(real, mi.text) >= 0 || (by_flag && imm && !sentinel);
      for (int suf = 0; suf < 3; ++suf)
        for (int e = 0; e < 4; ++e)
          for (int mm = 0; mm < 4; ++mm)
            for (int xx = 0; xx < 4; ++xx) {
              StatusFlags fl{BitState(e), BitState(mm), BitState(xx)};
              Instruction i;
              i.mnemonic = Mnemonic(nv.second);
              i.suffix = suf == 0 ? S_none : suf == 1 ? S_b : S_w;
              i.addressing_mode = mi.mode;
              i.arg1 = std::make_unique<Literal>(1);
              i.arg2 = std::make_unique<Literal>(1);
              int em = fl.MBit() == B_on ? 1 : fl.MBit() == B_off ? 2 : 0, ex = fl.XBit() == B_on ? 1 : fl.XBit() == B_off ? 2 : 0;  // known width in bytes
              bool ok = legal;
              if (suf) { int k = width == 'm' ? em : ex; if (!width || (k && k != suf)) ok = false; }
              int kimm = mi.mode == A_imm_fm ? em : mi.mode == A_imm_fx ? ex : imm == 'm' ? em : ex;
              if (by_flag && (!kimm || (mi.mode == A_imm_b && kimm != 1) || (mi.mode == A_imm_w && kimm != 2))) ok = false;
              bool got = i.CheckConsistency(fl).ok();
              c.step();
              std::string what = mc::Fmt("%s%s mode %s with e=%d m=%d x=%d", n.c_str(), suf == 0 ? "" : suf == 1 ? ".b" : ".w", mi.text, e, fl.MBit(), fl.XBit());
              if (got != ok && !bad) { bad = true; c.fail("consistency " + what, what + (got ? " is accepted" : " is refused")); }
              c.outcome(ok ? "consistent" : "inconsistent");
              auto fx = i.FixAddressingMode(fl);
              bool fok = !sentinel || kimm;
              AddressingMode fm = sentinel && kimm ? (kimm == 1 ? A_imm_b : A_imm_w) : mi.mode;
              if ((fx.ok() != fok || (fok && i.addressing_mode != fm)) && !bad) { bad = true; c.fail("fixing " + what, what + ": the mode chosen from the flags is wrong"); }
              if (fok && legal) {
                int size = 1 + (isa::Mode(fm).args) + (n != real);
                if (i.SerializedSize() != size && !bad) { bad = true; c.fail("size " + what, mc::Fmt("%s has size %d, expected %d", what.c_str(), i.SerializedSize(), size)); }
              }
            }
    }
    c.trace();
  }
}
MC_MAIN((mc::Check{.property = "P13", .level = "model_checking",
  .rule = "all 256 opcodes; every instruction x every mode; every instruction x every written form x an operand menu covering each numeric type, range edges, names and expressions; every instruction x mode x suffix x all states of knowledge of e, m and x. Oracle: the instruction matrix of the data sheet. A state is a distinct (instruction, form, operand width, chosen mode)",
  .bounds_quick = "complete over the stated sets: 95 names, 27 modes, 14 forms, 132 operands (pairs for block moves), 3 suffixes, 64 flag states", .bounds_thorough = "as quick", .run = Run}))
