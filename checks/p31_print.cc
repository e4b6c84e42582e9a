// P31: a printed statement reads back as the same statement.
#include "checks/form.h"
#include "lib/mc.h"
#include "nsasm/assembler.h"
using namespace nsasm;

struct Parsed { bool ok = false; std::vector<ParsedLabel> labels; std::vector<Statement> st; std::string why; };
static Parsed Read(const std::string& text) {
  Parsed p;
  auto t = Tokenize(text, Location());
  if (!t.ok()) { p.why = t.error().ToString(); return p; }
  auto r = Parse(*t);
  if (!r.ok()) { p.why = r.error().ToString(); return p; }
  p.ok = true;
  for (auto& e : *r)
    if (auto* l = absl::get_if<ParsedLabel>(&e)) p.labels.push_back(*l); else p.st.push_back(std::move(absl::get<Statement>(e)));
  return p;
}
struct Names : LookupContext {
  ErrorOr<int> Lookup(const FullIdentifier& id) const override {
    std::string n = id.ToString();
    return int(mc::HashStr(n, 1) & 0x7fffff);
  }
};
static bool SameFlags(const StatusFlags& a, const StatusFlags& b) { return a == b; }
static bool SameConv(const ReturnConvention& a, const ReturnConvention& b) {
  if (a.IsDefault() != b.IsDefault() || a.IsExitCall() != b.IsExitCall()) return false;
  auto x = a.YieldFlags(), y = b.YieldFlags();
  return x.has_value() == y.has_value() && (!x || SameFlags(*x, *y));
}
static bool SameArg(const ExpressionOrNull& a, const ExpressionOrNull& b) {
  if (bool(a) != bool(b)) return false;
  if (!a) return true;
  auto x = a.Evaluate(Names()), y = b.Evaluate(Names());
  return x.ok() == y.ok() && (!x.ok() || *x == *y) && a.Type() == b.Type() && a.RequiresLookup() == b.RequiresLookup() && a.SimpleIdentifier() == b.SimpleIdentifier();
}
static bool Same(const Statement& a, const Statement& b) {
  auto *i = a.Instruction(), *j = b.Instruction();
  auto *d = a.Directive(), *e = b.Directive();
  if (!i != !j || !d != !e) return false;
  if (i) return i->mnemonic == j->mnemonic && i->suffix == j->suffix && i->addressing_mode == j->addressing_mode && SameArg(i->arg1, j->arg1) && SameArg(i->arg2, j->arg2) && SameConv(i->return_convention, j->return_convention);
  if (d->name != e->name || d->list_argument.size() != e->list_argument.size() || !SameFlags(d->flag_state_argument, e->flag_state_argument) || !SameConv(d->return_convention_argument, e->return_convention_argument) || !SameArg(d->argument, e->argument)) return false;
  for (size_t k = 0; k < d->list_argument.size(); ++k) if (!SameArg(d->list_argument[k], e->list_argument[k])) return false;
  return true;
}
struct Count { uint64_t n = 0, ok = 0, refused = 0; };
static void One(mc::Ctx& c, const std::string& text, Count* k, bool must = false) {
  ++k->n;
  Parsed a = Read(text);
  auto fail = [&](const std::string& why) { c.fail("line " + text, "[" + text + "]: " + why); };
  if (!a.ok) { ++k->refused; if (must) fail("is not accepted: " + a.why); return; }
  ++k->ok;
  std::string out;
  for (auto& l : a.labels) out += l.ToString() + ": ";
  for (size_t i = 0; i < a.st.size(); ++i) out += (i ? " : " : "") + a.st[i].ToString();
  Parsed b = Read(out);
  if (!b.ok) return fail("is printed as [" + out + "], which is not accepted: " + b.why);
  if (b.st.size() != a.st.size() || b.labels.size() != a.labels.size()) return fail("is printed as [" + out + "], which has other statements or labels");
  for (size_t i = 0; i < a.st.size(); ++i) if (!Same(a.st[i], b.st[i])) return fail("is printed as [" + out + "], which means something else");
  for (size_t i = 0; i < a.labels.size(); ++i)
    if (a.labels[i].ToString() != b.labels[i].ToString() || a.labels[i].IsExported() != b.labels[i].IsExported() || a.labels[i].Identifier() != b.labels[i].Identifier() || a.labels[i].IsPlusOrMinus() != b.labels[i].IsPlusOrMinus())
      return fail("is printed as [" + out + "], which has another label");
}
static const char* kModes31[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};
static std::string StateName(BitState e, BitState m, BitState x, BitState cc) { return mc::Fmt("e=%d m=%d x=%d c=%d", e, m, x, cc); }
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  std::vector<std::string> vals = {"$00", "$7f", "$80", "$ff", "$0000", "$00ff", "$8000", "$ffff", "$000000", "$00ffff", "$12ffff", "$ffffff", "0", "5", "255", "256", "65535", "70000", "%1", "%10000000", "%111111111", "name", "@name", "n::name", "@n::name", "::name", "@::name", "x1", "ab_9"};
  if (t) {
    for (int w : {2, 4, 6}) for (int b = 0; b < w * 4; ++b) { vals.push_back(mc::Fmt("$%0*x", w, 1 << b)); vals.push_back(mc::Fmt("$%0*x", w, (1 << b) - 1)); }
    for (int b = 0; b < 24; ++b) vals.push_back(mc::Fmt("%d", (1 << b) + 1));
  }
  const std::vector<std::string> forms = {"#?", "?", "?, X", "?, Y", "?, S", "(?)", "(?), Y", "(?, X)", "(?, S), Y", "[?]", "[?], Y"};
  std::vector<std::string> conv = {"", " noreturn"};
  for (auto* m : kModes31) conv.push_back(std::string(" yields ") + m);
  for (auto& n : vf::kOps) {
    c.part("instructions");
    if (!c.want()) continue;
    c.describe([&] { return std::string("every written form of ") + n.first; });
    Count k;
    for (const char* suf : {"", ".b", ".w"}) {
      std::string op = std::string(n.first) + suf;
      One(c, op, &k);
      One(c, op + " A", &k);
      for (auto& v : vals) {
        for (auto& f : forms) {
          std::string a = f;
          a.replace(a.find('?'), 1, v);
          for (auto& r : conv) if (r.empty() || n.first[0] == 'j') One(c, op + " " + a + r, &k);
        }
        if (n.first[0] == 'm') for (auto& w : vals) One(c, op + " #" + v + ", #" + w, &k);
      }
    }
    c.step(k.n); c.trace(k.ok); c.outcome("lines printed and read back", k.ok); c.outcome("not lines of the language", k.refused);
    c.state(mc::HashStr(n.first, 31));
  }
  for (auto* d : {".db", ".dw", ".dl", ".equ", ".org", ".module", ".begin", ".end", ".halt", ".entry", ".mode", ".remote", "{", "}"}) {
    c.part("directives");
    if (!c.want()) continue;
    c.describe([&] { return std::string("every written form of ") + d; });
    Count k;
    std::string op = d;
    One(c, op, &k);
    for (auto& v : vals) {
      One(c, op + " " + v, &k);
      for (auto& w : vals) { One(c, op + " " + v + ", " + w, &k); if (d[1] == 'd') for (auto& u : {"$12", "$1234", "name", "@n::name"}) One(c, op + " " + u + ", " + v + ", " + w, &k); }
      for (auto* m : kModes31) for (auto& r : conv) One(c, op + " " + v + " " + m + r, &k, op == ".remote");
    }
    for (auto* m : kModes31) for (auto& r : conv) One(c, op + " " + m + r, &k, op == ".entry");
    c.step(k.n); c.trace(k.ok); c.outcome("lines printed and read back", k.ok); c.outcome("not lines of the language", k.refused);
    c.state(mc::HashStr(d, 31));
  }
  c.part("labels");
  if (c.want()) {
    c.describe([] { return std::string("labels before statements, and several statements in a line"); });
    Count k;
    const std::vector<std::string> ls = {"", "a1", "export a1", "a1:", "export a1:", "a1: b1", "export a1: export b1:", "a1: export b1"};
    const std::vector<std::string> ss = {"", "nop", "lda #$12", ".db $12, name", "{", "}", "jsr name yields m8x16", ".remote name m8 yields x16", "bne a1", ".entry unk noreturn"};
    for (auto& l : ls) for (auto& a : ss) { One(c, l + " " + a, &k); for (auto& b : ss) One(c, l + " " + a + " : " + b, &k); }
    c.step(k.n); c.trace(k.ok); c.outcome("lines printed and read back", k.ok); c.outcome("not lines of the language", k.refused);
  }
  for (int n : {4, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000}) {
    c.part("long lines");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("lists of %d items, names of %d letters, %d labels and %d statements on a line", n, n, n, n); });
    Count k;
    for (auto* d : {".db", ".dw", ".dl"})
      for (size_t from = 0; from < std::min<size_t>(vals.size(), 29); ++from) {
        std::string l = d;
        for (int i = 0; i < n; ++i) l += (i ? ", " : " ") + vals[(from + i) % std::min<size_t>(vals.size(), 29)];
        One(c, l, &k, true);
      }
    const std::string name = std::string(n - 1, 'q') + "z";
    for (auto& f : {"lda.w %s", "jsr @%s yields m8x16", "jmp %s", "bne %s", ".dw %s, m::%s, %s::m", ".equ %s", ".module %s", ".remote %s m8x8", "%s: nop", "export %s: nop", "lda.b #%s", "lda (%s), Y"}) {
      std::string l = f;
      for (size_t at; (at = l.find("%s")) != l.npos;) l.replace(at, 2, name);
      One(c, l, &k);
    }
    std::string labels, statements;
    for (int i = 0; i < n; ++i) { labels += mc::Fmt("%sn%d: ", i % 3 ? "" : "export ", i); statements += mc::Fmt("%slda.%c #$%02x", i ? " : " : "", "bw"[i % 2], i & 255); }
    One(c, labels + "nop", &k);
    One(c, statements, &k);
    One(c, labels + statements, &k);
    c.step(k.n); c.trace(k.ok); c.outcome("lines printed and read back", k.ok); c.outcome("not lines of the language", k.refused);
  }
  c.part("flag states");
  if (c.want()) {
    c.describe([] { return std::string("every flag state, printed alone, after .entry and as a return convention"); });
    uint64_t n = 0;
    for (int i = 0; i < 256; ++i) {
      BitState e = BitState(i & 3), m = BitState(i >> 2 & 3), x = BitState(i >> 4 & 3), cc = BitState(i >> 6);
      StatusFlags f(e, m, x, cc);
      auto back = StatusFlags::FromName(f.ToName());
      ++n;
      if (!back) { c.fail("flags " + StateName(e, m, x, cc), StateName(e, m, x, cc) + " is printed as " + f.ToName() + ", which is not a mode"); continue; }
      auto known = [](BitState b) { return b == B_on || b == B_off; };
      auto weaker = [&](BitState a, BitState b) { return known(a) ? (a == b) : true; };  // what is read is true of what was printed
      if (!weaker(back->EBit(), f.EBit()) || !weaker(back->MBit(), f.MBit()) || !weaker(back->XBit(), f.XBit())) c.fail("flags " + StateName(e, m, x, cc), StateName(e, m, x, cc) + " is printed as " + f.ToName() + ", which says something else");
      if (known(e) && (back->EBit() != f.EBit() || (known(f.MBit()) && back->MBit() != f.MBit()) || (known(f.XBit()) && back->XBit() != f.XBit()))) c.fail("flags " + StateName(e, m, x, cc), StateName(e, m, x, cc) + " is printed as " + f.ToName() + ", which says less than a mode can");
      if (back->ToName() != f.ToName()) c.fail("flags " + StateName(e, m, x, cc), f.ToName() + " is read and printed as " + back->ToName());
      Parsed p = Read("jsr name" + ReturnConvention(f).ToSuffixString());
      if (!p.ok || p.st.size() != 1 || !p.st[0].Instruction() || !p.st[0].Instruction()->return_convention.YieldFlags() || !(*p.st[0].Instruction()->return_convention.YieldFlags() == *back))
        c.fail("yields " + StateName(e, m, x, cc), "a return with " + StateName(e, m, x, cc) + " is printed as [" + ReturnConvention(f).ToSuffixString() + "], which does not read back");
    }
    c.step(n * 2); c.trace(n);
  }
}
static const mc::Check kCheck = {
    .property = "P31", .level = "model_checking",
    .rule = "every line is parsed, printed and parsed again by the real code; both results must agree in every part, and operands in value under an assignment of names",
    .bounds_quick = "every instruction with every suffix and written form, about 30 operands (all pairs for block moves), 13 return conventions; every directive with lists of up to 3 and of 21 sizes up to 1000, and all modes; label forms, long names, many labels and statements on a line; all 256 flag states",
    .bounds_thorough = "about 180 operands at every power of two", .run = Run, .chunk = 1, .hang_seconds = 300,
    .assumptions = {"operands are numbers or names; computed operands are printed for people (op+(a, b)) and not covered", "block moves print their operands in the order they are written"}};
MC_MAIN(kCheck)
