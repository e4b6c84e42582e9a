// The language, line by line: what a line of tokens means, written as a reference parser.
#ifndef VERIF_LANG_H_
#define VERIF_LANG_H_
#include <climits>
#include "checks/form.h"
#include "checks/names.h"
#include "lib/mc.h"
#include "nsasm/parse.h"
namespace lang {
using namespace nsasm;
// The value a name is given: any will do, but different names should differ.
inline int NameValue(const std::string& module, bool qualified, const std::string& name) {
  return int(mc::HashStr((qualified ? module + "::" : "") + name, 7) & 0x7fffff);
}
struct Val {
  bool ok = true;        // it has a value
  bool inexact = false;  // some part does not fit in 32 bits: not compared
  long long v = 0;
  int w = 0;             // width in bytes, 0 unknown
  bool sign = false, names = false;
  std::string simple;
  bool known() const { return ok && !names; }
};
struct Item {
  int kind = 0;  // 0 label, 1 instruction, 2 directive
  std::string label;
  bool exported = false;
  int name = 0, suffix = 0;
  std::string mode;              // notation of isa.h
  bool mode_inexact = false;     // the mode depends on a value that is not compared
  std::vector<Val> args, list;   // operands
  std::string flags;             // mode name
  int conv = 0;                  // 0 none, 1 yields, 2 noreturn
  std::string yields;
};
inline bool IsModeName(std::string s) {
  s = vf::Lower(s);
  for (auto* m : {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"}) if (s == m) return true;
  return false;
}
class Reader {
 public:
  Reader(const std::vector<Token>& t) : t_(t), n_(t.size() - 1) {}
  bool Line(std::vector<Item>* out) {
    while (i_ < n_) {
      bool exported = Is(P_export);
      if (exported && (++i_ >= n_ || !Word())) return false;
      if (Word()) {
        Item it;
        it.label = *Word();
        it.exported = exported;
        out->push_back(it);
        ++i_;
        if (Is(':')) { ++i_; continue; }
      }
      if (i_ >= n_) break;
      if (Is(':')) { ++i_; continue; }
      Item it;
      if (Is('{') || Is('}')) { it.kind = 2; it.name = Is('{') ? D_begin : D_end; ++i_; out->push_back(it); continue; }
      if (auto* d = t_[i_].DirectiveName()) { it.kind = 2; it.name = *d; ++i_; if (!Directive(&it)) return false; }
      else if (auto* m = t_[i_].Mnemonic()) { it.kind = 1; it.name = *m; ++i_; if (!Instruction(&it)) return false; }
      else return false;
      if (!End()) return false;
      ++i_;
      out->push_back(it);
    }
    return true;
  }

 private:
  bool Is(char p) const { return i_ < n_ && t_[i_].Punctuation() && int(*t_[i_].Punctuation()) == int(p); }
  bool Is(Punctuation p) const { return i_ < n_ && t_[i_].Punctuation() && *t_[i_].Punctuation() == p; }
  bool Eat(char p) { if (!Is(p)) return false; ++i_; return true; }
  const std::string* Word() const { return i_ < n_ ? t_[i_].Identifier() : nullptr; }
  bool End() const { return i_ >= n_ || Is(':'); }
  bool EndOrConv() const { return End() || Is(P_yields) || Is(P_noreturn); }
  bool Flags(std::string* f) { if (!Word() || !IsModeName(*Word())) return false; *f = *Word(); ++i_; return true; }
  bool Conv(Item* it) {
    if (Is(P_noreturn)) { ++i_; it->conv = 2; return true; }
    if (Is(P_yields)) { ++i_; it->conv = 1; return Flags(&it->yields); }
    return true;
  }
  bool Directive(Item* it) {
    Val v;
    switch (DirectiveName(it->name)) {
      case D_begin: case D_end: case D_halt: return true;
      case D_equ: if (!Sum(&v)) return false; it->args = {v}; return true;
      case D_org: if (!Sum(&v) || v.names) return false; it->args = {v}; return true;
      case D_module: if (!Sum(&v) || v.simple.empty()) return false; it->args = {v}; return true;
      case D_db: case D_dw: case D_dl:
        do { v = Val(); if (!Sum(&v)) return false; it->list.push_back(v); } while (Eat(','));
        return true;
      case D_mode: return Flags(&it->flags);
      case D_remote: if (!Sum(&v)) return false; it->args = {v};  // and then as .entry
      case D_entry: return Flags(&it->flags) && Conv(it);
    }
    return false;
  }
  bool Instruction(Item* it) {
    if (i_ < n_ && t_[i_].Suffix()) it->suffix = *t_[i_++].Suffix();
    std::string n = isa::NameOf(Mnemonic(it->name));
    SyntacticAddressingMode s;
    Val a, b;
    if (!Operand(&s, &a, &b) || !EndOrConv()) return false;
    if (!Conv(it)) return false;
    if (it->conv && n != "jsr" && n != "jsl") return false;
    if (it->suffix && !isa::Width(n)) return false;
    auto byte = [](const Val& v) { return v.w == 1 || (v.w == 0 && v.known() && v.v >= -128 && v.v <= 255); };
    if (a.inexact || b.inexact) it->mode_inexact = true;
    it->mode = isa::Form(n, s, a.w, a.known(), a.v, !a.simple.empty(), byte(a) && byte(b));
    if (it->mode_inexact) return true;
    if (it->mode.empty()) return false;
    if (s != SA_imp && s != SA_acc) it->args.push_back(a);
    if (s == SA_mov) it->args.push_back(b);
    return true;
  }
  bool Operand(SyntacticAddressingMode* s, Val* a, Val* b) {
    *s = SA_imp;
    if (EndOrConv()) return true;
    if (Eat('A')) { *s = SA_acc; return true; }
    if (Eat('#')) {
      *s = SA_imm;
      if (!Sum(a)) return false;
      if (!Eat(',')) return true;
      *s = SA_mov;
      return Eat('#') && Sum(b);
    }
    if (Eat('[')) {
      *s = SA_lng;
      if (!Sum(a) || !Eat(']')) return false;
      if (!Eat(',')) return true;
      *s = SA_lng_y;
      return Eat('Y');
    }
    size_t start = i_;
    if (Eat('(')) {  // indirect where it can be, else the beginning of an expression
      if (!Sum(a)) return false;
      if (Eat(',')) {
        if (Eat('X')) { *s = SA_ind_x; return Eat(')'); }
        *s = SA_stk_y;
        return Eat('S') && Eat(')') && Eat(',') && Eat('Y');
      }
      if (!Eat(')')) return false;
      *s = SA_ind;
      if (EndOrConv()) return true;
      *s = SA_ind_y;
      if (Eat(',')) return Eat('Y');
      i_ = start;
      *a = Val();
    }
    *s = SA_dir;
    if (!Sum(a)) return false;
    if (!Eat(',')) return true;
    if (Eat('X')) { *s = SA_dir_x; return true; }
    if (Eat('Y')) { *s = SA_dir_y; return true; }
    *s = SA_stk;
    return Eat('S');
  }
  // Expressions.
  static void Fit(Val* r) { if (r->v > INT_MAX || r->v < INT_MIN) { r->inexact = true; r->v = 0; } }
  static void Join(Val* a, const Val& b) {
    if (!b.w) return;
    if (!a->w) { a->w = b.w; a->sign = b.sign; return; }
    a->w = std::max(a->w, b.w); a->sign |= b.sign;
  }
  void Apply(char op, Val* l, const Val& r) {
    bool ok = l->ok && r.ok, inexact = l->inexact || r.inexact;
    Join(l, r);
    l->names |= r.names;
    l->simple.clear();
    l->inexact = inexact; l->ok = ok;
    if (op == '/' && r.v == 0) { if (!r.inexact) l->ok = false; l->v = 0; return; }
    l->v = op == '+' ? l->v + r.v : op == '-' ? l->v - r.v : op == '*' ? l->v * r.v : l->v / r.v;
    Fit(l);
  }
  bool Sum(Val* v) {
    if (!Product(v)) return false;
    while (Is('+') || Is('-')) { char op = Is('+') ? '+' : '-'; ++i_; Val r; if (!Product(&r)) return false; Apply(op, v, r); }
    return true;
  }
  bool Product(Val* v) {
    if (!Unary(v)) return false;
    while (Is('*') || Is('/')) { char op = Is('*') ? '*' : '/'; ++i_; Val r; if (!Unary(&r)) return false; Apply(op, v, r); }
    return true;
  }
  bool Unary(Val* v) {
    for (char op : {'-', '<', '>', '^'})
      if (Eat(op)) {
        if (!Unary(v)) return false;
        v->simple.clear();
        if (op == '-') { v->v = -v->v; if (v->w) v->sign = true; Fit(v); return true; }
        unsigned u = unsigned(int(v->v));
        v->v = (op == '<' ? u : op == '>' ? u >> 8 : u >> 16) & 0xff;
        v->w = 1; v->sign = false;
        return true;
      }
    if (Eat('(')) return Sum(v) && Eat(')');
    if (i_ < n_ && t_[i_].Literal()) {
      v->v = *t_[i_].Literal();
      switch (t_[i_].Type()) { case T_byte: v->w = 1; break; case T_word: v->w = 2; break; case T_long: v->w = 3; break; default: break; }
      ++i_;
      return true;
    }
    bool at = Eat('@');
    v->w = at ? 3 : 2;
    v->names = true;
    if (Is(P_scope)) { ++i_; if (!Word()) return false; v->v = NameValue("", true, *Word()); ++i_; return true; }
    if (!Word()) return false;
    std::string first = *Word();
    ++i_;
    if (Is(P_scope)) { ++i_; if (!Word()) return false; v->v = NameValue(first, true, *Word()); ++i_; return true; }
    v->v = NameValue("", false, first);
    v->simple = first;
    return true;
  }
  const std::vector<Token>& t_;
  size_t i_ = 0, n_;
};
// What the line means; false if it is not a line of the language.
inline bool Read(const std::vector<Token>& t, std::vector<Item>* out) { return Reader(t).Line(out); }

struct Values : LookupContext {
  ErrorOr<int> Lookup(const FullIdentifier& id) const override { return NameValue(id.Qualified() ? id.Module() : "", id.Qualified(), id.Identifier()); }
};
inline int TypeOf(NumericType t) { switch (t) { case T_byte: return 1; case T_word: return 2; case T_long: return 3; case T_signed_byte: return 17; case T_signed_word: return 18; case T_signed_long: return 19; default: return 0; } }
// "" if the expression is what the reference says.
inline std::string CompareValue(const Val& w, const ExpressionOrNull& e) {
  if (!e) return "an operand is missing";
  if (e.RequiresLookup() != w.names) return "an operand needs names or does not";
  if (e.SimpleIdentifier().value_or("") != w.simple) return "an operand has the simple name '" + e.SimpleIdentifier().value_or("") + "'";
  if (TypeOf(e.Type()) != (w.w | (w.sign ? 16 : 0))) return mc::Fmt("an operand has type %d instead of %d", TypeOf(e.Type()), w.w | (w.sign ? 16 : 0));
  if (w.inexact) return "";
  auto v = e.Evaluate(Values());
  if (v.ok() != w.ok) return std::string("an operand has ") + (v.ok() ? "a" : "no") + " value";
  if (v.ok() && *v != w.v) return mc::Fmt("an operand is %d instead of %lld", *v, w.v);
  return "";
}
inline std::string CompareConv(const Item& w, const ReturnConvention& r) {
  int got = r.IsDefault() ? 0 : r.IsExitCall() ? 2 : 1;
  if (got != w.conv || (got == 1) != r.YieldFlags().has_value()) return mc::Fmt("the return convention is of kind %d instead of %d", got, w.conv);
  if (got == 1 && !(*r.YieldFlags() == *StatusFlags::FromName(w.yields))) return "it yields " + r.YieldFlags()->ToName() + " instead of " + w.yields;
  return "";
}
typedef std::vector<absl::variant<Statement, ParsedLabel>> Parsed;
// "" if the line was read as the reference reads it.
inline std::string Compare(const std::vector<Item>& want, const Parsed& got) {
  if (want.size() != got.size()) return mc::Fmt("it has %d parts instead of %d", int(got.size()), int(want.size()));
  for (size_t i = 0; i < got.size(); ++i) {
    auto& w = want[i];
    std::string e, at = mc::Fmt("part %d: ", int(i + 1));
    if (auto* l = absl::get_if<ParsedLabel>(&got[i])) {
      if (w.kind || l->IsPlusOrMinus() || l->IsExported() != w.exported || l->Identifier() != w.label) return at + "it is the label " + l->ToString();
      continue;
    }
    auto& s = absl::get<Statement>(got[i]);
    if (auto* x = s.Instruction()) {
      if (w.kind != 1 || x->mnemonic != w.name) return at + "it is the instruction " + std::string(ToString(x->mnemonic));
      if (int(x->suffix) != w.suffix) return at + "it has another suffix";
      if (!(e = CompareConv(w, x->return_convention)).empty()) return at + e;
      if (w.mode_inexact) continue;
      if (x->addressing_mode != isa::Mode(w.mode).mode) return at + "its addressing mode is not " + w.mode;
      if ((w.args.size() < 1 && x->arg1) || (w.args.size() < 2 && x->arg2)) return at + "it has an operand that is not written";
      if (w.args.size() > 0 && !(e = CompareValue(w.args[0], x->arg1)).empty()) return at + e;
      if (w.args.size() > 1 && !(e = CompareValue(w.args[1], x->arg2)).empty()) return at + e;
      continue;
    }
    auto* d = s.Directive();
    if (w.kind != 2 || !d || d->name != w.name) return at + "it is another directive";
    if (w.args.empty() && d->argument) return at + "it has an operand that is not written";
    if (!w.args.empty() && !(e = CompareValue(w.args[0], d->argument)).empty()) return at + e;
    if (d->list_argument.size() != w.list.size()) return at + mc::Fmt("its list has %d items instead of %d", int(d->list_argument.size()), int(w.list.size()));
    for (size_t k = 0; k < w.list.size(); ++k) if (!(e = CompareValue(w.list[k], d->list_argument[k])).empty()) return at + mc::Fmt("item %d: ", int(k)) + e;
    if (!w.flags.empty() && !(d->flag_state_argument == *StatusFlags::FromName(w.flags))) return at + "its mode is " + d->flag_state_argument.ToName();
    if (w.flags.empty() && !(d->flag_state_argument == StatusFlags())) return at + "it has a mode that is not written";
    if (!(e = CompareConv(w, d->return_convention_argument)).empty()) return at + e;
  }
  return "";
}
}  // namespace lang
#endif
