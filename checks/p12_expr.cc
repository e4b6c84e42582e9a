// P12: which texts are expressions, and what each is worth.
#include <functional>
#include <memory>
#include "lib/mc.h"
#include "nsasm/parse.h"
using namespace nsasm;

namespace ref {
typedef std::set<std::pair<int, std::string>> Names;  // scope: 0 none, 1 module m, 2 global; with name
struct Val {
  bool ok = true;       // false: evaluation is an error
  bool inexact = false; // some intermediate value does not fit in 32 bits: only acceptance is compared
  long long v = 0;
  int type = 0;         // width in bytes (0 unknown), sign in bit 4
  Names names;
  std::string simple;   // name if a plain unqualified identifier
};
static bool g_env_ok = true;
static Val Fit(Val r) { if (r.v > INT32_MAX || r.v < INT32_MIN) { r.inexact = true; r.v = 0; } return r; }
static int Join(int a, int b) { if (!a) return b; if (!b) return a; return std::max(a & 15, b & 15) | ((a | b) & 16); }
struct P {
  const std::vector<std::string>& t;
  size_t i = 0;
  bool bad = false;
  const std::string& cur() { static const std::string end = "$end"; return i < t.size() ? t[i] : end; }
  static bool word(const std::string& s) { return s == "foo" || s == "m" || s == "u" || Numbered(s) >= 0; }
  static int Numbered(const std::string& s) { return s.size() > 1 && s[0] == 'n' && isdigit(s[1]) ? atoi(s.c_str() + 1) : -1; }
  Val atom() {
    Val r;
    std::string s = cur();
    if (s == "(") { ++i; r = bin(0); if (cur() != ")") bad = true; else ++i; return r; }
    if (s == "$end" || bad) { bad = true; return r; }
    if (s[0] == '$' || s[0] == '%' || isdigit(s[0])) {
      ++i;
      if (isdigit(s[0])) r.v = atoll(s.c_str());
      else { int base = s[0] == '$' ? 16 : 2; size_t n = s.size() - 1, per = base == 16 ? 2 : 8; r.v = strtoll(s.c_str() + 1, 0, base); r.type = n <= per ? 1 : n <= 2 * per ? 2 : 3; }
      return r;
    }
    int width = 2;
    bool at = false;
    if (s == "@") { ++i; at = true; width = 3; s = cur(); }
    (void)at;
    r.type = width;
    int scope = 0;
    std::string name;
    if (s == "::") { ++i; if (!word(cur())) { bad = true; return r; } scope = 2; name = cur(); ++i; }
    else if (word(s)) {
      ++i; name = s;
      if (cur() == "::") { ++i; if (!word(cur())) { bad = true; return r; } scope = s == "m" ? 1 : 3; if (s == "foo") scope = 4; name = cur(); ++i; }
    } else { bad = true; return r; }
    r.names.insert({scope, name});
    if (!scope) r.simple = name;
    if (scope == 0 && name == "foo") r.v = 0x1234; else if (scope == 1 && name == "foo") r.v = 0x8fedcb; else if (scope == 2 && name == "foo") r.v = -3; else if (scope == 0 && name == "m") r.v = 0; else if (scope == 0 && Numbered(name) >= 0) r.v = 3 * Numbered(name) + 1; else if (scope == 1 && Numbered(name) >= 0) r.v = 5 * Numbered(name) + 2; else r.ok = false;
    return r;
  }
  Val unary() {
    std::string s = cur();
    if (s == "-" || s == "<" || s == ">" || s == "^") {
      ++i;
      Val r = unary();
      r.simple.clear();
      unsigned u = (unsigned)(int)r.v;
      if (s == "-") { r.v = -r.v; if (r.type) r.type |= 16; return Fit(r); }
      r.v = (s == "<" ? u : s == ">" ? u >> 8 : u >> 16) & 0xff;
      r.type = 1;
      return r;
    }
    return atom();
  }
  Val bin(int level) {
    Val l = level ? unary() : bin(1);
    while (!bad && (level ? cur() == "*" || cur() == "/" : cur() == "+" || cur() == "-")) {
      char op = cur()[0];
      ++i;
      Val r = level ? unary() : bin(1), o;
      o.ok = l.ok && r.ok;
      o.inexact = l.inexact || r.inexact;
      o.type = Join(l.type, r.type);
      o.names = l.names;
      o.names.insert(r.names.begin(), r.names.end());
      if (op == '/' && r.v == 0) { if (r.inexact) o.inexact = true; else o.ok = false; }
      else o.v = op == '+' ? l.v + r.v : op == '-' ? l.v - r.v : op == '*' ? l.v * r.v : l.v / r.v;
      l = Fit(o);
    }
    return l;
  }
};
}  // namespace ref

struct Env : LookupContext {
  ErrorOr<int> Lookup(const FullIdentifier& id) const override {
    int n = ref::P::Numbered(id.Identifier());
    if (n >= 0 && !id.Qualified()) return 3 * n + 1;
    if (n >= 0 && id.Module() == "m") return 5 * n + 2;
    if (!id.Qualified()) { if (id.Identifier() == "foo") return 0x1234; if (id.Identifier() == "m") return 0; }
    else if (id.Identifier() == "foo") { if (id.Module() == "m") return 0x8fedcb; if (id.Module() == "") return -3; }
    return Error("no such name");
  }
};
struct Loc : IsLocalContext {
  int mask;
  static int Kind(const FullIdentifier& id) { return !id.Qualified() ? 0 : id.Module() == "m" ? 1 : id.Module() == "" ? 2 : id.Module() == "u" ? 3 : 4; }
  bool IsLocal(const FullIdentifier& id) const override { return mask >> Kind(id) & 1; }
};
static int TypeOf(NumericType t) { switch (t) { case T_byte: return 1; case T_word: return 2; case T_long: return 3; case T_signed_byte: return 17; case T_signed_word: return 18; case T_signed_long: return 19; default: return 0; } }
static std::string Desc(const ref::Val& v) { return v.inexact ? std::string("inexact") : v.ok ? mc::Fmt("%lld", v.v) : std::string("error"); }

static const char* Check(mc::Ctx& c, const std::vector<std::string>& t, std::string* why, bool keep) {
  std::string text;
  for (auto& s : t) text += s + " ";
  ref::P p{t};
  ref::Val w = p.bin(0);
  bool accept = !p.bad && p.i == t.size();
  auto e = ParseExpression(text);
  c.step();
  if (e.ok() != accept) { *why = "'" + text + "' is " + (e.ok() ? "accepted" : "refused"); return "bad"; }
  if (!accept) return "refused";
  if (keep) c.state(mc::HashStr(Desc(w), w.type * 64 + w.names.size()));
  Env env;
  NullLookupContext none;
  auto same = [&](const Expression& x, const char* what) {
    auto v = x.Evaluate(env);
    if (!w.inexact && (v.ok() != w.ok || (w.ok && *v != w.v))) { *why = "'" + text + "' " + what + " is worth " + (v.ok() ? std::to_string(*v) : "an error") + ", expected " + Desc(w); return false; }
    if (TypeOf(x.Type()) != w.type) { *why = mc::Fmt("'%s' %s has type %d, expected %d", text.c_str(), what, TypeOf(x.Type()), w.type); return false; }
    auto n = x.Evaluate(none);
    if (!w.names.empty() ? n.ok() : (!w.inexact && (n.ok() != w.ok || (w.ok && *n != w.v)))) { *why = "'" + text + "' " + what + " without names is worth " + (n.ok() ? std::to_string(*n) : "an error"); return false; }
    if (x.RequiresLookup() != !w.names.empty()) { *why = "'" + text + "' " + what + ": wrong answer whether it needs a lookup"; return false; }
    if (x.SimpleIdentifier().value_or("") != w.simple) { *why = "'" + text + "' " + what + ": wrong simple name"; return false; }
    for (int mask : {0, 1, 2, 4, 31}) {
      Loc l;
      l.mask = mask;
      ref::Names got, want;
      for (auto& id : x.ExternalNamesReferenced(l)) got.insert({Loc::Kind(id), id.Identifier()});
      for (auto& nm : w.names) if (!(mask >> nm.first & 1)) want.insert({nm.first == 0 ? 2 : nm.first, nm.second});
      if (got != want) { *why = mc::Fmt("'%s' %s: wrong set of outside names for local kinds %d", text.c_str(), what, mask); return false; }
    }
    return true;
  };
  if (!same(*e, "")) return "bad";
  ExpressionOrNull copy(*e);
  if (!same(copy, "as a copy")) return "bad";
  std::string s = e->ToString();
  ExpressionOrNull moved(std::move(*e)), assigned;
  assigned = copy;
  if (!same(moved, "after a move") || !same(assigned, "assigned")) return "bad";
  if (copy.ToString() != s || moved.ToString() != s || assigned.ToString() != s) { *why = "copies of '" + text + "' print differently"; return "bad"; }
  return w.inexact ? "too large to compare" : w.ok ? "has a value" : "evaluation error";
}
static void Run(mc::Ctx& c) {
  const std::vector<std::string> tok = {"5", "$80", "$fffe", "0", "foo", "m", "::", "@", "(", ")", "+", "-", "*", "/", "<", ">", "^"};
  int depth = c.thorough() ? 7 : 6;
  for (auto& a : tok)
    for (auto& b : tok) {
      c.part("all token sequences");
      if (!c.want()) continue;
      c.describe([&] { return "all sequences of up to " + std::to_string(depth) + " tokens starting " + a + " " + b; });
      std::vector<std::string> t{a};
      std::string why;
      std::map<std::string, uint64_t> count;
      bool good = true;
      auto one = [&] { const char* r = Check(c, t, &why, t.size() <= 5); if (!strcmp(r, "bad")) { good = false; std::string k; for (auto& s : t) k += s + " "; c.fail("expression " + k, why); } else ++count[r]; };
      one();
      t.push_back(b);
      // Extend only prefixes that can still be completed: a prefix is dead once the reference parser fails before its end.
      auto rec = [&](auto& self) -> void {
        if (!good) return;
        one();
        if ((int)t.size() == depth) return;
        ref::P p{t};
        p.bin(0);
        bool dead = p.i < t.size();
        if (dead && (int)t.size() > 4) return;  // every dead sequence of up to 5 tokens is still tried
        for (auto& s : tok) { t.push_back(s); self(self); t.pop_back(); }
      };
      rec(rec);
      for (auto& k : count) c.outcome(k.first, k.second);
      c.trace();
    }
  // Well-formed expressions: every operator arrangement over 4 operands, with one pair of parentheses anywhere.
  const std::vector<std::vector<std::string>> leaf = {{"7"}, {"0"}, {"$ff"}, {"$8000"}, {"$ffffff"}, {"%1"}, {"foo"}, {"m", "::", "foo"}, {"::", "foo"}, {"@", "foo"}, {"@", "m", "::", "foo"}, {"-", "3"}, {"-", "$80"}, {">", "$1234"}, {"^", "m", "::", "foo"}, {"<", "-", "1"}, {"u"}, {"2147483647"}};
  int n = leaf.size();
  for (int x = 0; x < n; ++x)
    for (int y = 0; y < n; ++y) {
      c.part("well-formed");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("all expressions of three (thorough: four) operands starting with operands %d and %d, every operator and parenthesis position", x, y); });
      std::string why;
      bool good = true;
      std::map<std::string, uint64_t> count;
      int last = c.thorough() ? n : 1;
      for (int z = 0; z < n && good; ++z)
        for (int q = 0; q < last && good; ++q)
          for (int ops = 0; ops < (c.thorough() ? 64 : 16) && good; ++ops)
            for (int par = 0; par < 4 && good; ++par) {
              std::vector<std::string> t;
              int num = c.thorough() ? 4 : 3;
              const int leaves[] = {x, y, z, q};
              // par: none; (a b) c d; a (b c) d; a (b c d)
              for (int k = 0; k < num; ++k) {
                if (k) t.push_back(std::string(1, "+-*/"[ops >> (2 * (k - 1)) & 3]));
                if ((par == 1 && k == 0) || (par >= 2 && k == 1)) { if (par == 3) t.push_back("-"); t.push_back("("); }
                t.insert(t.end(), leaf[leaves[k]].begin(), leaf[leaves[k]].end());
                if ((par == 1 && k == 1) || (par == 2 && k == 2) || (par == 3 && k == num - 1)) t.push_back(")");
              }
              const char* r = Check(c, t, &why, false);
              if (!strcmp(r, "bad")) { good = false; std::string k; for (auto& s : t) k += s + " "; c.fail("expression " + k, why); } else ++count[r];
            }
      for (auto& k : count) c.outcome(k.first, k.second);
      c.trace();
    }
  // Long expressions: the operators by turns, operands by turns or a name each, parentheses over growing or all parts.
  const std::vector<std::vector<std::string>> ops = {{"+"}, {"-"}, {"*"}, {"/"}, {"+", "-"}, {"-", "+"}, {"+", "*"}, {"*", "-"}, {"-", "/"}, {"/", "+"}, {"*", "/"}, {"+", "-", "*"}, {"-", "/", "+"}, {"-", "-", "+", "/"}, {"+", "+", "+", "+", "*"}};
  for (int num : {3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 250}) {
    c.part("long");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("expressions of %d operands: %d patterns of operators x operands of one kind, by turns, or a name each x parentheses nested to the left, to the right, in pairs, in the middle", num, int(ops.size())); });
    std::string why;
    std::map<std::string, uint64_t> count;
    for (auto& op : ops)
      for (int kind = 0; kind < 26; ++kind)
        for (int par = 0; par < 5; ++par) {
          std::vector<std::string> t;
          auto operand = [&](int k) -> std::vector<std::string> {
            if (kind < 18) return kind < 17 ? leaf[kind] : leaf[k % 16];
            std::string name = mc::Fmt("n%d", kind & 1 ? k : num - k);
            if (kind < 20) return {name};
            if (kind < 22) return {"m", "::", name};
            if (kind < 24) return k % 2 ? std::vector<std::string>{"m", "::", name} : std::vector<std::string>{name};
            return k == (kind & 1 ? num - 1 : num / 2) ? std::vector<std::string>{"@", name} : std::vector<std::string>{"3"};
          };
          auto append = [&](const std::vector<std::string>& x) { t.insert(t.end(), x.begin(), x.end()); };
          if (par == 1) t.assign(num - 1, "(");
          for (int k = 0; k < num; ++k) {
            if (k) t.push_back(op[(k - 1) % op.size()]);
            if ((par == 2 && k + 1 < num) || (par == 3 && k % 2 == 0 && k + 1 < num) || (par == 4 && k == num / 3)) t.push_back("(");
            append(operand(k));
            if ((par == 1 && k) || (par == 3 && k % 2) || (par == 4 && k == std::max(num / 3, 2 * num / 3))) t.push_back(")");
          }
          if (par == 2) t.insert(t.end(), num - 1, ")");
          const char* r = Check(c, t, &why, false);
          if (!strcmp(r, "bad")) { std::string k; for (auto& x : t) k += x + " "; c.fail("expression " + k.substr(0, 200), why.substr(0, 600)); } else ++count[r];
        }
    for (auto& k : count) c.outcome(k.first, k.second);
    c.trace();
  }
  // Edges of 32-bit division and deep nesting.
  c.part("edges");
  if (c.want()) {
    c.describe([] { return std::string("the most negative number divided by -1, and nesting of 1 to 2000 levels"); });
    std::string why;
    for (std::string s : {"( - 2147483647 - 1 ) / - 1", "( - 2147483647 - 1 ) / ( 0 - 1 )", "- ( - 2147483647 - 1 )", "( - 2147483647 - 1 ) / 1", "( - 2147483647 - 1 ) / 2147483647"}) {
      std::vector<std::string> t;
      size_t p = 0;
      while (p < s.size()) { size_t q = s.find(' ', p); if (q == std::string::npos) q = s.size(); t.push_back(s.substr(p, q - p)); p = q + 1; }
      if (!strcmp(Check(c, t, &why, true), "bad")) c.fail("expression " + s, why);
    }
    for (int d = 1; d <= 2000; d = d * 2 + 1)
      for (const char* un : {"-", "<", "(", ">"}) {
        std::vector<std::string> t(d, un);
        t.push_back("$80");
        if (*un == '(') t.insert(t.end(), d, ")");
        if (!strcmp(Check(c, t, &why, true), "bad")) c.fail(mc::Fmt("nesting %s %d", un, d), why.substr(0, 200));
      }
    c.trace();
  }
}
MC_MAIN((mc::Check{.property = "P12", .level = "model_checking",
  .rule = "every sequence of expression tokens up to a length (past 5 tokens, every continuation of a still valid prefix) and every well-formed expression over an operand menu, against an independent precedence parser and 64-bit evaluator; original, copy, moved and assigned expression are all compared. A state is a distinct (value, type, number of names)",
  .bounds_quick = "17 tokens, length 6; 18 operands, 3 per expression, 4 parenthesis forms; up to 250 operands and names in 15 patterns of operators and 5 of parentheses", .bounds_thorough = "17 tokens, length 7; 18 operands, 4 per expression", .run = Run, .hang_seconds = 120}))
