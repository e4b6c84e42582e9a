// P11: text is split into the longest lexemes of the language, with exact values; anything else is an error.
#include "checks/names.h"
#include "lib/mc.h"
#include "nsasm/token.h"
using namespace nsasm;

// Reference lexer.  A token is written as a string: kind, value and type.
namespace ref {
static bool Hex(int c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
static bool Dec(int c) { return c >= '0' && c <= '9'; }
static bool Alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static bool Number(const std::string& digits, int base, const char* type, std::string* out) {
  unsigned long long v = 0;
  for (char ch : digits) {
    int d = ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10;
    v = v * base + d;
    if (v > (base == 10 ? 0x7fffffffull : 0xffffffull)) return false;
  }
  *out = mc::Fmt("num %llu %s", v, type);
  return true;
}
// Length of the token at s[i]; 0 for an error.
static size_t One(const std::string& s, size_t i, std::string* out) {
  auto at = [&](size_t k) -> int { return i + k < s.size() ? (unsigned char)s[i + k] : -1; };
  int c = at(0);
  static const struct { const char* text; int p; } ops[] = {{"+++", P_plusplusplus}, {"---", P_minusminusminus}, {"++", P_plusplus}, {"--", P_minusminus}, {"::", P_scope}};
  for (auto& o : ops) if (s.compare(i, strlen(o.text), o.text) == 0) { *out = mc::Fmt("punct %d", o.p); return strlen(o.text); }
  if (c > 0 && strchr("()[]{},:#+-*/@<>^", c)) { *out = mc::Fmt("punct %d", c); return 1; }
  size_t n = 0;
  if ((c == '$' && Hex(at(1))) || (c == '0' && (at(1) | 32) == 'x' && Hex(at(2)))) {
    size_t b = n = c == '$' ? 1 : 2;
    while (Hex(at(n))) ++n;
    size_t d = n - b;
    return Number(s.substr(i + b, d), 16, d <= 2 ? "byte" : d <= 4 ? "word" : "long", out) ? n : 0;
  }
  if (c == '%' && (at(1) == '0' || at(1) == '1')) {
    n = 1;
    while (at(n) == '0' || at(n) == '1') ++n;
    return Number(s.substr(i + 1, n - 1), 2, n - 1 <= 8 ? "byte" : n - 1 <= 16 ? "word" : "long", out) ? n : 0;
  }
  if (Dec(c)) {
    while (Dec(at(n))) ++n;
    return Number(s.substr(i, n), 10, "unknown", out) ? n : 0;
  }
  if (c == '.' || Alpha(c)) {
    n = 1;
    while (Alpha(at(n)) || Dec(at(n))) ++n;
    std::string w = s.substr(i, n), l = vf::Lower(w);
    int v;
    if (c == '.') {
      if ((v = vf::Name(2, w)) >= 0) *out = mc::Fmt("directive %d", v);
      else if ((v = vf::Name(1, w)) >= 0) *out = mc::Fmt("suffix %d", v);
      else return 0;
      return n;
    }
    if ((v = vf::Name(0, w)) >= 0) *out = mc::Fmt("op %d", v);
    else if (n == 1 && strchr("asxy", l[0])) *out = mc::Fmt("punct %d", l[0] - 32);
    else if (l == "export") *out = mc::Fmt("punct %d", P_export);
    else if (l == "noreturn") *out = mc::Fmt("punct %d", P_noreturn);
    else if (l == "yields") *out = mc::Fmt("punct %d", P_yields);
    else *out = "id " + w;
    return n;
  }
  return 0;
}
static std::string Lex(const std::string& s) {
  std::string r;
  size_t i = 0;
  for (;;) {
    while (i < s.size() && s[i] && strchr(" \t\n\v\f\r", s[i])) ++i;
    if (i == s.size() || s[i] == ';') return r + "eol";
    std::string t;
    size_t n = One(s, i, &t);
    if (!n) return "error";
    r += t + "|";
    i += n;
  }
}
}  // namespace ref

static std::string Show(const Token& t) {
  if (t.EndOfLine()) return "eol";
  if (auto v = t.Mnemonic()) return mc::Fmt("op %d", int(*v));
  if (auto v = t.Suffix()) return mc::Fmt("suffix %d", int(*v));
  if (auto v = t.DirectiveName()) return mc::Fmt("directive %d", int(*v));
  if (auto v = t.Punctuation()) return mc::Fmt("punct %d", int(*v));
  if (auto v = t.Literal()) return mc::Fmt("num %d %s", *v, ToString(t.Type()).c_str());
  if (auto v = t.Identifier()) return "id " + *v;
  return "?";
}
static std::string Got(const std::string& s) {
  auto r = Tokenize(s, Location());
  if (!r.ok()) return "error";
  std::string out;
  for (auto& t : *r) { if (!out.empty()) out += '|'; out += Show(t); }
  return out;
}
static std::string Quote(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) r += ch >= 33 && ch < 127 ? std::string(1, ch) : ch == ' ' ? " " : mc::Fmt("\\x%02x", ch);
  return r;
}
static bool Check(mc::Ctx& c, const std::string& s, bool keep) {
  std::string w = ref::Lex(s), g = Got(s);
  c.step();
  if (keep) c.state(mc::HashStr(w));
  if (w == g) return true;
  c.fail("text '" + Quote(s) + "'", "'" + Quote(s) + "' is read as [" + g + "], expected [" + w + "]");
  return false;
}
static void Run(mc::Ctx& c) {
  const std::string alpha = "+-:$0x1f%.b_; aA#g@9\tn";
  int depth = c.thorough() ? 6 : 5;
  for (char c0 : alpha)
    for (char c1 : alpha) {
      c.part("all short texts");
      if (!c.want()) continue;
      c.describe([&] { return "all texts of up to " + std::to_string(depth) + " characters starting '" + Quote({c0, c1}) + "'"; });
      std::string s{c0};
      uint64_t err = 0, ok = 0;
      bool good = Check(c, s, true);
      s += c1;
      auto rec = [&](auto& self) -> void {
        if (!good) return;
        std::string w = ref::Lex(s), g = Got(s);
        c.step();
        if (s.size() <= 4) c.state(mc::HashStr(w));
        ++(w == "error" ? err : ok);
        if (w != g) { good = false; c.fail("text '" + Quote(s) + "'", "'" + Quote(s) + "' is read as [" + g + "], expected [" + w + "]"); return; }
        if ((int)s.size() == depth) return;
        for (char ch : alpha) { s += ch; self(self); s.pop_back(); }
      };
      rec(rec);
      c.outcome("accepted", ok);
      c.outcome("rejected", err);
      c.trace();
    }
  // Sequences of whole lexemes, with and without space between them.
  std::vector<std::string> lex = {"lda", "LDX", "add", ".b", ".W", ".db", ".Org", ".module", ".remote", "A", "x", "S", "y", "export", "EXPORT", "noreturn", "NoReturn", "yields", "Yields", "yield", "foo", "_", "a1", "x0", "0", "123", "0x1f", "0X1F", "$a", "$ab", "$ABC", "$12345", "%1", "%101010101", "(", ")", "[", "]", "{", "}", ",", "::", ":", "#", "+", "-", "++", "---", "*", "/", "@", "<", ">", "^", ";", "; lda", "$", "%", "0x", ".", "!", "'", "\"", ".q", "&", "|", "=", "~", "?", "\\", "\x80", "$g", "%2"};
  for (auto& a : lex)
    for (auto& b : lex) {
      c.part("lexeme sequences");
      if (!c.want()) continue;
      c.describe([&] { return "all lexeme triples starting '" + Quote(a) + "' '" + Quote(b) + "', each join with and without a space"; });
      bool good = Check(c, a + b, true) && Check(c, a + " " + b, true);
      for (auto& d : lex) {
        if (!good) break;
        good = Check(c, a + b + d, true) && Check(c, a + " " + b + d, false) && Check(c, a + b + "\t" + d, false) && Check(c, a + " " + b + " " + d, false);
        if (c.thorough()) for (auto& e : lex) { if (!good) break; good = Check(c, a + b + d + e, false) && Check(c, a + " " + b + " " + d + e, false); }
      }
      c.trace();
    }
  // Every byte: alone, pairs, and between two letters.
  for (int x = 0; x < 256; ++x) {
    c.part("all bytes");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("byte 0x%02x alone, before and after every byte, and inside words and numbers", x); });
    bool good = Check(c, std::string(1, x), true);
    for (int y = 0; y < 256 && good; ++y) good = Check(c, std::string{char(x), char(y)}, true);
    for (std::string p : {"a", "lda", "$1", "0x1", "%1", "12", ".db", ".", "+", ":", "-", "$", "%", "0", " ", "export", "foo"})
      for (std::string q : {"", "b", "1", "$2", " x", ".b", "0", "+", ";"}) if (good) good = Check(c, p + char(x) + q, true);
    c.trace();
  }
  // Numbers of every length and around every power of two.
  for (int base : {2, 10, 16}) {
    c.part("numbers");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("numbers of base %d: every length, edges of every power of two, all 16-bit values", base); });
    std::vector<std::string> pre = base == 2 ? std::vector<std::string>{"%"} : base == 10 ? std::vector<std::string>{""} : std::vector<std::string>{"$", "0x", "0X"};
    bool good = true;
    auto text = [&](unsigned long long v, size_t width, bool upper) {
      std::string s;
      do { int d = v % base; s.insert(s.begin(), d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= base; } while (v);
      while (s.size() < width) s.insert(s.begin(), '0');
      return s;
    };
    for (auto& p : pre) {
      for (unsigned v = 0; v < 65536 && good; ++v) { good = Check(c, p + text(v, 0, v & 1), false); c.outcome("accepted"); }
      for (int k = 0; k < 64 && good; ++k)
        for (int d = -2; d <= 2; ++d)
          for (size_t w : {0, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 24, 25, 32, 33, 40, 70}) if (good) good = Check(c, p + text((1ull << k) + d, w, d & 1), true);
      for (char dig : std::string(base == 2 ? "01" : base == 10 ? "0189" : "017fF"))
        for (int n = 1; n <= 100 && good; ++n) { good = Check(c, p + std::string(n, dig), true) && Check(c, p + "1" + std::string(n, dig), true) && Check(c, p + std::string(n, dig) + "z", true); c.outcome("accepted or too large"); }
    }
    c.trace();
  }
}
MC_MAIN((mc::Check{.property = "P11", .level = "model_checking",
  .rule = "every text over an alphabet with one character per lexical role up to a length, every sequence of three lexemes with and without spaces, every byte in context, numbers of every length; against an independent longest-match lexer. A state is a distinct token sequence of a text",
  .bounds_quick = "22 characters, length 5; 72 lexemes, triples; 256 bytes; numbers of up to 101 digits", .bounds_thorough = "22 characters, length 6; 72 lexemes, quadruples", .run = Run, .hang_seconds = 60}))
