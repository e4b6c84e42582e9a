// P24: every text gives a program or an error; a line is accepted exactly if it is of the language, as what it spells.
#include <fstream>
#include "checks/lang.h"
#include "lib/mc.h"
#include "nsasm/assembler.h"
using namespace nsasm;

struct Sink : OutputSink {
  uint64_t hash = 1;
  std::vector<uint8_t>* keep = nullptr;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    hash = mc::Mix(hash, uint64_t(a.Bank()) << 16 | a.BankAddress());
    for (auto b : d) hash = mc::Mix(hash, b);
    if (keep) for (size_t i = 0; i < d.size(); ++i) { if (uint32_t(a.BankAddress()) + i != 0x8000 + keep->size()) keep->push_back(0xee); keep->push_back(d[i]); }
    return {};
  }
};
struct Count { uint64_t n = 0, lines = 0, programs = 0, errors = 0; };
// Assembles a text twice; "" on success, otherwise the error.
static std::string Build(mc::Ctx& c, const std::string& text, Count* k, std::vector<uint8_t>* bytes = nullptr) {
  std::string first;
  uint64_t h = 0;
  for (int i = 0; i < 2; ++i) {
    Sink s;
    if (i == 0) s.keep = bytes;
    auto r = Assemble({MakeFakeFile("t.asm", text)}, &s);
    std::string e = r.ok() ? "" : r.error().ToString();
    if (!r.ok() && e.empty()) c.fail("text " + text, "[" + text + "] is refused without a word");
    if (i == 0) { first = e; h = s.hash; }
    else if (e != first || s.hash != h) c.fail("text " + text, "[" + text + "] gives different results when assembled twice");
  }
  ++(first.empty() ? k->programs : k->errors);
  return first;
}
static void Line(mc::Ctx& c, const std::string& text, Count* k, bool build, bool must = false, bool assemble = true) {
  ++k->n;
  auto t = Tokenize(text, Location());
  bool ok = t.ok();
  auto fail = [&](const std::string& why) { c.fail("line " + text, "[" + (text.size() > 300 ? text.substr(0, 300) + "..." : text) + "]: " + why); };
  if (ok) {
    if (t->empty() || !t->back().EndOfLine()) return fail("the tokens do not end");
    auto p = Parse(*t);
    ok = p.ok();
    std::vector<lang::Item> want;
    bool legal = lang::Read(*t, &want), exact = true;
    for (auto& w : want) exact = exact && !w.mode_inexact;
    if (ok) ++k->lines;
    if (exact && ok && !legal) return fail("is accepted, but is not a line of the language");
    if (exact && !ok && legal) return fail("is a line of the language, but is refused: " + p.error().ToString());
    if (ok && legal) {
      std::string e = lang::Compare(want, *p);
      if (!e.empty()) return fail(e);
    }
  }
  if (must && !ok) return fail("is not accepted");
  if (!assemble || (!build && ok)) return;
  if (build || text.find('\n') == text.npos) {
    std::string e = Build(c, ".org $8000\n.entry m8x8\n" + text + "\nrts\n", k);
    if (!ok && e.empty() && text.find('\n') == text.npos) fail("is not a line of the language, but a file with it assembles");
  }
}
typedef std::vector<std::string> Toks;
static std::string Text(const Toks& t) { std::string s; for (auto& x : t) { if (!s.empty()) s += ' '; s += x; } return s; }
// A statement and everything one token away from it.
static void Near(mc::Ctx& c, const Toks& t, const std::vector<const char*>& menu, int edits, Count* k) {
  Line(c, Text(t), k, false, false, false);
  if (!edits) return;
  for (size_t i = 0; i <= t.size(); ++i) {
    Toks u = t;
    if (i < t.size()) { u.erase(u.begin() + i); Near(c, u, menu, edits - 1, k); }
    for (auto* m : menu) {
      u = t;
      u.insert(u.begin() + i, m);
      Near(c, u, menu, edits - 1, k);
      if (i < t.size()) { u = t; u[i] = m; Near(c, u, menu, edits - 1, k); }
    }
  }
}
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  auto note = [&](const Count& k) { c.step(k.n); c.trace(k.lines + k.programs); c.outcome("lines accepted", k.lines); c.outcome("programs", k.programs); c.outcome("errors", k.errors); };
  for (int first = 0; first < 256; ++first) {
    c.part("bytes");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("every line of one or two bytes that starts with byte %d, alone and after lda", first); });
    Count k;
    Line(c, std::string(1, first), &k, true);
    for (int b = 0; b < 256; ++b) {
      std::string s = std::string(1, first) + char(b);
      Line(c, s, &k, true);
      Line(c, "lda " + s, &k, true);
      if (t) for (int d = 0; d < 256; ++d) Line(c, s + char(d), &k, false);
    }
    note(k); c.state(mc::Mix(1, first));
  }
  const std::string chars = "a0$%:.;,#(+-@{}<X\t";
  for (size_t first = 0; first < chars.size(); ++first) for (size_t second = 0; second < chars.size(); ++second) {
    c.part("characters");
    if (!c.want()) continue;
    int len = t ? 6 : 5;
    c.describe([&] { return mc::Fmt("every line of %d characters of the menu that starts with %c%c", len, chars[first], chars[second]); });
    Count k;
    std::string s(len, chars[0]);
    s[0] = chars[first]; s[1] = chars[second];
    std::vector<int> ix(len, 0);
    while (true) {
      for (int i = 2; i < len; ++i) s[i] = chars[ix[i]];
      Line(c, s, &k, len < 6 && ix[4] == 0);
      int i = len - 1;
      for (; i >= 2; --i) { if (++ix[i] < int(chars.size())) break; ix[i] = 0; }
      if (i < 2) break;
    }
    note(k); c.state(mc::Mix(2, first * 256 + second));
  }
  auto tokens = [&](const char* part, const std::vector<const char*>& toks, int len, bool build) {
    for (size_t first = 0; first < toks.size(); ++first) for (size_t second = 0; second < (len > 3 ? toks.size() : 1); ++second) {
      c.part(part);
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("every line of %d tokens of %d kinds that starts with [%s %s]", len, int(toks.size()), toks[first], len > 3 ? toks[second] : ""); });
      Count k;
      std::vector<int> ix(len, 0);
      ix[0] = first;
      int fixed = 1;
      if (len > 3) { ix[1] = second; fixed = 2; }
      std::string s;
      while (true) {
        s.clear();
        for (int i = 0; i < len; ++i) { if (i) s += ' '; s += toks[ix[i]]; }
        Line(c, s, &k, build);
        int i = len - 1;
        for (; i >= fixed; --i) { if (++ix[i] < int(toks.size())) break; ix[i] = 0; }
        if (i < fixed) break;
      }
      note(k); c.state(mc::HashStr(part, mc::Mix(len, first * 256 + second)));
    }
  };
  const std::vector<const char*> all = {"a1", "m8", "A", "X", "S", "Y", "nop", "lda", "jsr", "bne", "mvn", ".b", ".db", ".entry", ".mode", ".equ", ".end", ".begin", ".module", ".org", ".remote", ".halt", "$12", "$123456", "5", "#", "(", ")", "[", "]", ",", ":", "+", "-", "*", "/", "@", "{", "}", "<", "^", "::", "++", "---", "export", "yields", "noreturn", ";"};
  tokens("tokens", all, 1, true);
  tokens("tokens", all, 2, true);
  tokens("tokens", all, 3, false);
  const std::vector<const char*> some = {"a1", "m8", "X", "nop", "lda", "jsr", ".entry", ".equ", ".db", "$12", "#", "(", ")", ",", ":", "-", "{", "}", "<", "::", "export", "yields"};
  tokens("tokens", some, 4, false);
  const std::vector<const char*> flow = {"a1", "nop", "lda", ".db", "$12", "(", ")", ",", ":", "-", "{", "export"};
  tokens("tokens", flow, 5, false);
  if (t) { tokens("tokens", all, 4, false); tokens("tokens", some, 5, false); tokens("tokens", flow, 6, false); }
  // Every well-formed statement, and everything one token away from some.
  static const std::vector<Toks> operands = {{"$12"}, {"$1234"}, {"5"}, {"a1"}, {"@", "a1"}, {"-", "$12"}, {"(", "$12", ")", "+", "1"}, {"$123456"}, {"300"}, {"70000"}, {"m", "::", "a1"}, {"@", "::", "a1"}, {"<", "a1"}, {"(", "5", ")"},
                                             {"(", "a1", ")", "*", "(", "5", ")"}, {"(", "a1", ")", "-", "1"}, {"(", "$1234", ")", "/", "$12"}, {"$12", "*", "a1", "-", "5"}, {"(", "(", "5", ")", "+", "$1234", ")"}, {"-", "(", "a1", ")"}};
  static const std::vector<std::pair<Toks, Toks>> forms = {{{"#"}, {}}, {{}, {}}, {{}, {",", "X"}}, {{}, {",", "Y"}}, {{}, {",", "S"}}, {{"("}, {")"}}, {{"("}, {")", ",", "Y"}}, {{"("}, {",", "X", ")"}}, {{"("}, {",", "S", ")", ",", "Y"}}, {{"["}, {"]"}}, {{"["}, {"]", ",", "Y"}}};
  static const std::vector<Toks> convs = {{}, {"noreturn"}, {"yields", "m8x16"}, {"yields", "unk"}, {"yields", "emu"}, {"yields", "native"}, {"yields", "m8"}, {"yields", "X16"}, {"yields", "a1"}, {"yields"}, {"noreturn", "noreturn"}, {"yields", "m8", "noreturn"}, {"noreturn", "a1"}, {"noreturn", "yields", "m8"}};
  auto cat = [](std::initializer_list<Toks> l) { Toks r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; };
  const std::string edited = " lda ldx jsr jsl jmp bne mvn inc nop sep add ";
  for (auto& n : vf::kOps) for (const char* suf : {"", ".b", ".w"}) {
    c.part("instructions");
    if (!c.want()) continue;
    Toks head = {std::string(n.first) + suf};
    bool edit = edited.find(" " + head[0] + " ") != std::string::npos;
    c.describe([&] { return "every statement of " + head[0] + (edit ? ", and every line one token away from those with simple operands" : ""); });
    Count k;
    auto one = [&](const Toks& operand, bool simple) {
      for (auto& v : convs) Near(c, cat({head, operand, v}), all, (edit && simple && (v.empty() || v.size() == 1)) ? 1 : 0, &k);
    };
    one({}, true); one({"A"}, true);
    for (size_t o = 0; o < operands.size(); ++o) {
      for (auto& f : forms) one(cat({f.first, operands[o], f.second}), o < (t ? 20 : 7));
      for (auto& q : operands) one(cat({{"#"}, operands[o], {",", "#"}, q}), n.first[0] == 'm' && o < 2 && &q < &operands[2]);
    }
    if (t && edit) {
      const std::vector<const char*> few = {"a1", "X", "A", "lda", ".db", "$12", "#", "(", ")", "[", "]", ",", ":", "-", "{", "yields", "noreturn"};
      for (size_t o : {0, 3, 6}) for (auto& f : forms) Near(c, cat({head, f.first, operands[o], f.second}), few, 2, &k);
    }
    note(k); c.state(mc::HashStr(head[0], 5));
  }
  for (auto& d : vf::kDir) {
    c.part("directives");
    if (!c.want()) continue;
    c.describe([&] { return std::string("every statement of ") + d.first + ", and every line one token away from each"; });
    Count k;
    Toks head = {d.first};
    Near(c, head, all, t ? 2 : 1, &k);
    static const char* const modes[] = {"m8x16", "unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m16x8", "M16X16", "m", "m8m8"};
    for (auto* m : modes) for (auto& v : convs) {
      Near(c, cat({head, {m}, v}), all, m == modes[0] ? 1 : 0, &k);
      for (auto& o : operands) Near(c, cat({head, o, {m}, v}), all, m == modes[0] && (&o == &operands[0] || &o == &operands[6]) ? 1 : 0, &k);
    }
    for (auto& o : operands) {
      Near(c, cat({head, o}), all, 1, &k);
      for (auto& q : operands) { Near(c, cat({head, o, {","}, q}), all, &o < &operands[4] && &q < &operands[8] ? 1 : 0, &k); for (auto& r : operands) Near(c, cat({head, o, {","}, q, {","}, r}), all, 0, &k); }
    }
    note(k); c.state(mc::HashStr(d.first, 6));
  }
  const std::vector<const char*> lines = {"{", "}", ".begin", ".end", ".module m", ".org $8000", ".org -1", ".org $1000000", ".org $ffffff", "a", "a:", "export a:", ".equ 1", "a .equ a", "a .equ b", "b .equ a", "export b .equ m::a", "bra a", "brl b", "jsr a", ".entry m8", ".halt", "+", "nop", "lda #a", ".dl a, m::a", "rts", ".mode emu", "pla", ".remote a m8 noreturn", "lda.w #1"};
  auto files = [&](int len) {
    for (size_t first = 0; first < lines.size(); ++first) for (size_t second = 0; second < lines.size(); ++second) {
      c.part("files");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("every file of %d lines that starts with [%s; %s]", len, lines[first], lines[second]); });
      Count k;
      std::vector<int> ix(len, 0);
      ix[0] = first; ix[1] = second;
      while (true) {
        std::string s;
        for (int i = 0; i < len; ++i) s += std::string(lines[ix[i]]) + "\n";
        ++k.n;
        Build(c, s, &k);
        int i = len - 1;
        for (; i >= 2; --i) { if (++ix[i] < int(lines.size())) break; ix[i] = 0; }
        if (i < 2) break;
      }
      note(k); c.state(mc::Mix(3, first * 256 + second));
    }
  };
  files(2); files(3);
  if (t) files(4);
  static const char* const kinds[] = {"parentheses", "signs", "label", "digits", "sum", "labels", "scopes", "list", "lines", "names", "equ chain", "equ chain backwards", "branches", "words", "long words", "statements in a line"};
  for (int kind = 0; kind < 16; ++kind) for (int size : {1, 2, 100, 255, 256, 257, 1000, 4096, 10000}) {
    if ((kind < 2 && size > 257) || (kind == 4 && size > 4096)) continue;
    c.part("sizes");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("a file with %d %s", size, kinds[kind]); });
    std::string s = ".org $8000\n.entry m8x8\n";
    bool ok = true;
    auto rep = [&](const std::string& x) { std::string r; for (int i = 0; i < size; ++i) r += x; return r; };
    if (kind == 0) s += "lda #" + rep("(") + "1" + rep(")") + "\nrts\n";
    if (kind == 1) s += "lda #" + rep("- ") + "1\nrts\n";
    if (kind == 2) s += rep("a") + "b: rts\n";
    if (kind == 3) { s += ".db " + rep("0") + "1\n"; s = ".org $8000\n" + s.substr(s.find(".db")); }
    if (kind == 4) s += "lda #1" + rep("+1-1") + "\nrts\n";
    if (kind == 5) { for (int i = 0; i < size; ++i) s += mc::Fmt("l%d:", i); s += "rts\n"; }
    if (kind == 6) s += rep("{ ") + "nop" + rep(" : }") + "\nrts\n";
    std::vector<uint8_t> want;
    if (kind == 7 || kind == 13 || kind == 14) {
      int w = kind == 7 ? 1 : kind - 11;
      std::string line = w == 1 ? ".db" : w == 2 ? ".dw" : ".dl";
      for (int i = 0; i < size; ++i) { int v = 70001 * (i + 1) & 0xffffff; line += mc::Fmt("%s %d", i ? "," : "", v); for (int b = 0; b < w; ++b) want.push_back(v >> (8 * b)); }
      Count k; Line(c, line, &k, false, true); note(k);
      s = ".org $8000\n" + line + "\n";
    }
    if (kind == 15) {
      std::string line = "nop" + rep(" : lda #1");
      Count k; Line(c, line, &k, false, true); note(k);
      s += line + "\nrts\n";
      want.push_back(0xea);
      for (int i = 0; i < size; ++i) { want.push_back(0xa9); want.push_back(1); }
      want.push_back(0x60);
    }
    if (want.size() > 0x8000) continue;
    if (kind == 8) s += rep("nop\n") + "rts\n";
    if (kind == 9) { for (int i = 0; i < size; ++i) s += mc::Fmt("l%d: lda #<l%d\n", i, size - 1 - i); s += "rts\n"; }
    if (kind == 10) { s += "n0 .equ 1\n"; for (int i = 0; i < size; ++i) s += mc::Fmt("n%d .equ n%d+1\n", i + 1, i); s += "rts\n"; }
    if (kind == 11) { for (int i = size; i > 0; --i) s += mc::Fmt("n%d .equ n%d+1\n", i, i - 1); s += "n0 .equ 1\nrts\n"; ok = false; }
    if (kind == 12) { for (int i = 0; i < size; ++i) s += mc::Fmt("l%d: brl l%d\n", i, size - 1 - i); s += "l: .halt\n"; ok = false; }
    Count k;
    std::vector<uint8_t> bytes;
    std::string e = Build(c, s, &k, &bytes);
    if (!want.empty() && bytes != want) c.fail(mc::Fmt("size %s %d", kinds[kind], size), mc::Fmt("a file with %d %s gives %d bytes that are not the %d expected", size, kinds[kind], int(bytes.size()), int(want.size())));
    if (ok && !e.empty()) c.fail(mc::Fmt("size %s %d", kinds[kind], size), mc::Fmt("a file with %d %s is refused: ", size, kinds[kind]) + e.substr(0, 200));
    ++k.n; note(k);
  }
}
static const mc::Check kCheck = {
    .property = "P24", .level = "model_checking",
    .rule = "every text is read by the real code (built with the address sanitizer) and, where it has a meaning as a whole, assembled twice; a crash, a hang, a difference between the runs, a line accepted or refused against the reference parser, or read as other labels, statements, operand values or conventions than the tokens spell is a violation",
    .bounds_quick = "lines of one or two bytes of any value, 5 characters of 18 kinds, 3 tokens of 48 kinds, 4 of 22, 5 of 12; every statement of 93 names x 3 suffixes x 13 operand forms x 20 operands x 14 endings, of every directive with lists up to 3, and every line one token (of 48 kinds) away from a third of those; files of 3 lines of 31 structural kinds; sizes up to 10000",
    .bounds_thorough = "3 bytes, 6 characters, 4 tokens of 48 kinds, 5 of 22, 6 of 12, two edits, files of 4 lines", .run = Run, .chunk = 4, .hang_seconds = 120,
    .assumptions = {"the token values come from the code's own lexer (P11 checks it)", "expressions nested more than 257 deep are not covered (the parser recurses; about 100000 levels would exhaust the stack)"}};
MC_MAIN(kCheck)
