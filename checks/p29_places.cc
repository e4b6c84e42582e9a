// P29: an error names the file and the line, or the address, where it is.
#include "checks/romref.h"
#include "lib/mc.h"
#include "nsasm/assembler.h"
#include "nsasm/rom.h"
using namespace nsasm;

struct Sink : OutputSink {
  int n = 0, fail = -1;
  uint32_t at = 0;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t>) override {
    if (n++ == fail) { at = uint32_t(a.Bank()) << 16 | a.BankAddress(); return Error("disk on fire"); }
    return {};
  }
};
struct Row { std::string text; int size = 0; };  // a line of a program and the bytes it makes
struct Bad {
  const char* text;
  int where = 0;            // 0 anywhere, 1 only after the code, 2 only inside the code
  const char* also = "";    // lines that hold this text may be named as well
  bool label = false;       // a label without statement: the line of its statement may be named
};
static const Bad kBad[] = {
    // characters, literals
    {"?"}, {"lda #$1000000"}, {"lda #99999999999"}, {".nosuch"}, {"lda.q #1"}, {"\x80"}, {"lda %2"}, {"'"}, {"nop : ?"}, {"nop : nop : lda !"},
    // form
    {"lda"}, {"lda #"}, {"lda (1"}, {"lda 1,"}, {"lda $1,q"}, {"lda $1,a"}, {"lda [$1],x"}, {"lda ($1,x"}, {"lda ($1,s),x"}, {"lda ($1,q)"}, {"nop nop"}, {"nop 5"}, {"foo bar"}, {"export"}, {"export 5"}, {".db"}, {".db 1,"}, {".db 1 2"}, {".org"}, {".org here"}, {".org nosuch"}, {".module 5"}, {".mode"}, {".mode zz"}, {".mode m8 yields m8"}, {".entry zz"}, {".entry m8 yields zz"}, {".entry"}, {".remote"}, {".remote 5"}, {".begin 5"}, {".end 5"}, {".halt 5"}, {"n1 .equ"}, {"nop noreturn"}, {"lda #1 yields m8"}, {"jsr here yields"}, {"jsr here yields 5"}, {"mvn #1"}, {"mvn #1,"}, {"mvn 1, 2"}, {"sep.b #1"}, {"nop.w"}, {"bne $12"}, {"bne #5"}, {"stz #1"}, {"pea"}, {"inc #1"}, {"lda a"}, {"lda 70000,y"}, {"lda #@"}, {"lda #::"}, {"lda #q::"}, {"lda #1+"}, {"lda #(1"}, {"lda 5"}, {"yields"}, {"$12"}, {"lda $12 $13"}, {"x1: lda"}, {"x1: x2: lda #"},
    // names and values
    {"lda #nosuch"}, {"lda nosuch"}, {"lda @nosuch"}, {"jsr nosuch"}, {"bne nosuch"}, {"bra nosuch"}, {"brl nosuch"}, {"per nosuch"}, {"lda #q::nosuch"}, {"lda #base::nosuch"}, {"lda #::nosuch"}, {".db nosuch", 1}, {".dw 1, nosuch", 1}, {".db nosuch", 0}, {"n1 .equ nosuch"}, {"n1 .equ n1"}, {"n1 .equ 1/0"}, {"n1 .equ base::nosuch"}, {"lda #1/0"}, {"lda #1/(5-5)"}, {"lda #<nosuch"}, {"lda #here/(1-1)"}, {"mvn #nosuch, #1"}, {"mvn #1, #nosuch"}, {"bne eq"}, {"bra eq"}, {"lda #1 : lda #nosuch : nop"}, {"lda nosuch,x"}, {"lda (nosuch),y"},
    // widths
    {"lda.w #1"}, {"ldx.w #1"}, {"adc.w #5"}, {"lda.w $12"}, {"nop : lda.w #1"},
    // places
    {".org -1"}, {".org 16777216"}, {".org 0-5"}, {".remote 16777216 m8"}, {".remote nosuch m8"}, {".remote 0-1 m8"}, {".db 1", 2}, {".dw here", 2}, {".org $9000", 2}, {"bne far", 2}, {"bne far2", 2}, {"nop", 1}, {"lda #1", 1}, {"nop : rts", 1}, {".org $8000 : .db 1", 1}, {".org $8002 : .dl 1", 1},
    // definitions and scopes
    {"here: nop", 0, "here"}, {"here nop", 0, "here"}, {"export here nop", 0, "here"}, {"here:", 0, "here", true}, {"eq .equ 6", 0, "eq .equ"}, {"{", 0, "{"}, {"}", 0, "}"}, {".begin", 0, "{"}, {".end", 0, "}"}, {".module other", 0, ".module"}, {"w1: nop : w1: nop"}, {"{ : w1: nop : w1: nop : }"}, {"{ : bne w1 : } : { : w1: nop : }"},
};
struct Count { uint64_t n = 0, refused = 0, accepted = 0, writes = 0; };
static const std::vector<std::string> kPaths = {"a.asm", "dir/b 2.asm", "c:3.asm"};
static bool Starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static std::string Text(const std::vector<Row>& rows) { std::string s; for (auto& r : rows) s += r.text + "\n"; return s; }
// rows with the bad line at index at; the file takes position pos among three.
static void One(mc::Ctx& c, std::vector<Row> rows, const Bad& b, int at, int pos, Count* k) {
  ++k->n;
  rows.insert(rows.begin() + at, Row{b.text, 0});
  std::vector<File> files;
  static const char* const others[] = {".module o1\n.org $c000\n.entry m8\nnop\nv .equ 4\nrts\n", "\n.org $d000\n.entry m16\n\nlda #o1::v\nrts\n"};
  for (int i = 0, o = 0; i < (pos < 0 ? 1 : 3); ++i)
    if (pos < 0 || i == pos) files.push_back(MakeFakeFile(kPaths[i], Text(rows)));
    else files.push_back(MakeFakeFile(kPaths[i], others[o++]));
  Sink sink;
  auto r = Assemble(files, &sink);
  if (r.ok()) { ++k->accepted; return; }
  ++k->refused;
  std::string e = r.error().ToString(), path = kPaths[pos < 0 ? 0 : pos];
  std::vector<int> lines{at + 1};
  std::string also = b.also;
  for (size_t i = 0; i < rows.size() && !also.empty(); ++i)
    if (rows[i].text.find(also) != std::string::npos) lines.push_back(i + 1);
  if (b.label) for (size_t i = at + 1; i < rows.size(); ++i) { lines.push_back(i + 1); if (!rows[i].text.empty() && rows[i].text[0] != ';' && rows[i].text.back() != ':') break; }
  for (int l : lines) if (Starts(e, path + ":" + std::to_string(l) + ": ")) return;
  c.fail("program " + Text(rows), mc::Fmt("[%s] at line %d of %s is reported as: ", b.text, at + 1, path.c_str()) + e + " in " + Text(rows));
}
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  const std::vector<Row> menu = {{"nop", 1}, {"lda #$12", 2}, {"m%: sta $1234", 3}, {"bne here", 2}, {"", 0}, {"; text", 0}, {"m%:", 0}, {"k% .equ 5", 0}, {"{ : l: nop : }", 1}, {"clc : add #1 : nop", 5}, {".mode m8x8", 0}, {"jsl $123456", 4}, {"m%: m%x: nop", 1}};
  const int m = menu.size();
  auto base = [&](const std::vector<int>& ix) {
    std::vector<Row> r = {{".module base", 0}, {".org $8000", 0}, {".entry m8x8", 0}};
    for (size_t i = 0; i < ix.size(); ++i) {
      Row x = menu[ix[i]];
      for (size_t p; (p = x.text.find('%')) != x.text.npos;) x.text.replace(p, 1, std::to_string(i) + "_");
      r.push_back(x);
    }
    r.push_back({"here: rts", 1});
    r.push_back({".db 1, 2", 2});
    r.push_back({"eq .equ 5", 0});
    r.push_back({"{", 0}); r.push_back({".org $8200", 0}); r.push_back({".entry m8x8", 0}); r.push_back({"}", 0});
    r.push_back({"far: rts", 1});
    r.push_back({".org $018200", 0}); r.push_back({".entry m8x8", 0}); r.push_back({"far2: rts", 1});
    return r;
  };
  int len = t ? 3 : 2;
  for (auto& b : kBad) {
    c.part("bad lines");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("[%s] at every place of every program of up to %d lines of 13 forms, alone and as each of three files", b.text, len); });
    Count k;
    for (int l = 0; l <= len; ++l) {
      std::vector<int> ix(l, 0);
      while (true) {
        auto rows = base(ix);
        int code = 3, end = 3 + l;  // first and last place inside the code
        for (int at = 0; at <= int(rows.size()); ++at) {
          if (b.where == 1 && at != end + 2 && at != end + 3 && at != int(rows.size())) continue;
          if (b.where == 2 && (at < code || at > end)) continue;
          for (int pos = -1; pos < 3; ++pos) { if (l == len && pos > 0 && !t) continue; One(c, rows, b, at, pos, &k); }
        }
        int i = l - 1;
        for (; i >= 0; --i) { if (++ix[i] < m) break; ix[i] = 0; }
        if (i < 0) break;
      }
    }
    c.step(k.n); c.trace(k.refused); c.outcome("errors placed", k.refused); c.outcome("accepted", k.accepted);
    if (!k.refused) c.outcome("forms never refused");
    c.state(mc::HashStr(b.text, b.where));
  }
  // A long way down, and among many files.
  static const char* const fillers[] = {"", "; a comment", "nop", ".db 1, 2, 3", "f% nop", "f% .equ 5", "{ : nop : }", "nop : nop : nop", "f%:"};
  for (int lines : {1, 5, 6, 7, 60, 95, 96, 252, 253, 254, 255, 256, 997, 4093, 20000, 32765, 65533, 65534, 70000})
    for (int filler = 0; filler < 9; ++filler) {
      if (lines > 30000 && filler > 1 && !t) continue;
      if (lines > 5000 && filler > 3 && !t) continue;
      c.part("long files");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("bad lines behind %d lines [%s], alone and as each of up to 9 files", lines, fillers[filler]); });
      Count k;
      int at = 0;
      std::string head = ".module base\n.org $008000\n.entry m8x8\n", fill;
      if (filler == 3) head = ".module base\n.org $008000\n\n";
      for (int i = 0; i < lines; ++i) {
        std::string x = fillers[filler];
        if (x.find('%') != x.npos) x.replace(x.find('%'), 1, std::to_string(i) + "_");
        fill += x + "\n";
        if (filler == 2 || filler == 3 || filler == 4 || filler == 6 || filler == 7) { at += filler == 3 || filler == 7 ? 3 : 1; if (at > 0x7f00) { fill.pop_back(); fill += filler == 3 ? " : .org $018000\n" : " : bra g" + std::to_string(i) + " : .org $018000 : g" + std::to_string(i) + ": nop\n"; at = -0x10000000; } }
      }
      if (filler != 3) fill += "here: rts\neq .equ 5\n";
      else fill += ".entry m8x8\nhere: rts : eq .equ 5\n";
      for (auto& b : kBad) {
        if (b.where == 2 || *b.also) continue;
        if (lines > 300 && (&b - kBad) % (lines > 5000 ? 17 : 5)) continue;
        std::string text = head + fill + b.text + "\n.org $038000\n.entry m8\nrts\n";
        int line = 3 + lines + 2 + 1;
        for (int nf : {1, 2, 9}) {
          if (nf > 1 && (lines > 300 || (&b - kBad) % 7)) continue;
          for (int pos = 0; pos < nf; pos += nf == 9 ? 4 : 1) {
            std::vector<File> files;
            for (int f = 0; f < nf; ++f)
              files.push_back(f == pos ? MakeFakeFile("the/bad one.asm", text) : MakeFakeFile(mc::Fmt("f%d.asm", f), mc::Fmt(".module o%d\n.org $%06x\n.entry m8\nrts\nv .equ %s\n", f, 0x0c8000 + f * 0x10000, f ? mc::Fmt("o%d::v", f - 1 == pos ? f : f - 1).c_str() : "7") ));
            // a file that defined v from itself would be bad as well
            if (pos < nf - 1) { int f = pos + 1; files[f] = MakeFakeFile(mc::Fmt("f%d.asm", f), mc::Fmt(".module o%d\n.org $%06x\n.entry m8\nrts\nv .equ 9\n", f, 0x0c8000 + f * 0x10000)); }
            Sink sink;
            auto r = Assemble(files, &sink);
            ++k.n;
            if (r.ok()) { ++k.accepted; continue; }
            ++k.refused;
            std::string e = r.error().ToString(), want = mc::Fmt("the/bad one.asm:%d: ", line);
            if (!Starts(e, want) && !(b.label && Starts(e, mc::Fmt("the/bad one.asm:%d: ", line + 1)))) c.fail(mc::Fmt("long %d %d ", lines, filler) + b.text, mc::Fmt("[%s] at line %d behind %d lines [%s], file %d of %d, is reported as: ", b.text, line, lines, fillers[filler], pos + 1, nf) + e);
          }
        }
      }
      c.step(k.n); c.trace(k.refused); c.outcome("errors placed", k.refused); c.outcome("accepted", k.accepted);
      c.state(mc::Mix(lines, 3000 + filler));
    }
  // Three files where the error shows only through a name of another file.
  c.part("across files");
  if (c.want()) {
    c.describe([] { return std::string("definitions of one file that fail where another uses them, and names defined in two files, in every order of the files"); });
    struct Set { std::vector<std::string> text; std::vector<std::string> want; };
    std::vector<Set> sets = {
        {{".module p\n\nv .equ 1/0\n", ".module q\nw .equ p::v\n", ".org $8000\n.db q::w\n"}, {"0:3"}},
        {{".module p\nv .equ 1/0\n", ".org $8000\n.db p::v\n", ";\n"}, {"0:2"}},
        {{".module p\nv .equ 5\n", ".org $8000\n\n.db 1\n.db p::u\n", ".module p\nu2 .equ 1\n"}, {"1:4"}},
        {{".module p\n\nv .equ 5\n", ".module p\nv .equ 5\n", ";\n"}, {"0:3", "1:2"}},
        {{"v .equ 5\n", "\n\nv .equ 5\n", ";\n"}, {"0:1", "1:3"}},
        {{".module p\n.org $8000\nv: .db 5\n", ".module p\n.org $9000\n\n\n{\nexport v: .db 5\n}\n", ".module r\nv .equ 1\n"}, {"0:3", "1:6"}},
        {{".module p\n.org $8000\n.entry m8\nrts\n", "\n\n.org $9000\n.entry m8\nbra p::x\nrts\n", ";"}, {"1:5"}},
        {{".module p\n.org $8000\n\n.entry m8\nx1 rts\n", ".org $9000\n.entry m8\nlda.w #p::x1\nrts\n", ";"}, {"1:3"}},
    };
    uint64_t n = 0;
    for (auto& s : sets) {
      int order[3] = {0, 1, 2};
      do {
        std::vector<File> files;
        for (int i : order) files.push_back(MakeFakeFile(kPaths[i], s.text[i]));
        Sink sink;
        auto r = Assemble(files, &sink);
        ++n;
        if (r.ok()) { c.outcome("accepted"); continue; }
        c.outcome("errors placed");
        bool good = false;
        for (auto& w : s.want) good |= Starts(r.error().ToString(), kPaths[w[0] - '0'] + w.substr(1) + ": ");
        if (!good) c.fail("files " + s.text[0] + s.text[1], "error of " + s.want[0] + " is reported as: " + r.error().ToString());
      } while (std::next_permutation(order, order + 3));
    }
    c.step(n); c.trace(n);
  }
  // A write that fails is reported at the line it came from.
  for (int first = 0; first < m; ++first) {
    c.part("writes");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("every write of every program of 3 lines that starts with [%s] refused by the sink", menu[first].text.c_str()); });
    Count k;
    for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) {
      auto rows = base({first, a, b});
      std::map<uint32_t, int> line;
      uint32_t pc = 0;
      for (size_t i = 0; i < rows.size(); ++i) {
        if (rows[i].text == ".org $8000") pc = 0x8000;
        if (rows[i].text == ".org $8200") pc = 0x8200;
        if (rows[i].text == ".org $018200") pc = 0x018200;
        for (int j = 0; j < rows[i].size; ++j) line[pc++] = i + 1;
      }
      for (int fail = 0;; ++fail) {
        Sink s;
        s.fail = fail;
        auto r = Assemble({MakeFakeFile(kPaths[1], Text(rows))}, &s);
        ++k.n;
        if (s.n <= fail) { if (!r.ok()) c.fail("program " + Text(rows), "[" + Text(rows) + "] is refused: " + r.error().ToString()); break; }
        ++k.writes;
        if (r.ok()) { c.fail("program " + Text(rows), "[" + Text(rows) + "] is assembled although a write failed"); break; }
        if (!Starts(r.error().ToString(), kPaths[1] + ":" + std::to_string(line[s.at]) + ": ")) c.fail("program " + Text(rows), mc::Fmt("a failed write to $%06x from line %d is reported as: ", s.at, line[s.at]) + r.error().ToString());
      }
    }
    c.step(k.n); c.trace(k.writes); c.outcome("failed writes placed", k.writes);
    c.state(first + 1000);
  }
  // Reads of a ROM name the file and an address of the read.
  for (int mode = 0; mode < 3; ++mode) {
    c.part("reads");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("failing reads at the edges of every bank, layout %d", mode); });
    static const Mapping modes[] = {kLoRom, kHiRom, kExHiRom};
    uint64_t n = 0, bad = 0;
    for (size_t size : {0x10000, 0x18000, 0x410000}) {
      Rom rom(modes[mode], "my rom.sfc", {}, std::vector<uint8_t>(size, 7));
      for (int bank = 0; bank < 256; ++bank)
        for (int lo : {0, 1, 0x7ffc, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffc, 0xfffe, 0xffff})
          for (int length : {1, 2, 3, 4, 0x8000, 0x8001, 0x10000, 0x10001}) {
            if (length > 4 && !t && bank % 16) continue;
            uint32_t a = bank << 16 | lo;
            auto r = rom.Read(Address(a), length);
            ++n;
            if (r.ok()) continue;
            ++bad;
            std::string e = r.error().ToString(), p = "my rom.sfc:0x";
            bool good = Starts(e, p) && e.size() > p.size() + 8 && e.substr(p.size() + 6, 2) == ": ";
            if (good) {
              uint32_t at = std::stoul(e.substr(p.size(), 6), nullptr, 16);
              good = at >> 16 == a >> 16 && ((at - a) & 0xffff) < uint32_t(length);
            }
            if (!good) c.fail("read", mc::Fmt("a failed read of %d bytes at $%06x is reported as: ", length, a) + e);
          }
    }
    c.step(n); c.trace(bad); c.outcome("failed reads placed", bad);
    c.state(mode + 2000);
  }
  c.part("files");
  if (c.want()) {
    c.describe([] { return std::string("files that cannot be opened, read, or written"); });
    std::string d = c.scratch();
    FILE* f = fopen((d + "/small").c_str(), "w"); fputs("x", f); fclose(f);
    auto has = [&](const std::string& what, const std::string& path, const std::string& e) { c.step(); c.trace(); if (e.find(path) == e.npos) c.fail(what, what + " " + path + " is reported as: " + e); };
    for (auto& p : {d, d + "/none", d + "/small"}) { auto r = LoadRomFile(p); if (!r.ok()) has("load", p, r.error().ToString()); else c.fail("load", p + " is accepted"); }
    for (auto& p : {d, d + "/none"}) { auto r = OpenFile(p); if (!r.ok()) has("open", p, r.error().ToString()); else c.fail("open", p + " is accepted"); }
    for (auto& p : {d, d + "/none/x", std::string("/dev/full")}) {
      RomOverwriter w(std::make_unique<Rom>(kLoRom, "r", std::vector<uint8_t>(), std::vector<uint8_t>(0x10000)));
      auto r = w.CreateFile(p);
      if (!r.ok()) has("save", p, r.error().ToString()); else c.fail("save", p + " is accepted");
    }
  }
}
static const mc::Check kCheck = {
    .property = "P29", .level = "model_checking",
    .rule = "a line that cannot be right is put at every place of every program of the menu, alone and among other files, and the error must start with that file and line; for a thing defined or closed twice, one of the two lines; each write is refused in turn and each edge read of a ROM attempted, and the error must name the line or the address",
    .bounds_quick = "about 140 bad lines at every place of every program of up to 2 of 13 line forms plus 14 fixed lines, alone and in three files; a share of them behind up to 70000 lines of 9 kinds and among up to 9 files; every failing write of programs of 3 lines; reads at the edges of all banks",
    .bounds_thorough = "programs of up to 3 lines, all reads", .run = Run, .chunk = 1, .hang_seconds = 600,
    .assumptions = {"errors that belong to no single line (circular definitions of files, running past the end of a file, two files claiming the same memory) are not claimed to name one", "the text of the message is not checked"}};
MC_MAIN(kCheck)
