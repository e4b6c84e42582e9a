// P30: a program is assembled only if every byte reached the output.
#include <algorithm>
#include <climits>
#include "lib/mc.h"
#include "nsasm/assembler.h"
using namespace nsasm;

typedef std::vector<std::pair<uint32_t, std::vector<uint8_t>>> Log;
struct Sink : OutputSink {
  Log log;
  int first = -1, last = -1;  // the writes that fail
  int calls = 0;
  bool after = false, failed = false;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    if (failed) after = true;
    int k = calls++;
    if (k >= first && k <= last) { failed = true; return Error("out of order %d", calls); }
    log.push_back({uint32_t(a.Bank()) << 16 | a.BankAddress(), {d.begin(), d.end()}});
    return {};
  }
};
struct Count { uint64_t n = 0, ok = 0, faults = 0, refused = 0; };
static void One(mc::Ctx& c, const std::vector<std::string>& texts, Count* k) {
  ++k->n;
  std::vector<File> files;
  std::string name;
  for (size_t i = 0; i < texts.size(); ++i) { files.push_back(MakeFakeFile(mc::Fmt("f%d.asm", int(i)), texts[i])); name += "[" + texts[i] + "]"; }
  auto fail = [&](const std::string& why) { c.fail("program " + name, "program " + name + ": " + why); };
  Sink clean;
  auto r = Assemble(files, &clean);
  bool good = r.ok();
  ++(good ? k->ok : k->refused);
  int n = clean.calls;
  if (clean.failed || clean.calls != int(clean.log.size())) return fail("harness");
  for (int first = 0; first < n; ++first) {
    // One failing write, alone, with the next one, and with all that follow.
    for (int last : {first, first + 1, INT_MAX}) {
      Sink s;
      s.first = first; s.last = last;
      auto q = Assemble(files, &s);
      ++k->faults;
      if (q.ok()) return fail(mc::Fmt("write %d of %d fails, and the program is reported as assembled", first + 1, n));
      if (s.after) return fail(mc::Fmt("write %d of %d fails, and more is written", first + 1, n));
      if (!std::equal(s.log.begin(), s.log.end(), clean.log.begin()) || int(s.log.size()) != first) return fail(mc::Fmt("the writes before write %d differ from a run without failures", first + 1));
      if (q.error().ToString().find("out of order " + std::to_string(first + 1)) == std::string::npos) return fail(mc::Fmt("write %d fails, but the error is: ", first + 1) + q.error().ToString());
    }
  }
  Sink again;
  auto q = Assemble(files, &again);
  if (q.ok() != good || again.log != clean.log) return fail("a run after failed runs is different");
}
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  static const char* const lines[] = {"nop", "lda #$12", "jsr $9000", "jsl @far", "add #1", "sub $12", "mvn #1, #2", "bne here", "brl here", "per here", ".db 1", ".db 1, 2, 3", ".dw here, 5", ".dl @far", "{", "}", ".mode m8", ".entry m16x8", "here", "far .equ $123456", ".org $8100", ".remote $9000 m8", "rts", ".halt", "bra here", "lda @nosuch"};
  const int m = sizeof(lines) / sizeof(lines[0]);
  // A call with no other effect than its bytes, so that most programs assemble.
  const std::vector<std::string> tails = {"\nx: rts\n"};
  const std::vector<std::vector<std::string>> others = {{}, {".org $a000\n.entry m8\nnop\nrts\n.db 1, 2\n"}, {".org $a000\nexport y .equ 5\n", ".org $b000\n.db y\n.entry emu\nbrl q\nq rts\n"}};
  auto all = [&](int len, size_t other, bool before) {
    for (int first = 0; first < m; ++first) for (int second = 0; second < (len > 2 ? m : 1); ++second) {
      c.part(other ? "several files" : "one file");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("every program of %d lines that starts with [%s%s%s], %d other files %s, each write failing", len, lines[first], len > 2 ? "; " : "", len > 2 ? lines[second] : "", int(others[other].size()), before ? "before" : "after"); });
      Count k;
      std::vector<int> ix(len, 0);
      ix[0] = first;
      int fixed = 1;
      if (len > 2) { ix[1] = second; fixed = 2; }
      while (true) {
        bool has_here = false, has_far = false;
        for (int i = 0; i < len; ++i) { has_here |= std::string(lines[ix[i]]) == "here"; has_far |= std::string(lines[ix[i]]).substr(0, 4) == "far "; }
        std::string s = ".org $8000\n.entry m8x8\n";
        for (int i = 0; i < len; ++i) s += std::string(lines[ix[i]]) + "\n";
        s += std::string(has_here ? "" : "here ") + "rts\n" + (has_far ? "" : "far .equ $123456\n");
        std::vector<std::string> texts = others[other];
        texts.insert(before ? texts.end() : texts.begin(), s);
        One(c, texts, &k);
        int i = len - 1;
        for (; i >= fixed; --i) { if (++ix[i] < m) break; ix[i] = 0; }
        if (i < fixed) break;
      }
      c.step(k.n + k.faults); c.trace(k.faults); c.outcome("assembled without faults", k.ok); c.outcome("refused anyway", k.refused); c.outcome("runs with failing writes", k.faults);
      c.state(mc::Mix(len * 10 + other, first * 100 + second));
    }
  };
  all(1, 0, false); all(2, 0, false); all(3, 0, false);
  for (size_t o = 1; o < others.size(); ++o) for (bool b : {false, true}) all(2, o, b);
  // Many files and many writes: each file needs a value of the one before it, or of the one after it.
  for (int files = 1; files <= (t ? 12 : 8); ++files)
    for (int order = 0; order < 3; ++order)
      for (int writes : {1, 2, 3, 8, 40}) {
        c.part("many files");
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%d files of %d writes, %s, each write failing", files, writes, order == 0 ? "without need of each other" : order == 1 ? "each needing a value of the one before" : "each needing a value of the one behind"); });
        Count k;
        for (int shift = 0; shift < files; ++shift)
          for (int kind = 0; kind < 4; ++kind) {
            std::vector<std::string> texts;
            for (int f = 0; f < files; ++f) {
              int other = order == 1 ? f - 1 : f + 1;
              std::string s = (kind & 1 ? mc::Fmt(".module m%d\n", f) : "") + mc::Fmt(".org $%06x\n", 0x8000 + f * 0x10100);
              bool link = order && other >= 0 && other < files;
              s += mc::Fmt("v%d .equ ", f) + (link ? (kind & 1 ? mc::Fmt("m%d::", other) : "") + mc::Fmt("v%d + 1", other) : "5") + "\n";
              if (kind & 2) s += ".entry m8x8\n";
              for (int w = 0; w < writes; ++w) s += (kind & 2 ? w % 3 == 0 ? mc::Fmt("lda #%d", w) : w % 3 == 1 ? mc::Fmt("sta @v%d", f) : std::string("nop") : w % 2 ? mc::Fmt(".db %d, v%d", w, f) : mc::Fmt(".dl v%d", f)) + "\n";
              if (kind & 2) s += "rts\n";
              texts.push_back(s);
            }
            std::rotate(texts.begin(), texts.begin() + shift, texts.end());
            One(c, texts, &k);
          }
        if (k.refused) c.fail(mc::Fmt("many %d %d %d", files, order, writes), "refused without a fault");
        c.step(k.n + k.faults); c.trace(k.faults); c.outcome("assembled without faults", k.ok); c.outcome("runs with failing writes", k.faults);
        c.state(mc::Mix(files * 10 + order, writes));
      }
  if (t) { all(4, 0, false); for (size_t o = 1; o < others.size(); ++o) for (bool b : {false, true}) all(3, o, b); }
}
static const mc::Check kCheck = {
    .property = "P30", .level = "fault_enumeration",
    .rule = "every program of the menu is assembled into a sink that records writes, then once for each write and each of three failure patterns with that write failing; a failed write must fail the assembly with the sink's error, end all writing, and leave the writes before it as they were",
    .bounds_quick = "all programs of up to 3 lines of 26 forms, 2 lines with one or two other files before or after; up to 8 files of up to 40 statements, in every rotation, with values of each other; the failing write alone, with the next one, and with all later ones",
    .bounds_thorough = "4 lines, 3 lines with other files, 12 files", .run = Run, .chunk = 2, .hang_seconds = 120,
    .assumptions = {"the sink itself reports its failures (P03, P06 and P26 check the real sinks)"}};
MC_MAIN(kCheck)
