// P23: every statement is laid out at the address its file gives it, and no byte is given twice.
#include <deque>
#include <map>
#include <optional>
#include <set>
#include "lib/mc.h"
#include "nsasm/assembler.h"
using namespace nsasm;

static uint32_t Wrap(uint32_t a, uint32_t d) { return (a & 0xff0000) | ((a + d) & 0xffff); }
struct Sink : OutputSink {
  std::map<uint32_t, uint8_t> w;
  bool twice = false;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    uint32_t at = uint32_t(a.Bank()) << 16 | a.BankAddress();
    for (auto b : d) { if (!w.emplace(at, b).second) twice = true; at = Wrap(at, 1); }
    return {};
  }
};
struct Piece { char kind; std::string bytes; };  // a statement of a line
struct Item {
  std::string text;
  int64_t org = -2;                    // -2: none; otherwise the new address
  std::vector<std::string> statements; // the bytes of each
  bool equ = false;
};
static std::string B(std::initializer_list<int> l) { std::string s; for (int v : l) s.push_back(char(v)); return s; }
static Item Org(const std::string& text, int64_t v) { return {".org " + text, v, {}}; }
static uint32_t g_probe = 0x700000;  // where a file of its own tells the values of all labels
struct Count { uint64_t n = 0, ok = 0, twice = 0, noaddr = 0, badorg = 0, bytes = 0; };
// unnamed: bit f set, file f has no module; labels: how many each line has
static void One(mc::Ctx& c, const std::vector<std::vector<const Item*>>& files, Count* k, bool reversed, uint64_t unnamed = 0, int nlabels = 1) {
  ++k->n;
  std::string bad, probe = mc::Fmt(".org $%06x\n.dl 0", g_probe);
  std::map<uint32_t, uint8_t> want;
  std::vector<uint32_t> labels;
  std::vector<std::string> text;
  bool orphan = false;
  for (size_t f = 0; f < files.size(); ++f) {
    bool named = !(unnamed >> f & 1);
    std::string s = named ? mc::Fmt(".module m%d\n", int(f)) : "";
    std::optional<uint32_t> pc;
    for (size_t i = 0; i < files[f].size(); ++i) {
      auto& it = *files[f][i];
      for (int n = 0; n < nlabels; ++n) {
        std::string name = (named ? "" : mc::Fmt("f%d_", int(f))) + mc::Fmt(n ? "l%d_%d" : "l%d", int(i), n);
        s += name + (n + 1 == nlabels ? " " : n % 2 ? ": " : "\n");
        probe += ", " + (named ? mc::Fmt("m%d::", int(f)) : std::string("::")) + name;
        if (n) labels.push_back(0);  // replaced below
      }
      s += it.text + "\n";
      size_t firstlabel = labels.size() - (nlabels - 1);
      auto all = [&](uint32_t v) { labels.resize(firstlabel); for (int n = 0; n < nlabels; ++n) labels.push_back(v); };
      if (it.equ) { all(5); continue; }
      if (it.org != -2) {
        if (it.org < 0 || it.org > 0xffffff) { if (bad.empty()) { bad = "an origin is no address"; ++k->badorg; } }
        pc = it.org & 0xffffff;
      }
      if (!pc) { orphan = true; all(0); }
      else all(*pc);
      for (auto& b : it.statements) {
        if (!pc) { if (bad.empty()) { bad = "a statement has no address"; ++k->noaddr; } break; }
        for (size_t j = 0; j < b.size(); ++j)
          if (!want.emplace(Wrap(*pc, j), b[j]).second && bad.empty()) { bad = mc::Fmt("byte $%06x is given twice", Wrap(*pc, j)); ++k->twice; }
        pc = Wrap(*pc, b.size());
      }
    }
    text.push_back(s);
  }
  std::vector<File> fs;
  for (size_t f = 0; f < text.size(); ++f) fs.insert(reversed ? fs.begin() : fs.end(), MakeFakeFile(mc::Fmt("f%d.asm", int(f)), text[f]));
  fs.push_back(MakeFakeFile("probe.asm", probe + "\n"));
  uint32_t at = g_probe;
  auto put = [&](uint32_t v) { for (int j = 0; j < 3; ++j) want[at++] = v >> (8 * j); };
  put(0);
  for (auto v : labels) put(v);
  Sink sink;
  auto r = Assemble(fs, &sink);
  auto fail = [&](const std::string& why) {
    std::string s;
    for (auto& t : text) s += t.size() > 2000 ? t.substr(0, 2000) + "..." : t;
    for (auto& ch : s) if (ch == '\n') ch = '|';
    c.fail("program " + s, why + " [" + s + "]");
  };
  if (!bad.empty()) { if (r.ok()) fail("assembled although " + bad); return; }
  if (!r.ok()) { if (!orphan) fail("refused: " + r.error().ToString()); return; }
  ++k->ok;
  k->bytes += want.size();
  if (sink.twice) return fail("a byte is written twice");
  if (sink.w != want) {
    for (auto& b : want)
      if (!sink.w.count(b.first)) return fail(mc::Fmt("no byte at $%06x", b.first));
      else if (sink.w[b.first] != b.second) return fail(b.first >= g_probe && b.first < at ? mc::Fmt("label %d has the wrong value", int(b.first - g_probe - 3) / 3) : mc::Fmt("byte at $%06x is $%02x, not $%02x", b.first, sink.w[b.first], b.second));
    for (auto& b : sink.w) if (!want.count(b.first)) return fail(mc::Fmt("a byte is written at $%06x", b.first));
  }
  // Contains() is exact: at every byte, its neighbours, and the ends of the banks.
  std::set<uint32_t> ask = {0, 0xffff, 0x10000, 0xffffff, 0xff0000, 0x7fff, 0x8000};
  for (auto& b : want) { ask.insert(b.first); ask.insert((b.first + 1) & 0xffffff); ask.insert((b.first - 1) & 0xffffff); ask.insert(Wrap(b.first, 1)); ask.insert(Wrap(b.first, 0xffff)); }
  for (auto a : ask) if (r->Contains(Address(a)) != bool(want.count(a))) return fail(mc::Fmt("Contains($%06x) is %d", a, !want.count(a)));
}
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  std::vector<Item> menu = {
      Org("$8000", 0x8000), Org("$00fffe", 0xfffe), Org("$00ffff", 0xffff), Org("$010000", 0x10000), Org("$ffffff", 0xffffff), Org("$8000 + 3", 0x8003),
      {".db 1", -2, {B({1})}}, {".dw $2345", -2, {B({0x45, 0x23})}}, {".dl $456789", -2, {B({0x89, 0x67, 0x45})}}, {".db 1, 2, <$1234, -1", -2, {B({1, 2, 0x34, 0xff})}},
      {".dw 1, 2, -2", -2, {B({1, 0, 2, 0, 0xfe, 0xff})}},
      {".entry m8x16 : lda #$12 : ldx #$1234 : sta $123456 : rtl", -2, {B({0xa9, 0x12}), B({0xa2, 0x34, 0x12}), B({0x8f, 0x56, 0x34, 0x12}), B({0x6b})}},
      {".entry m8x8 : rtl", -2, {B({0x6b})}},
      Item{".equ 5", -2, {}, true},
      Org("0-1", -1), Org("$ffffff+1", 0x1000000),
  };
  std::vector<Item> small;
  for (auto i : {0, 1, 3, 5, 6, 8, 12}) small.push_back(menu[i]);
  static const Item kOrg8000 = Org("$8000", 0x8000), kOrgEnd = Org("$00ffff", 0xffff), kOrg1 = Org("$010000", 0x10000), kOrg8002 = Org("$8002", 0x8002), kDb = {".db 9", -2, {B({9})}}, kDw = {".dw $9898", -2, {B({0x98, 0x98})}}, kOrg0 = Org("0", 0);
  std::vector<std::vector<const Item*>> seconds = {{}, {&kOrg8000, &kDb}, {&kOrgEnd, &kDw}, {&kOrg1, &kDb, &kOrg8002, &kDb}, {&kOrg0, &kDb}, {&kOrg8002, &kDw, &kOrgEnd, &kDb}};
  auto all = [&](const char* part, const std::vector<Item>& mn, int len, size_t from, size_t to, uint64_t unnamed = 0, int nlabels = 1) {
    for (size_t s = from; s < to; ++s)
      for (size_t first = 0; first < mn.size(); ++first)
        for (size_t second = 0; second < (len > 1 ? mn.size() : 1); ++second) {
          c.part(part);
          if (!c.want()) continue;
          c.describe([&] { return mc::Fmt("%s: every file of %d lines that starts with [%s]%s%s%s, with second file %d, both file orders", part, len, mn[first].text.c_str(), len > 1 ? "[" : "", len > 1 ? mn[second].text.c_str() : "", len > 1 ? "]" : "", int(s)); });
          Count k;
          std::vector<size_t> ix(len, 0);
          ix[0] = first;
          if (len > 1) ix[1] = second;
          std::vector<std::vector<const Item*>> fs(1, std::vector<const Item*>(len));
          if (!seconds[s].empty()) fs.push_back(seconds[s]);
          while (true) {
            for (int i = 0; i < len; ++i) fs[0][i] = &mn[ix[i]];
            One(c, fs, &k, false, unnamed, nlabels);
            if (fs.size() > 1) One(c, fs, &k, true, unnamed, nlabels);
            int i = len - 1;
            for (; i >= 2; --i) { if (++ix[i] < mn.size()) break; ix[i] = 0; }
            if (i < 2) break;
          }
          c.step(k.n * len); c.trace(k.n);
          c.outcome("assembled", k.ok); c.outcome("refused: a byte given twice", k.twice); c.outcome("refused: no address", k.noaddr); c.outcome("refused: bad origin", k.badorg);
          c.state(mc::HashStr(part, mc::Mix(s * 100 + len, first * 30 + second)));
        }
  };
  for (int len = 1; len <= 4; ++len) all("one file", menu, len, 0, 1);
  for (int len = 1; len <= (t ? 5 : 4); ++len) all("two files", menu, len, 1, seconds.size());
  if (t) all("one file", menu, 5, 0, 1);
  all("long files", small, t ? 8 : 6, 0, 1);
  all("long files", small, t ? 7 : 5, 1, seconds.size());
  for (int len = 1; len <= (t ? 4 : 3); ++len) {
    all("without modules", menu, len, 0, 1, 1);
    for (uint64_t u : {1, 3}) all("without modules", menu, len, 1, seconds.size(), u);
    for (int n : {2, 4}) { all("several labels a line", menu, len, 0, 1, 0, n); if (len < 3 || t) all("several labels a line", menu, len, 3, 4, 3, n); }
  }
  // Many pieces in one file or in many, and then one more.
  static std::deque<Item> made;
  for (int n : {1, 2, 3, 4, 7, 8, 9, 16, 17, 33, 64, 100})
    for (int nfiles : {1, 2, 3, 5, 12})
      for (int shape = 0; shape < 5; ++shape) {
        c.part("many pieces");
        if (!c.want()) continue;
        static const char* const shapes[] = {"upwards with gaps", "downwards with gaps", "each behind the last, in files by turns", "upwards, adjacent", "outwards from the middle"};
        c.describe([&] { return mc::Fmt("%d pieces of 2 bytes in each of %d files, %s, and one more piece about each of them", n, nfiles, shapes[shape]); });
        Count k;
        made.clear();
        std::vector<std::vector<const Item*>> fs(nfiles);
        std::vector<uint32_t> at;
        int total = n * nfiles;
        auto origin = [&](uint32_t a) { made.push_back(Org(mc::Fmt("%d", int(a)), a)); return &made.back(); };
        static const Item piece{".dw $1357", -2, {B({0x57, 0x13})}};
        for (int i = 0; i < total; ++i) {
          int f = shape == 2 ? i % nfiles : i / n;
          int place = shape == 1 ? total - 1 - i : shape == 4 ? (i % 2 ? total / 2 - 1 - i / 2 : total / 2 + i / 2) : i;
          uint32_t a = 0x128000 - total + place * (shape == 2 || shape == 3 ? 2 : 3);
          at.push_back(a);
          fs[f].push_back(origin(a));
          fs[f].push_back(&piece);
        }
        One(c, fs, &k, false); One(c, fs, &k, true); One(c, fs, &k, false, 0x555);
        std::set<uint32_t> spots;
        for (int i = 0; i < total; ++i) if (total <= 40 || i < 8 || i >= total - 8 || i % (total / 16) < 2) for (int d : {-1, 0, 1, 2}) spots.insert(at[i] + d);
        for (uint32_t a : spots)
          for (int f = 0; f < nfiles; f += nfiles > 2 ? nfiles / 2 : 1)
            for (int where = 0; where < 2; ++where) {
              auto more = fs;
              static const Item one{".db $99", -2, {B({0x99})}};
              std::vector<const Item*> extra = {origin(a), &one};
              more[f].insert(where ? more[f].end() : more[f].begin(), extra.begin(), extra.end());
              One(c, more, &k, (a + f) & 1, f & 1 ? 0 : ~uint64_t(0) * where);
              made.pop_back();
            }
        c.step(k.n * total); c.trace(k.n);
        c.outcome("assembled", k.ok); c.outcome("refused: a byte given twice", k.twice); c.outcome("refused: no address", k.noaddr); c.outcome("refused: bad origin", k.badorg);
        c.state(mc::Mix(n * 100 + nfiles, 500 + shape));
      }
  for (int b = 0; b < 256; ++b) {
    c.part("every bank");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("statements at the ends of bank $%02x, a second file in the next, and in the same bank", b); });
    Count k;
    g_probe = b < 0x20 ? 0x700000 : 0x108000;
    for (int lo : {0xfffb, 0xfffd, 0xfffe, 0xffff, 0, 1, 0x7fff})
      for (int other : {0, 1, 2}) {
        Item org = Org(mc::Fmt("$%06x", b << 16 | lo), b << 16 | lo), far = Org(mc::Fmt("$%06x", ((b + 1) & 255) << 16), ((b + 1) & 255) << 16), near = Org(mc::Fmt("$%06x", b << 16 | 2), b << 16 | 2);
        for (auto* x : {&menu[8], &menu[9], &menu[10], &menu[11]}) {
          std::vector<std::vector<const Item*>> fs = {{&org, x, &kDb}};
          if (other) fs.push_back({other == 1 ? &far : &near, &menu[6], &menu[7]});
          One(c, fs, &k, false, b & 3);
          One(c, fs, &k, true, b & 3);
        }
      }
    c.step(k.n * 3); c.trace(k.n);
    c.outcome("assembled", k.ok); c.outcome("refused: a byte given twice", k.twice);
    c.state(mc::Mix(99, b));
  }
  g_probe = 0x700000;
  // Statements around the size of a bank.
  for (int n : {0xfffe, 0xffff, 0x10000, 0x10001, 0x18000, 0x20000})
    for (int start : {0x0, 0x8000, 0x1ffff, 0xff0001, 0xffffff})
      for (int extra = 0; extra < 3; ++extra) {
        c.part("bank-sized statements");
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("one .db of %d bytes at $%06x, %d bytes behind it", n, start, extra); });
        Item org = Org(mc::Fmt("%d", start), start), big{".db 7", -2, {std::string(n, 7)}};
        for (int i = 1; i < n; ++i) big.text += ",7";
        std::vector<const Item*> f = {&org, &big};
        for (int i = 0; i < extra; ++i) f.push_back(&kDb);
        Count k;
        One(c, {f}, &k, false);
        c.step(); c.trace();
        c.outcome("assembled", k.ok); c.outcome("refused: a byte given twice", k.twice);
        c.state(mc::Mix(n, start * 4 + extra));
      }
}
static const mc::Check kCheck = {
    .property = "P23", .level = "model_checking",
    .rule = "every file over the menu of origins, data and code lines is assembled by the real assembler next to each second file; a layout simulation with one entry for each byte of memory gives acceptance, every byte, the value of a label on every line, and Contains() at and around every byte",
    .bounds_quick = "files of up to 4 lines of 16 forms, alone and with each of 5 second files, 6 and 5 lines of 7 forms, both file orders; 3 lines without modules and with up to 5 labels a line; up to 1200 pieces in up to 12 files and one more piece about each; the ends of every bank; single statements of a bank -2 to two banks",
    .bounds_thorough = "5 lines of 16 forms, 8 and 7 lines of 7 forms", .run = Run, .chunk = 2, .hang_seconds = 120,
    .assumptions = {"a sink wraps a write at the end of a bank, as OutputSink documents and P03 and P26 check", "whether a label on a statement without size and without address is refused is not judged"}};
MC_MAIN(kCheck)
