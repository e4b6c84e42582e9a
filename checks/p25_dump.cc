// P25: the dump tool prints exactly the ROM's bytes as data directives, or reports an error.
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>
#include "lib/mc.h"
#include "checks/romref.h"
#include "checks/proc.h"
typedef std::vector<uint8_t> Bytes;
static const char* kN[3] = {"LoROM", "HiROM", "ExHiROM"};
struct Img { int map; Bytes data; std::string path; };
static bool ParseDump(const std::string& out, uint32_t* org, std::vector<std::vector<uint32_t>>* lines, std::vector<std::string>* dirs, std::string* why) {
  size_t pos = 0;
  int n = 0;
  while (pos < out.size()) {
    size_t e = out.find('\n', pos);
    if (e == std::string::npos) { *why = "last line is not terminated"; return false; }
    std::string l = out.substr(pos, e - pos);
    pos = e + 1;
    if (n++ == 0) {
      unsigned v; char tail;
      if (sscanf(l.c_str(), " .org $%x %c", &v, &tail) != 1) { *why = "first line is '" + l + "'"; return false; }
      *org = v;
      continue;
    }
    size_t i = l.find_first_not_of(" \t");
    if (i == std::string::npos) continue;
    size_t j = l.find_first_of(" \t", i);
    if (j == std::string::npos) { *why = "line '" + l + "'"; return false; }
    dirs->push_back(l.substr(i, j - i));
    std::vector<uint32_t> v;
    for (;;) {
      i = l.find_first_not_of(" \t", j);
      if (i == std::string::npos || l[i] != '$') { *why = "line '" + l + "'"; return false; }
      size_t k = l.find_first_not_of("0123456789abcdefABCDEF", i + 1);
      if (k == i + 1) { *why = "line '" + l + "'"; return false; }
      v.push_back(strtoul(l.substr(i + 1, (k == std::string::npos ? l.size() : k) - i - 1).c_str(), nullptr, 16));
      if (k == std::string::npos) break;
      i = l.find_first_not_of(" \t", k);
      if (i == std::string::npos) break;
      if (l[i] != ',') { *why = "line '" + l + "'"; return false; }
      j = i + 1;
    }
    lines->push_back(v);
  }
  if (n == 0) { *why = "no output"; return false; }
  return true;
}
static void Run(mc::Ctx& c) {
  std::vector<Img> imgs;
  for (int m = 0; m < 3; ++m) {
    Img i{m, ref::Pattern(m == 2 ? 0x410000 : 0x18000), c.scratch() + "/" + kN[m] + ".sfc"};
    auto& d = i.data;
    for (size_t at : {size_t(0x7fdc), size_t(0xffdc)}) { d[at + 2] = ~d[at]; d[at + 3] = ~d[at + 1]; }
    d[m == 0 ? 0xffdc : 0x7fdc] ^= 1;
    std::ofstream f(i.path, std::ios::binary);
    f.write((const char*)d.data(), d.size());
    imgs.push_back(std::move(i));
  }
  std::string tool = std::string(getenv("VF_TOOLS")) + "/quick_dump";
  std::vector<int> counts = c.thorough() ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 4096, 10000} : std::vector<int>{1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 100, 129, 257, 1000};
  for (auto& img : imgs) {
    std::vector<uint32_t> starts;
    if (img.map == 0) starts = {0x008000, 0x00fffe, 0x00ffff, 0x018000, 0x01fff0, 0x02ffe0, 0x02fffd, 0x808001, 0x038000, 0x000000, 0x007fff, 0x7e0000, 0xffffff};
    else if (img.map == 1) starts = {0xc00000, 0xc0fffe, 0xc0ffff, 0x008000, 0x00fffd, 0xc17ff8, 0xc17fff, 0xc18000, 0x407000, 0x7e0000, 0x002100, 0xffffff};
    else starts = {0xc00000, 0xc0ffff, 0x400000, 0x40ffff, 0x408000, 0x410000, 0xc10000, 0x7e0000};
    size_t edges = starts.size();
    for (int bank = 0; bank < 256; ++bank) for (int at : {0x7fff, 0x8000, 0xfffe}) starts.push_back(bank << 16 | at);
    for (size_t which = 0; which < starts.size(); ++which)
      for (int count : which < edges ? counts : std::vector<int>{3})
        for (int stride : {-1, 1, 2, 3})
          for (int per : which < edges ? std::vector<int>{-1, 1, 2, 3, 8, 16, 100, 256} : std::vector<int>{-1}) {
            uint32_t s = starts[which];
            if (stride < 0 && per >= 0) continue;
            c.part(kN[img.map]);
            if (!c.want()) continue;
            std::vector<std::string> args = {tool, img.path, mc::Fmt("%x", s), mc::Fmt("%d", count)};
            if (stride >= 0) args.push_back(mc::Fmt("%d", stride));
            if (per >= 0) args.push_back(mc::Fmt("%d", per));
            std::string text = mc::Fmt("%s dump $%06x count %d stride %d per line %d", kN[img.map], s, count, stride, per);
            c.describe([&] { return text; });
            int st = stride < 0 ? 1 : stride, pl = per < 0 ? 8 : per;
            bool ok = true;
            std::vector<uint32_t> want;
            for (int i = 0; i < count && ok; ++i) {
              uint32_t v = 0;
              for (int b = 0; b < st; ++b) { int64_t o = ref::Offset(ref::Wrap(s, i * st + b), ref::Map(img.map)); if (o < 0 || o >= int64_t(img.data.size())) { ok = false; break; } v |= uint32_t(img.data[o]) << (8 * b); }
              want.push_back(v);
            }
            proc::Result r = proc::Run(args, c.scratch());
            c.step();
            c.outcome(ok ? "dumped" : "error");
            c.trace();
            c.state(mc::HashStr(text));
            if (r.timeout || r.signal) { c.fail(text, text + (r.timeout ? ": did not finish" : mc::Fmt(": killed by signal %d", r.signal))); continue; }
            if (!ok) { if (r.code == 0) c.fail(text, text + ": exit code 0 although the range is not in the ROM"); continue; }
            if (r.code != 0) { c.fail(text, text + mc::Fmt(": exit code %d for a valid range", r.code)); continue; }
            uint32_t org = 0;
            std::vector<std::vector<uint32_t>> lines;
            std::vector<std::string> dirs;
            std::string why;
            std::vector<uint32_t> all;
            if (!ParseDump(r.out, &org, &lines, &dirs, &why)) { c.fail(text, text + ": unreadable output, " + why); continue; }
            for (size_t i = 0; i < lines.size(); ++i) {
              all.insert(all.end(), lines[i].begin(), lines[i].end());
              std::string d = dirs[i];
              for (char& ch : d) ch = tolower(ch);
              if (d != (st == 1 ? ".db" : st == 2 ? ".dw" : ".dl")) why = "directive " + dirs[i];
              if (int(lines[i].size()) > pl || (i + 1 < lines.size() && int(lines[i].size()) != pl)) why = mc::Fmt("line %zu holds %zu values", i, lines[i].size());
            }
            if (org != s) why = mc::Fmt("origin $%06x", org);
            if (all != want) { why = mc::Fmt("%zu values, expected %zu", all.size(), want.size()); for (size_t i = 0; i < all.size() && i < want.size(); ++i) if (all[i] != want[i]) { why = mc::Fmt("value %zu is $%x, expected $%x", i, all[i], want[i]); break; } }
            if (!why.empty()) c.fail(text, text + ": " + why);
          }
  }
  // Bad command lines end with an error (or a usage message), never a crash or a bogus dump.
  struct Bad { std::vector<std::string> a; bool zero_ok; };
  std::string good = imgs[0].path;
  std::vector<Bad> bads = {{{}, true}, {{good}, true}, {{good, "8000"}, true}, {{"/nonexistent", "8000", "4"}, false}, {{c.scratch(), "8000", "4"}, false}, {{good, "zzz", "4"}, false}, {{good, "8000", "zz"}, false}, {{good, "8000", "4", "q"}, false}, {{good, "8000", "4", "1", "q"}, false}, {{good, "1000000", "4"}, false}, {{good, "1000001", "4"}, false}, {{good, "ffffffff", "4"}, false}, {{good, "", "4"}, false}, {{good, "8000", ""}, false}, {{good, "8000", "4", ""}, false}, {{good, "8000", "4", "1", ""}, false}, {{good, "7e8000", "1"}, false}};
  for (auto& b : bads) {
    c.part("bad command lines");
    if (!c.want()) continue;
    std::string text = "arguments:";
    for (auto& s : b.a) text += " '" + (s.find('/') == std::string::npos ? s : std::string("<path>")) + "'";
    c.describe([&] { return text; });
    std::vector<std::string> args = {tool};
    args.insert(args.end(), b.a.begin(), b.a.end());
    proc::Result r = proc::Run(args, c.scratch());
    c.step();
    c.trace();
    c.outcome("error");
    if (r.timeout || r.signal) c.fail(text, text + (r.timeout ? ": did not finish" : mc::Fmt(": killed by signal %d", r.signal)));
    else if (r.code == 0 && !b.zero_ok) c.fail(text, text + ": exit code 0");
    else if (r.out.find(".org") != std::string::npos) c.fail(text, text + ": printed a dump");
  }
}
MC_MAIN((mc::Check{.property = "P25", .level = "model_checking",
  .rule = "every combination of the start, count, stride and line-length menus on a ROM of each map, run as the real program, its output parsed and compared value by value; a state is a command line",
  .bounds_quick = "33 edge starts x 14 counts (to 1000) x 25 stride/line forms; 3 starts in every bank; 17 bad command lines", .bounds_thorough = "33 edge starts x 34 counts (to 10000) x 25 stride/line forms", .run = Run}))
