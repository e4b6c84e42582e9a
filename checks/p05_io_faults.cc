// P05: failing file operations are reported, never turned into wrong data or a partial save.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iterator>
#include <signal.h>
#include <stdio.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "lib/mc.h"
#include "checks/romref.h"
#include "nsasm/rom.h"
using nsasm::Address;
typedef std::vector<uint8_t> Bytes;

// Fault plan: the call with number `at` (counting intercepted calls) departs from its default answer.
struct Fault { int at; int how; };
static std::vector<Fault> g_plan;
static bool g_on = false;
static int g_calls = 0;
static std::vector<int> g_log;  // kinds of the calls seen
enum Kind { OPEN, SEEK, TELL, READ, WRITE, CLOSE, FLUSH };
static const char* kKind[] = {"open", "seek", "tell", "read", "write", "close", "flush"};
static const int kHows[] = {1, 1, 2, 4, 4, 1, 1};
static int Hit(Kind k) {  // -1: no fault
  if (!g_on) return -1;
  int n = g_calls++;
  g_log.push_back(k);
  for (auto& f : g_plan) if (f.at == n) return f.how % kHows[k];
  return -1;
}
extern "C" {
FILE* __real_fopen(const char*, const char*);
int __real_fseek(FILE*, long, int);
long __real_ftell(FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fclose(FILE*);
int __real_fflush(FILE*);
FILE* __wrap_fopen(const char* p, const char* m) { if (Hit(OPEN) >= 0) { errno = EMFILE; return nullptr; } return __real_fopen(p, m); }
int __wrap_fseek(FILE* f, long o, int w) { if (Hit(SEEK) >= 0) { errno = EIO; return -1; } return __real_fseek(f, o, w); }
long __wrap_ftell(FILE* f) {
  int h = Hit(TELL);
  if (h == 0) { errno = EIO; return -1; }
  long r = __real_ftell(f);
  if (h == 1) return r + 0x1000;  // the file shrank after it was measured
  return r;
}
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) {
  int h = Hit(READ);
  if (h < 0) return __real_fread(p, s, n, f);
  size_t want = h == 0 ? 0 : h == 1 ? n - 1 : h == 2 ? n / 2 : 1;
  if (want > n) want = n;
  size_t r = want ? __real_fread(p, s, want, f) : 0;
  errno = EIO;
  return r;
}
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) {
  int h = Hit(WRITE);
  if (h < 0) return __real_fwrite(p, s, n, f);
  size_t want = h == 0 ? 0 : h == 1 ? n - 1 : h == 2 ? n / 2 : 1;
  if (want > n) want = n;
  size_t r = want ? __real_fwrite(p, s, want, f) : 0;
  errno = ENOSPC;
  return r;
}
int __wrap_fclose(FILE* f) {
  if (Hit(CLOSE) >= 0) { int fd = fileno(f); struct stat st; fstat(fd, &st); bool w = (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY; __real_fclose(f); if (w) { errno = EIO; return EOF; } return EOF; }
  return __real_fclose(f);
}
int __wrap_fflush(FILE* f) { if (Hit(FLUSH) >= 0) { errno = ENOSPC; return EOF; } return __real_fflush(f); }
}
static int OpenFds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static Bytes Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(f)), {}); }

static Bytes Image(size_t size, int map) {
  Bytes d = ref::Pattern(size);
  for (size_t at : {size_t(0x7fdc), size_t(0xffdc)}) { d[at + 2] = ~d[at]; d[at + 3] = ~d[at + 1]; }
  d[map == 0 ? 0xffdc : 0x7fdc] ^= 1;
  return d;
}
// Runs one load; returns its problem, if any.  `faulty`: an error is permitted.
static std::string LoadOnce(mc::Ctx& c, const std::string& path, int map, const Bytes& data, bool faulty) {
  int before = OpenFds();
  g_calls = 0; g_log.clear(); g_on = true;
  auto r = nsasm::LoadRomFile(path);
  g_on = false;
  c.step(g_calls + 1);
  c.outcome(r.ok() ? "load ok" : "load reported an error");
  if (OpenFds() != before) return "a file handle was left open";
  if (!r.ok()) return faulty ? "" : "failed without any fault";
  for (size_t o = 0; o < data.size(); o += 0x1000) {
    uint32_t a = map == 0 ? (o / 0x8000) << 16 | 0x8000 | (o % 0x8000) : 0xc00000 | o;
    auto got = (*r)->Read(Address(a), 0x1000);
    if (!got.ok() || !std::equal(got->begin(), got->end(), data.begin() + o)) return "success, but the data is not the file's";
  }
  // Nothing beyond the data either.
  uint32_t past = map == 0 ? (data.size() / 0x8000) << 16 | 0x8000 | (data.size() % 0x8000) : 0xc00000 | data.size();
  if ((*r)->Read(Address(past), 1).ok()) return "success, but the image is longer than the file";
  return "";
}
static std::string SaveOnce(mc::Ctx& c, const nsasm::RomOverwriter& w, const std::string& out, const Bytes& want, bool faulty) {
  int before = OpenFds();
  g_calls = 0; g_log.clear(); g_on = true;
  auto r = w.CreateFile(out);
  g_on = false;
  c.step(g_calls + 1);
  c.outcome(r.ok() ? "save ok" : "save reported an error");
  if (OpenFds() != before) return "a file handle was left open";
  if (!r.ok()) return faulty ? "" : "failed without any fault";
  if (Slurp(out) != want) return "success, but the saved file is not the image";
  return "";
}

static void Run(mc::Ctx& c) {
  signal(SIGXFSZ, SIG_IGN);
  std::string in = c.scratch() + "/in.sfc", out = c.scratch() + "/out.sfc";
  int depth = c.thorough() ? 3 : 2, maxcalls = 14;
  // Intercepted calls: every plan of up to `depth` departures.
  for (int op = 0; op < 2; ++op)
    for (int header = 0; header < 2; ++header)
      for (int map = 0; map < 2; ++map)
        for (size_t size : {size_t(0x10000), size_t(0x19000)}) {
          Bytes head(header ? 0x200 : 0, 0xa7), data = Image(size, map), all = head;
          all.insert(all.end(), data.begin(), data.end());
          auto w = std::make_unique<nsasm::RomOverwriter>(std::make_unique<nsasm::Rom>(map ? nsasm::kHiRom : nsasm::kLoRom, "x", head, data));
          int total = 1;
          const int menu = maxcalls * 4 + 1;
          for (int i = 0; i < depth; ++i) total *= menu;
          for (int code = 0; code < total; ++code) {
            c.part(op ? "save, injected faults" : "load, injected faults");
            std::vector<Fault> plan;
            int k = code;
            bool canon = true;
            for (int i = 0; i < depth; ++i) {
              int d = k % menu; k /= menu;
              if (d == 0) { if (k) canon = false; break; }
              Fault f{(d - 1) / 4, (d - 1) % 4};
              if (!plan.empty() && plan.back().at >= f.at) { canon = false; break; }
              plan.push_back(f);
            }
            if (!canon) continue;
            if (!c.want()) continue;
            auto text = mc::Fmt("%s of a %s image of 0x%zx bytes%s:", op ? "save" : "load", map ? "HiROM" : "LoROM", size, header ? " with header" : "");
            for (auto& f : plan) text += mc::Fmt(" call %d fails in way %d;", f.at, f.how);
            c.describe([&] { return text; });
            if (op == 0) { std::ofstream f(in, std::ios::binary); f.write((const char*)all.data(), all.size()); }
            else unlink(out.c_str());
            g_plan = plan;
            std::string e = op == 0 ? LoadOnce(c, in, map, data, !plan.empty()) : SaveOnce(c, *w, out, all, !plan.empty());
            std::string calls;
            uint64_t h = op * 2 + header;
            for (int q : g_log) { calls += std::string(" ") + kKind[q]; h = mc::Mix(h, q); }
            bool hit = plan.empty() || plan.back().at < g_calls;
            if (hit) for (auto& f : plan) h = mc::Mix(h, f.at * 4 + f.how);
            c.state(h);
            c.outcome(hit ? "every planned fault was reached" : "plan past the last call");
            if (!e.empty()) { c.fail(text, text + " " + e + " (calls:" + calls + ")"); continue; }
            // A later attempt without faults must succeed.
            g_plan.clear();
            e = op == 0 ? LoadOnce(c, in, map, data, false) : SaveOnce(c, *w, out, all, false);
            if (!e.empty()) c.fail(text + " retry", text + " then without faults: " + e);
            c.trace();
          }
        }
  // The disk fills up after N bytes, whatever calls the code uses.
  for (int header = 0; header < 2; ++header)
    for (int old = 0; old < 2; ++old)
    for (int64_t limit = 0; limit <= 0x10400; ++limit) {
      c.part("save, disk full after N bytes");
      bool edge = limit < 0x20 || (limit >= 0x1f0 && limit <= 0x210) || limit % 0x1000 < 2 || limit % 0x1000 > 0xffe || (limit % 0x1000 > 0x1fd && limit % 0x1000 < 0x203) || limit > 0xffe0;
      if (!c.thorough() && !edge) continue;
      if (!c.want()) continue;
      Bytes head(header ? 0x200 : 0, 0xa7), data = Image(0x10000, 0), all = head;
      all.insert(all.end(), data.begin(), data.end());
      auto text = mc::Fmt("save of 0x%zx bytes%s over %s with room for %lld bytes", all.size(), header ? " (with header)" : "", old ? "an older file" : "nothing", (long long)limit);
      c.describe([&] { return text; });
      nsasm::RomOverwriter w(std::make_unique<nsasm::Rom>(nsasm::kLoRom, "x", head, data));
      unlink(out.c_str());
      if (old) { std::ofstream f(out, std::ios::binary); f.write((const char*)all.data(), all.size()); f.put(7); }
      struct rlimit was, now;
      getrlimit(RLIMIT_FSIZE, &was);
      now = was; now.rlim_cur = limit;
      setrlimit(RLIMIT_FSIZE, &now);
      g_plan.clear();
      std::string e = SaveOnce(c, w, out, all, limit < int64_t(all.size()));
      setrlimit(RLIMIT_FSIZE, &was);
      c.state(mc::Mix(limit, header * 2 + old));
      if (!e.empty()) c.fail(text, text + ": " + e);
      c.trace();
    }
  // Destinations that cannot hold a file; sources cut short.
  for (int k = 0; k < 4; ++k) {
    c.part("bad destinations");
    if (!c.want()) continue;
    std::string p = k == 0 ? "/dev/full" : k == 1 ? c.scratch() : k == 2 ? c.scratch() + "/none/out" : "";
    c.describe([&] { return mc::Fmt("save to unwritable destination %d", k); });
    if (k == 0 && access("/dev/full", W_OK) != 0) continue;
    nsasm::RomOverwriter w(std::make_unique<nsasm::Rom>(nsasm::kLoRom, "x", Bytes(0x200, 1), Image(0x10000, 0)));
    auto r = w.CreateFile(p);
    c.step();
    c.outcome("save reported an error");
    if (r.ok()) c.fail(mc::Fmt("destination %d", k), "saving to an unwritable destination reported success");
    c.trace();
  }
  // No file handle can be had.
  for (int op = 0; op < 2; ++op) {
    c.part("no file handles");
    if (!c.want()) continue;
    c.describe([&] { return std::string(op ? "save" : "load") + " with no file handles left"; });
    Bytes data = Image(0x10000, 0);
    { std::ofstream f(in, std::ios::binary); f.write((const char*)data.data(), data.size()); }
    nsasm::RomOverwriter w(std::make_unique<nsasm::Rom>(nsasm::kLoRom, "x", Bytes(), data));
    struct rlimit was, now;
    getrlimit(RLIMIT_NOFILE, &was);
    now = was; now.rlim_cur = 3;
    setrlimit(RLIMIT_NOFILE, &now);
    bool ok = op ? w.CreateFile(out).ok() : nsasm::LoadRomFile(in).ok();
    setrlimit(RLIMIT_NOFILE, &was);
    c.step();
    if (ok) c.fail(op ? "save nofile" : "load nofile", "success without a file handle");
    c.trace();
  }
}
MC_MAIN((mc::Check{.property = "P05", .level = "fault_enumeration",
  .rule = "every plan of up to k failing file operations (each with every way it can fail) over loads and saves, and every disk-full point; non-trivial when every planned fault is reached; a state is a distinct reached fault history",
  .bounds_quick = "2 operations x 2 headers x 2 maps x 2 sizes, all plans of up to 2 faults over 14 calls x 4 ways; disk-full points at all page and header edges", .bounds_thorough = "all plans of up to 3 faults; disk full after every byte count from 0 to 0x10400", .run = Run}))
