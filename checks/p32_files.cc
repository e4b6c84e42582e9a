// P32: a source file is read as it is, or refused.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include "lib/mc.h"
#include "nsasm/assembler.h"
#include "nsasm/file.h"
using namespace nsasm;

// Faults below the C++ library: the n-th read of the file's descriptor fails or is short.
static bool g_on = false;
static int g_reads = 0, g_fail = -1, g_short = 0, g_hit = 0;
static dev_t g_dev;
static ino_t g_ino;
static bool Ours(int fd) { struct stat st; return g_on && !fstat(fd, &st) && st.st_dev == g_dev && st.st_ino == g_ino; }
static ssize_t Answer(int fd, bool* done, size_t* n) {
  *done = false;
  if (!Ours(fd)) return 0;
  int k = g_reads++;
  if (k == g_fail) { ++g_hit; *done = true; errno = EIO; return -1; }
  if (g_short && *n > size_t(g_short)) *n = g_short;
  return 0;
}
extern "C" __attribute__((visibility("default"))) ssize_t read(int fd, void* p, size_t n) {
  bool done;
  ssize_t r = Answer(fd, &done, &n);
  return done ? r : syscall(SYS_read, fd, p, n);
}
extern "C" __attribute__((visibility("default"))) ssize_t readv(int fd, const struct iovec* v, int n) {
  bool done;
  size_t big = 0;
  ssize_t r = Answer(fd, &done, &big);
  return done ? r : syscall(SYS_readv, fd, v, n);
}
static void Put(const std::string& path, const std::string& text) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || write(fd, text.data(), text.size()) != ssize_t(text.size()) || close(fd)) { perror(path.c_str()); abort(); }
}
static std::vector<std::string> Split(const std::string& text) {
  std::vector<std::string> r;
  size_t at = 0;
  while (at < text.size()) {
    size_t e = text.find('\n', at);
    if (e == text.npos) { r.push_back(text.substr(at)); break; }
    r.push_back(text.substr(at, e - at));
    at = e + 1;
  }
  return r;
}
// A line without the white space around it, which never matters.
static std::string Trim(const std::string& s) {
  size_t a = 0, b = s.size();
  auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (a < b && sp(s[a])) ++a;
  while (b > a && sp(s[b - 1])) --b;
  return s.substr(a, b - a);
}
static std::string Show(const std::string& s) { return s.size() < 200 ? mc::JsonStr(s) : mc::Fmt("a file of %d bytes", int(s.size())); }
static std::string Differs(const File& f, const std::string& text, const std::string& path) {
  auto want = Split(text);
  if (f.path() != path) return "the path is reported as " + f.path();
  std::vector<std::string> got(f.begin(), f.end());
  while (got.size() > want.size() && Trim(got.back()).empty()) got.pop_back();  // empty lines at the end do not matter
  if (got.size() != want.size()) return mc::Fmt("%d lines are read instead of %d", int(got.size()), int(want.size()));
  for (size_t i = 0; i < got.size(); ++i) if (Trim(got[i]) != Trim(want[i])) return mc::Fmt("line %d is ", int(i) + 1) + mc::JsonStr(got[i].substr(0, 100)) + " instead of " + mc::JsonStr(want[i].substr(0, 100));
  for (size_t i = 0; i < got.size(); ++i) if (f[i] != got[i]) return mc::Fmt("line %d differs between two ways to get at it", int(i) + 1);
  return "";
}
struct Sink : OutputSink {
  std::vector<std::pair<uint32_t, std::vector<uint8_t>>> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override { w.push_back({uint32_t(a.Bank()) << 16 | a.BankAddress(), {d.begin(), d.end()}}); return {}; }
};
static int OpenFds() { int n = 0; for (int i = 0; i < 256; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  std::string path = c.scratch() + "/s.asm";
  uint64_t n = 0, ok = 0, refused = 0;
  auto note = [&] { c.step(n); c.trace(ok + refused); c.outcome("files read", ok); c.outcome("files refused", refused); n = ok = refused = 0; };
  auto one = [&](const std::string& text) {
    Put(path, text);
    int fds = OpenFds();
    auto f = OpenFile(path);
    ++n;
    if (!f.ok()) { c.fail("file " + Show(text), Show(text) + " is refused: " + f.error().ToString()); return; }
    ++ok;
    std::string d = Differs(*f, text, path);
    if (!d.empty()) c.fail("file " + Show(text), Show(text) + ": " + d);
    if (OpenFds() != fds) c.fail("file " + Show(text), Show(text) + ": the file stays open");
    d = Differs(MakeFakeFile(path, text), text, path);
    if (!d.empty()) c.fail("fake " + Show(text), Show(text) + " as a file made in memory: " + d);
  };
  const std::string chars("a\n\r\0 \xff;", 7);
  for (size_t first = 0; first < chars.size(); ++first) {
    c.part("contents");
    if (!c.want()) continue;
    int len = t ? 7 : 6;
    c.describe([&] { return mc::Fmt("every file of up to %d bytes of 7 values that starts with byte %d", len, chars[first] & 255); });
    if (!first) one("");
    for (int l = 1; l <= len; ++l) {
      std::vector<int> ix(l, 0);
      ix[0] = first;
      std::string s(l, 0);
      while (true) {
        for (int i = 0; i < l; ++i) s[i] = chars[ix[i]];
        one(s);
        int i = l - 1;
        for (; i >= 1; --i) { if (++ix[i] < int(chars.size())) break; ix[i] = 0; }
        if (i < 1) break;
      }
    }
    note(); c.state(first);
  }
  // Line lengths and file sizes about the sizes of buffers.
  std::vector<int> sizes;
  for (int b : {0, 1, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8190, 8191, 8192, 16382, 16383, 16384, 32767, 65535, 65536, 131072}) { sizes.push_back(b); if (t) { sizes.push_back(b + 1); if (b) sizes.push_back(b - 1); } }
  if (t) sizes.push_back(1 << 20);
  for (int a : sizes) {
    c.part("sizes");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("files with a line of %d bytes followed by another, and %d short lines", a, a); });
    for (int b : sizes) for (const char* nl : {"\n", "\r\n", "\n\n", ""}) for (bool last : {false, true}) {
      if (b > 70000 && a > 70000 && !t) continue;
      one(std::string(a, 'x') + nl + std::string(b, 'y') + (last ? nl : ""));
    }
    std::string s;
    for (int i = 0; i < a; ++i) s += mc::Fmt("%d", i % 10) + "\n";
    one(s);
    one(std::string(a, '\n'));
    note(); c.state(a);
  }
  // Every failing read, and reads that return little at a time.
  for (int size : {1, 100, 8191, 8192, 20000, 100000, 300000}) {
    c.part("failing reads");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("a file of %d bytes, each read of it failing in turn, and reads of few bytes at a time", size); });
    std::string text;
    for (int i = 0; int(text.size()) < size; ++i) text += mc::Fmt("line%d", i) + (i % 3 ? "\n" : "\r\n");
    text.resize(size);
    Put(path, text);
    struct stat st;
    if (stat(path.c_str(), &st)) abort();
    g_dev = st.st_dev; g_ino = st.st_ino;
    for (int few : {0, 1, 7, 4096}) {
      if (few == 1 && size > 20000) continue;
      g_on = true; g_short = few; g_fail = -1; g_reads = 0;
      auto f = OpenFile(path);
      g_on = false;
      int total = g_reads;
      ++n;
      std::string what = mc::Fmt("%d bytes, %d at a time", size, few);
      if (!f.ok()) { c.fail("read " + what, what + ": is refused: " + f.error().ToString()); continue; }
      ++ok;
      std::string d = Differs(*f, text, path);
      if (!d.empty()) c.fail("read " + what, what + ": " + d);
      int stride = total > 2000 ? total / 500 : 1;
      for (int k = 0; k < total; ++k) {
        if (k > 20 && k < total - 20 && k % stride) continue;
        int fds = OpenFds();
        g_on = true; g_fail = k; g_reads = 0; g_hit = 0;
        auto q = OpenFile(path);
        g_on = false;
        ++n;
        if (OpenFds() != fds) c.fail("read " + what, what + mc::Fmt(": the file stays open after read %d failed", k));
        if (!g_hit) { c.outcome("faults not delivered"); continue; }
        c.outcome("faults delivered");
        if (!q.ok()) { ++refused; if (q.error().ToString().empty()) c.fail("read " + what, what + mc::Fmt(": read %d fails without a word", k)); continue; }
        ++ok;
        d = Differs(*q, text, path);
        if (!d.empty()) c.fail("read " + what, what + mc::Fmt(": read %d of %d fails, and the file counts as read, but ", k + 1, total) + d);
      }
      g_fail = -1;
      auto again = OpenFile(path);
      if (!again.ok() || !Differs(*again, text, path).empty()) c.fail("read " + what, what + ": cannot be read after failed attempts");
    }
    note(); c.state(mc::Mix(7, size));
  }
  c.part("unreadable");
  if (c.want()) {
    c.describe([] { return std::string("paths that cannot be read"); });
    std::string d = c.scratch();
    (void)!symlink((d + "/loop").c_str(), (d + "/loop").c_str());
    (void)!symlink((d + "/gone").c_str(), (d + "/dangling").c_str());
    Put(d + "/plain", "nop\n");
    for (auto& p : {std::string(), d, d + "/", std::string("/"), d + "/missing", d + "/missing/x", d + "/plain/x", d + "/loop", d + "/dangling", d + "/" + std::string(300, 'x'), std::string("/proc/self/mem")}) {
      auto f = OpenFile(p);
      ++n;
      if (f.ok()) c.fail("path " + p, "[" + p + "] cannot be read, and counts as a file"); else ++refused;
    }
    unlink((d + "/loop").c_str()); unlink((d + "/dangling").c_str());
    note();
  }
  // The same program from a file, with any ends of lines, and from memory.
  static const char* const lines[] = {"nop", "lda #$12 ; text", ".db 1, 2", "x1:", "y1 .equ 5", "\tsta $12,x", "", "bra x1", "{", "}", "bad line here", "\x80", "export x1 nop", "jsr x1 : nop", ";", "lda #y1\f"};
  const int m = sizeof(lines) / sizeof(lines[0]);
  for (int first = 0; first < m; ++first) {
    c.part("programs");
    if (!c.want()) continue;
    int len = t ? 4 : 3;
    c.describe([&] { return mc::Fmt("every program of %d lines of %d forms that starts with [%s], with 5 ends of line, from a file and from memory", len, m, lines[first]); });
    std::vector<int> ix(len, 0);
    ix[0] = first;
    uint64_t built = 0, bad = 0;
    while (true) {
      bool some = false;
      std::string res0;
      Sink s0;
      std::string shown;
      for (int end = 0; end < 6; ++end) {
        const char* nl = end == 1 ? "\r\n" : end == 2 ? " \n" : end == 3 ? "\t\r\n" : "\n";
        std::string s = std::string(".org $8000") + nl + ".entry m8x8" + nl;
        for (int i = 0; i < len; ++i) s += std::string(lines[ix[i]]) + nl;
        s += "rts";
        if (end != 4) s += nl;
        if (end < 5) Put(path, s);
        ErrorOr<File> f = end == 5 ? ErrorOr<File>(MakeFakeFile(path, s)) : OpenFile(path);
        ++n;
        if (!f.ok()) { c.fail("program " + s, Show(s) + " is refused: " + f.error().ToString()); continue; }
        Sink sink;
        auto r = Assemble({*f}, &sink);
        std::string res = r.ok() ? "" : r.error().ToString();
        ++ok;
        if (!some) { some = true; res0 = res; s0 = sink; shown = s; ++(r.ok() ? built : bad); }
        else if (res != res0 || sink.w != s0.w) c.fail("program " + shown, Show(s) + (end == 5 ? " in memory" : "") + " gives [" + res + "], and [" + res0 + "] as " + Show(shown) + (res == res0 ? ", with other bytes" : ""));
      }
      int i = len - 1;
      for (; i >= 1; --i) { if (++ix[i] < m) break; ix[i] = 0; }
      if (i < 1) break;
    }
    c.outcome("programs assembled", built); c.outcome("programs refused", bad);
    note(); c.state(mc::Mix(9, first));
  }
}
static const mc::Check kCheck = {
    .property = "P32", .level = "fault_enumeration",
    .rule = "every file is written to disk, read by the real code and compared line by line with the bytes written; each read system call of it is then made to fail or come up short; programs are assembled from a file with every kind of line end and from memory and must give the same result",
    .bounds_quick = "all contents of up to 6 bytes of 7 values, about 22 sizes of lines and files in pairs, every read failing on 7 sizes with 4 read lengths, unreadable paths, all programs of 3 lines of 16 forms with 6 ways to store them",
    .bounds_thorough = "7 bytes, 66 sizes, 4 lines", .run = Run, .chunk = 1, .hang_seconds = 300,
    .assumptions = {"white space at the ends of a line and empty lines at the end of a file do not matter (P11)", "faults are injected at the read and readv system calls; where the code reads otherwise, only the unreadable paths apply"}};
MC_MAIN(kCheck)
