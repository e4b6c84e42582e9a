// P04: loading a ROM file accepts exactly well-formed images and keeps every byte of them.
#include <fcntl.h>
#include <fstream>
#include <iterator>
#include <sys/stat.h>
#include <unistd.h>
#include "lib/mc.h"
#include "checks/romref.h"
#include "nsasm/rom.h"
using nsasm::Address;
typedef std::vector<uint8_t> Bytes;
static const char* kN[3] = {"LoROM", "HiROM", "ExHiROM"};

// The checksum and its complement are little-endian words at $7fdc/$7fde or $ffdc/$ffde.
static bool Marked(const Bytes& d, size_t at) { return (d[at] ^ d[at + 2]) == 0xff && (d[at + 1] ^ d[at + 3]) == 0xff; }
// Expected map, or -1 when the file is not a ROM.
static int Classify(size_t file_size, const Bytes& data) {
  size_t rem = file_size % 0x1000;
  if (rem != 0 && rem != 0x200) return -1;
  if (data.size() < 0x10000) return -1;
  bool lo = Marked(data, 0x7fdc), hi = Marked(data, 0xffdc);
  if (lo == hi) return -1;
  return lo ? 0 : data.size() < 0x400000 ? 1 : 2;
}
static bool Put(const std::string& path, const Bytes& head, const Bytes& data) {
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd < 0) return false;
  bool ok = write(fd, head.data(), head.size()) == ssize_t(head.size()) && write(fd, data.data(), data.size()) == ssize_t(data.size());
  close(fd);
  return ok;
}
// Compares the loaded ROM with the expected one by reading it through its map.
static std::string Compare(const nsasm::Rom& rom, int map, const Bytes& data, bool everything) {
  std::vector<size_t> offs;
  for (size_t o = 0; o < data.size(); o += everything ? 0x1000 : 0x7f000) offs.push_back(o);
  for (size_t o : {size_t(0), size_t(0x7fdc), size_t(0xffdc), data.size() / 2, data.size() - 0x1000}) offs.push_back(o & ~size_t(0xfff));
  // One address for every page of the image, under the expected map.
  auto addr = [&](size_t o) -> int64_t {
    if (map == 0) return o < 0x400000 ? int64_t((o / 0x8000 + (o / 0x8000 >= 0x7e ? 0x80 : 0)) << 16 | 0x8000 | (o % 0x8000)) : -1;
    if (map == 1) return o < 0x400000 ? int64_t(0xc00000 | o) : -1;
    return o < 0x400000 ? int64_t(0xc00000 | o) : o < 0x7e0000 ? int64_t(o) : -1;
  };
  for (size_t o : offs) {
    int64_t a = addr(o);
    if (a < 0) continue;
    if (ref::Offset(a, ref::Map(map)) != int64_t(o)) return "internal: bad reference address";
    auto got = rom.Read(Address(a), 0x1000);
    if (!got.ok()) return mc::Fmt("reading $%06x (offset 0x%zx as %s) failed", unsigned(a), o, kN[map]);
    if (!std::equal(got->begin(), got->end(), data.begin() + o) || got->size() != 0x1000) return mc::Fmt("bytes at $%06x differ from offset 0x%zx of the data (%s expected)", unsigned(a), o, kN[map]);
  }
  // One address that tells the maps apart: its byte or its absence.
  for (uint32_t a : {0x400000u, 0x408000u, 0xc00000u, 0xc08000u, 0x008000u, 0x018000u, 0xc10000u, 0x7d0000u, 0x000000u}) {
    int64_t o = ref::Offset(a, ref::Map(map));
    auto got = rom.Read(Address(a), 1);
    bool ok = o >= 0 && o < int64_t(data.size());
    if (got.ok() != ok || (ok && (*got)[0] != data[o])) return mc::Fmt("read of $%06x is not what a %s gives", a, kN[map]);
  }
  return "";
}
static void One(mc::Ctx& c, const std::string& path, const std::string& text, const Bytes& head, const Bytes& data, bool everything) {
  int want = Classify(head.size() + data.size(), data);
  auto r = nsasm::LoadRomFile(path);
  c.step();
  c.outcome(want < 0 ? "rejected" : kN[want]);
  if (r.ok() != (want >= 0)) { c.fail(text, text + (want < 0 ? ": accepted, expected an error" : mc::Fmt(": rejected, expected a %s", kN[want]))); return; }
  if (want < 0) return;
  std::string e = Compare(**r, want, data, everything);
  if (!e.empty()) { c.fail(text, text + ": " + e); return; }
  if (!everything) return;
  // Saving the unmodified image gives back the file.
  std::string out = c.scratch() + "/saved";
  nsasm::RomOverwriter w(std::move(*r));
  auto s = w.CreateFile(out);
  c.step();
  std::ifstream f(out, std::ios::binary);
  Bytes got((std::istreambuf_iterator<char>(f)), {});
  Bytes all = head;
  all.insert(all.end(), data.begin(), data.end());
  if (!s.ok() || got != all) c.fail(text + " saved", text + ": saving the loaded image does not give back the file");
}
static void Mark(Bytes* d, size_t at) { if (d->size() >= at + 4) { (*d)[at + 2] = ~(*d)[at]; (*d)[at + 3] = ~(*d)[at + 1]; } }
static void Unmark(Bytes* d, size_t at, int how) {
  if (d->size() < at + 4) return;
  Mark(d, at);
  if (how == 0) (*d)[at] ^= 0x01; else if (how == 1) (*d)[at + 1] ^= 0x80; else (*d)[at + 2] ^= 0x10;
}

static void Run(mc::Ctx& c) {
  std::string path = c.scratch() + "/rom.sfc";
  // Sizes.
  std::vector<size_t> pages = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 18, 23, 24, 31, 32, 33, 64, 128, 0x200, 0x3ff, 0x400, 0x401, 0x480};
  if (c.thorough()) { for (size_t p = 4; p < 80; ++p) pages.push_back(p); for (size_t p : {0x100, 0x280, 0x300, 0x37f, 0x3f0, 0x3f8, 0x3fe, 0x402, 0x408, 0x410, 0x500, 0x600, 0x7dd, 0x7de}) pages.push_back(p); }
  for (size_t p : pages)
    for (size_t rem : {0, 1, 2, 0xff, 0x100, 0x1fe, 0x1ff, 0x200, 0x201, 0x202, 0x3ff, 0x400, 0x600, 0x800, 0xa00, 0xdff, 0xe00, 0xffe, 0xfff})
      for (int marks = 0; marks < 4; ++marks)
        for (int noise = 0; noise < 3; ++noise) {
          c.part("sizes");
          if (p > 0x100 && rem != 0 && rem != 0x200 && (noise || marks == 0) && !c.thorough()) continue;
          if (p > 0x100 && noise && !c.thorough()) continue;
          if (!c.want()) continue;
          size_t size = p * 0x1000 + rem;
          auto text = mc::Fmt("file of 0x%zx bytes, checksum valid at %s%s%s (noise %d)", size, marks & 1 ? "lo" : "", marks & 2 ? "hi" : "", marks ? "" : "neither", noise);
          c.describe([&] { return text; });
          Bytes head, data;
          size_t h = rem == 0x200 ? 0x200 : 0;
          data = ref::Pattern(size - h);
          head = ref::Pattern(h + 0x100);
          head.resize(h);
          for (auto& b : head) b ^= 0x5a;
          if (marks & 1) Mark(&data, 0x7fdc); else Unmark(&data, 0x7fdc, noise);
          if (marks & 2) Mark(&data, 0xffdc); else Unmark(&data, 0xffdc, noise);
          if (!Put(path, head, data)) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(97); }
          c.state(mc::Mix(size, marks * 3 + noise));
          One(c, path, text, head, data, size <= 0x40000 || noise == 0);
          c.trace();
        }
  // Every value of every byte of the checksum pairs.
  for (int h = 0; h < 2; ++h)
    for (int where = 0; where < 2; ++where)
      for (int half = 0; half < 2; ++half)
        for (int other = 0; other < 2; ++other)
          for (int b0 = 0; b0 < 0x100; ++b0) {
            c.part("checksum bytes");
            if (!c.want()) continue;
            size_t at = where ? 0xffdc : 0x7fdc;
            auto base = mc::Fmt("64 KiB file%s, %s %s bytes, other position %s: ", h ? " with copier header" : "", where ? "HiROM" : "LoROM", half ? "high" : "low", other ? "valid" : "invalid");
            c.describe([&] { return base + mc::Fmt("checksum byte %02x against all 256 complement bytes", b0); });
            Bytes head(h ? 0x200 : 0, 0xee), data = ref::Pattern(0x10000);
            Mark(&data, at);
            if (other) Mark(&data, at ^ 0x8000); else Unmark(&data, at ^ 0x8000, 0);
            data[at + half] = b0;
            if (!Put(path, head, data)) _exit(97);
            int fd = open(path.c_str(), O_WRONLY);
            for (int b2 = 0; b2 < 0x100; ++b2) {
              data[at + 2 + half] = b2;
              uint8_t v = b2;
              if (pwrite(fd, &v, 1, head.size() + at + 2 + half) != 1) _exit(97);
              int want = Classify(head.size() + data.size(), data);
              auto r = nsasm::LoadRomFile(path);
              c.step();
              c.outcome(want < 0 ? "rejected" : kN[want]);
              auto text = base + mc::Fmt("checksum byte %02x complement byte %02x", b0, b2);
              bool lo_reads = true;
              if (r.ok() && want >= 0) { auto x = (*r)->Read(Address(0x018000), 1); lo_reads = want == 0 ? x.ok() && (*x)[0] == data[0x8000] : !x.ok(); }
              if (r.ok() != (want >= 0) || !lo_reads) { c.fail(text, text + ": wrong decision"); break; }
            }
            close(fd);
            c.state(mc::Mix(h * 8 + where * 4 + half * 2 + other, b0));
            c.trace();
          }
  // Paths that are no readable file.
  for (int k = 0; k < 5; ++k) {
    c.part("paths");
    if (!c.want()) continue;
    std::string d = c.scratch();
    std::string p = k == 0 ? d + "/missing" : k == 1 ? d + "/missing/rom" : k == 2 ? d : k == 3 ? "" : d + "/rom.sfc/x";
    c.describe([&] { return mc::Fmt("unreadable path, variant %d", k); });
    auto r = nsasm::LoadRomFile(p);
    c.step();
    c.outcome("rejected");
    if (r.ok()) c.fail(mc::Fmt("unreadable path %d", k), "loading succeeded");
    c.trace();
  }
}
MC_MAIN((mc::Check{.property = "P04", .level = "model_checking",
  .rule = "every file of the size x remainder x marker menu is written to disk and loaded; every accepted image is read back page by page through the reference map and saved again; all 65536 values of each checksum/complement byte pair; a state is a file class",
  .bounds_quick = "23 page counts up to 4.5 MiB x 19 remainders x 4 marker combinations x 3 invalid forms; 16 x 65536 byte pairs", .bounds_thorough = "113 page counts up to 8 MiB, every combination", .run = Run}))
