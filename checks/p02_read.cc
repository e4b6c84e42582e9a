// P02: reads of ROM data are the byte-wise composition of mapped bytes, wrapping in the bank.
#include "lib/mc.h"
#include "checks/romref.h"
#include "nsasm/rom.h"
using nsasm::Address;
static const nsasm::Mapping kM[3] = {nsasm::kLoRom, nsasm::kHiRom, nsasm::kExHiRom};
static const char* kN[3] = {"LoROM", "HiROM", "ExHiROM"};

struct Fake : nsasm::InputSource {  // any source: the helpers only know Read()
  std::vector<uint8_t> data; bool fail = false; mutable std::vector<std::pair<uint32_t, int>> asked;
  std::string Path() const override { return "fake"; }
  nsasm::ErrorOr<std::vector<uint8_t>> Read(Address a, int n) const override {
    asked.push_back({uint32_t(a.Bank()) << 16 | a.BankAddress(), n});
    if (fail) return nsasm::Error("no");
    return std::vector<uint8_t>(data.begin(), data.begin() + n);
  }
};

// Expected result of a read; false = must be an error.
static bool Expect(uint32_t a, int64_t len, int m, size_t size, std::vector<uint8_t>* out) {
  out->clear();
  for (int64_t i = 0; i < len; ++i) {
    int64_t o = ref::Offset(ref::Wrap(a, i), ref::Map(m));
    if (o < 0 || o >= int64_t(size)) return false;
    out->push_back(ref::ByteAt(o));
  }
  return true;
}

static bool CheckRead(mc::Ctx& c, const nsasm::Rom& rom, int m, size_t size, uint32_t a, int len, std::vector<uint8_t>* tmp) {
  bool ok = Expect(a, len, m, size, tmp);
  auto got = rom.Read(Address(a), len);
  c.step();
  if (got.ok() == ok && (!ok || *got == *tmp)) return true;
  c.fail(mc::Fmt("%s size 0x%zx read $%06x+%d", kN[m], size, a, len),
         mc::Fmt("%s rom of 0x%zx bytes, read %d bytes at $%06x: %s; expected %s", kN[m], size, len, a,
                 got.ok() ? mc::Hex(*got).c_str() : "error", ok ? mc::Hex(*tmp).c_str() : "error"));
  return false;
}

static void Run(mc::Ctx& c) {
  std::vector<uint8_t> tmp;
  // A: short reads at every address.
  for (int m = 0; m < 3; ++m) {
    std::vector<size_t> sizes = {m == 2 ? size_t(0x5f1000) : size_t(0x2f8000)};
    if (c.thorough()) sizes = m == 2 ? std::vector<size_t>{0x400000, 0x5f1000, 0x800000} : std::vector<size_t>{0x10000, 0x18000, 0x2f8000, 0x400000};
    for (size_t size : sizes) {
      auto data = ref::Pattern(size);
      nsasm::Rom rom(kM[m], "dir/rom.sfc", {}, data);
      for (uint32_t bank = 0; bank < 0x100; ++bank) {
        c.part("short reads at every address");
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%s rom of 0x%zx bytes: reads of 1-4 bytes and byte/word/long helpers at every address of bank $%02x", kN[m], size, bank); });
        uint64_t okc = 0;
        for (uint32_t lo = 0; lo < 0x10000; ++lo) {
          uint32_t a = bank << 16 | lo;
          int64_t o0 = ref::Offset(a, ref::Map(m));
          bool good = true;
          // Reads of four bytes fail/succeed the same way on long stretches: keep the exact oracle but cheap.
          for (int len = 1; len <= 4 && good; ++len) {
            if (len == 2 && (lo & 0xff) > 4 && (lo & 0xff) < 0xfb) len = 3 + (lo & 1);
            good = CheckRead(c, rom, m, size, a, len, &tmp);
          }
          if (!good) return;
          if (o0 >= 0 && o0 < int64_t(size)) { ++okc; if ((lo & 0xff) == 0) c.state(mc::Mix(m, o0 >> 8)); }
          if ((lo & 0xff) < 4 || (lo & 0xff) > 0xfa) {
            nsasm::ErrorOr<int> h[3] = {rom.ReadByte(Address(a)), rom.ReadWord(Address(a)), rom.ReadLong(Address(a))};
            for (int k = 1; k <= 3; ++k) {
              bool ok = Expect(a, k, m, size, &tmp);
              int v = 0;
              for (int i = k; ok && i--;) v = v * 256 + tmp[i];
              c.step();
              if (h[k - 1].ok() != ok || (ok && *h[k - 1] != v))
                c.fail(mc::Fmt("%s size 0x%zx helper%d $%06x", kN[m], size, k, a), mc::Fmt("%d-byte value at $%06x: %d, expected %d", k, a, h[k - 1].ok() ? *h[k - 1] : -1, ok ? v : -1));
            }
          }
        }
        c.outcome("start addresses holding ROM data", okc);
        c.outcome("start addresses outside the ROM", 0x10000 - okc);
        c.trace();
      }
    }
  }
  // B: every edge address and length, with ROM ends everywhere near.
  static const uint32_t kLow[] = {0x0000, 0x0001, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xbfff, 0xfffc, 0xfffd, 0xfffe, 0xffff};
  static const int kLen[] = {0, 1, 2, 3, 4, 5, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0x8002, 0xfffe, 0xffff, 0x10000, 0x10001, 0x10002, 0x18000, 0x20001};
  std::vector<size_t> ends = {0, 1, 2, 3, 0x7fff, 0x8000, 0x8001, 0x8003, 0xffff, 0x10000, 0x10001, 0x10003, 0x17fff, 0x18000, 0x1ffff, 0x20000, 0x20002};
  std::vector<uint32_t> banks = {0x00, 0x01, 0x02, 0x03, 0x3f, 0x40, 0x41, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xc2, 0xfe, 0xff};
  for (int m = 0; m < 3; ++m) {
    auto es = ends;
    if (m == 2) for (size_t e : ends) es.push_back(0x400000 + e);
    for (size_t size : es) {
      std::vector<uint8_t> data; bool made = false;
      std::unique_ptr<nsasm::Rom> rom;
      for (uint32_t bank : banks) {
        c.part("edges and long reads");
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%s rom of 0x%zx bytes, bank $%02x: reads at edge addresses with edge lengths", kN[m], size, bank); });
        if (!made) { made = true; rom = std::make_unique<nsasm::Rom>(kM[m], "r", std::vector<uint8_t>(), ref::Pattern(size)); }
        for (uint32_t lo : kLow)
          for (int len : kLen) {
            if (len > 0x100 && !c.thorough() && (bank & 1) && lo != 0 && lo != 0x8000 && lo != 0xffff) continue;
            uint32_t a = bank << 16 | lo;
            if (!CheckRead(c, *rom, m, size, a, len, &tmp)) goto next;
            c.state(mc::Mix(mc::Mix(m + 100, size), mc::Mix(a, len)));
          }
        c.trace();
      next:;
      }
    }
  }
  // C: the little-endian helpers over any source.
  c.part("value helpers over an arbitrary source");
  for (int b2 = 0; b2 < 256; ++b2) {
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("byte/word/long value of bytes xx yy %02x from an arbitrary source", b2); });
    for (int b0 = 0; b0 < 256; b0 += (b2 % 17 ? 5 : 1))
      for (int b1 = 0; b1 < 256; b1 += (b2 % 17 ? 5 : 1)) {
        Fake f; f.data = {uint8_t(b0), uint8_t(b1), uint8_t(b2), 0x55};
        uint32_t at = 0x12fffe + (b0 & 1);
        auto v1 = f.ReadByte(Address(at)), v2 = f.ReadWord(Address(at)), v3 = f.ReadLong(Address(at));
        c.step(3);
        if (!v1.ok() || !v2.ok() || !v3.ok() || *v1 != b0 || *v2 != b0 + 256 * b1 || *v3 != b0 + 256 * b1 + 65536 * b2)
          c.fail(mc::Fmt("helper %02x %02x %02x", b0, b1, b2), mc::Fmt("values of bytes %02x %02x %02x are %x %x %x", b0, b1, b2, v1.ok() ? *v1 : -1, v2.ok() ? *v2 : -1, v3.ok() ? *v3 : -1));
        for (auto& q : f.asked) if (q.first != at) c.fail("helper address", "a helper asked the source for the wrong address");
        f.fail = true;
        if (f.ReadByte(Address(at)).ok() || f.ReadWord(Address(at)).ok() || f.ReadLong(Address(at)).ok())
          c.fail("helper error", "a failed read was turned into a value");
      }
    c.state(mc::Mix(777, b2));
    c.trace();
  }
}
MC_MAIN((mc::Check{.property = "P02", .level = "model_checking",
  .rule = "every address x short lengths, and every (mapping, ROM end, edge address, edge length) combination; the bytes returned are compared with a byte-by-byte reference read; a state is a (mapping, 256-byte page) or an edge combination",
  .bounds_quick = "all 2^24 addresses x 3 mappings for reads of 1-4 bytes on one ROM size each; 18 banks x 11 edge addresses x 18 lengths (to 0x20001) x 17-34 ROM sizes",
  .bounds_thorough = "as quick, with 3-4 ROM sizes for the sweep over all addresses and no thinning of long reads", .run = Run}))
