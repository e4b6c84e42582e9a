// P06: the verifying sink accepts a write exactly when every byte equals the ROM's.
#include "lib/mc.h"
#include "checks/romref.h"
#include "nsasm/rom.h"
using nsasm::Address;
static const nsasm::Mapping kM[3] = {nsasm::kLoRom, nsasm::kHiRom, nsasm::kExHiRom};
static const char* kN[3] = {"LoROM", "HiROM", "ExHiROM"};
static void Run(mc::Ctx& c) {
  static const uint32_t kLow[] = {0x0000, 0x0001, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xabcd, 0xfffc, 0xfffd, 0xfffe, 0xffff};
  for (int m = 0; m < 3; ++m)
    for (size_t size : {size_t(0x10000), size_t(0x18001), size_t(0x28000)})
      for (uint32_t bank : {0x00, 0x01, 0x02, 0x03, 0x40, 0x7e, 0x80, 0x81, 0xc0, 0xc1, 0xc2}) {
        c.part(kN[m]);
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%s rom of 0x%zx bytes, bank $%02x: matching writes and every single-bit and byte deviation", kN[m], size, bank); });
        size_t real = size;
        nsasm::RomIdentityTest t(std::make_unique<nsasm::Rom>(kM[m], "rom", std::vector<uint8_t>(), ref::Pattern(real)));
        bool stop = false;
        for (uint32_t lo : kLow) {
          uint32_t a = bank << 16 | lo;
          for (int len = 0; len <= 5 && !stop; ++len) {
            std::vector<uint8_t> right;
            bool mapped = true;
            for (int i = 0; i < len; ++i) {
              int64_t o = ref::Offset(ref::Wrap(a, i), ref::Map(m));
              if (o < 0 || o >= int64_t(real)) mapped = false;
              right.push_back(mapped ? ref::ByteAt(o) : 0);
            }
            auto expect = [&](const std::vector<uint8_t>& d, bool ok, const char* what) {
              auto r = t.Write(Address(a), d);
              c.step();
              c.outcome(ok ? "accepted" : "rejected");
              if (r.ok() != ok) { c.fail(mc::Fmt("%s 0x%zx $%06x %s %s", kN[m], real, a, mc::Hex(d).c_str(), what), mc::Fmt("%s write of %s at $%06x was %s", what, mc::Hex(d).c_str(), a, r.ok() ? "accepted" : "rejected")); stop = true; }
            };
            expect(right, mapped, "matching");
            for (int i = 0; i < len && mapped && !stop; ++i) {
              for (int bit = 0; bit < 8 && !stop; ++bit) { auto w = right; w[i] ^= 1 << bit; expect(w, false, "deviating"); }
              auto w = right; w[i] = ~w[i]; expect(w, false, "deviating");
              for (int j = i + 1; j < len && !stop; ++j) { if (right[i] == right[j]) continue; auto v = right; std::swap(v[i], v[j]); expect(v, false, "swapped"); }
            }
            if (!stop) expect(right, mapped, "repeated matching");
            c.state(mc::Mix(mc::Mix(m, real), mc::Mix(a, len)));
          }
          if (stop) break;
        }
        c.trace();
      }
  // Every bank.
  for (int m = 0; m < 3; ++m)
    for (size_t size : {size_t(0x10000), size_t(0x18000), size_t(0x200000), size_t(0x3f8000), size_t(0x480000), size_t(0x7e0000)}) {
      c.part("every bank");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%s rom of 0x%zx bytes: about the edges of all banks, matching writes and each wrong byte", kN[m], size); });
      nsasm::RomIdentityTest t(std::make_unique<nsasm::Rom>(kM[m], "rom", std::vector<uint8_t>(), ref::Pattern(size)));
      bool stop = false;
      for (int bank = 0; bank < 256 && !stop; ++bank)
        for (uint32_t lo : {0u, 1u, 0x2100u, 0x7ffeu, 0x7fffu, 0x8000u, 0x8001u, 0xc123u, 0xfffdu, 0xfffeu, 0xffffu})
          for (int len = 1; len <= 4 && !stop; ++len) {
            uint32_t a = bank << 16 | lo;
            std::vector<uint8_t> right;
            bool mapped = true;
            for (int i = 0; i < len; ++i) {
              int64_t o = ref::Offset(ref::Wrap(a, i), ref::Map(m));
              if (o < 0 || o >= int64_t(size)) mapped = false;
              right.push_back(mapped ? ref::ByteAt(o) : 0);
            }
            for (int wrong = -1; wrong < len && !stop; ++wrong) {
              auto d = right;
              if (wrong >= 0) d[wrong] ^= 1 << ((bank + len + wrong) % 8);
              bool got = t.Write(Address(a), d).ok(), want = mapped && wrong < 0;
              c.step();
              if (got != want) { stop = true; c.fail(mc::Fmt("bank %s 0x%zx $%06x %s", kN[m], size, a, mc::Hex(d).c_str()), mc::Fmt("write of %s at $%06x is %s", mc::Hex(d).c_str(), a, got ? "accepted" : "refused")); }
            }
          }
      c.trace();
    }
  // Longer writes: every single deviating position.
  std::vector<int> lens;
  for (int l = 6; l <= 70; ++l) lens.push_back(l);
  for (int l : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10000, 0x10001, 0x18000}) lens.push_back(l);
  for (int m = 0; m < 3; ++m)
    for (uint32_t a : {0x808000u, 0x80fff0u, 0xc08000u, 0xc0ff80u, 0xc00000u, 0xc10001u, 0xc17ff0u})
      for (int len : lens) {
        c.part("long writes");
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("%s: write of %d bytes at $%06x, matching and deviating at each position", kN[m], len, a); });
        nsasm::RomIdentityTest t(std::make_unique<nsasm::Rom>(kM[m], "rom", std::vector<uint8_t>(), ref::Pattern(0x18000)));
        std::vector<uint8_t> right;
        bool mapped = true;
        for (int i = 0; i < len; ++i) {
          int64_t o = ref::Offset(ref::Wrap(a, i), ref::Map(m));
          if (o < 0 || o >= 0x18000) mapped = false;
          right.push_back(mapped ? ref::ByteAt(o) : 0);
        }
        auto key = mc::Fmt("%s %d bytes at $%06x", kN[m], len, a);
        if (t.Write(Address(a), right).ok() != mapped) { c.fail(key, mapped ? "matching bytes rejected" : "bytes outside the ROM accepted"); continue; }
        c.step();
        for (int i = 0; i < len && mapped; ++i) {
          if (len > 1025 && i > 16 && i < len - 16 && i % 256 > 1 && i % 256 < 255) continue;
          if (len > 5000 && !c.thorough() && i > 300 && i < len - 300 && i % 4096 > 1) continue;
          right[i] ^= 1 << (i % 8);
          bool ok = t.Write(Address(a), right).ok();
          right[i] ^= 1 << (i % 8);
          c.step();
          if (ok) { c.fail(key + mc::Fmt(" deviating at %d", i), mc::Fmt("accepted although byte %d deviates", i)); break; }
        }
        c.outcome(mapped ? "accepted" : "rejected");
        c.state(mc::Mix(mc::Mix(m, len), a));
        c.trace();
      }
}
MC_MAIN((mc::Check{.property = "P06", .level = "model_checking",
  .rule = "at every edge address: the matching bytes, every single-bit and whole-byte deviation, every swap, and the matching bytes again, on one long-lived sink; a state is (mapping, ROM size, address, length)",
  .bounds_quick = "3 mappings x 3 ROM sizes x 11 banks x 11 addresses x lengths 0-5; 88 lengths up to 0x18000 x 7 addresses, one deviating byte; all 256 banks of images up to 0x7e0000 bytes", .bounds_thorough = "the same; deviations at more positions of the longest writes", .run = Run}))
