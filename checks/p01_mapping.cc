// P01: the SNES address -> cartridge offset translation, for every address.
#include "lib/mc.h"
#include "checks/romref.h"
#include "nsasm/rom.h"
using nsasm::Address;

static void Run(mc::Ctx& c) {
  static const nsasm::Mapping kM[3] = {nsasm::kLoRom, nsasm::kHiRom, nsasm::kExHiRom};
  static const char* kN[3] = {"LoROM", "HiROM", "ExHiROM"};
  for (int m = 0; m < 3; ++m) {
    c.part(kN[m]);
    for (uint32_t bank = 0; bank <= 0x100; ++bank) {
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%s, every address of bank $%02x", kN[m], bank); });
      uint32_t n = bank == 0x100 ? 1 : 0x10000;  // $1000000 is the one-past-the-end address
      uint64_t mapped = 0;
      for (uint32_t lo = 0; lo < n; ++lo) {
        uint32_t a = bank * 0x10000 + lo;
        int64_t want = ref::Offset(a, ref::Map(m));
        auto got = nsasm::SnesToROMAddress(Address(a), kM[m]);
        c.step();
        if (got.ok() != (want >= 0)) {
          c.fail(mc::Fmt("%s $%06x", kN[m], a), mc::Fmt("%s $%06x: %s, expected %s", kN[m], a, got.ok() ? mc::Fmt("offset 0x%zx", *got).c_str() : "rejected", want >= 0 ? mc::Fmt("offset 0x%llx", (long long)want).c_str() : "rejection"));
          break;
        }
        if (got.ok() && int64_t(*got) != want) {
          c.fail(mc::Fmt("%s $%06x", kN[m], a), mc::Fmt("%s $%06x: offset 0x%zx, expected 0x%llx", kN[m], a, *got, (long long)want));
          break;
        }
        if (want >= 0) { ++mapped; if ((lo & 0xff) == 0) c.state(mc::Mix(m, want >> 8)); }
        else if ((lo & 0xff) == 0) c.state(mc::Mix(m + 10, a >> 8));
      }
      c.outcome("addresses mapped to ROM", mapped);
      c.outcome("addresses rejected", n - mapped);
      c.trace(n);
    }
  }
}
MC_MAIN((mc::Check{.property = "P01", .level = "model_checking",
  .rule = "every 24-bit address (and the one-past-the-end address) under each mapping; the translation is compared with an independently written memory map; a state is a 256-byte page of the translated space",
  .bounds_quick = "complete: 3 mappings x 16777217 addresses", .bounds_thorough = "complete: 3 mappings x 16777217 addresses", .run = Run}))
