// Reference SNES memory map, written from the published LoROM / HiROM / ExHiROM
// layouts, not from the implementation.
#ifndef VERIF_ROMREF_H_
#define VERIF_ROMREF_H_
#include <cstdint>
#include <vector>
namespace ref {
enum Map { LO = 0, HI = 1, EXHI = 2 };
// Offset into the cartridge, or -1 where the console does not route to it.
inline int64_t Offset(uint32_t a, Map m) {
  if (a > 0xffffff) return -1;
  unsigned bank = a >> 16, lo = a & 0xffff;
  if (bank == 0x7e || bank == 0x7f) return -1;                 // work ram
  bool system_half = lo < 0x8000;
  bool system_bank = bank <= 0x3f || (bank >= 0x80 && bank <= 0xbf);
  if (system_half && system_bank) return -1;                   // wram mirror, registers
  switch (m) {
    case LO:
      if (system_half) return -1;
      return int64_t(bank % 0x80) * 0x8000 + (lo - 0x8000);    // 32 KiB pages
    case HI:
      return int64_t(bank % 0x40) * 0x10000 + lo;              // 64 KiB banks, 4 MiB
    case EXHI: {
      int64_t page = int64_t(bank % 0x40) * 0x10000 + lo;
      return bank >= 0x80 ? page : page + 0x400000;            // first 4 MiB in the upper half
    }
  }
  return -1;
}
inline uint32_t Wrap(uint32_t a, int64_t off) { return (a & 0xff0000u) | uint32_t((a + off) & 0xffff); }
inline uint8_t ByteAt(uint64_t off) {
  uint64_t h = off * 0x9E3779B97F4A7C15ull;
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull;
  return uint8_t(h >> 40);
}
inline std::vector<uint8_t> Pattern(size_t n) {
  std::vector<uint8_t> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = ByteAt(i);
  return v;
}
}  // namespace ref
#endif
