// P09: address and number arithmetic: bank wrapping, differences, truncation, type combination.
#include <limits>
#include "lib/mc.h"
#include "nsasm/address.h"
#include "nsasm/numeric_type.h"
using namespace nsasm;
static uint32_t V(Address a) { return uint32_t(a.Bank()) << 16 | a.BankAddress(); }
static const NumericType kT[] = {T_unknown, T_byte, T_word, T_long, T_signed_byte, T_signed_word, T_signed_long};
static const char* kTN[] = {"unknown", "byte", "word", "long", "signed byte", "signed word", "signed long"};
static const int kBits[] = {0, 8, 16, 24, 8, 16, 24};
static bool Sg(int i) { return i >= 4; }
// Two's complement reference by arithmetic, not by masking.
static int64_t Ref(int t, int64_t v) {
  if (t == 0) return v;
  int64_t m = int64_t(1) << kBits[t];
  int64_t r = ((v % m) + m) % m;
  if (Sg(t) && r >= m / 2) r -= m;
  return r;
}
static void Run(mc::Ctx& c) {
  // Truncation of every 25-bit number and of numbers at every power of two.
  for (int t = 0; t < 7; ++t)
    for (int64_t base = -(1 << 24); base < (2 << 24); base += 1 << 19) {
      c.part("truncation");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("cast to %s of every number from %lld", kTN[t], (long long)base); });
      for (int64_t v = base; v < base + (1 << 19); ++v) {
        int got = CastTo(kT[t], int(v));
        int lv = LabelValue::FromInt(int(v)).ToNumber(kT[t]);
        if (got != Ref(t, v) || lv != got) { c.fail(mc::Fmt("cast %s %lld", kTN[t], (long long)v), mc::Fmt("%lld as %s is %d, expected %lld", (long long)v, kTN[t], got, (long long)Ref(t, v))); break; }
      }
      c.step(2 << 19);
      c.trace();
    }
  for (int t = 0; t < 7; ++t) {
    c.part("truncation");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("cast to %s of numbers around every power of two", kTN[t]); });
    for (int s = 0; s < 32; ++s)
      for (int sign : {1, -1})
        for (int d = -300; d <= 300; ++d) {
          int64_t v = sign * (int64_t(1) << s) + d;
          if (v < std::numeric_limits<int>::min() || v > std::numeric_limits<int>::max()) continue;
          c.step();
          c.state(mc::Mix(t, v));
          if (CastTo(kT[t], int(v)) != Ref(t, v)) { c.fail(mc::Fmt("cast %s %lld", kTN[t], (long long)v), mc::Fmt("%lld as %s is %d, expected %lld", (long long)v, kTN[t], CastTo(kT[t], int(v)), (long long)Ref(t, v))); d = 1000; s = 99; }
        }
    c.trace();
  }
  // Combining types.
  for (int a = 0; a < 7; ++a)
    for (int b = 0; b < 7; ++b) {
      c.part("type combination");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%s with %s", kTN[a], kTN[b]); });
      int want;
      if (a == 0) want = b; else if (b == 0) want = a;
      else want = std::max(kBits[a], kBits[b]) / 8 + (Sg(a) || Sg(b) ? 3 : 0);
      NumericType got = ArtihmeticConversion(kT[a], kT[b]);
      c.step();
      c.state(mc::Mix(a, b + 100));
      c.outcome(kTN[want]);
      if (got != kT[want]) c.fail(mc::Fmt("combine %s %s", kTN[a], kTN[b]), mc::Fmt("%s with %s gives %s, expected %s", kTN[a], kTN[b], ToString(got).c_str(), kTN[want]));
      if (b == 0) {
        NumericType s = Signed(kT[a]), u = Unsigned(kT[a]);
        NumericType ws = kT[a == 0 ? 0 : kBits[a] / 8 + 3], wu = kT[kBits[a] / 8];
        if (s != ws || u != wu || IsSigned(kT[a]) != Sg(a) || ToString(kT[a]) != kTN[a]) c.fail(mc::Fmt("signedness of %s", kTN[a]), "signed/unsigned counterpart or name is wrong");
      }
      c.trace();
    }
  // Stepping.
  std::vector<int> offs;
  for (int k = 0; k <= 17; ++k) for (int d : {-2, -1, 0, 1, 2}) for (int s : {1, -1}) offs.push_back(s * ((1 << k) + d));
  std::sort(offs.begin(), offs.end());
  offs.erase(std::unique(offs.begin(), offs.end()), offs.end());
  for (uint32_t bank : {0x00u, 0x01u, 0x7fu, 0x80u, 0xfeu, 0xffu})
    for (uint32_t block = 0; block < 0x10000; block += 0x400) {
      c.part("stepping");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%zu offsets from every address of $%02x%04x..+$3ff", offs.size(), bank, block); });
      bool bad = false;
      for (uint32_t lo = block; lo < block + 0x400 && !bad; ++lo) {
        uint32_t a = bank << 16 | lo;
        if (V(Address(a)) != a || V(Address(uint8_t(bank), uint16_t(lo))) != a || LabelValue(Address(a)).ToInt() != int(a) || V(LabelValue(Address(a)).ToAddress()) != a) { c.fail(mc::Fmt("address %06x", a), "address does not keep its value"); bad = true; break; }
        for (int o : offs) {
          int64_t l = ((int64_t(lo) + o) % 0x10000 + 0x10000) % 0x10000;
          uint32_t want = (bank << 16) | uint32_t(l);
          Address got = Address(a).AddWrapped(o);
          if (V(got) != want) { c.fail(mc::Fmt("step %06x %d", a, o), mc::Fmt("$%06x stepped by %d is $%06x, expected $%06x", a, o, V(got), want)); bad = true; break; }
          if (int64_t(a) + o >= 0 && int64_t(a) + o <= 0xffffff && V(Address(a).AddUnwrapped(o)) != a + o) { c.fail(mc::Fmt("linear %06x %d", a, o), mc::Fmt("$%06x moved linearly by %d is wrong", a, o)); bad = true; break; }
          int64_t dist = o % 0x10000;
          if (dist > 0x7fff) dist -= 0x10000;
          if (dist < -0x8000) dist += 0x10000;
          auto diff = got.SubtractWrapped(Address(a));
          if (!diff.ok() || *diff != dist) { c.fail(mc::Fmt("diff %06x %d", a, o), mc::Fmt("$%06x - $%06x is %d, expected %lld", V(got), a, diff.ok() ? *diff : 99999999, (long long)dist)); bad = true; break; }
          Address other(a ^ 0x10000);
          if (other.SubtractWrapped(got).ok()) { c.fail(mc::Fmt("diff banks %06x", a), "addresses in different banks have a difference"); bad = true; break; }
          bool lt = a < want;
          if ((Address(a) < got) != lt || (Address(a) == got) != (a == want) || (Address(a) > got) != (a > want) || (Address(a) <= got) != (a <= want) || (Address(a) >= got) != (a >= want) || (Address(a) != got) != (a != want)) { c.fail(mc::Fmt("order %06x %06x", a, want), "address order is wrong"); bad = true; break; }
          if ((LabelValue(Address(a)) < LabelValue(got)) != lt || (LabelValue(Address(a)) == LabelValue(got)) != (a == want)) { c.fail(mc::Fmt("label order %06x %06x", a, want), "label order is wrong"); bad = true; break; }
        }
        c.step(offs.size() * 4);
        c.state(mc::Mix(77, a));
      }
      c.trace();
    }
  // Differences of every pair in a bank.
  for (uint32_t block = 0; block < 0x10000; block += 0x100) {
    c.part("differences");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("difference of every address of one bank from $05%04x..+$ff", block); });
    bool bad = false;
    for (uint32_t x = block; x < block + 0x100 && !bad; x += c.thorough() ? 1 : 5)
      for (uint32_t y = 0; y < 0x10000; ++y) {
        auto d = Address(0x050000 + y).SubtractWrapped(Address(0x050000 + x));
        if (!d.ok() || *d < -32768 || *d > 32767 || V(Address(0x050000 + x).AddWrapped(*d)) != 0x050000 + y) { c.fail(mc::Fmt("diff pair %04x %04x", y, x), mc::Fmt("$05%04x - $05%04x is wrong", y, x)); bad = true; break; }
      }
    c.step(0x10000 * (c.thorough() ? 256 : 52));
    c.trace();
  }
}
MC_MAIN((mc::Check{.property = "P09", .level = "model_checking",
  .rule = "all numbers of the range x all types, all type pairs, all addresses of the banks x the offset menu, all pairs of addresses in a bank; reference in wide modular arithmetic; a state is an (operation, operand) class",
  .bounds_quick = "2^24 negative to 2^25 positive numbers x 7 types; 49 type pairs; 6 banks x 65536 addresses x ~150 offsets; 13312 x 65536 differences", .bounds_thorough = "the same with all 65536 x 65536 differences", .run = Run}))
