// P03: overwriting a ROM changes exactly the bytes written, and the saved file is header + data.
#include <fstream>
#include <iterator>
#include <unistd.h>
#include "lib/mc.h"
#include "checks/romref.h"
#include "nsasm/rom.h"
using nsasm::Address;
static const nsasm::Mapping kM[3] = {nsasm::kLoRom, nsasm::kHiRom, nsasm::kExHiRom};
static const char* kN[3] = {"LoROM", "HiROM", "ExHiROM"};
struct Op { uint32_t a; int len; };

static void Run(mc::Ctx& c) {
  std::string path = c.scratch() + "/out.sfc";
  for (int m = 0; m < 3; ++m)
    for (int header = 0; header < 2; ++header)
      for (size_t size : {size_t(0x10000), size_t(0x18000), size_t(0x8003)}) {
        size_t real = m == 2 ? size + 0x400000 * (size == 0x18000) : size;
        if (real > 0x100000 && !c.thorough()) real = size;
        // Addresses: first/last byte, around a bank end, past the end, console-owned.
        std::vector<uint32_t> addrs;
        if (m == 0) addrs = {0x008000, 0x00fffe, 0x00ffff, 0x808001, 0x018000, 0x018002, 0x01ffff, 0x028000, 0x7e0000, 0x002100, 0x400000};
        else addrs = {0xc00000, 0xc0fffe, 0xc0ffff, 0x808001, 0xc07ffe, 0xc08002, 0xc10000, 0xc17fff, 0xc18000, 0x7e0000, 0x402100};
        std::vector<Op> ops;
        for (uint32_t a : addrs) for (int len : {0, 1, 2, 3}) { if (len == 0 && a != addrs[0]) continue; ops.push_back({a, len}); }
        int depth = c.thorough() ? 3 : 2;
        int64_t total = 1;
        for (int i = 0; i < depth; ++i) total *= ops.size() + 1;
        for (int64_t code = 0; code < total; ++code) {
          c.part(kN[m]);
          if (!c.want()) continue;
          std::vector<Op> seq;
          int64_t k = code;
          bool canonical = true;
          for (int i = 0; i < depth; ++i) { int64_t d = k % (ops.size() + 1); k /= ops.size() + 1; if (d == 0) { if (k) canonical = false; break; } seq.push_back(ops[d - 1]); }
          if (!canonical) continue;
          auto text = [&] {
            std::string s = mc::Fmt("%s rom of 0x%zx bytes, %s header; writes:", kN[m], real, header ? "with" : "no");
            for (auto& o : seq) s += mc::Fmt(" %d@$%06x", o.len, o.a);
            return s;
          };
          c.describe(text);
          std::vector<uint8_t> head;
          if (header) { head = ref::Pattern(0x1200); head.erase(head.begin(), head.begin() + 0x1000); }
          std::vector<uint8_t> data = ref::Pattern(real);
          std::vector<uint8_t> model = data, alt = data;  // alt: bytes a rejected write may have left
          nsasm::RomOverwriter w(std::make_unique<nsasm::Rom>(kM[m], "p", head, data));
          int step = 0;
          bool bad = false;
          for (auto& o : seq) {
            ++step;
            std::vector<uint8_t> bytes;
            for (int i = 0; i < o.len; ++i) bytes.push_back(uint8_t(0x10 * step + i));
            bool ok = true;
            for (int i = 0; i < o.len; ++i) { int64_t off = ref::Offset(ref::Wrap(o.a, i), ref::Map(m)); if (off < 0 || off >= int64_t(real)) ok = false; }
            auto r = w.Write(Address(o.a), bytes);
            c.step();
            if (r.ok() != ok) {
              c.fail(text(), mc::Fmt("write %d of the sequence was %s, expected %s", step, r.ok() ? "accepted" : "rejected", ok ? "accepted" : "rejected"));
              bad = true;
              break;
            }
            c.outcome(ok ? "write accepted" : "write rejected");
            for (int i = 0; i < o.len; ++i) {
              int64_t off = ref::Offset(ref::Wrap(o.a, i), ref::Map(m));
              if (off < 0 || off >= int64_t(real)) continue;
              if (ok) model[off] = alt[off] = bytes[i];
              else alt[off] = bytes[i];
            }
          }
          if (bad) continue;
          auto r = w.CreateFile(path);
          c.step();
          if (!r.ok()) { c.fail(text(), "saving the file failed: " + r.error().ToString()); continue; }
          std::ifstream f(path, std::ios::binary);
          std::vector<uint8_t> got((std::istreambuf_iterator<char>(f)), {});
          if (got.size() != head.size() + real) { c.fail(text(), mc::Fmt("saved file has %zu bytes, expected %zu", got.size(), head.size() + real)); continue; }
          for (size_t i = 0; i < got.size(); ++i) {
            bool same = i < head.size() ? got[i] == head[i] : (got[i] == model[i - head.size()] || got[i] == alt[i - head.size()]);
            if (!same) { c.fail(text(), mc::Fmt("saved byte %zu is 0x%02x, expected 0x%02x", i, got[i], i < head.size() ? head[i] : model[i - head.size()])); break; }
          }
          c.state(mc::HashBytes(model.data(), model.size(), m * 2 + header));
          c.trace();
        }
      }
  // Single long writes.
  for (int m = 0; m < 3; ++m)
    for (uint32_t a : {0x808000u, 0x80fff0u, 0x81ff00u, 0xc08000u, 0xc0ff80u, 0xc00000u, 0xc17000u, 0x7dfff0u, 0x400000u, 0x418000u})
      for (int len : {4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4095, 4096, 4097, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10000, 0x10001, 0x18000}) {
        c.part("long writes");
        if (!c.want()) continue;
        auto text = mc::Fmt("%s rom of 0x18000 bytes; write of %d bytes at $%06x", kN[m], len, a);
        c.describe([&] { return text; });
        std::vector<uint8_t> data = ref::Pattern(0x18000), model = data, bytes;
        nsasm::RomOverwriter w(std::make_unique<nsasm::Rom>(kM[m], "p", std::vector<uint8_t>(), data));
        bool ok = true;
        for (int i = 0; i < len; ++i) {
          bytes.push_back(uint8_t(i * 13 + i / 256 + 1));
          int64_t off = ref::Offset(ref::Wrap(a, i), ref::Map(m));
          if (off < 0 || off >= 0x18000) ok = false; else model[off] = bytes[i];
        }
        bool got = w.Write(Address(a), bytes).ok();
        c.step(2);
        if (got != ok) { c.fail(text, text + (ok ? ": rejected" : ": accepted")); continue; }
        c.outcome(ok ? "write accepted" : "write rejected");
        if (!ok) continue;
        auto r = w.CreateFile(path);
        std::ifstream f(path, std::ios::binary);
        std::vector<uint8_t> out((std::istreambuf_iterator<char>(f)), {});
        if (!r.ok() || out != model) c.fail(text, text + ": the saved image is not the expected one");
        c.trace();
      }
  // Every bank, thousands of writes to one image.
  for (int m = 0; m < 3; ++m)
    for (size_t size : {size_t(0x10000), size_t(0x18000), size_t(0x200000), size_t(0x3f8000), size_t(0x480000), size_t(0x7e0000)})
      for (int order = 0; order < (c.thorough() ? 6 : 3); ++order) {
        c.part("every bank");
        if (!c.want()) continue;
        auto text = mc::Fmt("%s rom of 0x%zx bytes, writes of 1 to 3 bytes about the edges of all banks in order %d", kN[m], size, order);
        c.describe([&] { return text; });
        std::vector<uint8_t> data = ref::Pattern(size), model = data;
        nsasm::RomOverwriter w(std::make_unique<nsasm::Rom>(kM[m], "p", std::vector<uint8_t>(), data));
        static const uint32_t lo[] = {0, 1, 0x2100, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xc123, 0xfffd, 0xfffe, 0xffff};
        bool bad = false;
        int total = 256 * 11 * 3;
        for (int q = 0; q < total && !bad; ++q) {
          int k = order % 3 == 0 ? q : order % 3 == 1 ? total - 1 - q : int(int64_t(q) * 2477 % total);  // 2477 is prime to 8448
          uint32_t a = uint32_t(k / 33) << 16 | lo[k / 3 % 11];
          int len = (k + order / 3) % 3 + 1;
          std::vector<uint8_t> bytes, keep;
          bool ok = true;
          for (int i = 0; i < len; ++i) {
            bytes.push_back(uint8_t(q * 7 + i * 3 + q / 256));
            int64_t off = ref::Offset(ref::Wrap(a, i), ref::Map(m));
            if (off < 0 || off >= int64_t(size)) ok = false;
          }
          if (!ok && len > 1) continue;  // what a refused write leaves behind is not said
          if (w.Write(Address(a), bytes).ok() != ok) { c.fail(text, text + mc::Fmt(": write %d of %d bytes at $%06x is %s", q, len, a, ok ? "refused" : "accepted")); bad = true; }
          for (int i = 0; i < len && ok; ++i) model[ref::Offset(ref::Wrap(a, i), ref::Map(m))] = bytes[i];
          c.step();
        }
        if (bad) continue;
        auto r = w.CreateFile(path);
        std::ifstream f(path, std::ios::binary);
        std::vector<uint8_t> out((std::istreambuf_iterator<char>(f)), {});
        if (!r.ok() || out != model) {
          size_t i = 0;
          while (i < out.size() && i < model.size() && out[i] == model[i]) ++i;
          c.fail(text, text + mc::Fmt(": the saved image differs at offset 0x%zx", i));
        }
        c.trace();
      }
  unlink(path.c_str());
}
MC_MAIN((mc::Check{.property = "P03", .level = "model_checking",
  .rule = "all sequences of writes (address x length from the edge menus) on real overwriters, each ending with a save that is read back; the reference is a byte array; a state is the resulting image",
  .bounds_quick = "3 mappings x 2 header forms x 3 ROM sizes, all sequences of up to 2 of 31 writes; 36 lengths up to 0x18000 at 10 addresses; images up to 0x7e0000 bytes with 8448 writes over all banks in 3 orders", .bounds_thorough = "all sequences of up to 3 of 31 writes; ExHiROM also with a 4 MiB image", .run = Run}))
