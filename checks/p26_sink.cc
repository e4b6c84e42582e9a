// P26: the recording test sink passes exactly the runs that wrote exactly the expected bytes, each once.
#include <map>
#include "lib/mc.h"
#include "test/test_sink.h"
using nsasm::Address;
struct W { uint32_t a; std::vector<uint8_t> d; };
static std::string Text(const W& w) { return mc::Fmt(" $%06x:", w.a) + mc::Hex(w.d); }
static uint32_t At(uint32_t a, int i) { return (a & 0xff0000) | ((a + i) & 0xffff); }
static void Run(mc::Ctx& c) {
  std::vector<W> menu;
  for (uint32_t a : {0x00fffeu, 0x00ffffu, 0x000000u, 0x000001u, 0x010000u})
    for (auto& d : std::vector<std::vector<uint8_t>>{{1}, {2}, {1, 2}, {2, 1}, {1, 2, 1}}) { if (a == 0x010000u && d.size() > 1) continue; menu.push_back({a, d}); }
  menu.push_back({0x000000, {}});
  menu.push_back({0x00fffe, {1, 2, 1, 2}});
  menu.push_back({0xffffff, {0, 0xff}});
  menu.push_back({0x00fffe, {0}});
  int n = menu.size(), wd = c.thorough() ? 4 : 3;
  for (int e0 = -1; e0 < n; ++e0)
    for (int e1 = -1; e1 < n; ++e1) {
      c.part("expectation pairs");
      if (e0 < 0 && e1 >= 0) continue;
      std::map<uint32_t, uint8_t> want;
      bool clash = false;
      std::vector<nsasm::ExpectedBytes> ex;
      std::string text = "expect";
      for (int e : {e0, e1}) if (e >= 0) {
        for (size_t i = 0; i < menu[e].d.size(); ++i) if (!want.insert({At(menu[e].a, i), menu[e].d[i]}).second) clash = true;
        ex.push_back({int(menu[e].a), menu[e].d});
        text += Text(menu[e]);
      }
      if (clash) continue;  // expectations that name a byte twice are not defined
      if (!c.want()) continue;
      c.describe([&] { return text + mc::Fmt(", all sequences of up to %d of %d writes", wd, n); });
      bool bad = false;
      auto rec = [&](auto&& self, const nsasm::TestSink& s, const std::map<uint32_t, uint8_t>& have, const std::string& path, int left) -> void {
        if (bad) return;
        bool ok = s.Check().ok();
        c.step();
        c.outcome(have == want ? "exactly as expected" : "differs");
        if (ok != (have == want)) { c.fail(text + "; write" + path, text + "; write" + path + mc::Fmt(": check %s", ok ? "passed" : "failed")); bad = true; return; }
        uint64_t h = 3;
        for (auto& x : have) h = mc::Mix(mc::Mix(h, x.first), x.second);
        c.state(mc::Mix(h, mc::HashStr(text)));
        c.trace();
        if (!left) return;
        for (int k = 0; k < n && !bad; ++k) {
          nsasm::TestSink ns = s;
          auto nh = have;
          bool dup = false;
          for (size_t i = 0; i < menu[k].d.size(); ++i) if (!nh.insert({At(menu[k].a, i), menu[k].d[i]}).second) dup = true;
          bool got = ns.Write(Address(menu[k].a), menu[k].d).ok();
          c.step();
          if (got == dup) { c.fail(text + "; write" + path + Text(menu[k]), text + "; write" + path + Text(menu[k]) + mc::Fmt(": last write %s", got ? "accepted although it repeats an address" : "refused")); bad = true; return; }
          if (!dup) self(self, ns, nh, path + Text(menu[k]), left - 1);
        }
      };
      rec(rec, nsasm::TestSink(ex), {}, "", wd);
    }
  // Many expectations, written in several orders; each one left out, changed, or written twice.
  for (int n : {1, 2, 3, 4, 7, 8, 9, 16, 17, 40})
    for (int size : {1, 2, 3})
      for (int gap : {0, 1, 0x10000})
        for (int order = 0; order < 3; ++order) {
          c.part("many expectations");
          if (!c.want()) continue;
          auto text = mc::Fmt("%d expectations of %d bytes, %d apart, written in order %d", n, size, gap, order);
          c.describe([&] { return text; });
          std::vector<nsasm::ExpectedBytes> ex;
          for (int i = 0; i < n; ++i) { std::vector<uint8_t> d; for (int b = 0; b < size; ++b) d.push_back(i * 3 + b); ex.push_back({0xff40 + i * (size + gap), d}); }
          auto run = [&](int skip, int wrong, int twice) {
            nsasm::TestSink s(ex);
            for (int q = 0; q < n; ++q) {
              int i = order == 0 ? q : order == 1 ? n - 1 - q : (q % 2 ? n - 1 - q / 2 : q / 2);
              if (i == skip) continue;
              auto d = ex[i].bytes;
              if (i == wrong) d[size - 1] ^= 1;
              if (!s.Write(Address(ex[i].location), d).ok()) return -1;
              c.step();
            }
            if (twice >= 0) return s.Write(Address(ex[twice].location + size - 1), std::vector<uint8_t>{ex[twice].bytes[size - 1]}).ok() ? 1 : -1;
            return int(s.Check().ok());
          };
          if (run(-1, -1, -1) != 1) c.fail(text, text + ": the exact bytes do not pass");
          for (int i = 0; i < n; ++i) {
            if (run(i, -1, -1) != 0) { c.fail(text + " skip", text + mc::Fmt(": passes without number %d", i)); break; }
            if (run(-1, i, -1) != 0) { c.fail(text + " wrong", text + mc::Fmt(": passes with number %d wrong", i)); break; }
            if (run(-1, -1, i) != -1) { c.fail(text + " twice", text + mc::Fmt(": number %d can be written twice", i)); break; }
          }
          c.trace();
        }
  // Long expectations written in two parts, whole, short, long or with one wrong byte.
  for (uint32_t a : {0x008000u, 0x00fff0u, 0xffff80u})
    for (int len : {3, 4, 5, 8, 15, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 0x8000, 0x10000})
      for (int cut : {0, 1, 2, 16, 255, 256}) {
        c.part("long writes");
        if (cut >= len) continue;
        if (!c.want()) continue;
        auto text = mc::Fmt("%d bytes expected at $%06x, written in parts of %d and %d", len, a, cut, len - cut);
        c.describe([&] { return text; });
        std::vector<uint8_t> d;
        for (int i = 0; i < len; ++i) d.push_back(uint8_t(i * 5 + i / 256));
        auto run = [&](const std::vector<uint8_t>& w) {
          nsasm::TestSink s({{int(a), d}});
          std::vector<uint8_t> p1(w.begin(), w.begin() + cut), p2(w.begin() + cut, w.end());
          bool ok = s.Write(Address(At(a, cut)), p2).ok() && s.Write(Address(a), p1).ok();
          c.step(3);
          return !ok ? -1 : int(s.Check().ok());
        };
        if (run(d) != 1) c.fail(text, text + ": the exact bytes do not pass");
        for (int i = 0; i < len; ++i) {
          if (len > 300 && i > 20 && i < len - 20 && i % 256 > 1) continue;
          if (len > 3000 && i > 20 && i < len - 20 && i % 4096 > 1) continue;
          auto w = d;
          w[i] ^= 0x40;
          if (run(w) != 0) { c.fail(text + mc::Fmt(" wrong at %d", i), text + mc::Fmt(": passes with byte %d wrong", i)); break; }
        }
        auto w = d;
        w.pop_back();
        if (run(w) != 0) c.fail(text + " short", text + ": passes with the last byte missing");
        w = d;
        w.push_back(9);
        if (run(w) != (len == 0x10000 ? -1 : 0)) c.fail(text + " long", text + ": passes with one byte too many");
        c.trace();
      }
}
MC_MAIN((mc::Check{.property = "P26", .level = "model_checking",
  .rule = "all pairs of non-overlapping expectations x all sequences of writes that name no address twice, checked after every write, plus every duplicate write; a state is (expectation, bytes written)",
  .bounds_quick = "25 entries around a bank edge: up to 2 expectations, up to 3 writes; up to 40 expectations, each one missing, wrong or written twice", .bounds_thorough = "up to 2 expectations, up to 4 writes", .run = Run, .hang_seconds = 200}))
