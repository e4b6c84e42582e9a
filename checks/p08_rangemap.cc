// P08: the map from byte ranges to owners inserts all or nothing and finds exactly the owner of a byte.
#include <map>
#include "lib/mc.h"
#include "nsasm/ranges.h"
using nsasm::Address;
using nsasm::Chunk;
using nsasm::DataRange;
struct Piece { uint32_t a; int len; };
typedef std::vector<Piece> Item;  // one insertion: a range made of pieces
static std::string Text(const Item& it) { std::string s = " {"; for (auto& p : it) s += mc::Fmt("%d@$%06x ", p.len, p.a); s.back() = '}'; return it.empty() ? " {}" : s; }
static uint32_t At(uint32_t a, int i) { return (a & 0xff0000) | ((a + i) & 0xffff); }
// Many owners; every further insertion over them, and every byte looked up.
static void Many(mc::Ctx& c) {
  for (int n : {1, 2, 3, 5, 8, 16, 17, 33, 64}) for (int order = 0; order < 4; ++order) for (int size : {1, 2}) for (int pieces : {1, 2, 3}) for (uint32_t base : {0x008000u, 0x027f00u, 0xfffc00u, 0x00ff80u}) {
    c.part("many owners");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("%d owners of %d pieces of %d bytes from $%06x, inserted in order %d, then every further insertion", n, pieces, size, base, order); });
    nsasm::RangeMap<int> m;
    std::map<uint32_t, int> model;
    std::string e;
    int span = n * pieces * (size + 1);
    auto look = [&](const nsasm::RangeMap<int>& x, const std::map<uint32_t, int>& y) {
      for (int i = -2; i < span + 3 && e.empty(); ++i) {
        if (base + i > 0xffffff) break;
        uint32_t a = base + i;
        auto it = y.find(a);
        auto v = x.Lookup(Address(a));
        if (x.Contains(Address(a)) != (it != y.end())) e = mc::Fmt("membership of $%06x is %d", a, it == y.end());
        else if (v.has_value() != (it != y.end()) || (v && *v != it->second)) e = mc::Fmt("owner of $%06x is %d, expected %d", a, v ? *v : -1, it != y.end() ? it->second : -1);
      }
    };
    // Owner k holds piece k, k+n, k+2n: the pieces of different owners interleave.
    for (int i = 0; i < n && e.empty(); ++i) {
      int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (2 * i < n ? 2 * i : 2 * (i - (n + 1) / 2) + 1) : (i % 2 ? n - 1 - i / 2 : i / 2);
      DataRange r;
      for (int p = 0; p < pieces; ++p) { uint32_t a = base + (k + p * n) * (size + 1); (void)r.ClaimBytes(Address(a), size); for (int b = 0; b < size; ++b) model[At(a, b)] = 1000 + k; }
      if (!m.Insert(r, 1000 + k)) e = mc::Fmt("owner %d is refused", k);
      c.step();
    }
    if (e.empty()) look(m, model);
    for (int i = -1; i < span + 1 && e.empty(); ++i) for (int len : {1, 2, 3}) for (int far : {0, 1}) {
      uint32_t a = base + i;
      if (a + len > 0xffffff) continue;
      auto nm = m;
      auto nmodel = model;
      DataRange r;
      bool free = true;
      if (far) { (void)r.ClaimBytes(Address(base + span + 1), 1); if (model.count(base + span + 1)) free = false; }
      (void)r.ClaimBytes(Address(a), len);
      for (int b = 0; b < len; ++b) if (model.count(At(a, b))) free = false;
      if (free) { for (int b = 0; b < len; ++b) nmodel[At(a, b)] = 7; if (far) nmodel[base + span + 1] = 7; }
      if (nm.Insert(r, 7) != free) e = mc::Fmt("inserting %d@$%06x is %s", len, a, free ? "refused" : "accepted");
      c.step();
      if (e.empty() && (free || i % 7 == 0)) look(nm, nmodel);
    }
    if (!e.empty()) c.fail(mc::Fmt("many %d %d %d %d %06x", n, order, size, pieces, base), e);
    c.trace(); c.state(mc::Mix(base, mc::Mix(n * 8 + order, size * 4 + pieces)));
  }
  for (uint32_t bank = 0; bank < 256; ++bank) {
    c.part("every bank");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("all pairs of insertions about the edges of bank $%02x", bank); });
    std::string e;
    for (uint32_t a : {0u, 1u, 0x7fffu, 0x8000u, 0xfffeu, 0xffffu}) for (int l : {1, 2, 3}) for (uint32_t a2 : {0u, 1u, 0x7fffu, 0x8000u, 0xfffeu, 0xffffu}) for (int l2 : {1, 2}) {
      nsasm::RangeMap<int> m;
      std::map<uint32_t, int> model;
      DataRange r, r2;
      (void)r.ClaimBytes(Address(bank << 16 | a), l);
      (void)r2.ClaimBytes(Address(bank << 16 | a2), l2);
      bool free = true;
      for (int i = 0; i < l; ++i) model[At(bank << 16 | a, i)] = 1;
      for (int i = 0; i < l2; ++i) if (model.count(At(bank << 16 | a2, i))) free = false;
      if (free) for (int i = 0; i < l2; ++i) model[At(bank << 16 | a2, i)] = 2;
      bool x = m.Insert(r, 1), y = m.Insert(r2, 2);
      c.step(2);
      if (e.empty() && (!x || y != free)) e = mc::Fmt("%d@$%02x%04x then %d@$%02x%04x: %d %d", l, bank, a, l2, bank, a2, x, y);
      for (uint32_t b = bank ? bank - 1 : 0; b <= bank + 1 && b < 256 && e.empty(); ++b) for (uint32_t o : {0u, 1u, 2u, 0x7fffu, 0x8000u, 0x8001u, 0x8002u, 0xfffdu, 0xfffeu, 0xffffu}) {
        uint32_t q = b << 16 | o;
        auto it = model.find(q);
        auto v = m.Lookup(Address(q));
        if (v.has_value() != (it != model.end()) || (v && *v != it->second) || m.Contains(Address(q)) != v.has_value()) { e = mc::Fmt("after %d@$%02x%04x, %d@$%02x%04x the owner of $%06x is %d", l, bank, a, l2, bank, a2, q, v ? *v : -1); break; }
      }
    }
    if (!e.empty()) c.fail(mc::Fmt("bank %02x", bank), e);
    c.trace();
  }
}
static void Run(mc::Ctx& c) {
  Many(c);
  struct U { const char* name; std::vector<uint32_t> cells; std::vector<int> lens; };
  for (auto& u : std::vector<U>{{"bank edge", {0x010000, 0x010001, 0x01fffe, 0x01ffff, 0x020000}, {1, 2}}, {"contiguous", {0x8000, 0x8001, 0x8002, 0x8003, 0x8004, 0x8005}, {1, 2, 3}}, {"memory ends", {0x000000, 0x000001, 0xff0000, 0xfffffe, 0xffffff}, {1, 2}}}) {
    std::vector<Piece> ps;
    for (uint32_t a : u.cells) for (int l : u.lens) ps.push_back({a, l});
    std::vector<Item> items = {{}};
    for (auto& p : ps) items.push_back({p});
    for (size_t i = 0; i < ps.size(); ++i) for (size_t j = i + 1; j < ps.size(); ++j) items.push_back({ps[i], ps[j]});
    std::vector<uint32_t> probes;
    for (uint32_t a : u.cells) for (int d = -1; d <= 3; ++d) { int64_t q = int64_t(a) + d; if (q >= 0 && q <= 0xffffff) probes.push_back(q); }
    int depth = c.thorough() ? 4 : 3;
    // The last insertion of the deepest histories ranges over single pieces only.
    for (size_t i0 = 0; i0 < items.size(); ++i0)
      for (size_t i1 = 0; i1 < items.size(); ++i1) {
        c.part(u.name);
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("all histories of %d insertions starting%s%s", depth, Text(items[i0]).c_str(), Text(items[i1]).c_str()); });
        bool bad = false;
        auto rec = [&](auto&& self, const nsasm::RangeMap<int>& m, const std::map<uint32_t, int>& model, const std::string& path, size_t k, int level) -> void {
          if (bad) return;
          nsasm::RangeMap<int> nm = m;
          std::map<uint32_t, int> nmodel = model;
          DataRange r;
          bool free = true;
          for (auto& p : items[k]) { (void)r.ClaimBytes(Address(p.a), p.len); for (int i = 0; i < p.len; ++i) if (model.count(At(p.a, i))) free = false; }
          if (free) for (auto& p : items[k]) for (int i = 0; i < p.len; ++i) nmodel[At(p.a, i)] = level + 100;
          bool got = nm.Insert(r, level + 100);
          c.step();
          c.outcome(free ? "inserted" : "conflict");
          std::string np = path + Text(items[k]), e;
          if (got != free) e = mc::Fmt("insertion %d was %s, expected %s", level, got ? "accepted" : "refused", free ? "accepted" : "refused");
          for (uint32_t a : probes) {
            if (!e.empty()) break;
            auto it = nmodel.find(a);
            auto v = nm.Lookup(Address(a));
            bool in = nm.Contains(Address(a));
            if (in != (it != nmodel.end())) e = mc::Fmt("membership of $%06x is %d", a, in);
            else if (v.has_value() != (it != nmodel.end()) || (v && *v != it->second)) e = mc::Fmt("owner of $%06x is %d, expected %d", a, v ? *v : -1, it != nmodel.end() ? it->second : -1);
          }
          if (!e.empty()) { c.fail(np, "insertions" + np + ": " + e); bad = true; return; }
          uint64_t h = 7;
          for (auto& x : nmodel) h = mc::Mix(mc::Mix(h, x.first), x.second);
          c.state(h);
          if (level + 1 == depth) { c.trace(); return; }
          if (level == 0) { self(self, nm, nmodel, np, i1, 1); return; }
          size_t n = level + 1 == 3 ? ps.size() + 1 : items.size();
          for (size_t j = 0; j < n; ++j) self(self, nm, nmodel, np, j, level + 1);
        };
        rec(rec, {}, {}, "", i0, 0);
      }
  }
}
MC_MAIN((mc::Check{.property = "P08", .level = "model_checking",
  .rule = "all histories of insertions of ranges made of up to two pieces; after every insertion every cell and its neighbours are looked up; the reference is a byte-to-owner map; a state is that map",
  .bounds_quick = "3 universes of 5-6 cells, all histories of 3 insertions; up to 64 owners of up to 3 pieces in 4 orders and every insertion over them; pairs in all 256 banks", .bounds_thorough = "all histories of 4 insertions (the fourth of single pieces)", .run = Run, .hang_seconds = 300}))
