// P07: byte ranges behave as a set of addresses; claims report conflicts exactly.
#include <deque>
#include <set>
#include "lib/mc.h"
#include "nsasm/ranges.h"
using nsasm::Address;
using nsasm::Chunk;
using nsasm::DataRange;
static uint32_t V(Address a) { return uint32_t(a.Bank()) << 16 | a.BankAddress(); }

struct Op { bool chunk; uint32_t a, b; };  // a: start; b: length or end
static std::string Text(const Op& o) { return o.chunk ? mc::Fmt(" [$%06x,$%06x)", o.a, o.b) : mc::Fmt(" %u@$%06x", o.b, o.a); }
typedef std::vector<std::pair<uint32_t, uint32_t>> Spans;

// Reference: half-open spans kept maximal.
static Spans Pieces(const Op& o) {
  Spans p;
  if (o.chunk) { if (o.a < o.b) p.push_back({o.a, o.b}); return p; }
  uint32_t bank = o.a & 0xff0000, lo = o.a & 0xffff, left = o.b;
  while (left) { uint32_t n = std::min<uint32_t>(left, 0x10000 - lo); p.push_back({bank + lo, bank + lo + n}); left -= n; lo = 0; }
  return p;
}
static bool Hits(const Spans& s, const Spans& p) { for (auto& x : s) for (auto& y : p) if (x.first < y.second && y.first < x.second) return true; return false; }
static Spans Union(Spans s, const Spans& p) {
  s.insert(s.end(), p.begin(), p.end());
  std::sort(s.begin(), s.end());
  Spans r;
  for (auto& x : s) { if (!r.empty() && x.first <= r.back().second) r.back().second = std::max(r.back().second, x.second); else r.push_back(x); }
  return r;
}
static Spans Seen(const DataRange& d) { Spans s; for (auto& c : d.Chunks()) s.push_back({V(c.first), V(c.second)}); return s; }
static std::string Text(const Spans& s) { std::string r; for (auto& x : s) r += mc::Fmt(" [$%06x,$%06x)", x.first, x.second); return r.empty() ? " nothing" : r; }

static std::string Apply(DataRange* d, Spans* model, const Op& o) {
  Spans p = Pieces(o);
  bool free = !Hits(*model, p);
  *model = Union(*model, p);
  bool got = o.chunk ? d->ClaimBytes(Chunk(Address(o.a), Address(o.b))) : d->ClaimBytes(Address(o.a), int(o.b));
  if (got != free && !(!o.chunk && o.b > 0x10000)) return mc::Fmt("claim%s reported %s, expected %s", Text(o).c_str(), got ? "free" : "conflict", free ? "free" : "conflict");
  Spans s = Seen(*d);
  if (s != *model) return "claim" + Text(o) + " left" + Text(s) + ", expected" + Text(*model);
  return "";
}
static std::string Ask(const DataRange& d, const Spans& model, const std::vector<uint32_t>& probes) {
  auto one = [&](uint32_t a) -> std::string {
    bool in = false;
    for (auto& x : model) if (a >= x.first && a < x.second) in = true;
    if (d.Contains(Address(a)) != in) return mc::Fmt("membership of $%06x is %d, expected %d", a, !in, in);
    return "";
  };
  for (uint32_t a : probes) { auto e = one(a); if (!e.empty()) return e; }
  for (auto& x : model) for (int64_t a : {int64_t(x.first) - 1, int64_t(x.first), int64_t(x.first) + 1, int64_t(x.second) - 1, int64_t(x.second), int64_t(x.second) + 1}) if (a >= 0 && a <= 0xffffff) { auto e = one(a); if (!e.empty()) return e; }
  return "";
}
// Many pieces in a row, claimed in several orders, then every claim that spans any of them.
static void Many(mc::Ctx& c) {
  static const int ns[] = {1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 64, 100};
  for (int n : ns) for (int gap : {1, 2}) for (int order = 0; order < 4; ++order) for (uint32_t base : {0x008000u, 0x02ffc0u, 0xfffe00u}) {
    c.part("many pieces");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("%d pieces %d apart from $%06x, claimed in order %d, then every claim over them", n, gap, base, order); });
    DataRange d;
    Spans m;
    std::string e;
    for (int i = 0; i < n && e.empty(); ++i) {
      int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (2 * i < n ? 2 * i : 2 * (i - (n + 1) / 2) + 1) : (i % 2 ? n - 1 - i / 2 : i / 2);
      uint32_t a = base + k * (gap + 1), b = (a & 0xffff0000) | ((a + gap + 1) & 0xffff);
      if ((a & 0xffff) + 1 > 0xffff || b < a) { a = base; }
      e = Apply(&d, &m, {i % 2 == 0, a, i % 2 ? 1 : a + 1});
      c.step();
    }
    std::vector<uint32_t> probes;
    for (int i = -2; i < n * (gap + 1) + 2; ++i) if (base + i <= 0xffffff) probes.push_back(base + i);
    if (e.empty()) e = Ask(d, m, probes);
    int last = n * (gap + 1);
    for (int i = -1; i < last && e.empty(); ++i)
      for (int j = i + 1; j <= last && e.empty(); ++j) {
        uint32_t a = base + i, b = base + j;
        if (b > 0xffffff) break;
        DataRange nd = d;
        Spans nm = m;
        e = Apply(&nd, &nm, {true, a, b});
        if (e.empty() && (i + j) % 5 == 0) e = Ask(nd, nm, {});
        if (e.empty()) { nd = d; nm = m; e = Apply(&nd, &nm, {false, a, b - a}); }
        c.step(2);
      }
    if (!e.empty()) c.fail(mc::Fmt("many %d %d %d %06x", n, gap, order, base), e);
    c.trace(); c.state(mc::HashBytes(m.data(), m.size() * sizeof m[0], order));
  }
  // Each bank.
  for (uint32_t bank = 0; bank < 256; ++bank) {
    c.part("every bank");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("all pairs of claims about the edges of bank $%02x", bank); });
    std::vector<Op> ops;
    std::vector<uint32_t> probes;
    for (uint32_t a : {0u, 1u, 0x7fffu, 0x8000u, 0xfffdu, 0xfffeu, 0xffffu}) {
      probes.push_back(bank << 16 | a);
      for (uint32_t l : {1u, 2u, 3u, 0x8000u, 0x10000u}) ops.push_back({false, bank << 16 | a, l});
      if (a < 0xffff && bank < 255) ops.push_back({true, bank << 16 | a, (bank + 1) << 16});
      if (bank < 255) ops.push_back({true, bank << 16 | a, ((bank + 1) << 16) + 1});
    }
    if (bank < 255) probes.push_back((bank + 1) << 16);
    if (bank) probes.push_back((bank << 16) - 1);
    bool bad = false;
    for (auto& x : ops) for (auto& y : ops) {
      if (bad) break;
      DataRange d;
      Spans m;
      std::string e = Apply(&d, &m, x);
      if (e.empty()) e = Apply(&d, &m, y);
      if (e.empty()) e = Ask(d, m, probes);
      c.step(2); c.trace();
      if (!e.empty()) { bad = true; c.fail("bank" + Text(x) + Text(y), "after claims" + Text(x) + Text(y) + ": " + e); }
    }
  }
}
static void Run(mc::Ctx& c) {
  Many(c);
  struct Universe { const char* name; std::vector<uint32_t> cells; std::vector<uint32_t> lens; bool chunks; };
  std::vector<Universe> us = {
      {"around a bank edge", {0x010000, 0x010001, 0x010002, 0x01fffd, 0x01fffe, 0x01ffff, 0x020000, 0x020001}, {0, 1, 2, 3, 4}, true},
      {"contiguous", {0x000000, 0x000001, 0x000002, 0x000003, 0x000004, 0x000005, 0x000006, 0x000007, 0x000008, 0x000009}, {1, 2, 3, 5}, true},
      {"end of memory", {0xff0000, 0xff0001, 0xfffffd, 0xfffffe, 0xffffff, 0x000000, 0x000001}, {1, 2, 3}, true},
      {"long claims", {0x010000, 0x010001, 0x018000, 0x01ffff, 0x020000, 0x027fff}, {1, 2, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x20000}, false},
  };
  for (auto& u : us) {
    std::vector<Op> ops;
    for (uint32_t a : u.cells) for (uint32_t l : u.lens) { if (l == 0 && a != u.cells[0]) continue; ops.push_back({false, a, l}); }
    if (u.chunks) {
      auto ends = u.cells;
      for (uint32_t a : u.cells) ends.push_back(a + 1);
      std::sort(ends.begin(), ends.end());
      ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
      for (uint32_t a : u.cells) for (uint32_t b : ends) if (a < b && b - a <= 0x10000) ops.push_back({true, a, b});
    }
    std::vector<uint32_t> probes;
    for (uint32_t a : u.cells) for (int d = -1; d <= 2; ++d) if (int64_t(a) + d >= 0 && a + d <= 0xffffff) probes.push_back(a + d);
    // Closure: every reachable set, every operation from it.  One case per first operation's orbit is
    // not separable, so the closure runs once in one worker per universe.
    c.part(std::string("closure, ") + u.name);
    if (c.want()) {
      c.describe([&] { return mc::Fmt("all sets reachable %s with %zu claims", u.name, ops.size()); });
      struct N { DataRange d; Spans m; int parent; int op; };
      std::deque<N> nodes;
      std::set<Spans> seen;
      nodes.push_back({DataRange(), {}, -1, -1});
      seen.insert({});
      bool bad = false;
      for (size_t i = 0; i < nodes.size() && !bad && nodes.size() < 400000; ++i) {
        if (i % 64 == 0) { auto e = Ask(nodes[i].d, nodes[i].m, probes); if (!e.empty()) c.fail("closure probe", Text(nodes[i].m) + ": " + e); }
        for (size_t k = 0; k < ops.size(); ++k) {
          N n = {nodes[i].d, nodes[i].m, int(i), int(k)};
          std::string e = Apply(&n.d, &n.m, ops[k]);
          c.step();
          bool fresh = e.empty() && seen.insert(n.m).second;
          if (fresh) e = Ask(n.d, n.m, probes);
          if (!e.empty()) {
            std::string path;
            for (int j = i; j > 0; j = nodes[j].parent) path = Text(ops[nodes[j].op]) + path;
            c.fail(std::string(u.name) + path + Text(ops[k]), "after claims" + path + ": " + e);
            bad = true;
            break;
          }
          if (fresh) { c.state(mc::HashBytes(n.m.data(), n.m.size() * sizeof n.m[0], mc::HashStr(u.name))); nodes.push_back(std::move(n)); }
        }
      }
      c.trace(nodes.size());
      c.outcome("reachable sets", nodes.size());
    }
    // Raw histories (no merging of states): every sequence.
    int depth = c.thorough() ? 4 : 3;
    for (size_t first = 0; first < ops.size(); ++first)
     for (size_t second = 0; second < ops.size(); ++second) {
      c.part(std::string("histories, ") + u.name);
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("all histories of %d claims starting%s%s", depth, Text(ops[first]).c_str(), Text(ops[second]).c_str()); });
      bool bad = false;
      auto rec = [&](auto&& self, const DataRange& d, const Spans& m, const std::string& path, size_t k, int left) -> void {
        if (bad) return;
        DataRange nd = d;
        Spans nm = m;
        std::string e = Apply(&nd, &nm, ops[k]);
        c.step();
        if (e.empty()) e = Ask(nd, nm, {ops[k].a, ops[k].a + 1});
        if (!e.empty()) { c.fail(path + Text(ops[k]), "after claims" + path + ": " + e); bad = true; return; }
        if (left == 1) { c.trace(); return; }
        std::string np = path + Text(ops[k]);
        if (left == depth) { self(self, nd, nm, np, second, left - 1); return; }
        for (size_t j = 0; j < ops.size(); ++j) self(self, nd, nm, np, j, left - 1);
      };
      rec(rec, DataRange(), {}, "", first, depth);
     }
  }
}
MC_MAIN((mc::Check{.property = "P07", .level = "model_checking",
  .rule = "breadth-first closure of all sets reachable by claims over each small address universe, every claim tried from every set, plus all raw claim histories of fixed depth; the reference is a list of maximal spans; a state is a set of claimed bytes",
  .bounds_quick = "4 universes of 6-10 edge cells; full closure; all histories of 3 claims; up to 100 pieces claimed in 4 orders and every claim over them; pairs of claims in all 256 banks", .bounds_thorough = "the same with all histories of 4 claims", .run = Run, .hang_seconds = 300}))
