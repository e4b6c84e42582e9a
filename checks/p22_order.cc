// P22: what a set of source files assembles to does not depend on their order or on hash order.
#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include "lib/mc.h"
#include "nsasm/assembler.h"
using namespace nsasm;

struct Sink : OutputSink {
  std::map<uint32_t, uint8_t> w;
  bool twice = false;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    uint32_t at = uint32_t(a.Bank()) << 16 | a.BankAddress();
    for (auto b : d) { if (!w.emplace(at, b).second) twice = true; ++at; }
    return {};
  }
};
// How file i depends on file j.
enum Edge { kNone, kCodeUsesEqu, kEquUsesLabel, kEquUsesEqu };
static const char* const kEdge[] = {"-", "data uses .equ", ".equ uses label", ".equ uses .equ"};
struct Graph {
  int n;
  int naming;  // 0 a module each, 1 all files one module, 2 no modules
  int scoped = 0;       // everything in so many scopes with names of their own for what other files define
  bool decoys = false;  // global names of its own for what other files define (naming 0)
  int split = 0;        // what a definition needs is in one line, in lines of their own, or in scopes of their own
  int edge[24][24] = {};
  int Own(int i) const { return n <= 4 ? 1 << (4 * i) : i * 37 + 1; }
  std::string Module(int i) const { return naming == 0 ? mc::Fmt("m%d", i) : naming == 1 ? "m" : ""; }
  std::string Q(int i, const char* id) const { return Module(i) + "::" + id + mc::Fmt("%d", i); }
  uint32_t Org(int i) const { return 0x018000 + i * 0x010000; }
  std::string Text(int i) const {
    std::string s;
    if (naming != 2) s += ".module " + Module(i) + "\n";
    const char* ex = scoped ? "export " : "";
    if (decoys)
      for (int j = 0; j < n; ++j) if (j != i) s += mc::Fmt("v%d .equ $333333\nlab%d .equ $444444\n", j, j);
    for (int d = 0; d < scoped; ++d) {
      s += ".begin\n";
      for (int j = 0; j < n; ++j) if (j != i) s += mc::Fmt("v%d .equ $555555\nlab%d .equ $666666\n", j, j);
    }
    std::string sum = mc::Fmt("%d", Own(i));
    for (int j = 0; j < n; ++j) {
      std::string q = edge[i][j] == kEquUsesEqu ? Q(j, "v") : edge[i][j] == kEquUsesLabel ? Q(j, "lab") : "";
      if (q.empty()) continue;
      if (!split) { sum += " + " + q; continue; }
      std::string d = mc::Fmt("part%d_%d", i, j);
      s += (split == 2 ? ".begin\nexport " : "") + d + " .equ " + q + " + 1\n" + (split == 2 ? ".end\n" : "");
      sum += " + " + d + " - 1";
    }
    s += ex + mc::Fmt("v%d .equ %s\n.org $%06x\n", i, sum.c_str(), Org(i)) + ex + mc::Fmt("lab%d\nalso%d .dl v%d\n", i, i, i);
    for (int j = 0; j < n; ++j) if (edge[i][j] == kCodeUsesEqu) s += ".dl " + Q(j, "v") + "\n";
    s += mc::Fmt("tail%d .dl lab%d\nagain%d .equ tail%d\n", i, i, i, i);
    for (int d = 0; d < scoped; ++d) s += ".end\n";
    return s;
  }
  std::string Name() const {
    std::string s = mc::Fmt("%d files %s:", n, naming == 0 ? "each its module" : naming == 1 ? "of one module" : "without module");
    if (scoped) s.insert(s.size() - 1, mc::Fmt(" in %d scopes with local names of their own", scoped));
    if (split) s.insert(s.size() - 1, split == 1 ? " with a line for each dependency" : " with a scope for each dependency");
    if (decoys) s.insert(s.size() - 1, " with global names of their own");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (edge[i][j]) s += mc::Fmt(" %d->%d %s;", i, j, kEdge[edge[i][j]]);
    return s;
  }
  // Value of v_i; nothing if it depends on itself.
  std::optional<int> Val(int i, int busy) const {
    if (busy >> i & 1) return {};
    int v = Own(i);
    for (int j = 0; j < n; ++j) {
      if (edge[i][j] == kEquUsesLabel) v += Org(j);
      if (edge[i][j] == kEquUsesEqu) { auto x = Val(j, busy | 1 << i); if (!x) return {}; v += *x; }
    }
    return v;
  }
  // A file whose .equ values need each other's file. A name found in the file itself needs no other file.
  bool Cyclic(int i, int busy, int lo) const {
    if (busy >> i & 1) return true;
    for (int j = 0; j < n; ++j) if (edge[i][j] >= lo && j != i && Cyclic(j, busy | 1 << i, lo)) return true;
    return false;
  }
};
struct Outcome {
  bool ok = false;
  std::string error;
  std::map<uint32_t, uint8_t> w;
  std::map<uint32_t, std::string> names;
  bool twice = false;
};
static Outcome Build(const Graph& g, const std::vector<int>& order) {
  std::vector<File> fs;
  for (int i : order) fs.push_back(MakeFakeFile(mc::Fmt("f%d.asm", i), g.Text(i)));
  Sink s;
  auto r = Assemble(fs, &s);
  Outcome o;
  o.ok = r.ok();
  if (!o.ok) { o.error = r.error().ToString(); return o; }
  o.w = s.w;
  o.twice = s.twice;
  for (int i = 0; i < g.n; ++i)
    for (uint32_t a = g.Org(i) - 1; a < g.Org(i) + 20; ++a) {
      if (auto id = r->NameForAddress(Address(a))) o.names[a] = id->ToString();
      if (r->Contains(Address(a)) != bool(s.w.count(a))) o.names[a] = "Contains() is wrong here";
    }
  return o;
}
static void One(mc::Ctx& c, const Graph& g, int hashes, uint64_t* runs, uint64_t* ok, uint64_t* no) {
  std::vector<int> order;
  for (int i = 0; i < g.n; ++i) order.push_back(i);
  bool loop = false, circle = false;
  for (int i = 0; i < g.n; ++i) { if (!g.Val(i, 0)) loop = true; if (g.Cyclic(i, 0, kEquUsesLabel)) circle = true; }
  std::map<uint32_t, uint8_t> want;
  auto put = [&](uint32_t at, int v) { for (int k = 0; k < 3; ++k) want[at + k] = v >> (8 * k); };
  if (!loop)
    for (int i = 0; i < g.n; ++i) {
      uint32_t a = g.Org(i);
      put(a, *g.Val(i, 0)); a += 3;
      for (int j = 0; j < g.n; ++j) if (g.edge[i][j] == kCodeUsesEqu) { put(a, *g.Val(j, 0)); a += 3; }
      put(a, g.Org(i));
    }
  std::vector<std::vector<int>> orders;
  if (g.n <= 5) { do orders.push_back(order); while (std::next_permutation(order.begin(), order.end())); }
  else {
    // Each rotation of: upwards, downwards, and every fixed stride that visits all.
    for (int step = 1; step < g.n; ++step) {
      if (std::__gcd(step, g.n) != 1) continue;
      for (int from = 0; from < g.n; ++from) { std::vector<int> o; for (int i = 0; i < g.n; ++i) o.push_back((from + i * step) % g.n); orders.push_back(o); }
    }
    // Each order that differs from upwards or downwards by one exchange.
    for (int down = 0; down < 2; ++down) for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) {
      auto o = order;
      if (down) std::reverse(o.begin(), o.end());
      std::swap(o[i], o[j]);
      orders.push_back(o);
    }
  }
  std::optional<Outcome> first;
  for (auto& order : orders) {
    std::optional<Outcome> same;  // with this order of files
    for (int h = 0; h < hashes; ++h) {
      absl::ShimIterationOrder() = h;
      Outcome o = Build(g, order);
      absl::ShimIterationOrder() = 0;
      ++*runs;
      auto fail = [&](const std::string& why) {
        std::string s;
        for (int i : order) s += mc::Fmt(" f%d.asm", i);
        c.fail("graph " + g.Name(), why + " [" + g.Name() + " given as" + s + mc::Fmt(", hash order %d]", h));
      };
      if (o.ok && loop) return fail("assembled although a definition depends on itself");
      if (!o.ok && !circle && !loop) return fail("refused: " + o.error);
      if (o.twice) return fail("a byte is written twice");
      if (o.ok && o.w != want) return fail("the bytes are not those of the definitions");
      if (!first) first = o;
      if (o.ok != first->ok) return fail("accepted in one order of the files and refused in another");
      if (o.ok && o.w != first->w) return fail("the bytes depend on the order of the files");
      if (o.ok && o.names != first->names) return fail("the names of addresses depend on the order of the files");
      if (!same) same = o;
      if (o.names != same->names) return fail("the names of addresses depend on hash order");
      if (o.error != same->error) return fail("the error depends on hash order: " + o.error + " / " + same->error);
      ++*(o.ok ? ok : no);
    }
  }
}
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  auto all = [&](const char* part, int n, const std::vector<int>& kinds, bool self, int naming, int hashes, int scoped = 0, bool decoys = false) {
    std::vector<std::pair<int, int>> slots;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j || self) slots.push_back({i, j});
    size_t batch = std::min<size_t>(slots.size(), 5), rest = slots.size() - batch;
    uint64_t lead = 1, tail = 1;
    for (size_t i = 0; i < rest; ++i) lead *= kinds.size();
    for (size_t i = 0; i < batch; ++i) tail *= kinds.size();
    for (uint64_t x = 0; x < lead; ++x) {
      c.part(part);
      if (!c.want()) continue;
      Graph g;
      g.n = n; g.naming = naming; g.scoped = scoped; g.decoys = decoys;
      uint64_t v = x;
      for (size_t i = 0; i < rest; ++i) { g.edge[slots[i].first][slots[i].second] = kinds[v % kinds.size()]; v /= kinds.size(); }
      c.describe([&] { return "every graph that extends " + g.Name() + mc::Fmt(" by the last %d edges, every order of the files, %d hash orders", int(batch), hashes); });
      uint64_t runs = 0, ok = 0, no = 0;
      for (uint64_t y = 0; y < tail; ++y) {
        v = y;
        for (size_t i = rest; i < slots.size(); ++i) { g.edge[slots[i].first][slots[i].second] = kinds[v % kinds.size()]; v /= kinds.size(); }
        One(c, g, hashes, &runs, &ok, &no);
        c.state(mc::HashStr(part, mc::Mix(x * tail + y, (naming * 16 + n + scoped * 64) * 2 + decoys)));
      }
      c.step(runs); c.trace(runs);
      c.outcome("assembled", ok); c.outcome("refused for a circular dependency", no);
    }
  };
  for (int naming = 0; naming < 3; ++naming) {
    all("two files", 2, {kNone, kCodeUsesEqu, kEquUsesLabel, kEquUsesEqu}, true, naming, 4);
    all("three files", 3, {kNone, kCodeUsesEqu, kEquUsesLabel, kEquUsesEqu}, false, naming, 4);
    all("three files, also themselves", 3, {kNone, kEquUsesEqu}, true, naming, 2);
    all("two files in scopes", 2, {kNone, kCodeUsesEqu, kEquUsesLabel, kEquUsesEqu}, true, naming, 2, 1);
    all("three files in scopes", 3, {kNone, kCodeUsesEqu, kEquUsesLabel, kEquUsesEqu}, false, naming, t ? 2 : 1, 1);
    for (int depth : {2, 3, 6}) all("two files in scopes", 2, {kNone, kCodeUsesEqu, kEquUsesLabel, kEquUsesEqu}, true, naming, 1, depth);
    if (naming == 0)
      for (int depth : {0, 1, 2, 4}) {
        all("names that other files have too", 2, {kNone, kCodeUsesEqu, kEquUsesLabel, kEquUsesEqu}, true, naming, 2, depth, true);
        if (t || depth % 2 == 0) all("names that other files have too", 3, t ? std::vector<int>{kNone, kCodeUsesEqu, kEquUsesLabel, kEquUsesEqu} : std::vector<int>{kNone, kEquUsesLabel, kEquUsesEqu}, false, naming, 1, depth, true);
      }
    all("four files", 4, {kNone, kEquUsesEqu}, false, naming, t ? 4 : 1);
    if (t) all("three files, also themselves", 3, {kNone, kCodeUsesEqu, kEquUsesLabel, kEquUsesEqu}, true, naming, 2);
  }
  // Many files: shapes of dependencies, one kind or the kinds by turns, and one more dependency between any two.
  static const char* const shapes[] = {"a chain", "a star, all need one", "a star, one needs all", "a tree", "a ladder", "two chains", "each needs all before it", "a chain with a ring at its end"};
  for (int n : {5, 6, 7, 8, 9, 12, 16, 20})
    for (int shape = 0; shape < 8; ++shape)
      for (int kind = 0; kind < 4; ++kind)
        for (int naming = 0; naming < 3; ++naming)
          for (int extra = 0; extra < (n <= (t ? 9 : 6) ? n : 2); ++extra) {
            if (n > 9 && !t && (extra || naming == 1)) continue;
            if (n > 12 && shape == 6) continue;
            c.part("many files");
            if (!c.want()) continue;
            c.describe([&] { return mc::Fmt("%d files, %s, %s, module rule %d, alone and with one more dependency of file %d on each other", n, shapes[shape], kind < 3 ? kEdge[kind + 1] : "all kinds by turns", naming, extra * (n / 2) % n); });
            uint64_t runs = 0, ok = 0, no = 0;
            for (int to = -1; to < n; ++to) {
              if (to < 0 && extra) continue;
              if (to >= 0 && n > 8 && to % 4 && !t) continue;
              Graph g;
              g.n = n; g.naming = naming; g.scoped = extra == 1; g.decoys = naming == 0 && (shape + kind) % 2; g.split = (extra + naming) % 3;
              int count = 0;
              auto edge = [&](int i, int j) { if (i >= 0 && i < n && j >= 0 && j < n && i != j) g.edge[i][j] = kind < 3 ? kind + 1 : 1 + count++ % 3; };
              for (int i = 0; i < n; ++i) {
                if (shape == 0 || shape == 7) edge(i, i - 1);
                if (shape == 1) edge(i, n / 2);
                if (shape == 2) edge(n / 2, i);
                if (shape == 3) edge(i, i ? (i - 1) / 2 : -1);
                if (shape == 4) { edge(i, i - 1); edge(i, i - 2); }
                if (shape == 5) edge(i, i - 2);
                if (shape == 6) for (int j = 0; j < i; ++j) edge(i, j);
              }
              if (shape == 7) edge(n - 3, n - 1);
              if (to >= 0) { int from = n <= (t ? 9 : 6) ? extra : extra * (n / 2) % n; if (from == to || g.edge[from][to]) continue; g.edge[from][to] = kEquUsesEqu; }
              One(c, g, 1, &runs, &ok, &no);
              c.state(mc::Mix(mc::Mix(n * 10 + shape, kind * 3 + naming), extra * 50 + to));
            }
            c.step(runs); c.trace(runs);
            c.outcome("assembled", ok); c.outcome("refused for a circular dependency", no);
          }
  if (t) all("four files, labels", 4, {kNone, kEquUsesLabel, kEquUsesEqu}, false, 0, 1);
}
static const mc::Check kCheck = {
    .property = "P22", .level = "model_checking",
    .rule = "every graph of dependencies between the files is written out as sources and assembled by the real assembler in every order of the files under several iteration orders of its hash tables; a graph evaluation gives the bytes and which graphs are circular, and bytes, acceptance and names of addresses are compared across all runs",
    .bounds_quick = "2 and 3 files with 3 kinds of dependency, self dependencies, 4 files with one kind; files in one module each, all in one module, and in none; also with every file in up to 6 scopes that have local names like those of the other files, and with global names like theirs; all orders of the files, up to 4 hash orders; 8 shapes of dependency between up to 20 files with one more dependency, each dependency in the sum, in a line or in a scope of its own, in strided orders and all exchanges of two files",
    .bounds_thorough = "3 files with 3 kinds and self dependencies; 4 files with 2 kinds", .run = Run, .chunk = 1, .hang_seconds = 120,
    .assumptions = {"hash tables are those of the shim, whose iteration order the check sets", "dependencies that are circular between files but not between values may be refused, but in every order"}};
MC_MAIN(kCheck)
