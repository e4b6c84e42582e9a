// P21: every name in a program means the definition that the scoping rules select.
#include <functional>
#include <map>
#include <optional>
#include <set>
#include "lib/mc.h"
#include "nsasm/assembler.h"
using namespace nsasm;

struct Sink : OutputSink {
  std::map<uint32_t, uint8_t> w;
  bool twice = false;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    uint32_t at = uint32_t(a.Bank()) << 16 | a.BankAddress();
    for (auto b : d) { if (!w.emplace(at, b).second) twice = true; ++at; }
    return {};
  }
};

// --- the language of programs and what they mean -------------------------------------------------
struct Ref { bool qual = false; std::string mod, id; };
struct Item {
  std::string text;
  std::string label;          // "" none
  bool exported = false;
  char kind = 'c';            // '{' '}' c code (1 byte) d 3-byte reference e .equ b branch n nothing
  std::optional<Ref> ref;     // the name it uses (d, b, and .equ unless constant)
  int add = 0;                // e: value = ref + add, or the constant
};
static Item Code(const std::string& l, bool ex = false) { return {(ex ? "export " : "") + l + " .entry m8x8 : rtl", l, ex, 'c', {}, 0}; }
static Item Use(const std::string& s, Ref r) { return {".dl " + s, "", false, 'd', r, 0}; }
static Item Equ(const std::string& l, const std::string& s, Ref r, int add, bool ex = false) { return {(ex ? "export " : "") + l + " .equ " + s + (add ? "+1" : ""), l, ex, 'e', r, add}; }
static Item Const(const std::string& l, int v) { return {l + mc::Fmt(" .equ %d", v), l, false, 'e', {}, v}; }
static Item Open(const std::string& l) { return {l + " {", l, false, '{', {}, 0}; }
static Item Close(const std::string& l) { return {l + " }", l, false, '}', {}, 0}; }
static Item Bra(const std::string& s) { return {".entry m8x8 : bra " + s, "", false, 'b', Ref{false, "", s}, 0}; }

struct File1 { std::string module; bool named = false; uint32_t org = 0; std::vector<Item> items; std::string path; };
struct Src {
  static std::string Text(const File1& f) {
    std::string s = f.named ? ".module " + f.module + "\n" : "";
    s += mc::Fmt(".org $%06x\n", f.org);
    for (auto& i : f.items) s += i.text + "\n";
    return s;
  }
};
static Item Lone(const std::string& l, bool ex = false) { return {(ex ? "export " : "") + l + ":", l, ex, 'n', {}, 0}; }
// What the rules say about a whole program.
struct Meaning {
  std::string bad;            // nonempty: must be refused
  bool unsure = false;        // a dependency between whole files: may be refused
  std::map<uint32_t, uint8_t> bytes;
  std::vector<std::vector<std::pair<std::string, int>>> globals;  // per file: name, value
};
struct Solver {
  const std::vector<File1>& fs;
  struct F {
    std::vector<std::vector<int>> scope;                 // per item, the scopes it is in (innermost last); a scope is the item that opens it
    std::map<std::pair<int, std::string>, int> local;    // (scope, name) -> item
    std::map<std::string, int> global;
    std::vector<int> addr;
    std::vector<int> state, value;                       // 0 unknown 1 in progress 2 known 3 failed
  };
  std::vector<F> f;
  Meaning m;
  explicit Solver(const std::vector<File1>& files) : fs(files), f(files.size()) {}
  void Bad(const std::string& s) { if (m.bad.empty()) m.bad = s; }
  // A label names the statement behind it, in the scope that statement is in.
  void Define(int k, int i, const Item& it, const std::vector<int>& scopes) {
    if (it.label.empty()) return;
    bool fresh = it.exported || scopes.empty() ? f[k].global.emplace(it.label, i).second : f[k].local.emplace(std::make_pair(scopes.back(), it.label), i).second;
    if (!fresh) Bad("`" + it.label + "` is defined twice in one scope");
  }
  // Where a name leads: file and item, or nothing.
  std::optional<std::pair<int, int>> Find(int k, int i, const Ref& r, bool* foreign = nullptr) {
    if (!r.qual) {
      for (int s = int(f[k].scope[i].size()) - 1; s >= 0; --s) {
        auto l = f[k].local.find({f[k].scope[i][s], r.id});
        if (l != f[k].local.end()) return std::make_pair(k, l->second);
      }
      auto g = f[k].global.find(r.id);
      if (g != f[k].global.end()) return std::make_pair(k, g->second);
    }
    std::string mod = r.qual ? r.mod : "";
    if (r.qual && mod == fs[k].module) {
      auto g = f[k].global.find(r.id);
      if (g != f[k].global.end()) return std::make_pair(k, g->second);
    }
    if (foreign) *foreign = true;
    for (size_t o = 0; o < fs.size(); ++o)
      if (fs[o].module == mod) {
        auto g = f[o].global.find(r.id);
        if (g != f[o].global.end()) return std::make_pair(int(o), g->second);
      }
    return {};
  }
  std::optional<int> Value(int k, int i) {
    auto& it = fs[k].items[i];
    if (it.kind != 'e') return f[k].addr[i];
    if (f[k].state[i] == 2) return f[k].value[i];
    if (f[k].state[i] == 1) { Bad("a definition depends on itself"); return {}; }
    if (f[k].state[i] == 3) return {};
    f[k].state[i] = 1;
    std::optional<int> v;
    if (!it.ref) v = it.add;
    else if (auto d = Find(k, i, *it.ref)) {
      if (d->first == k && fs[k].items[d->second].kind == 'e' && d->second >= i) Bad("an .equ uses an .equ that comes later in its file");
      if (auto x = Value(d->first, d->second)) v = *x + it.add;
    } else Bad("`" + it.ref->id + "` is not defined");
    f[k].state[i] = v ? 2 : 3;
    if (v) f[k].value[i] = *v;
    return v;
  }
  Meaning Solve() {
    for (size_t k = 0; k < fs.size(); ++k) {
      std::vector<int> open, waiting;
      int pc = fs[k].org;
      size_t n = fs[k].items.size();
      f[k].state.assign(n, 0); f[k].value.assign(n, 0);
      for (size_t i = 0; i < n; ++i) {
        auto& it = fs[k].items[i];
        f[k].scope.push_back(open);
        f[k].addr.push_back(pc);
        if (it.kind == 'n') { waiting.push_back(i); continue; }
        for (int w : waiting) Define(k, i, fs[k].items[w], open);
        waiting.clear();
        Define(k, i, it, open);
        if (it.kind == '{') open.push_back(i);
        if (it.kind == '}') { if (open.empty()) { Bad("a scope is closed that was not opened"); return m; } open.pop_back(); }
        pc += it.kind == 'c' ? 1 : it.kind == 'd' ? 3 : it.kind == 'b' ? 2 : 0;
      }
      if (!open.empty()) Bad("a scope is not closed");
    }
    for (size_t a = 0; a < fs.size(); ++a)
      for (size_t b = a + 1; b < fs.size(); ++b)
        if (fs[a].module == fs[b].module) for (auto& g : f[a].global) if (f[b].global.count(g.first)) Bad("`" + g.first + "` is defined in two files of one module");
    if (!m.bad.empty()) return m;
    // Files that need .equ values of each other.
    std::vector<std::set<int>> needs(fs.size());
    for (size_t k = 0; k < fs.size(); ++k)
      for (size_t i = 0; i < fs[k].items.size(); ++i) {
        auto& it = fs[k].items[i];
        if (it.kind == 'e') Value(k, i);
        bool foreign = false;
        if (it.kind == 'e' && it.ref) if (auto d = Find(k, i, *it.ref, &foreign)) if (foreign) needs[k].insert(d->first);
        if (it.kind == 'd' || it.kind == 'b') {
          auto d = Find(k, i, *it.ref, &foreign);
          if (!d) { Bad("`" + it.ref->id + "` is not defined"); continue; }
          auto v = Value(d->first, d->second);
          if (!v) continue;
          if (it.kind == 'd') for (int j = 0; j < 3; ++j) m.bytes[f[k].addr[i] + j] = *v >> (8 * j);
          if (it.kind == 'b') {
            if (foreign) Bad("a branch leaves its file");
            auto& t = fs[d->first].items[d->second];
            if (t.kind == 'e') Bad("a branch to an .equ");
            if (t.kind == 'd') Bad("a branch to something that is no code");
            if (t.kind == '{' || t.kind == '}') {  // execution continues behind it
              size_t j = d->second;
              while (j < fs[k].items.size() && strchr("{}en", fs[k].items[j].kind)) ++j;
              if (j == fs[k].items.size() || fs[k].items[j].kind == 'd') Bad("execution runs into something that is no code");
            }
            m.bytes[f[k].addr[i]] = 0x80;
            m.bytes[f[k].addr[i] + 1] = *v - f[k].addr[i] - 2;
          }
        }
        if (it.kind == 'c') m.bytes[f[k].addr[i]] = 0x6b;
      }
    if (fs.size() == 2 && ((needs[0].count(1) && needs[1].count(0)))) m.unsure = true;
    for (size_t k = 0; k < fs.size(); ++k) {
      m.globals.emplace_back();
      for (auto& g : f[k].global) if (auto v = Value(k, g.second)) m.globals.back().push_back({g.first, *v});
    }
    return m;
  }
};

struct Count { uint64_t n = 0, ok = 0, refused = 0, unsure = 0, refs = 0; std::map<std::string, uint64_t> why; };
static void One(mc::Ctx& c, const std::vector<File1>& fs, Count* k) {
  ++k->n;
  Meaning m = Solver(fs).Solve();
  std::vector<File> src;
  std::string text;
  for (auto& f : fs) { src.push_back(MakeFakeFile(f.path, Src::Text(f))); text += f.path + ": " + Src::Text(f); }
  for (auto& ch : text) if (ch == '\n') ch = '|';
  auto fail = [&](const std::string& why) { c.fail("program " + text, why + " [" + text + "]"); };
  Sink sink;
  auto r = Assemble(src, &sink);
  if (!m.bad.empty()) {
    ++k->refused;
    ++k->why[m.bad.substr(m.bad.find_last_of('`') == std::string::npos ? 0 : m.bad.find_last_of('`') + 2)];
    if (r.ok()) fail("assembled although " + m.bad);
    return;
  }
  if (!r.ok()) {
    if (m.unsure) { ++k->unsure; return; }
    return fail("refused (" + r.error().ToString() + ") although every name is defined");
  }
  ++k->ok;
  k->refs += m.bytes.size();
  if (sink.twice) return fail("a byte is written twice");
  if (sink.w != m.bytes) {
    for (auto& b : m.bytes) if (!sink.w.count(b.first)) return fail(mc::Fmt("no byte at $%06x", b.first)); else if (sink.w[b.first] != b.second) return fail(mc::Fmt("byte at $%06x is $%02x, not $%02x", b.first, sink.w[b.first], b.second));
    return fail("bytes are written that the program does not have");
  }
  // Names of addresses: a defined name of a named module with that value, present exactly where there is one.
  std::map<int, std::set<std::string>> named;
  for (size_t j = 0; j < fs.size(); ++j) if (fs[j].named) for (auto& g : m.globals[j]) named[g.second].insert(fs[j].module + "::" + g.first);
  std::set<uint32_t> ask;
  for (auto& f : fs)
    for (uint32_t a = f.org - 1; a < f.org + 32; ++a) ask.insert(a);
  for (auto& n : named) for (int d : {-1, 0, 1}) if (Address::IsValid(n.first + d)) ask.insert(n.first + d);
  for (auto& b : m.bytes) ask.insert(b.first);
  for (uint32_t a : ask) {
      auto id = r->NameForAddress(Address(a));
      auto it = named.find(a);
      if (id.has_value() != (it != named.end())) return fail(mc::Fmt("address $%06x %s a name", a, id ? "has" : "has not"));
      if (id && !it->second.count(id->ToString())) return fail(mc::Fmt("address $%06x is named %s", a, id->ToString().c_str()));
      if (r->Contains(Address(a)) != bool(m.bytes.count(a))) return fail(mc::Fmt("Contains($%06x) is wrong", a));
  }
}
// --- programs that are long, deep or of many files -------------------------------------------------
static void Big(mc::Ctx& c) {
  bool t = c.thorough();
  auto run = [&](const std::string& what, const std::function<void(Count*)>& f) {
    if (!c.want()) return;
    c.describe([&] { return what; });
    Count k;
    f(&k);
    c.step(k.n * 40); c.trace(k.n);
    c.outcome("assembled", k.ok); c.outcome("refused, dependency between whole files", k.unsure);
    for (auto& w : k.why) c.outcome("refused: " + w.first, w.second);
    c.state(mc::HashStr(what, 21));
  };
  auto both = [&](std::vector<File1> fs, Count* k) { One(c, fs, k); if (fs.size() > 1) { std::reverse(fs.begin(), fs.end()); One(c, fs, k); } };
  auto U = [](bool qual, const std::string& mod, const std::string& id) { return Use((qual ? mod + "::" : "") + id, Ref{qual, mod, id}); };
  // Scopes within scopes: p is exported from one level, and local to two others.
  std::vector<int> depths;
  for (int d = 1; d <= (t ? 14 : 9); ++d) depths.push_back(d);
  for (int d : {17, 33, 64}) depths.push_back(d);
  for (int depth : depths)
    for (int header = 0; header < 2; ++header)
      for (int kind = 0; kind < 4; ++kind) {
        c.part("scopes within scopes");
        run(mc::Fmt("%d scopes within each other, %s, p by %s: every level that exports p, every two levels that have one of their own, uses at every level", depth, header ? "in module m" : "without module", kind == 0 ? "code" : kind == 1 ? "constant" : kind == 2 ? "brackets" : ".equ of another p"), [&](Count* k) {
          auto level = [&](int l) { return depth <= 14 ? true : l <= 2 || l >= depth - 1 || l == depth / 2 || l == 16 || l == 32; };
          for (int e = -1; e <= depth; ++e)
            for (int l1 = -1; l1 <= depth; ++l1)
              for (int l2 = l1 < 0 ? -1 : l1 + 1; l2 <= depth; ++l2) {
                if (l1 < 0 && l2 >= 0) break;
                if ((e >= 0 && !level(e)) || (l1 >= 0 && !level(l1)) || (l2 >= 0 && !level(l2))) continue;
                for (int after = 0; after < 2; ++after) {
                  File1 f{header ? "m" : "", bool(header), 0x8000, {}, "a.asm"};
                  auto& it = f.items;
                  auto def = [&](int l) {
                    bool ex = l == e;
                    if (kind == 0) it.push_back(Code("p", ex));
                    if (kind == 1) { Item x = Const("p", 300 + l); x.exported = ex; if (ex) x.text = "export " + x.text; it.push_back(x); }
                    if (kind == 2) { Item x = Open("p"); x.exported = ex; if (ex) x.text = "export " + x.text; it.push_back(x); it.push_back(Close("")); }
                    if (kind == 3) it.push_back(Equ("p", header ? "m::z" : "::z", Ref{true, header ? "m" : "", "z"}, 1, ex));
                  };
                  it.push_back(Const("z", 70));
                  auto here = [&](int l) { if (l == e || l == l1 || l == l2) def(l); if (l == e && (l == l1 || l == l2) && l > 0) { e = -e - 10; def(l); e = -e - 10; } };
                  auto use = [&](int l) {
                    if (e >= 0 || (l1 >= 0 && l1 <= l)) it.push_back(U(false, "", "p"));
                    // A constant of this level that is computed from p as it is known here.
                    if ((e >= 0 || (l1 >= 0 && l1 <= l)) && (kind == 0 || kind == 2 || (!after && e < 0))) { std::string w = mc::Fmt("w%d", l); it.push_back(Equ(w, "p", Ref{false, "", "p"}, 1)); it.push_back(U(false, "", w)); }
                    if (e >= 0 || l1 == 0) { it.push_back(U(true, header ? "m" : "", "p")); it.push_back(Equ(mc::Fmt("y%d", l), header ? "m::z" : "::z", Ref{true, header ? "m" : "", "z"}, 1, true)); }
                  };
                  for (int l = 0; l <= depth; ++l) {
                    if (l) it.push_back(Open(""));
                    if (!after) here(l);
                    if (kind != 3 || !after) use(l);
                  }
                  for (int l = depth; l >= 0; --l) {
                    if (after) here(l);
                    if (after) use(l);
                    if (l) it.push_back(Close(""));
                  }
                  One(c, {f}, k);
                }
              }
        });
      }
  // Many names in one file, used at its beginning, inside a scope, and at its end; and by another file.
  for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300})
    for (int header = 0; header < 3; ++header)
      for (int kind = 0; kind < 5; ++kind) {
        c.part("many names");
        run(mc::Fmt("%d names in one file, %s, %s", n, header == 0 ? "without module" : header == 1 ? "in module m" : "and the same names in a second file of another module", kind == 0 ? "code" : kind == 1 ? "constants" : kind == 2 ? ".equ of each other" : kind == 3 ? "code and .equ in turn" : "several for each statement"), [&](Count* k) {
          for (int rev = 0; rev < 2; ++rev)
            for (int local = 0; local < 2; ++local) {
              File1 f{header ? "m" : "", header > 0, 0x8000, {}, "a.asm"}, g{"n", true, 0x49000, {}, "b.asm"};
              auto name = [&](int i) { return mc::Fmt("n%d", rev ? n - 1 - i : i); };
              auto fill = [&](File1& x) {
                auto uses = [&] { for (int i = 0; i < n; ++i) if (i < 8 || i >= n - 4 || (i & (i - 1)) == 0) x.items.push_back(U(false, "", name(i))); };
                uses();
                if (local) { x.items.push_back(Open("")); for (int i = 0; i < n; i += 3) x.items.push_back(Code(name(i))); uses(); x.items.push_back(Close("")); }
                for (int i = 0; i < n; ++i) {
                  if (kind == 0) x.items.push_back(Code(name(i)));
                  if (kind == 1) x.items.push_back(Const(name(i), 1000 + 3 * i));
                  if (kind == 2) x.items.push_back(i ? Equ(name(i), name(i - 1), Ref{false, "", name(i - 1)}, 1) : Const(name(0), 0x9000));
                  if (kind == 3) x.items.push_back(i % 2 ? Equ(name(i), name(i - 1), Ref{false, "", name(i - 1)}, 1) : Code(name(i)));
                  if (kind == 4) x.items.push_back(i % 5 < 4 ? Lone(name(i)) : i % 2 ? Code(name(i)) : Const(name(i), 0x9000 + i));
                }
                if (kind == 4) x.items.push_back(Code("last"));
                uses();
              };
              fill(f);
              std::vector<File1> fs = {f};
              if (header == 2) {
                fill(g);
                for (int i = 0; i < n; i += 1 + i / 3) { g.items.push_back(U(true, "m", name(i))); fs[0].items.push_back(U(true, "n", name(i))); }
                fs.push_back(g);
              }
              both(fs, k);
              // One more definition of one of the names, in either scope.
              for (int again : {0, n / 2, n - 1}) {
                auto two = fs;
                two.back().items.push_back(Code(name(again)));
                One(c, two, k);
                two = fs;
                two.back().items.push_back(Open("")); two.back().items.push_back(Code(name(again), true)); two.back().items.push_back(Close(""));
                One(c, two, k);
                two.back().items[two.back().items.size() - 2] = Code(name(again));
                One(c, two, k);
              }
            }
        });
      }
  // Many files: all in modules of their own, in one module, in none, in two modules in turn.
  for (int n : {2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 24, 33, 40})
    for (int mods = 0; mods < 5; ++mods) {
      c.part("many files");
      run(mc::Fmt("%d files, %s: uses of each other's names, names that two of them define, names only one of them has", n, mods == 0 ? "each its own module" : mods == 1 ? "in one module" : mods == 2 ? "without module" : mods == 3 ? "in two modules in turn" : "with and without module in turn"), [&](Count* k) {
        auto mod = [&](int i) { return mods == 0 ? mc::Fmt("m%d", i) : mods == 1 ? std::string("m") : mods == 2 ? std::string() : mods == 3 ? std::string(i % 2 ? "m" : "n") : i % 2 ? std::string("m") : std::string(); };
        std::vector<File1> fs;
        for (int i = 0; i < n; ++i) {
          File1 f{mod(i), !mod(i).empty(), 0x8000u + i * 0x10100u, {}, mc::Fmt("f%d.asm", i)};
          f.items = {Code(mc::Fmt("p%d", i)), Open(""), Code("p"), Code(mc::Fmt("q%d", i), true), U(false, "", "p"), Close("")};
          for (int o : {(i + 1) % n, (i + n - 1) % n, n / 2, 0, n - 1}) { f.items.push_back(U(true, mod(o), mc::Fmt("p%d", o))); f.items.push_back(U(true, mod(o), mc::Fmt("q%d", o))); if (mod(o).empty() || o == i) f.items.push_back(U(false, "", mc::Fmt("p%d", o))); }
          if (i) f.items.push_back(Equ(mc::Fmt("e%d", i), mod(i - 1) + "::" + mc::Fmt("e%d", i - 1), Ref{true, mod(i - 1), mc::Fmt("e%d", i - 1)}, 1)); else f.items.push_back(Const("e0", 0x5000));
          fs.push_back(f);
        }
        both(fs, k);
        std::rotate(fs.begin(), fs.begin() + n / 2, fs.end());
        One(c, fs, k);
        for (int a = 0; a < n; a += 1 + a / 4)
          for (int b = 0; b < n; b += 1 + b / 4) {
            auto two = fs;
            two[a].items.push_back(Code("twice"));
            if (a != b) two[b].items.push_back(Code("twice"));
            for (auto& f : two) if (f.module == two[a].module) f.items.push_back(U(true, two[a].module, "twice"));
            One(c, two, k);
            two = fs;  // a name that the files of one module have, used from the files of another
            two[a].items.push_back(Open("")); two[a].items.push_back(Code("only")); two[a].items.push_back(Close(""));
            two[b].items.push_back(U(true, two[a].module, "only"));
            One(c, two, k);
          }
      });
    }
  // Names that look alike.
  std::vector<std::string> names = {"p", "P", "pp", "p_", "_p", "p1", "p0", "p10", "_", "__", "m", "M", "ldaa", "lda_", "xx", "a_", "unk", "m8x8", "emu", "begin", "org", "p_p", "pP", "Pp", "m8", "e", "_1", std::string(64, 'p'), std::string(63, 'p') + "q", std::string(64, 'p') + "q", std::string(300, 'p'), std::string(299, 'p') + "P", std::string(2000, 'n'), std::string(1999, 'n') + "m"};
  for (size_t i = 0; i < names.size(); ++i) {
    c.part("names that look alike");
    run("a program that defines " + names[i].substr(0, 70) + " and uses every name of the list, as label, as module, qualified or not", [&](Count* k) {
      for (auto& u : names)
        for (int header = 0; header < 2; ++header)
          for (int inner = 0; inner < 3; ++inner) {
            File1 f{header ? names[i] : "", bool(header), 0x8000, {}, "a.asm"}, g{header ? "" : u, !header, 0x19000, {}, "b.asm"};
            f.items = {Const("zz", 9), inner == 2 ? Const(names[i], 4242) : Code(names[i]), U(false, "", names[i])};
            if (inner == 1) { f.items.push_back(Open("")); f.items.push_back(Code(u)); f.items.push_back(U(false, "", u)); f.items.push_back(U(true, f.module, names[i])); f.items.push_back(Close("")); }
            both({f}, k);
            auto f2 = f;
            f2.items.push_back(U(false, "", u));
            One(c, {f2}, k);
            f2 = f;
            f2.items.push_back(U(true, u, names[i]));
            One(c, {f2}, k);
            g.items = {Code("own"), Code(u), U(true, f.module, names[i]), U(false, "", u)};
            both({f, g}, k);
          }
    });
  }
}
static void Run(mc::Ctx& c) {
  bool t = c.thorough();
  const Ref P{false, "", "p"}, Q{false, "", "q"}, MP{true, "m", "p"}, GP{true, "", "p"}, NQ{true, "n", "q"};
  std::vector<Item> menu = {Open(""), Close(""), Code("p"), Code("p", true), Code("q"), Equ("p", "q", Q, 1), Const("q", 7), Equ("q", "p", P, 1, true),
                            Use("p", P), Use("m::p", MP), Use("::p", GP), Open("p"), Close("p"), Bra("p")};
  std::vector<Item> small = {Open(""), Close(""), Code("p"), Code("p", true), Equ("p", "q", Q, 1), Code("q"), Use("p", P), Use("q", Q), Bra("q")};
  std::vector<Item> quals = {Open(""), Close(""), Code("p"), Equ("p", "m::p", MP, 1), Equ("q", "::p", GP, 0), Use("m::p", MP), Use("::p", GP), Use("n::q", NQ), Use("p", P), Use("q", Q)};
  struct Second { const char* name; bool on, named; std::string module; std::vector<Item> items; };
  std::vector<Second> seconds = {
      {"no second file", false, false, "", {}},
      {"a second file without module, defining p", true, false, "", {Code("p"), Use("p", P)}},
      {"a second file in module m, defining p", true, true, "m", {Use("p", P), Code("p")}},
      {"a second file in module n, p local and q exported", true, true, "n", {Open(""), Code("p"), Code("q", true), Use("p", P), Close("")}},
      {"a second file without module, p local and q global", true, false, "", {Open(""), Code("p"), Close(""), Code("q")}},
      {"a second file in module m, p defined from ::q", true, true, "m", {Equ("p", "::q", Ref{true, "", "q"}, 1)}},
  };
  auto all = [&](const char* part, const std::vector<Item>& mn, int len) {
    for (int header = 0; header < 3; ++header)
      for (size_t s = 0; s < seconds.size(); ++s)
        for (size_t first = 0; first < mn.size(); ++first)
          for (size_t second = 0; second < (len > 1 ? mn.size() : 1); ++second) {
            c.part(part);
            if (!c.want()) continue;
            c.describe([&] { return mc::Fmt("%s: every program of %d items that starts with [%s][%s], %s, with %s, in both file orders", part, len, mn[first].text.c_str(), mn[second].text.c_str(), header ? header == 1 ? "in module m" : "in module n" : "without module", seconds[s].name); });
            Count k;
            std::vector<File1> fs(1);
            fs[0].named = header; fs[0].module = header == 0 ? "" : header == 1 ? "m" : "n";
            fs[0].org = 0x8000; fs[0].path = "a.asm";
            auto& sec = seconds[s];
            File1 two{sec.module, sec.named, 0x029000, sec.items, "b.asm"};
            std::vector<size_t> ix(len, 0);
            ix[0] = first;
            if (len > 1) ix[1] = second;
            while (true) {
              // Sequences whose scopes do not balance are kept only while they are short.
              int depth = 0; bool odd = false;
              for (auto i : ix) { depth += mn[i].kind == '{' ? 1 : mn[i].kind == '}' ? -1 : 0; if (depth < 0) odd = true; }
              if (depth) odd = true;
              if (!odd || len <= 3) {
                fs.resize(1);
                fs[0].items.clear();
                for (auto i : ix) fs[0].items.push_back(mn[i]);
                if (sec.on) {
                  fs.push_back(two);
                  One(c, fs, &k);
                  std::swap(fs[0], fs[1]);
                  One(c, fs, &k);
                  std::swap(fs[0], fs[1]);
                } else One(c, fs, &k);
              }
              int i = len - 1;
              for (; i >= 2; --i) { if (++ix[i] < mn.size()) break; ix[i] = 0; }
              if (i < 2) break;
            }
            c.step(k.n * len); c.trace(k.n);
            c.outcome("assembled", k.ok); c.outcome("refused, dependency between whole files", k.unsure);
            for (auto& w : k.why) c.outcome("refused: " + w.first, w.second);
            c.state(mc::HashStr(part, (header * 16 + s) * 1000 + first * 30 + second));
          }
  };
  for (int len = 1; len <= (t ? 5 : 4); ++len) all("one and two files", menu, len);
  all("scopes", small, t ? 7 : 6);
  if (!t) all("qualified names", quals, 4); else { all("qualified names", quals, 5); }
  std::vector<Item> lone = {Lone("p"), Lone("q"), Lone("p", true), Open(""), Close(""), Code("q"), Use("p", P), Use("q", Q), Equ("r", "p", P, 1), Const("q", 7), Bra("p")};
  all("labels of their own", lone, t ? 6 : 5);
  Big(c);
}
static const mc::Check kCheck = {
    .property = "P21", .level = "model_checking",
    .rule = "every program over the menu of scope brackets, labels, exports, .equ definitions, plain and qualified uses and branches is assembled by the real assembler; a resolver written from the language rules decides which definition each use means, and acceptance, every byte, and the names of addresses are compared",
    .bounds_quick = "programs of up to 4 items of 14 forms, 6 items of 9 forms, 4 items of 10 forms with qualified names, in no module, module m and module n, alone and with each of 5 second files in both file orders; 5 items of 11 forms with labels of their own; up to 64 scopes within each other with p exported from every level and local to every two levels; up to 300 names in a file; up to 40 files; every two of 34 names that look alike",
    .bounds_thorough = "5 items of 14 forms, 7 items of 9 forms, 5 items of 10 forms, 6 items of 11 forms", .run = Run, .chunk = 2, .hang_seconds = 120,
    .assumptions = {"a label with no statement after it in its file names nothing", "an .equ may use only .equ names that come earlier in its own file"}};
MC_MAIN(kCheck)
