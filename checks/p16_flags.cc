// P16: what static analysis claims about the status bits holds on the processor.
#include <map>
#include <tuple>
#include <unordered_map>
#include "checks/isa.h"
#include "checks/sim.h"
#include "lib/mc.h"
#include "nsasm/decode.h"
#include "nsasm/parse.h"
#include "nsasm/token.h"
using namespace nsasm;

struct Item { const char* text; const char* name; const char* mode; bool known; int arg; const char* to; bool taken; };
static const Item kAll[] = {
    {"php", "php", "i", 1, 0, "", 0}, {"plp", "plp", "i", 1, 0, "", 0}, {"xce", "xce", "i", 1, 0, "", 0}, {"clc", "clc", "i", 1, 0, "", 0}, {"sec", "sec", "i", 1, 0, "", 0},
    {"sep #$20", "sep", "#b", 1, 0x20, "", 0}, {"rep #$20", "rep", "#b", 1, 0x20, "", 0}, {"sep #$10", "sep", "#b", 1, 0x10, "", 0}, {"rep #$10", "rep", "#b", 1, 0x10, "", 0},
    {"sep #$31", "sep", "#b", 1, 0x31, "", 0}, {"rep #$ff", "rep", "#b", 1, 0xff, "", 0}, {"sep #$01", "sep", "#b", 1, 1, "", 0}, {"rep #$30", "rep", "#b", 1, 0x30, "", 0},
    {"sep #$ce", "sep", "#b", 1, 0xce, "", 0}, {"rep #$11", "rep", "#b", 1, 0x11, "", 0},
    {"sep #<foo", "sep", "#b", 0, 0, "", 0}, {"rep #<foo", "rep", "#b", 0, 0, "", 0},
    {"pha", "pha", "i", 1, 0, "", 0}, {"pla", "pla", "i", 1, 0, "", 0}, {"phx", "phx", "i", 1, 0, "", 0}, {"plx", "plx", "i", 1, 0, "", 0}, {"phy", "phy", "i", 1, 0, "", 0}, {"ply", "ply", "i", 1, 0, "", 0},
    {"phb", "phb", "i", 1, 0, "", 0}, {"plb", "plb", "i", 1, 0, "", 0}, {"phk", "phk", "i", 1, 0, "", 0}, {"phd", "phd", "i", 1, 0, "", 0}, {"pld", "pld", "i", 1, 0, "", 0},
    {"pea $2111", "pea", "#w", 1, 0x2111, "", 0}, {"pea foo", "pea", "#w", 0, 0, "", 0}, {"pei $12", "pei", "d", 1, 0x12, "", 0}, {"per foo", "per", "rl", 1, 0, "", 0},
    {"txs", "txs", "i", 1, 0, "", 0}, {"tcs", "tcs", "i", 1, 0, "", 0}, {"tsx", "tsx", "i", 1, 0, "", 0}, {"tsc", "tsc", "i", 1, 0, "", 0},
    {"sta $01,S", "sta", "s", 1, 1, "", 0}, {"sta $02,S", "sta", "s", 1, 2, "", 0}, {"sta <foo,S", "sta", "s", 0, 0, "", 0}, {"lda $01,S", "lda", "s", 1, 1, "", 0},
    {"bcc foo", "bcc", "r", 1, 0, "", 0}, {"bcc foo", "bcc", "r", 1, 0, "", 1}, {"bcs foo", "bcs", "r", 1, 0, "", 0}, {"bcs foo", "bcs", "r", 1, 0, "", 1}, {"beq foo", "beq", "r", 1, 0, "", 1},
    {"adc $12", "adc", "d", 1, 0, "", 0}, {"sbc $12", "sbc", "d", 1, 0, "", 0}, {"add $12", "add", "d", 1, 0, "", 0}, {"sub $12", "sub", "d", 1, 0, "", 0}, {"asl A", "asl", "A", 1, 0, "", 0}, {"lsr $12", "lsr", "d", 1, 0, "", 0},
    {"rol A", "rol", "A", 1, 0, "", 0}, {"ror $1234", "ror", "a", 1, 0, "", 0}, {"cmp $12", "cmp", "d", 1, 0, "", 0}, {"cpx $12", "cpx", "d", 1, 0, "", 0}, {"cpy $12", "cpy", "d", 1, 0, "", 0},
    {"brk $00", "brk", "#b", 1, 0, "", 0}, {"cop $00", "cop", "#b", 1, 0, "", 0},
    {"jsr $8000", "jsr", "a", 1, 0, "", 0}, {"jsl $018000", "jsl", "l", 1, 0, "", 0}, {"jsr $8000 yields m8", "jsr", "a", 1, 0, "m8", 0}, {"jsr $8000 yields emu", "jsr", "a", 1, 0, "emu", 0}, {"jsl foo yields unk", "jsl", "l", 1, 0, "unk", 0},
    {"jsr ($8000,X) yields m16x8", "jsr", "(ax)", 1, 0, "m16x8", 0}, {".mode native", ".mode", "", 1, 0, "native", 0}, {".mode x16", ".mode", "", 1, 0, "x16", 0}, {".mode emu", ".mode", "", 1, 0, "emu", 0}, {".mode unk", ".mode", "", 1, 0, "unk", 0},
    {"lda #$20", "lda", "#m", 1, 0, "", 0}, {"ldx #$30", "ldx", "#x", 1, 0, "", 0}, {"lda #$2020", "lda", "#m", 1, 0, "", 0}, {"inc A", "inc", "A", 1, 0, "", 0}, {"inx", "inx", "i", 1, 0, "", 0},
    {"mvn #$01,#$02", "mvn", "mv", 1, 0, "", 0}, {"nop", "nop", "i", 1, 0, "", 0}, {"xba", "xba", "i", 1, 0, "", 0}, {"tax", "tax", "i", 1, 0, "", 0}, {"and #$00", "and", "#m", 1, 0, "", 0}, {"trb $12", "trb", "d", 1, 0, "", 0},
};
static const int kN = sizeof(kAll) / sizeof(kAll[0]);
struct Op { Item it; sim::Ins ins; std::vector<absl::variant<Statement, ParsedLabel>> st; const Statement* s; };
static std::vector<Op>& Ops() {
  static std::vector<Op>* v = [] {
    auto* r = new std::vector<Op>;
    for (auto& it : kAll) {
      Op o{it, {it.name, it.mode, it.known, it.arg}, {}, nullptr};
      if (it.to[0]) { o.ins.yields = o.ins.name != ".mode"; sim::FindMode(it.to, &o.ins.to); }
      // sep, rep, pea and <foo in these texts stay unknown to the analysis: it has no definition of foo.
      std::string t = it.text;
      if (t == "pea $2111") t = "pea #$2111";
      if (t == "pea foo") t = "pea #foo";
      if (t == "brk $00") t = "brk #$00";
      if (t == "cop $00") t = "cop #$00";
      if (t == "jsl foo yields unk") t = "jsl @foo yields unk";
      auto tok = Tokenize(t, Location("t"));
      if (!tok.ok()) { fprintf(stderr, "%s\n", tok.error().ToString().c_str()); abort(); }
      auto p = Parse(*tok);
      if (!p.ok() || p->size() != 1 || !absl::holds_alternative<Statement>((*p)[0])) { fprintf(stderr, "cannot parse %s\n", t.c_str()); abort(); }
      o.st = std::move(*p);
      r->push_back(std::move(o));
    }
    for (auto& o : *r) o.s = &absl::get<Statement>(o.st[0]);
    return r;
  }();
  return *v;
}
static const char* kEntry[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};
// Sets of processor states, each kept once, with what they allow and where each instruction leads from them.
struct Pool {
  struct Sum {  // of a set; seen: 1 can be 0, 2 can be 1; moved: can differ from entry
    uint8_t seen[4] = {0, 0, 0, 0}, moved = 0;
    Sum() {}
    explicit Sum(const std::vector<sim::Cpu>& cs) {
      for (auto& s : cs) {
        const int v[] = {s.e, s.m, s.x, s.c}, v0[] = {s.e0, s.m0, s.x0, s.c0};
        for (int k = 0; k < 4; ++k) { seen[k] |= 1 << v[k]; if (v[k] != v0[k]) moved |= 1 << k; }
      }
    }
    bool empty() const { return !seen[0]; }
  };
  struct Set { std::vector<sim::Cpu> cs; Sum sum; uint64_t hash = 0; std::vector<int> next; };
  std::vector<Set*> sets;
  std::unordered_map<uint64_t, std::vector<int>> by_hash;
  int Of(std::vector<sim::Cpu> cs) {
    uint64_t h = cs.size();
    for (auto& s : cs) h = mc::HashBytes(s.stk.data(), s.stk.size() * 2, mc::Mix(h, s.key()));
    auto& v = by_hash[h];
    for (int i : v) if (sets[i]->cs == cs) return i;
    auto* n = new Set;
    n->sum = Sum(cs);
    n->cs = std::move(cs); n->hash = h; n->next.assign(kN, -1);
    v.push_back(sets.size());
    sets.push_back(n);
    return v.back();
  }
  const Set& operator[](int i) const { return *sets[i]; }
  void Clear() { for (auto* s : sets) delete s; sets.clear(); by_hash.clear(); }
  Sum Last(int i, const Op& o) {  // as Step, where nothing follows
    int k = &o - Ops().data();
    return sets[i]->next[k] < 0 ? Sum(sim::StepAll(o.ins, sets[i]->cs, o.it.taken)) : sets[sets[i]->next[k]]->sum;
  }
  int Step(int i, const Op& o) {
    int k = &o - Ops().data();
    if (sets[i]->next[k] < 0) { int r = Of(sim::StepAll(o.ins, sets[i]->cs, o.it.taken)); sets[i]->next[k] = r; }
    return sets[i]->next[k];
  }
};
static Pool& P() { static Pool* p = new Pool; return *p; }
struct At { ExecutionState es; int cs; };

static const char* BitName(BitState b) { return b == B_off ? "off" : b == B_on ? "on" : b == B_original ? "original" : "unknown"; }
// "" or the claim of `f` that some processor state contradicts.
static std::string Sound(const StatusFlags& f, const Pool::Sum& s) {
  const BitState b[] = {f.EBit(), f.MBit(), f.XBit(), f.CBit()};
  for (int k = 0; k < 4; ++k)
    if ((b[k] == B_on && (s.seen[k] & 1)) || (b[k] == B_off && (s.seen[k] & 2)) || (b[k] == B_original && (s.moved >> k & 1)))
      return mc::Fmt("bit %c is claimed %s but can be %s", "emxc"[k], BitName(b[k]), b[k] == B_on ? "0" : b[k] == B_off ? "1" : "other than at entry");
  return "";
}
// "" or a bit that is the same in every processor state but claimed unknown.
static std::string Precise(const StatusFlags& f, const Pool::Sum& s) {
  const BitState b[] = {f.EBit(), f.MBit(), f.XBit(), f.CBit()};
  const uint8_t* seen = s.seen;
  for (int k = 0; k < 4; ++k) if ((seen[k] == 1 && b[k] != B_off) || (seen[k] == 2 && b[k] != B_on)) return mc::Fmt("bit %c is always %d but is claimed %s", "emxc"[k], seen[k] >> 1, BitName(b[k]));
  return "";
}
// Equal analysis state and equal set of processor states: everything that can follow is equal.
static uint64_t Same(const At& a) {
  const StatusFlags& f = a.es.Flags();
  return mc::Mix(P()[a.cs].hash, f.EBit() | f.MBit() << 2 | f.XBit() << 4 | f.CBit() << 6);
}
struct Walk {
  mc::Ctx& c;
  std::vector<const Op*> path;
  std::string entry;
  bool exact = false, bad = false;
  uint64_t n = 0, refused = 0, dead = 0;
  explicit Walk(mc::Ctx& ctx) : c(ctx) {}
  std::string Show() const { std::string s = ".entry " + entry; for (auto* o : path) s += std::string("; ") + o->it.text + (o->it.taken ? " (taken)" : ""); return s; }
  // One step; false: the path ends here.
  bool Next(const Op& o, const At& a, At* r, bool last = false) {
    path.push_back(&o);
    r->es = a.es;
    ++n;
    ErrorOr<void> e = o.it.taken ? o.s->Instruction()->ExecuteBranch(&r->es) : o.s->Execute(&r->es);
    if (!e.ok()) { ++refused; return false; }
    Pool::Sum sum;
    if (last) { sum = P().Last(a.cs, o); r->cs = -1; } else { r->cs = P().Step(a.cs, o); sum = P()[r->cs].sum; }
    if (sum.empty()) { ++dead; return false; }
    std::string w = Sound(r->es.Flags(), sum);
    if (w.empty() && exact) w = Precise(r->es.Flags(), sum);
    if (!w.empty()) { if (!bad) c.fail("flags after " + Show(), Show() + ": " + w); bad = true; return false; }
    return true;
  }
  void Dfs(const std::vector<int>& menu, int depth, const At& a) {
    if (bad) return;
    if (depth == 1) c.trace(menu.size());
    if (depth == 0) return;
    for (int i : menu) {
      At r;
      if (Next(Ops()[i], a, &r, depth == 1) && depth > 1) {
        c.state(Same(r));
        Dfs(menu, depth - 1, r);
      }
      path.pop_back();
    }
  }
};
// All sequences of the menu up to the depth, level by level, equal situations of a level once.
static void Bfs(Walk& w, const std::vector<int>& menu, int depth, const At& start) {
  struct Node { int parent; const Op* op; };
  std::vector<Node> nodes;
  std::vector<std::pair<At, int>> level{{start, -1}}, next;
  const std::vector<const Op*> prefix = w.path;
  for (int d = 0; d < depth && !w.bad; ++d) {
    std::unordered_map<uint64_t, std::vector<int>> seen;
    next.clear();
    for (auto& from : level) {
      w.path = prefix;
      const size_t at = w.path.size();
      for (int k = from.second; k >= 0; k = nodes[k].parent) w.path.insert(w.path.begin() + at, nodes[k].op);
      for (int i : menu) {
        At r;
        if (w.Next(Ops()[i], from.first, &r, d + 1 == depth) && d + 1 < depth) {
          const uint64_t h = Same(r);
          w.c.state(h);
          auto& same = seen[h];
          bool dup = false;
          for (int k : same) if (next[k].first.es == r.es && next[k].first.cs == r.cs) { dup = true; break; }
          if (!dup) { same.push_back(next.size()); nodes.push_back({from.second, &Ops()[i]}); next.emplace_back(std::move(r), int(nodes.size()) - 1); }
        }
        w.path.pop_back();
      }
      if (w.bad) break;
    }
    level.swap(next);
    w.c.trace(level.size());
  }
  w.path = prefix;
}
static At Enter(const std::string& name) {
  At a;
  sim::Mode m;
  sim::FindMode(name, &m);
  a.es = ExecutionState(*StatusFlags::FromName(name));
  auto cs = sim::Entry(m);
  sim::Uniq(&cs);
  a.cs = P().Of(std::move(cs));
  return a;
}
static std::vector<int> Menu(const std::vector<std::string>& texts) {
  std::vector<int> r;
  for (int i = 0; i < kN; ++i) for (auto& t : texts) if (t == kAll[i].text) { r.push_back(i); break; }
  return r;
}
static void Run(mc::Ctx& c) {
  std::vector<int> all;
  for (int i = 0; i < kN; ++i) all.push_back(i);
  auto explore = [&](const char* part, const char* entry, const std::vector<int>& menu, int depth) {
    for (int first : menu) {
      c.part(part);
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%s: from .entry %s, %s%s, then every sequence to length %d", part, entry, kAll[first].text, kAll[first].taken ? " (taken)" : "", depth); });
      Walk w(c);
      w.entry = entry;
      At a = Enter(entry), r;
      std::string s = Sound(a.es.Flags(), P()[a.cs].sum);
      if (!s.empty()) c.fail(mc::Fmt("flags at entry %s", entry), std::string("at .entry ") + entry + ": " + s);
      if (w.Next(Ops()[first], a, &r)) Bfs(w, menu, depth - 1, r);
      P().Clear();
      c.step(w.n);
      c.outcome("checked", w.n - w.refused - w.dead);
      c.outcome("refused by the analysis", w.refused);
      c.outcome("cannot happen", w.dead);
    }
  };
  for (auto* e : kEntry) explore("all instructions", e, all, c.thorough() ? 5 : 4);
  auto core = Menu({"php", "plp", "xce", "clc", "sec", "sep #$20", "rep #$30", "pha", "pla", "phx", "plx", "plb", "sta $01,S", "pea $2111"});
  for (auto* e : {"unk", "native", "m8", "m16x16", "emu"}) explore("stack and flags, long", e, core, c.thorough() ? 9 : 7);
  auto deep = Menu({"php", "plp", "xce", "sec", "clc", "pld", "phb", "sep #$30", "rep #$20", "ply", "phy", "sta $02,S"});
  for (auto* e : {"unk", "emu", "m8x16", "x8"}) explore("pulls of any width, long", e, deep, c.thorough() ? 9 : 7);
  // Sequences that leave no doubt: the analysis must know as much as can be known.
  auto sure = Menu({"php", "plp", "sep #$20", "rep #$20", "sep #$10", "rep #$10", "sep #$31", "rep #$30", "clc", "sec", "nop", "adc $12", "bcc foo", "bcs foo", "sep #$01", "rep #$11", "jsr $8000 yields m8"});
  // plp only ever pulls what php pushed, xce only follows clc or sec.
  struct Prec { static void Go(Walk& w, const std::vector<int>& menu, int depth, const At& a, int pushed) {
    if (w.bad || depth == 0) return;
    for (int i : menu) {
      std::string t = kAll[i].text;
      if (t == "plp" && !pushed) continue;
      if (t == "bcc foo" || t == "bcs foo") {  // only where the carry tells nothing about the other bits
        std::vector<sim::Cpu> side[2];
        for (auto& s : P()[a.cs].cs) { side[s.c].push_back(s); side[s.c].back().c = side[s.c].back().c0 = 0; }
        sim::Uniq(&side[0]); sim::Uniq(&side[1]);
        if (!side[0].empty() && !side[1].empty() && !(side[0] == side[1])) continue;
      }
      At r;
      if (w.Next(Ops()[i], a, &r)) {
        Go(w, menu, depth - 1, r, pushed + (t == "php") - (t == "plp"));
        if (t == "clc" || t == "sec") { At q; static const int x = Menu({"xce"})[0]; if (w.Next(Ops()[x], r, &q)) Go(w, menu, depth - 1, q, pushed); w.path.pop_back(); }
      }
      w.path.pop_back();
    }
  } };
  for (auto* e : kEntry)
    for (int first : sure) {
      c.part("precision");
      if (!c.want()) continue;
      int depth = c.thorough() ? 6 : 4;
      c.describe([&] { return mc::Fmt("from .entry %s, %s, then every unambiguous sequence to length %d: each bit that cannot vary must be known", e, kAll[first].text, depth); });
      Walk w(c);
      w.entry = e; w.exact = true;
      At a = Enter(e), r;
      std::string t = kAll[first].text;
      if (t != "plp" && w.Next(Ops()[first], a, &r)) Prec::Go(w, sure, depth - 1, r, t == "php");
      c.step(w.n); c.outcome("known exactly", w.n - w.refused - w.dead); c.trace();
    }
  // Values: a register pulled from bytes that are known holds exactly those bytes, low byte first.
  static const char* pushes[] = {"pea #$1234", "pea #$a5c3", "lda #;pha", "ldx #;phx", "ldy #;phy", "phk", "php"};
  static const char* pulls[] = {"pla", "plx", "ply", "plb"};
  for (auto* e : {"m8x8", "m8x16", "m16x8", "m16x16"})
    for (int i = 0; i < 7 * 7 * 7; ++i) {
      c.part("pulled values");
      if (!c.want()) continue;
      int seq[3] = {i % 7, i / 7 % 7, i / 49};
      c.describe([&] { return mc::Fmt("under %s push by %s, %s, %s, then every sequence of up to 4 pulls", e, pushes[seq[0]], pushes[seq[1]], pushes[seq[2]]); });
      sim::Mode md;
      sim::FindMode(e, &md);
      ExecutionState es(*StatusFlags::FromName(e));
      std::vector<int> stk;  // -1 unknown
      bool ok = true;
      uint64_t known = 0, n = 0;
      auto exec = [&](ExecutionState* x, const std::string& t) {
        auto tok = Tokenize(t, Location("t"));
        auto p = Parse(*tok);
        ++n;
        return p.ok() && absl::get<Statement>((*p)[0]).Execute(x).ok();
      };
      int count = 0;
      for (int k : seq) {
        std::string t = pushes[k];
        size_t cut = t.find(';');
        if (cut != std::string::npos) {
          int w = (t[2] == 'a' ? md.m : md.x) ? 1 : 2, v = 0x31 + 0x1111 * ++count;
          if (w == 1) v &= 0xff;
          ok = ok && exec(&es, t.substr(0, cut) + mc::Fmt(w == 1 ? "$%02x" : "$%04x", v)) && exec(&es, t.substr(cut + 1));
          if (w == 2) stk.push_back(v >> 8);
          stk.push_back(v & 255);
        } else {
          ok = ok && exec(&es, t);
          if (k < 2) { int v = k ? 0xa5c3 : 0x1234; stk.push_back(v >> 8); stk.push_back(v & 255); } else stk.push_back(-1);
        }
      }
      if (!ok) { c.fail(mc::Fmt("push %s %d", e, i), "a push is refused"); continue; }
      for (int depth = 1; depth <= 4; ++depth)
        for (int q = 0; q < 1 << (2 * depth); ++q) {
          ExecutionState x = es;
          std::vector<int> s = stk;
          std::string path;
          for (int d = 0; d < depth; ++d) {
            int k = q >> (2 * d) & 3;
            path += std::string(" ") + pulls[k];
            if (!exec(&x, pulls[k])) { ok = false; break; }
            int w = k == 3 ? 1 : (k == 0 ? md.m : md.x) ? 1 : 2, v = 0;
            if (int(s.size()) < w) break;
            bool kn = true;
            for (int b = 0; b < w; ++b) { if (s.back() < 0) kn = false; else v |= s.back() << (8 * b); s.pop_back(); }
            if (d + 1 < depth || k == 3) continue;
            const RegisterValue& r = k == 0 ? x.Accumulator() : k == 1 ? x.XRegister() : x.YRegister();
            if (kn) ++known;
            if (r.HasValue() != kn || (kn && *r != v)) {
              c.fail(mc::Fmt("pull %s %d", e, i), mc::Fmt("under %s, %s %s %s then%s: the register is %s $%x, expected %s $%x", e, pushes[seq[0]], pushes[seq[1]], pushes[seq[2]], path.c_str(), r.HasValue() ? "known as" : "unknown", r.HasValue() ? int(*r) : 0, kn ? "known as" : "unknown", v));
              depth = 5; q = 1 << 20; break;
            }
          }
        }
      c.step(n); c.outcome("known value pulled", known); c.trace();
    }
  P().Clear();
  // Deep stacks: pushed flags under up to 40 other pushes, and paths that differ in one of many pushes.
  static const char* kPush[] = {"pha", "phx", "phy", "phb", "phk", "phd", "pea $2111", "pei $12", "per foo", "php"};
  static const char* kPull[] = {"pla", "plx", "ply", "plb", "pld", "plp"};
  auto op = [&](const char* t) -> const Op& { return Ops()[Menu({t})[0]]; };
  for (auto* e : kEntry)
    for (auto* change : {"nop", "sep #$31", "rep #$30", "sep #$10"})
      for (auto* push : kPush) {
        c.part("deep stacks");
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("from .entry %s: flags, php, %s, then up to 40 times %s, then every kind of pull as often, then plp", e, change, push); });
        Walk w(c);
        w.entry = e;
        for (auto* before : {"nop", "sep #$20", "rep #$30", "sec"})
          for (int n : {1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 18, 31, 32, 33, 40}) {
            At a = Enter(e), r;
            w.path.clear();
            bool ok = true;
            auto go = [&](const char* t) { if (ok && (ok = w.Next(op(t), a, &r))) a = r; };
            go(before); go("php"); go(change);
            for (int i = 0; i < n; ++i) go(push);
            const auto path = w.path;
            const At top = a;
            for (auto* pull : kPull) {
              if (!ok || w.bad) break;
              a = top; w.path = path;
              for (int i = 0; i <= n + 1 && ok; ++i) {
                At q;
                (void)w.Next(op("plp"), a, &q); w.path.pop_back();
                go(pull);
              }
              ok = true;
            }
            if (w.bad) break;
          }
        P().Clear();
        c.step(w.n); c.outcome("checked", w.n - w.refused - w.dead); c.trace();
      }
  for (auto* e : {"unk", "native", "m8x16", "emu"})
    for (auto* push : kPush)
      for (auto* other : kPush) {
        c.part("deep joins");
        if (!c.want()) continue;
        c.describe([&] { return mc::Fmt("from .entry %s: php and up to 33 times %s, on two paths that differ in one push (%s), then every kind of pull, then plp", e, push, other); });
        Walk w(c);
        w.entry = e;
        for (int n : {1, 2, 3, 8, 15, 16, 17, 33})
          for (int at = 0; at <= n && !w.bad; at = at < 4 || at > n - 4 ? at + 1 : n - 3) {
            At side[2];
            bool ok = true;
            for (int s = 0; s < 2 && ok; ++s) {
              At a = Enter(e), r;
              w.path.clear();
              auto go = [&](const char* t) { if (ok && (ok = w.Next(op(t), a, &r))) a = r; };
              if (at == n && s) go("sep #$20");
              go("php");
              if (at == n && !s) go("sep #$20");
              for (int i = 0; i < n; ++i) go(s && i == at ? other : push);
              side[s] = a;
            }
            if (!ok) continue;
            At a;
            a.es = side[0].es | side[1].es;
            auto cs = P()[side[0].cs].cs;
            auto& more = P()[side[1].cs].cs;
            cs.insert(cs.end(), more.begin(), more.end());
            sim::Uniq(&cs);
            a.cs = P().Of(std::move(cs));
            if (a.es != (side[1].es | side[0].es)) c.fail("deep join order " + w.Show(), w.Show() + ": joining is not symmetric");
            w.entry = std::string(e) + mc::Fmt(" with push %d of %d being %s or %s", at, n, push, other);
            const auto path = w.path;
            const At top = a;
            for (auto* pull : kPull) {
              a = top; w.path = path;
              bool on = true;
              for (int i = 0; i <= n + 1 && on && !w.bad; ++i) {
                At q, r;
                (void)w.Next(op("plp"), a, &q); w.path.pop_back();
                if ((on = w.Next(op(pull), a, &r))) a = r;
              }
            }
            w.entry = e;
          }
        P().Clear();
        c.step(w.n); c.outcome("checked", w.n - w.refused - w.dead); c.trace();
      }
  // Stores at every offset from the top of the stack, where pushed flags lie about there.
  for (auto* e : kEntry)
    for (int at = 0; at < 256; ++at) {
      c.part("stores into the stack");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("from .entry %s: php once or twice, other flags, pushes until the flags lie around the %d-th byte, sta to it, pulls until the flags are pulled", e, at); });
      static std::map<std::string, Statement> cache;
      auto stmt = [&](const std::string& t) -> const Statement& {
        auto it = cache.find(t);
        if (it == cache.end()) it = cache.emplace(t, absl::get<Statement>((*Parse(*Tokenize(t, Location("t"))))[0])).first;
        return it->second;
      };
      const std::string store = mc::Fmt("sta $%02x,S", at);
      bool bad = false;
      for (int twice = 0; twice < 2 && !bad; ++twice)
        for (int wide = 0; wide < 2 && !bad; ++wide)
          for (int over = at - 4; over <= at + 2 && !bad; ++over) {
            if (over < 0 || (wide && over % 2)) continue;
            std::vector<std::pair<std::string, sim::Ins>> seq;
            auto add = [&](const std::string& t, sim::Ins i) { seq.push_back({t, i}); };
            add("rep #$21", {"rep", "#b", 1, 0x21});
            add("php", {"php", "i"});
            if (twice) { add("sep #$20", {"sep", "#b", 1, 0x20}); add("php", {"php", "i"}); }
            add(wide ? "rep #$20" : "sep #$21", {wide ? "rep" : "sep", "#b", 1, wide ? 0x20 : 0x21});
            for (int i = 0; i < over; i += 1 + wide) wide ? add("phd", {"phd", "i"}) : add("phb", {"phb", "i"});
            add(store, {"sta", "s", 1, at});
            for (int i = 0; i < over; i += 1 + wide) wide ? add("pld", {"pld", "i"}) : add("plb", {"plb", "i"});
            add("plp", {"plp", "i"});
            if (twice) add("plp", {"plp", "i"});
            sim::Mode md;
            sim::FindMode(e, &md);
            auto cs = sim::Entry(md);
            ExecutionState es(*StatusFlags::FromName(e));
            for (size_t k = 0; k < seq.size(); ++k) {
              c.step();
              auto r = stmt(seq[k].first).Execute(&es);
              if (!r.ok()) { c.outcome("refused by the analysis"); break; }
              cs = sim::StepAll(seq[k].second, cs, false);
              std::string w = Sound(es.Flags(), Pool::Sum(cs));
              if (w.empty()) continue;
              bad = true;
              c.fail(mc::Fmt("store %s %d", e, at), mc::Fmt("from .entry %s: php%s, %d bytes of pushes, %s, the same bytes pulled, plp: ", e, twice ? " twice" : "", over, store.c_str()) + w);
              break;
            }
            c.trace();
          }
      c.outcome("checked");
    }
  // Every opcode, as decoded, between all short ways to set up flags and stack and all short ways to look at them.
  static const std::vector<std::vector<const char*>> kBefore = {
      {}, {"sec"}, {"clc"}, {"sep #$31"}, {"rep #$ff"}, {"php"}, {"sec", "php", "clc"}, {"rep #$30", "php", "sep #$31"}, {"sep #$31", "php", "phb"}, {"clc", "php", "phd"}, {"sec", "php", "pha"}, {"clc", "php", "phx"}, {"clc", "xce"}, {"sec", "xce"}, {"pea $2111"}, {"sep #$20", "php", "rep #$20", "php"}};
  static const std::vector<std::vector<const char*>> kAfter = {{}, {"plp"}, {"plp", "plp"}, {"xce"}, {"plb", "plp"}, {"pld", "plp"}, {"pla", "plp"}, {"plx", "plp"}, {"php", "rep #$ff", "plp"}, {"sep #$20"}, {"xce", "plp"}};
  auto chains = [&](const std::vector<std::vector<const char*>>& v) { std::vector<std::vector<const Op*>> r; for (auto& l : v) { r.emplace_back(); for (auto* t : l) r.back().push_back(&Ops()[Menu({t}).at(0)]); } return r; };
  const auto befores = chains(kBefore), afters = chains(kAfter);
  for (auto& o : isa::Ops())
    for (int pseudo = 0; pseudo < (o.name == "adc" || o.name == "sbc" ? 2 : 1); ++pseudo) {
      c.part("every opcode");
      if (!c.want()) continue;
      const std::string name = pseudo ? o.name == "adc" ? "add" : "sub" : o.name;
      c.describe([&] { return "opcode " + std::string(isa::kMatrix[o.code]) + (pseudo ? " as " + name : "") + ": all operands of a menu, from every entry, after every setup and before every use"; });
      uint64_t n = 0, refused = 0;
      bool bad = false;
      for (uint32_t v : {0x000000u, 0x010101u, 0x020202u, 0x030303u, 0x101010u, 0x202020u, 0x313131u, 0x8000ffu, 0xfe807fu, 0xcecececeu})
        for (auto* width : {"m8x8", "m16x16"}) {
          if (bad || (o.args >= 0 && width[1] != '8')) continue;
          if (v != 0x010101 && v != 0xfe807f && o.mode[0] != '#' && o.mode != "s") continue;
          const uint8_t bytes[] = {uint8_t(o.code), uint8_t(v), uint8_t(v >> 8), uint8_t(v >> 16)};
          auto ins = Decode(absl::MakeConstSpan(bytes, 4), *StatusFlags::FromName(width));
          if (!ins.ok()) { c.fail(mc::Fmt("opcode %02x", o.code), std::string(isa::kMatrix[o.code]) + " is not decoded: " + ins.error().ToString()); bad = true; continue; }
          if (pseudo) ins->mnemonic = o.name == "adc" ? PM_add : PM_sub;
          int args = o.args < 0 ? width[1] == '8' ? 1 : 2 : o.args;
          sim::Ins si{name, o.mode, true, int(v & ((1u << (8 * args)) - 1))};
          const bool branch = o.mode == "r" || (o.mode == "rl" && name != "per");
          static const std::string ends = " jmp rts rtl rti stp bra brl ";
          const bool exits = ends.find(" " + name + " ") != std::string::npos;
          for (auto* e : kEntry)
            for (auto& before : befores) {
              sim::Mode md;
              sim::FindMode(e, &md);
              std::vector<sim::Cpu> cs = sim::Entry(md);
              ExecutionState es(*StatusFlags::FromName(e));
              bool ok = true;
              for (auto* t : before) { ok = ok && t->s->Execute(&es).ok(); cs = sim::StepAll(t->ins, cs, false); }
              if (!ok) continue;
              for (int taken = exits && branch; taken < (branch ? 2 : 1); ++taken) {
                if (exits && !branch) break;
                ExecutionState mid = es;
                ++n;
                if (!(taken ? ins->ExecuteBranch(&mid) : ins->Execute(&mid)).ok()) { ++refused; continue; }
                auto ms = sim::StepAll(si, cs, taken);
                if (ms.empty()) continue;
                for (auto& after : afters) {
                  ExecutionState x = mid;
                  auto xs = ms;
                  std::string w = Sound(x.Flags(), Pool::Sum(xs));
                  for (auto* t : after) {
                    if (!w.empty()) break;
                    ++n;
                    if (!t->s->Execute(&x).ok()) { ++refused; break; }
                    xs = sim::StepAll(t->ins, xs, false);
                    w = Sound(x.Flags(), Pool::Sum(xs));
                  }
                  if (w.empty() || bad) continue;
                  bad = true;
                  std::string show = std::string(".entry ") + e;
                  for (auto* t : before) show += std::string("; ") + t->it.text;
                  show += "; " + ins->ToString() + (taken ? " (taken)" : "");
                  for (auto* t : after) show += std::string("; ") + t->it.text;
                  c.fail(mc::Fmt("opcode %02x %s", o.code, name.c_str()), "after (part of) " + show + ": " + w);
                }
              }
            }
        }
      c.step(n); c.outcome("checked", n - refused); c.outcome("refused by the analysis", refused); c.trace();
      c.state(o.code * 2 + pseudo);
    }
  // Joins: two paths from one entry meet, then go on together.
  auto pre = Menu({"php", "plp", "xce", "clc", "sec", "sep #$20", "rep #$20", "sep #$10", "rep #$30", "pha", "pla", "phx", "plx", "phy", "phb", "plb", "pea $2111", "pei $12", "txs", "sta $01,S", "bcc foo", "adc $12", "sep #<foo", "jsr $8000 yields m8", ".mode x16", "nop"});
  auto post = Menu({"plp", "pla", "plx", "plb", "xce", "php", "sep #$20", "rep #$30", "pha"});
  for (auto* e : {"unk", "native", "m8x8", "m16", "emu"}) {
    std::vector<std::pair<At, std::string>> ends;
    Walk gen(c);
    gen.entry = e;
    ends.push_back({Enter(e), ""});
    for (int i : pre) {
      At r, q;
      if (gen.Next(Ops()[i], ends[0].first, &r)) {
        ends.push_back({r, gen.Show()});
        for (int j : pre) { if (gen.Next(Ops()[j], r, &q)) ends.push_back({q, gen.Show()}); gen.path.pop_back(); }
      }
      gen.path.pop_back();
    }
    for (size_t i = 0; i < ends.size(); ++i) {
      c.part("joins");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("from .entry %s, the path [%s] joined with every earlier path of up to 2 instructions, then every suffix", e, ends[i].second.c_str()); });
      uint64_t n = 0;
      for (size_t j = 0; j <= i; ++j) {
        Walk w(c);
        At a;
        a.es = ends[i].first.es | ends[j].first.es;
        auto cs = P()[ends[i].first.cs].cs;
        auto& other = P()[ends[j].first.cs].cs;
        cs.insert(cs.end(), other.begin(), other.end());
        sim::Uniq(&cs);
        a.cs = P().Of(std::move(cs));
        w.entry = std::string(e) + " by [" + ends[i].second + "] or [" + ends[j].second + "]";
        std::string s = Sound(a.es.Flags(), P()[a.cs].sum);
        if (!s.empty()) { c.fail("join " + w.entry, w.Show() + ": " + s); break; }
        // Joining is the same from both sides, and joining again changes nothing.
        if (ends[i].first.es != ends[i].first.es || (ends[j].first.es | ends[i].first.es) != a.es || (a.es | ends[i].first.es) != a.es || (a.es | a.es) != a.es) { c.fail("join order " + w.entry, w.Show() + ": joining the two states is not symmetric or not stable"); break; }
        w.Dfs(post, c.thorough() ? 2 : 1, a);
        n += w.n;
        if (w.bad) break;
      }
      c.step(n);
      c.outcome("joined paths", ends.size());
    }
  }
}
static const mc::Check kCheck = {
    .property = "P16", .level = "model_checking",
    .rule = "every instruction sequence of the menu is run through the real analysis and, in lockstep, through the set of all processor states it allows; after every step each bit claimed off, on or unchanged is compared with every state; joined paths are compared with the union of their states",
    .bounds_quick = "79 instruction forms from 11 entry states to length 4, 14 stack and flag instructions and 12 chosen for pulls of any width to length 7, 17 unambiguous ones (precision) to length 4, all pushes of 3 and pulls of 4 under known widths, up to 40 pushes over pushed flags and paths that differ in one of 33 pushes, stores at every stack offset around pushed flags, every opcode with 10 operands between 16 setups and 11 uses, all pairs of paths up to length 2 joined and continued by 1",
    .bounds_thorough = "lengths 5, 9, 6 and suffixes of 2", .run = Run, .chunk = 4, .hang_seconds = 60,
    .assumptions = {"called subroutines and interrupt handlers return with e, m, x and the stack as they found them unless a yields suffix says otherwise", "memory writes other than stack-relative ones do not hit the tracked stack"}};
MC_MAIN(kCheck)
