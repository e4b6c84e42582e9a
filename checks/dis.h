// Images of machine code built from fragments, and the concrete meaning of running them.
#ifndef VERIF_DIS_H_
#define VERIF_DIS_H_
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include "checks/isa.h"
#include "checks/sim.h"
#include "lib/mc.h"
#include "nsasm/disassemble.h"
namespace dis {
using namespace nsasm;
inline uint32_t Wrap(uint32_t a, int d) { return (a & 0xff0000) | ((a + d) & 0xffff); }
inline uint32_t Num(Address a) { return uint32_t(a.Bank()) << 16 | a.BankAddress(); }
struct Image {
  std::map<uint32_t, uint8_t> at;
  std::string ToString() const {
    std::string s;
    uint32_t last = ~0u;
    for (auto& b : at) { if (b.first != last + 1) s += mc::Fmt(" @%06x", b.first); s += mc::Fmt(" %02x", b.second); last = b.first; }
    return s;
  }
};
struct Source : InputSource {
  const Image* im;
  explicit Source(const Image* i) : im(i) {}
  std::string Path() const override { return "image"; }
  ErrorOr<std::vector<uint8_t>> Read(Address a, int n) const override {
    std::vector<uint8_t> r;
    for (int i = 0; i < n; ++i) { auto it = im->at.find(Wrap(Num(a), i)); if (it == im->at.end()) return Error("not in the image"); r.push_back(it->second); }
    return r;
  }
};
// A piece of code; a branch piece has its displacement filled in when the image is laid out.
struct Frag {
  std::vector<uint8_t> b;
  int target = -1, into = 0;  // branches to byte `into` of piece `target`
  int rel = 0;                // size of the displacement at the end of b
  std::string text;
};
inline Frag F(const std::string& text, std::initializer_list<int> b) { Frag f; for (int v : b) f.b.push_back(v); f.text = text; return f; }
inline std::vector<Frag> Menu(const std::string& pick, int n) {
  std::vector<Frag> r;
  auto has = [&](const std::string& k) { return (" " + pick + " ").find(" " + k + " ") != std::string::npos || pick == "*"; };
  auto add = [&](const std::string& k, std::initializer_list<int> b) { if (has(k)) r.push_back(F(k, b)); };
  add("nop", {0xea}); add("lda#", {0xa9, 0x60}); add("ldx#", {0xa2, 0xea}); add("adc#", {0x69, 0x60}); add("sbc#", {0xe9, 0x60}); add("sta.w", {0x8d, 0x34, 0x12});
  add("sep20", {0xe2, 0x20}); add("rep20", {0xc2, 0x20}); add("rep30", {0xc2, 0x30}); add("sep10", {0xe2, 0x10});
  add("clc", {0x18}); add("sec", {0x38}); add("xce", {0xfb}); add("php", {0x08}); add("plp", {0x28}); add("pha", {0x48}); add("pla", {0x68}); add("plx", {0xfa});
  add("rts", {0x60}); add("jmp", {0x4c, 0x00, 0x90}); add("jml", {0x5c, 0x00, 0x91, 0x02}); add("jmpi", {0x6c, 0x00, 0x90}); add("jmp-yields", {0x4c, 0x00, 0x94}); add("jml-noreturn", {0x5c, 0x00, 0x95, 0x02});
  add("jsr", {0x20, 0x00, 0x93}); add("jsr-yields", {0x20, 0x00, 0x94}); add("jsl-noreturn", {0x22, 0x00, 0x95, 0x02}); add("jsl", {0x22, 0x00, 0x91, 0x02}); add("jsr-self", {0x20, 0x00, 0x80});
  add("per", {0x62, 0x01, 0x00}); add("pea", {0xf4, 0x30, 0x20}); add("mvn", {0x54, 0x01, 0x02}); add("jsr-x", {0xfc, 0x00, 0x90}); add("jml-first", {0x5c, 0x00, 0x80, 0x80}); add("jsl-first", {0x22, 0x00, 0x80, 0x80}); add("brk", {0x00, 0x60});
  struct { const char* n; int op, size; } br[] = {{"bne", 0xd0, 1}, {"bra", 0x80, 1}, {"bcc", 0x90, 1}, {"bcs", 0xb0, 1}, {"brl", 0x82, 2}};
  for (auto& x : br) {
    if (!has(x.n)) continue;
    for (int t = 0; t <= n; ++t)
      for (int into = 0; into < 2; ++into) {
        if (into && t == n) continue;
        Frag f = F(mc::Fmt("%s->%d%s", x.n, t, into ? "+1" : ""), {x.op});
        f.target = t; f.into = into; f.rel = x.size;
        f.b.resize(1 + x.size);
        r.push_back(f);
      }
  }
  return r;
}
// False if a displacement does not fit.
inline bool Lay(const std::vector<const Frag*>& fs, uint32_t base, Image* im) {
  std::vector<int> off{0};
  for (auto* f : fs) off.push_back(off.back() + f->b.size());
  im->at.clear();
  for (size_t i = 0; i < fs.size(); ++i) {
    std::vector<uint8_t> b = fs[i]->b;
    if (fs[i]->rel) {
      if (fs[i]->target > int(fs.size())) return false;
      int d = off[fs[i]->target] + fs[i]->into - off[i + 1];
      if (fs[i]->rel == 1 && (d < -128 || d > 127)) return false;
      b[1] = d;
      if (fs[i]->rel == 2) b[2] = d >> 8;
    }
    for (size_t j = 0; j < b.size(); ++j) im->at[Wrap(base, off[i] + j)] = b[j];
  }
  return true;
}
// Code of n like units, with the entries that lead to all of it.
static const int kLongKinds = 14;
static const int kLongSizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 25, 31, 32, 33, 42, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 1000};
inline bool Long(int kind, int n, uint32_t base, Image* im, std::vector<uint32_t>* entries, std::string* text) {
  std::vector<Frag> fs;
  std::vector<int> starts{0};
  auto f = [&](std::initializer_list<int> b) { fs.push_back(F("", b)); };
  auto br = [&](int op, int target, int rel) { Frag x = F("", {op}); x.target = target; x.rel = rel; x.b.resize(1 + rel); fs.push_back(x); };
  int banks = 0;
  switch (kind) {
    case 0: *text = "branches each to the next one"; for (int i = 0; i < n; ++i) { br(0xd0, 2 * i + 2, 1); f({0xea}); } f({0x60}); break;
    case 1: *text = "long jumps back to the start"; f({0xea}); for (int i = 0; i < n; ++i) { br(0xd0, 2 * i + 3, 1); br(0x82, 0, 2); } f({0x60}); break;
    case 2: *text = "branches to the mirrored place"; for (int i = 0; i < n; ++i) { br(0xd0, 2 * n - 1 - 2 * i - 1, 1); f({0xea}); } f({0x60}); break;
    case 3: *text = "mirrored long branches over short ones"; for (int i = 0; i < n; ++i) { br(0xd0, 2 * i + 2, 1); br(0x82, 2 * (n - 1 - i) + (i < n / 2 ? 0 : 2), 2); } f({0x60}); break;
    case 4: *text = "additions and subtractions, some labelled"; for (int i = 0; i < n; ++i) { f({i % 2 ? 0x38 : 0x18}); if (i % 3) f({i % 2 ? 0xe9 : 0x69, 0x12}); else f({i % 2 ? 0xed : 0x6d, 0x34, 0x12}); br(0xd0, int(fs.size()) - 2 + (i % 5 == 4), 1); } f({0x60}); break;
    case 5: *text = "routines that call the next"; for (int i = 0; i < n; ++i) { if (i) starts.push_back(fs.size()); f({0x20, 0, 0}); fs.back().target = 2 * i + 2; f({0x60}); } f({0x60}); starts.push_back(2 * n); break;
    case 6: *text = "routines in banks of their own, each jumping to the next"; banks = n; break;
    case 7: *text = "width changes under each branch"; for (int i = 0; i < n; ++i) { f({i % 2 ? 0xc2 : 0xe2, 0x20}); f({0xa9, 0x12}); if (i % 2) fs.back().b.push_back(0x34); br(0xd0, 3 * i + 3, 1); } f({0x60}); break;
    case 8: *text = "flags pushed, loop, pulled"; for (int i = 0; i < n; ++i) { int at = fs.size(); f({0x08}); f({0xe2, 0x30}); f({0xa9, 0x12}); br(0xd0, at + 2, 1); f({0x28}); } f({0x60}); break;
    case 9: *text = "entries in one run of code"; for (int i = 0; i < n; ++i) { if (i) starts.push_back(fs.size()); f({0xa5, i & 255}); } f({0x60}); break;
    case 10: *text = "branches forward, then a long way back"; for (int i = 0; i < n; ++i) { f({0xca}); br(0xf0, 2 * i + 2, 1); } br(0xd0, std::max(0, 2 * n - 60), 1); f({0x60}); break;
    case 11: *text = "loop in loop"; for (int i = 0; i < n; ++i) f({0xea}); for (int i = 0; i < n; ++i) br(0xd0, std::max(n - 1 - i, n - 100 + i), 1); f({0x60}); break;
    case 12: *text = "runs of carry settings and additions"; for (int i = 0; i < n; ++i) { f({i % 4 < 2 ? 0x18 : 0x38}); if (i % 2) f({i % 4 < 2 ? 0x65 : 0xe5, 0x10}); } f({0x60}); break;
    case 13: *text = "calls that change the widths"; for (int i = 0; i < n; ++i) { f({0x20, 0x00, 0x94}); f({0xa9, 0x12, 0x34}); f({0xe2, 0x30}); f({0xa2, 0x12}); f({0x20, 0x00, 0x93}); } f({0x22, 0x00, 0x95, 0x02}); break;
  }
  im->at.clear();
  entries->clear();
  if (banks) {
    if (n > 100) return false;
    for (int i = 0; i < n; ++i) {
      uint32_t at = base + (uint32_t(n - i) << 16), to = base + (uint32_t(n - i - 1) << 16);
      int b[] = {0xea, 0xd0, 0xfd, i % 2 ? 0x22 : 0xea, i % 2 ? int(to & 255) : 0xea, i % 2 ? int(to >> 8 & 255) : 0xea, i % 2 ? int(to >> 16) : 0xea, 0x5c, int(to & 255), int(to >> 8 & 255), int(to >> 16)};
      for (int v : b) im->at[at++] = v;
      entries->push_back(base + (uint32_t(n - i) << 16));
    }
    im->at[base] = 0x6b;
    entries->push_back(base);
    return true;
  }
  std::vector<const Frag*> ps;
  std::vector<int> off{0};
  for (auto& x : fs) off.push_back(off.back() + x.b.size());
  if (off.back() > 0x7f00) return false;
  for (auto& x : fs) if (!x.rel && x.target >= 0) { x.b[1] = (base + off[x.target]) & 255; x.b[2] = (base + off[x.target]) >> 8 & 255; x.target = -1; }
  for (auto& x : fs) { if (x.rel && (x.target < 0 || x.target >= int(fs.size()))) return false; ps.push_back(&x); }
  for (int i : starts) entries->push_back(Wrap(base, off[i]));
  return Lay(ps, base, im);
}
// n plain instructions that run into two pieces and rts; where the two pieces start.
inline bool Into(int n, const Frag& a, const Frag& b, uint32_t base, Image* im, uint32_t* block) {
  static const Frag nop = F("nop", {0xea}), lda = F("lda.d", {0xa5, 0x12}), rts = F("rts", {0x60});
  std::vector<const Frag*> fs;
  int size = 0;
  for (int i = 0; i < n; ++i) { fs.push_back(i % 3 ? &nop : &lda); size += fs.back()->b.size(); }
  Frag x = a, y = b;
  if (x.rel) x.target += n;
  if (y.rel) y.target += n;
  fs.insert(fs.end(), {&x, &y, &rts});
  *block = Wrap(base, size);
  return Lay(fs, base, im);
}
struct Conv { bool noreturn = false; sim::Mode to{2, 2, 2}; std::string name; };
typedef std::map<uint32_t, Conv> Convs;
inline const Convs& Conventions() {
  static const Convs* c = [] { auto* r = new Convs; Conv y; y.name = "m16x16"; sim::FindMode("m16x16", &y.to); (*r)[0x809400] = y; (*r)[0x019400] = y; Conv n; n.noreturn = true; (*r)[0x029500] = n; return r; }();
  return *c;
}
inline std::map<Address, ReturnConvention> RealConventions() {
  std::map<Address, ReturnConvention> r;
  for (auto& c : Conventions()) r[Address(c.first)] = c.second.noreturn ? ReturnConvention(NoReturn()) : ReturnConvention(*StatusFlags::FromName(c.second.name));
  return r;
}
// One instruction as the processor would run it at pc with the given widths; nothing if it is not all there.
struct Op { const isa::Op* op; int size; uint32_t next; std::optional<uint32_t> branch, far; bool exit = false, cond = true; sim::Ins ins; };
template <class Byte>
inline std::optional<Op> FetchFrom(const Byte& byte, uint32_t pc, bool m8, bool x8, const Convs& convs) {
  auto get = [&](int i) -> int { return byte(Wrap(pc, i)); };
  if (get(0) < 0) return {};
  Op o;
  o.op = &isa::Ops()[get(0)];
  int n = o.op->args < 0 ? (o.op->mode == "#m" ? m8 : x8) ? 1 : 2 : o.op->args;
  int v = 0;
  for (int i = 1; i <= n; ++i) { if (get(i) < 0) return {}; v |= get(i) << (8 * (i - 1)); }
  o.size = n + 1;
  o.next = Wrap(pc, o.size);
  o.ins.name = o.op->name; o.ins.mode = o.op->mode; o.ins.arg = v;
  if (o.op->mode == "r" || o.op->mode == "rl") {
    uint32_t t = Wrap(o.next, n == 1 ? int8_t(v) : int16_t(v));
    if (o.op->name != "per") o.branch = t;
  }
  const std::string& nm = o.op->name;
  if ((nm == "jmp" || nm == "jsr") && o.op->mode == "a") o.far = (pc & 0xff0000) | v;
  if ((nm == "jmp" || nm == "jsl") && o.op->mode == "l") o.far = v;
  if (o.far && nm != "jmp") {
    auto c = convs.find(*o.far);
    if (c != convs.end()) { o.ins.noreturn = c->second.noreturn; o.ins.yields = !c->second.noreturn; o.ins.to = c->second.to; }
  }
  static const std::string exits = " jmp rts rtl rti stp bra brl ";
  o.exit = exits.find(" " + nm + " ") != std::string::npos || o.ins.noreturn;
  return o;
}
inline std::optional<Op> Fetch(const Image& im, uint32_t pc, bool m8, bool x8) {
  return FetchFrom([&](uint32_t a) -> int { auto it = im.at.find(a); return it == im.at.end() ? -1 : it->second; }, pc, m8, x8, Conventions());
}
typedef std::map<uint32_t, std::set<sim::Cpu>> Reach;
struct World {
  Reach at;                 // every state in which each address is run
  bool unreadable = false, torn = false;  // some reached instruction is not all there / runs at two widths
  bool complete = true, precise = true;
  uint64_t steps = 0;
};
// loose: as an analysis that does not know which way a branch goes from the carry.
inline void Explore(const Image& im, const std::vector<std::pair<uint32_t, sim::Mode>>& starts, bool loose, World* w) {
  std::vector<std::pair<uint32_t, sim::Cpu>> todo;
  auto go = [&](uint32_t pc, const sim::Cpu& s) {
    if (s.stk.size() > 5) { w->complete = false; return; }
    if (w->at[pc].insert(s).second) todo.push_back({pc, s});
  };
  for (auto& st : starts) { if (st.second.e != 0) w->precise = false; for (auto& s : sim::Entry(st.second)) go(st.first, s); }
  std::vector<sim::Cpu> out;
  while (!todo.empty()) {
    auto [pc, s] = todo.back();
    todo.pop_back();
    ++w->steps;
    auto o = Fetch(im, pc, s.m, s.x);
    if (!o) { w->unreadable = true; continue; }
    if (o->op->name == "plp" || o->op->name == "xce" || o->op->name == "rti") w->precise = false;
    if (!o->exit) {
      out.clear();
      if (loose && o->branch) out.push_back(s); else sim::Step(o->ins, s, false, &out);
      for (auto& t : out) go(o->next, t);
    }
    if (o->branch) {
      out.clear();
      if (loose) out.push_back(s); else sim::Step(o->ins, s, true, &out);
      for (auto& t : out) go(*o->branch, t);
    }
  }
  for (auto& a : w->at) {
    auto it = im.at.find(a.first);
    if (it == im.at.end()) continue;
    auto& op = isa::Ops()[it->second];
    if (op.args >= 0) continue;
    int seen = 0;
    for (auto& s : a.second) seen |= 1 << (op.mode == "#m" ? s.m : s.x);
    if (seen == 3) w->torn = true;
  }
}
inline std::string Dump(const Disassembler& d) {
  std::string s;
  for (auto& n : d.Result()) s += mc::Fmt("%06x %s %s | %s | %d | %s -> %s\n", Num(n.first), n.second.label.c_str(), n.second.instruction.ToString().c_str(), n.second.instruction.arg1.ToString().c_str(), n.second.is_entry, n.second.current_execution_state.Flags().ToString().c_str(), n.second.next_execution_state.Flags().ToString().c_str());
  return s;
}
}  // namespace dis
#endif
