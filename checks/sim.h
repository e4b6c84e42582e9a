// The status bits e, m, x, c and the stack of a 65816, as far as they decide operand widths.
// Bytes that depend on data are unknown (kAny); pulling one into the flags gives every outcome.
#ifndef VERIF_SIM_H_
#define VERIF_SIM_H_
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>
namespace sim {
struct Cpu {
  uint8_t e = 0, m = 0, x = 0, c = 0;
  uint8_t e0 = 0, m0 = 0, x0 = 0, c0 = 0;  // at entry
  std::u16string stk;  // (a string: short ones need no heap)
  bool operator<(const Cpu& r) const { return std::tie(bits(), stk) < std::tie(r.bits(), r.stk); }
  bool operator==(const Cpu& r) const { return bits() == r.bits() && stk == r.stk; }
  uint32_t key() const { return bits(); }
 private:
  const uint32_t& bits() const { b_ = e | m << 1 | x << 2 | c << 3 | e0 << 4 | m0 << 5 | x0 << 6 | c0 << 7; return b_; }
  mutable uint32_t b_ = 0;
};
static const char16_t kAny = 256;
// An assumption about e, m, x: 0, 1, or 2 for either.
struct Mode { int e, m, x; };
inline bool FindMode(const std::string& n, Mode* r) {
  static const struct { const char* n; Mode m; } t[] = {{"unk", {2, 2, 2}}, {"emu", {1, 1, 1}}, {"native", {0, 2, 2}}, {"m8", {0, 1, 2}}, {"m16", {0, 0, 2}}, {"x8", {0, 2, 1}}, {"x16", {0, 2, 0}},
                                                        {"m8x8", {0, 1, 1}}, {"m8x16", {0, 1, 0}}, {"m16x8", {0, 0, 1}}, {"m16x16", {0, 0, 0}}};
  for (auto& i : t) if (n == i.n) { *r = i.m; return true; }
  return false;
}
inline bool Fits(const Mode& w, const Cpu& s) { return (w.e == 2 || w.e == s.e) && (w.m == 2 || w.m == s.m) && (w.x == 2 || w.x == s.x); }
inline std::vector<Cpu> Entry(const Mode& w) {
  std::vector<Cpu> r;
  for (int b = 0; b < 16; ++b) {
    Cpu s;
    s.e = s.e0 = b & 1; s.m = s.m0 = b >> 1 & 1; s.x = s.x0 = b >> 2 & 1; s.c = s.c0 = b >> 3 & 1;
    if (s.e && !(s.m && s.x)) continue;
    if (Fits(w, s)) r.push_back(s);
  }
  return r;
}
// One instruction (or .mode) with what it needs: name, the addressing-mode notation of isa.h, its operand.
struct Ins {
  std::string name, mode;
  bool known = true;   // the operand's value is known
  int arg = 0;
  bool yields = false, noreturn = false;
  Mode to{2, 2, 2};    // .mode or yields
};
inline void Force(Cpu* s) { if (s->e) s->m = s->x = 1; }
inline void Push(Cpu* s, int n, int v = kAny) { while (n--) s->stk.push_back(v); }
inline int Pull(Cpu* s) { if (s->stk.empty()) return kAny; int v = s->stk.back(); s->stk.pop_back(); return v; }
inline void Uniq(std::vector<Cpu>* v) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
// Every state the processor can be in after the instruction, falling through or (taken) branching.
inline void Step(const Ins& i, const Cpu& in, bool taken, std::vector<Cpu>* out) {
  Cpu s = in;
  const std::string& n = i.name;
  auto put = [&] { Force(&s); out->push_back(s); };
  auto both = [&] { for (int b = 0; b < 2; ++b) { s.c = b; out->push_back(s); } };
  if (n == ".mode") { if (Fits(i.to, s)) put(); return; }
  if (n == "clc") { s.c = 0; return put(); }
  if (n == "sec") { s.c = 1; return put(); }
  if (n == "bcc") { if (s.c == (taken ? 0 : 1)) put(); return; }
  if (n == "bcs") { if (s.c == (taken ? 1 : 0)) put(); return; }
  if (n == "bra" || n == "brl") { if (taken) put(); return; }
  if (n == "sep" || n == "rep") {
    int v = n == "sep";
    for (int a = 0; a < 256; a += 1) {
      if (i.known ? a != (i.arg & 255) : (a & ~0x31) != 0) continue;
      s = in;
      if (a & 1) s.c = v;
      if (a & 0x10) s.x = v;
      if (a & 0x20) s.m = v;
      put();
    }
    return;
  }
  static const std::string carry = " adc sbc add sub asl lsr rol ror cmp cpx cpy brk cop ";
  if (carry.find(" " + n + " ") != std::string::npos) return both();
  if (n == "jsr" || n == "jsl") {
    if (i.noreturn) return;
    if (!i.yields) return both();
    for (int b = 0; b < 8; ++b) { s.e = b & 1; s.m = b >> 1 & 1; s.x = b >> 2 & 1; if (s.e && !(s.m && s.x)) continue; if (Fits(i.to, s)) both(); }
    return;
  }
  if (n == "php") { Push(&s, 1, s.c | s.x << 4 | s.m << 5); return put(); }
  if (n == "plp") {
    int v = Pull(&s);
    for (int a = 0; a < 8; ++a) {
      int p = (a & 1) | (a & 2) << 3 | (a & 4) << 3;
      if (v != kAny && p != (v & 0x31)) continue;
      s.c = p & 1; s.x = p >> 4 & 1; s.m = p >> 5 & 1;
      put();
    }
    return;
  }
  if (n == "pha") { Push(&s, s.m ? 1 : 2); return put(); }
  if (n == "phx" || n == "phy") { Push(&s, s.x ? 1 : 2); return put(); }
  if (n == "phb" || n == "phk") { Push(&s, 1); return put(); }
  if (n == "phd" || n == "pei" || n == "per") { Push(&s, 2); return put(); }
  if (n == "pea") { Push(&s, 1, i.known ? i.arg >> 8 & 255 : int(kAny)); Push(&s, 1, i.known ? i.arg & 255 : int(kAny)); return put(); }
  if (n == "pla") { Pull(&s); if (!s.m) Pull(&s); return put(); }
  if (n == "plx" || n == "ply") { Pull(&s); if (!s.x) Pull(&s); return put(); }
  if (n == "plb") { Pull(&s); return put(); }
  if (n == "pld") { Pull(&s); Pull(&s); return put(); }
  if (n == "txs" || n == "tcs") { s.stk.clear(); return put(); }
  if (n == "sta" && i.mode == "s") {
    for (int k = 0; k < (s.m ? 1 : 2); ++k) {
      int at = (i.known ? i.arg & 255 : 0) + k;
      if (!i.known) { for (auto& b : s.stk) b = kAny; break; }
      if (at >= 1 && at <= int(s.stk.size())) s.stk[s.stk.size() - at] = kAny;
    }
    return put();
  }
  if (n == "xce") { std::swap(s.c, s.e); return put(); }
  put();
}
inline std::vector<Cpu> StepAll(const Ins& i, const std::vector<Cpu>& in, bool taken) {
  std::vector<Cpu> r;
  for (auto& s : in) Step(i, s, taken, &r);
  Uniq(&r);
  return r;
}
}  // namespace sim
#endif
