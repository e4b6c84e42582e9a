// Small programs built from kinds of lines, and the concrete meaning of running them.
#ifndef VERIF_FLOW_H_
#define VERIF_FLOW_H_
#include <map>
#include <set>
#include <tuple>
#include "checks/isa.h"
#include "checks/sim.h"
#include "lib/mc.h"
#include "nsasm/assembler.h"
namespace flow {
using namespace nsasm;
struct Sink : OutputSink {
  std::map<uint32_t, std::vector<uint8_t>> w;
  bool twice = false;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    auto& v = w[uint32_t(a.Bank()) << 16 | a.BankAddress()];
    if (!v.empty()) twice = true;
    v.assign(d.begin(), d.end());
    return {};
  }
};
// One kind of line. `target`: 0 none, otherwise the line number + 1 it branches to (the last is the end of the file).
struct Line {
  std::string text;
  sim::Ins ins;
  char kind = 'i';  // i instruction, d data, o .org, e .entry, n other directive, h .halt
  char dep = 0;     // 'm' or 'x': its operand size follows this flag
  char suffix = 0;
  sim::Mode mode{2, 2, 2};
  int target = 0;
  bool exit = false, precise = true;
  std::string modename;
};
inline Line L(const std::string& text, const std::string& name, const std::string& mode, int arg = 0) {
  Line l;
  l.text = text;
  l.ins.name = name; l.ins.mode = mode; l.ins.arg = arg;
  return l;
}
inline std::vector<Line> Menu(const std::string& pick, int lines) {
  std::vector<Line> r;
  auto has = [&](const std::string& k) { return (" " + pick + " ").find(" " + k + " ") != std::string::npos || pick == "*"; };
  auto add = [&](const std::string& key, Line l) { if (has(key)) r.push_back(std::move(l)); };
  add("nop", L("nop", "nop", "i"));
  { Line l = L("lda #$12", "lda", "#m", 0x12); l.dep = 'm'; add("lda#", l); l.text = "lda.b #$12"; l.suffix = 'b'; add("lda.b#", l); }
  { Line l = L("ldx #$12", "ldx", "#x", 0x12); l.dep = 'x'; add("ldx#", l); l.text = "ldx.w #$12"; l.suffix = 'w'; add("ldx.w#", l); }
  { Line l = L("sta.w $12", "sta", "d", 0x12); l.suffix = 'w'; add("sta.w", l); }
  for (auto t : {"sep #$20", "rep #$20", "sep #$10", "rep #$30"}) add(std::string(t, 3) + std::string(t + 6), L(t, std::string(t, 3), "#b", strtol(t + 6, 0, 16)));
  { Line l = L("rep #<foreign", "rep", "#b"); l.ins.known = false; add("rep?", l); }
  for (auto t : {"clc", "sec", "php", "pha", "pla", "plx", "phx"}) add(t, L(t, t, "i"));
  { Line l = L("plp", "plp", "i"); l.precise = false; add("plp", l); }
  { Line l = L("xce", "xce", "i"); l.precise = false; add("xce", l); }
  { Line l = L("rts", "rts", "i"); l.exit = true; add("rts", l); l.text = "jmp $9000"; l.ins = {"jmp", "a", true, 0x9000}; add("jmp", l); }
  { Line l = L(".halt", "", ""); l.kind = 'h'; l.exit = true; add("halt", l); }
  { Line l = L(".db $00", "", ""); l.kind = 'd'; add("db", l); }
  { Line l = L(".org $9000", "", ""); l.kind = 'o'; add("org", l); }
  for (auto t : {"m16x16", "unk", "emu"}) { Line l = L(std::string(".entry ") + t, "", ""); l.kind = 'e'; l.modename = t; sim::FindMode(t, &l.mode); l.precise = l.mode.e == 0; add(std::string("entry-") + t, l); }
  for (auto t : {"m8", "x16", "unk"}) { Line l = L(std::string(".mode ") + t, ".mode", ""); l.kind = 'n'; sim::FindMode(t, &l.ins.to); l.precise = l.ins.to.e == 0; add(std::string("mode-") + t, l); }
  { Line l = L("equ .equ 5", "nop", ""); l.text = ".equ 5"; l.kind = 'n'; l.ins.name = ".equ"; add("equ", l); }
  { Line l = L("jsr $9000", "jsr", "a", 0x9000); add("jsr", l); l.text = "jsr $9000 yields m16"; l.ins.yields = true; sim::FindMode("m16", &l.ins.to); add("jsr-yields", l); l.text = "jsr $9000 noreturn"; l.ins.yields = false; l.ins.noreturn = true; l.exit = true; add("jsr-noreturn", l); }
  for (auto t : {"bne", "bra", "bcc", "bcs", "brl"})
    for (int k = 0; k <= lines; ++k) { Line l = L(std::string(t) + mc::Fmt(" l%d", k), t, std::string(t) == "brl" ? "rl" : "r"); l.target = k + 1; l.exit = t[2] == 'a' || t[2] == 'l'; add(t, l); }
  return r;
}
struct Prog {
  std::vector<const Line*> ls;
  int open = -1, close = -1;  // lines open..close-1 are in a scope of their own
  int deep = 1;               // or in so many
  bool Inside(int i) const { return i >= open && i < close; }
  std::string Text(const char* entry) const {
    std::string s = ".org $8000\n.entry " + std::string(entry) + "\n";
    for (int i = 0; i <= int(ls.size()); ++i) {
      for (int d = 0; d < deep; ++d) { if (i == open) s += "{\n"; if (i == close) s += "}\n"; }
      if (i < int(ls.size())) s += mc::Fmt("l%d ", i) + ls[i]->text + "\n";
    }
    return s + mc::Fmt("l%d\n", int(ls.size()));
  }
};
typedef std::set<sim::Cpu> States;
inline size_t kMaxStack = 6;
// All processor states in which each line can be entered (index n: past the end), by exploring every path.
inline bool Explore(const Prog& p, const sim::Mode& entry, bool carry_free, std::vector<States>* at, uint64_t* steps) {
  size_t n = p.ls.size();
  at->assign(n + 1, {});
  std::vector<std::pair<int, sim::Cpu>> todo;
  bool complete = true;
  auto go = [&](int line, sim::Cpu s) {
    if (s.stk.size() > kMaxStack) { complete = false; return; }
    if ((*at)[line].insert(s).second) todo.push_back({line, s});
  };
  for (auto& s : sim::Entry(entry)) go(0, s);
  for (size_t i = 0; i < n; ++i) if (p.ls[i]->kind == 'e') for (auto& s : sim::Entry(p.ls[i]->mode)) go(i + 1, s);
  std::vector<sim::Cpu> out;
  while (!todo.empty()) {
    auto [line, s] = todo.back();
    todo.pop_back();
    if (line == int(n)) continue;
    const Line& l = *p.ls[line];
    ++*steps;
    if (l.kind == 'd' || l.kind == 'o' || l.kind == 'h') continue;
    bool branch = l.target != 0;
    if (l.kind == 'e' || l.ins.name == ".equ") { go(line + 1, s); continue; }
    if (carry_free && l.ins.name == ".mode") {  // the reference for acceptance takes the assertion as the new truth
      for (auto t : sim::Entry(l.ins.to)) { t.stk = s.stk; go(line + 1, t); }
      continue;
    }
    if (!l.exit) {
      out.clear();
      if (carry_free && branch) out.push_back(s); else sim::Step(l.ins, s, false, &out);
      for (auto& t : out) go(line + 1, t);
    }
    if (branch) {
      out.clear();
      if (carry_free) out.push_back(s); else sim::Step(l.ins, s, true, &out);
      for (auto& t : out) go(l.target - 1, t);
    }
  }
  return complete;
}
}  // namespace flow
#endif
