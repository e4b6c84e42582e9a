// P15: a line of source assembles to exactly the bytes it means, or is refused.
#include <algorithm>
#include <map>
#include "checks/form.h"
#include "checks/sim.h"
#include "lib/mc.h"
#include "nsasm/assembler.h"
using namespace nsasm;

struct Sink : OutputSink {
  std::map<uint32_t, uint8_t> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    for (size_t i = 0; i < d.size(); ++i) w[uint32_t(a.Bank()) << 16 | ((a.BankAddress() + i) & 0xffff)] = d[i];
    return {};
  }
};
// An operand: its text, width (0 unknown), whether its value is known without names, its final value (ok: it has one),
// and whether it is a plain name and of a place a branch can go to.
struct Operand { const char* text; int w; bool known; long v; bool ok, name, place, paren; };
static const Operand kOperands[] = {
    {"$12", 1, 1, 0x12, 1, 0, 0, 0}, {"$1234", 2, 1, 0x1234, 1, 0, 0, 0}, {"$0012", 2, 1, 0x12, 1, 0, 0, 0}, {"$123456", 3, 1, 0x123456, 1, 0, 0, 0}, {"%10000001", 1, 1, 0x81, 1, 0, 0, 0}, {"18", 0, 1, 18, 1, 0, 0, 0}, {"4660", 0, 1, 4660, 1, 0, 0, 0}, {"-1", 0, 1, -1, 1, 0, 0, 0},
    {"70000", 0, 1, 70000, 1, 0, 0, 0}, {"near", 2, 0, 0x018040, 1, 1, 1, 0}, {"here", 2, 0, 0x018000, 1, 1, 1, 0}, {"@near", 3, 0, 0x018040, 1, 1, 1, 0}, {"<near", 1, 0, 0x40, 1, 0, 0, 0}, {">near", 1, 0, 0x80, 1, 0, 0, 0}, {"^near", 1, 0, 0x01, 1, 0, 0, 0},
    {"word", 2, 0, 0x1234, 1, 1, 0, 0}, {"long", 2, 0, 0x789abc, 1, 1, 0, 0}, {"@long", 3, 0, 0x789abc, 1, 1, 0, 0}, {"<neg", 1, 0, 0xff, 1, 0, 0, 0}, {"m::near", 2, 0, 0x018040, 1, 0, 0, 0}, {"@m::long", 3, 0, 0x789abc, 1, 0, 0, 0},
    {"word+1", 2, 0, 0x1235, 1, 0, 0, 0}, {"(word)+1", 2, 0, 0x1235, 1, 0, 0, 1}, {"(word)-1", 2, 0, 0x1233, 1, 0, 0, 1}, {"(word)*$02", 2, 0, 0x2468, 1, 0, 0, 1}, {"(word)/2", 2, 0, 0x91a, 1, 0, 0, 1}, {"($10)-$01", 1, 1, 0x0f, 1, 0, 0, 1}, {"near-here", 2, 0, 0x40, 1, 0, 0, 0}, {"-word", 2, 0, -0x1234, 1, 0, 0, 0}, {"$12+1", 1, 1, 0x13, 1, 0, 0, 0}, {"$ff+$01", 1, 1, 0x100, 1, 0, 0, 0}, {"$12*word", 2, 0, 0x12 * 0x1234, 1, 0, 0, 0},
    {"$12/0", 1, 0, 0, 0, 0, 0, 0}, {"nosuch", 2, 0, 0, 0, 1, 0, 0}, {"other::near", 2, 0, 0, 0, 0, 0, 0}, {"@::word", 3, 0, 0, 0, 0, 0, 0}, {"<nosuch", 1, 0, 0, 0, 0, 0, 0}};
struct FormText { SyntacticAddressingMode s; const char* before; const char* after; bool paren; };
static const FormText kForms[] = {{SA_imm, "#", "", 0}, {SA_dir, "", "", 0}, {SA_dir_x, "", ",X", 0}, {SA_dir_y, "", ",Y", 0}, {SA_ind, "(", ")", 1}, {SA_ind_x, "(", ",X)", 1}, {SA_ind_y, "(", "),Y", 1},
                                  {SA_lng, "[", "]", 1}, {SA_lng_y, "[", "],Y", 1}, {SA_stk, "", ",S", 0}, {SA_stk_y, "(", ",S),Y", 1}};
static const char* kModesTried[] = {"m8x8", "m8x16", "m16x8", "m16x16", "native", "unk", "emu"};

struct Expect { bool ok = false; std::vector<uint8_t> bytes; };
static Expect Ref(const std::string& n, int suf, SyntacticAddressingMode s, const Operand* a, const Operand* b, const sim::Mode& md) {
  Expect e;
  std::string real = n == "add" ? "adc" : n == "sub" ? "sbc" : n;
  auto byte = [](const Operand* x) { return x && (x->w == 1 || (x->w == 0 && x->known && x->v >= -128 && x->v <= 255)); };
  std::string mode = isa::Form(n, s, a ? a->w : 0, a && a->known, a ? a->v : 0, a && a->name, byte(a) && byte(b));
  if (mode.empty()) return e;
  char width = isa::Width(n);
  int wm = md.m == 2 ? 0 : md.m ? 1 : 2, wx = md.x == 2 ? 0 : md.x ? 1 : 2;
  if (suf) { int k = width == 'm' ? wm : wx; if (!width || (k && k != suf)) return e; }
  int args = isa::Mode(mode).args;
  if (mode == "#m") args = wm;
  if (mode == "#x") args = wx;
  if ((mode == "#m" || mode == "#x") && !args) return e;
  if ((a && !a->ok) || (b && !b->ok)) return e;
  if (n == "add") e.bytes.push_back(0x18);
  if (n == "sub") e.bytes.push_back(0x38);
  e.bytes.push_back(isa::Find(real, mode));
  if (mode == "mv") { e.bytes.push_back(b->v); e.bytes.push_back(a->v); e.ok = true; return e; }
  long v = a ? a->v : 0;
  if (mode == "r" || mode == "rl") {
    if (n != "per" && !a->place) return e;
    if (v < 0 || v >> 16 != 1) return e;
    v -= 0x018000 + 1 + args;
    if (mode == "r" && (v < -128 || v > 127)) return e;
  }
  for (int i = 0; i < args; ++i) e.bytes.push_back(v >> (8 * i));
  e.ok = true;
  return e;
}
static std::string Upper(std::string s) { for (auto& ch : s) ch = toupper(ch); return s; }
static void Run(mc::Ctx& c) {
  for (auto& nv : vf::kOps)
    for (int suf = 0; suf < 3; ++suf) {
      std::string n = nv.first;
      c.part("one line");
      if (!c.want()) continue;
      const char* sufs[] = {"", ".b", ".w"};
      c.describe([&] { return "line [" + n + sufs[suf] + "] in every written form with every operand, in every mode"; });
      bool bad = false;
      uint64_t ok = 0, refused = 0;
      int style = 0;
      auto one = [&](SyntacticAddressingMode s, const std::string& operand, const Operand* a, const Operand* b) {
        if (bad) return;
        for (auto* mode : kModesTried) {
          sim::Mode md;
          sim::FindMode(mode, &md);
          Expect e = Ref(n, suf, s, a, b, md);
          std::string name = n + sufs[suf], text = operand.empty() ? name : name + " " + operand;
          switch (++style % 4) {  // spellings that mean the same
            case 1: text = Upper(name) + (operand.empty() ? "" : "\t " + operand); break;
            case 2: { std::string o = operand; for (size_t i = 0; i < o.size(); ++i) if (o[i] == ',') o.insert(++i, " "); text = name + "  " + o + "  ; comment"; break; }
            case 3: { std::string o = operand; size_t at = o.find_last_of(","); if (at != std::string::npos) for (size_t i = at; i < o.size(); ++i) o[i] = tolower(o[i]); if (b) o = operand; text = name + " " + o; break; }
          }
          std::string src = ".module m\nword .equ $1234\nlong .equ $789abc\nneg .equ -1\n.org $018000\n.entry " + std::string(mode) + "\nhere " + text + "\n.halt\n.org $018040\n.entry unk\nnear nop\n.halt\n";
          Sink sink;
          auto r = Assemble({MakeFakeFile("p.asm", src)}, &sink);
          c.step();
          ++(e.ok ? ok : refused);
          std::string what = "[" + text + "] in mode " + mode;
          if (r.ok() != e.ok) { bad = true; c.fail("line " + n + sufs[suf] + " " + operand, what + (e.ok ? " is refused: " + r.error().ToString() : " is assembled")); return; }
          if (!e.ok) continue;
          std::vector<uint8_t> got;
          for (auto& x : sink.w) if (x.first != 0x018040) { if (x.first != 0x018000 + got.size()) got.push_back(0xee); got.push_back(x.second); }
          if (got != e.bytes) { bad = true; c.fail("line " + n + sufs[suf] + " " + operand, what + " assembles to " + mc::Hex(got) + ", expected " + mc::Hex(e.bytes)); return; }
          c.state(mc::HashBytes(got.data(), got.size()));
        }
      };
      one(SA_imp, "", nullptr, nullptr);
      one(SA_acc, "A", nullptr, nullptr);
      for (auto& f : kForms)
        for (auto& o : kOperands) {
          if (o.paren && f.paren) continue;
          one(f.s, f.before + std::string(o.text) + f.after, &o, nullptr);
        }
      bool mv = n == "mvn" || n == "mvp";
      for (auto& a : kOperands) for (auto& b : kOperands) {
        if (!mv && !c.thorough() && (&a - kOperands) % 9 != 0) continue;
        one(SA_mov, "#" + std::string(a.text) + ",#" + b.text, &a, &b);
      }
      // Operands the grammar does not have.
      for (auto* t : {"A,X", "X", "Y", "S", "#", "#A", "$12,A", "($12),X", "($12,Y)", "($12,S)", "($12,S),X", "[$12],X", "[$12,X]", "$12,X,Y", "#$12,$34", "#$12,#", "$12 $34", "($12", "$12)", "[$12", "(A)", "$12,", ",X", "($12 $34", "($12 $34,X", "(word word", "($12 #$34", "($12,X", "($12,S)", "#$12,X", "[$12)", "($12]"}) {
        if (bad) break;
        std::string src = ".org $018000\n.entry m8x8\nhere " + n + sufs[suf] + " " + t + "\n.halt\n";
        Sink sink;
        c.step();
        ++refused;
        if (Assemble({MakeFakeFile("p.asm", src)}, &sink).ok()) { bad = true; c.fail("line " + n + sufs[suf] + " " + t, "[" + n + sufs[suf] + " " + t + "] is assembled"); }
      }
      c.outcome("assembled", ok); c.outcome("refused", refused); c.trace(ok + refused);
    }
  // Data lines: every list of up to three items of the operand menu.
  const int no = sizeof(kOperands) / sizeof(kOperands[0]);
  for (int d = 1; d <= 3; ++d)
    for (int first = 0; first < no; ++first) {
      c.part("data");
      if (!c.want()) continue;
      const char* dn[] = {"", ".db", ".dw", ".dl"};
      c.describe([&] { return mc::Fmt("%s lists of up to 3 items beginning with %s", dn[d], kOperands[first].text); });
      bool bad = false;
      auto one = [&](std::vector<int> items) {
        if (bad) return;
        std::string text = dn[d];
        std::vector<uint8_t> want;
        bool ok = true;
        for (size_t i = 0; i < items.size(); ++i) {
          auto& o = kOperands[items[i]];
          text += (i ? ", " : " ") + std::string(o.text);
          ok = ok && o.ok;
          for (int k = 0; k < d; ++k) want.push_back(o.v >> (8 * k));
        }
        std::string src = ".module m\nword .equ $1234\nlong .equ $789abc\nneg .equ -1\n.org $018000\nhere " + text + "\n.org $018040\n.entry unk\nnear nop\n.halt\n";
        Sink sink;
        auto r = Assemble({MakeFakeFile("p.asm", src)}, &sink);
        c.step(); c.trace();
        c.outcome(ok ? "assembled" : "refused");
        if (r.ok() != ok) { bad = true; c.fail("data " + text, "[" + text + "]" + (ok ? " is refused: " + r.error().ToString() : " is assembled")); return; }
        if (!ok) return;
        std::vector<uint8_t> got;
        for (auto& x : sink.w) if (x.first < 0x018040) { if (x.first != 0x018000 + got.size()) got.push_back(0xee); got.push_back(x.second); }
        if (got != want || sink.w.size() != want.size() + 1) { bad = true; c.fail("data " + text, "[" + text + "] assembles to " + mc::Hex(got) + ", expected " + mc::Hex(want)); }
      };
      one({first});
      for (int a = 0; a < no; ++a) { one({first, a}); for (int b = 0; b < no; b += c.thorough() ? 1 : 4) one({first, a, b}); }
    }
  // Long lists: the items by turns from each place on.
  std::vector<int> fine;
  for (int i = 0; i < no; ++i) if (kOperands[i].ok && !strstr(kOperands[i].text, "near")) fine.push_back(i);
  for (int d = 1; d <= 3; ++d)
    for (int n : {4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 85, 86, 100, 127, 128, 129, 170, 171, 200, 255, 256, 257, 300, 512, 513, 1000, 4000}) {
      c.part("long data");
      if (!c.want()) continue;
      const char* dn[] = {"", ".db", ".dw", ".dl"};
      c.describe([&] { return mc::Fmt("%s lists of %d items", dn[d], n); });
      bool bad = false;
      for (size_t from = 0; from < (n > 300 ? 4 : fine.size()) && !bad; ++from) {
        std::string text = dn[d];
        std::vector<uint8_t> want;
        for (int i = 0; i < n; ++i) {
          auto& o = kOperands[fine[(from + i * (1 + from % 3)) % fine.size()]];
          text += (i ? ", " : " ") + std::string(o.text);
          for (int k = 0; k < d; ++k) want.push_back(o.v >> (8 * k));
        }
        std::string src = ".module m\nword .equ $1234\nlong .equ $789abc\nneg .equ -1\n.org $018000\nhere " + text + "\n.org $01f040\n.entry unk\nnear nop\n.halt\n";
        Sink sink;
        auto res = Assemble({MakeFakeFile("p.asm", src)}, &sink);
        c.step(); c.trace();
        c.outcome("assembled");
        if (!res.ok()) { bad = true; c.fail(mc::Fmt("data %s of %d", dn[d], n), mc::Fmt("a %s list of %d items is refused: ", dn[d], n) + res.error().ToString()); break; }
        std::vector<uint8_t> got;
        for (auto& x : sink.w) if (x.first < 0x01f040) { if (x.first != 0x018000 + got.size()) got.push_back(0xee); got.push_back(x.second); }
        if (got != want || sink.w.size() != want.size() + 1) {
          bad = true;
          size_t i = 0;
          while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
          c.fail(mc::Fmt("data %s of %d", dn[d], n), mc::Fmt("a %s list of %d items assembles to %zu bytes (expected %zu), wrong from byte %zu on: ", dn[d], n, got.size(), want.size(), i) + text.substr(0, 300));
        }
      }
    }
}
MC_MAIN((mc::Check{.property = "P15", .level = "model_checking",
  .rule = "one program per line: every instruction name x size suffix x written operand form x operand text x entry mode is assembled through the whole tool and the bytes compared with an encoding built from the instruction matrix and the language rules; likewise all data lists",
  .bounds_quick = "93 names, 3 suffixes, 14 forms in 4 spellings, 37 operand texts (pairs for block moves), 7 modes, 32 malformed operands; data lists of up to 3 items, and of 33 sizes up to 4000", .bounds_thorough = "all operand pairs for all names, all data triples", .run = Run, .chunk = 1, .hang_seconds = 120}))
