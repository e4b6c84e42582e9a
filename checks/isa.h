// The 65816 instruction set, written from the processor's data sheet.
#ifndef VERIF_ISA_H_
#define VERIF_ISA_H_
#include <string>
#include <vector>
#include "checks/names.h"
#include "nsasm/addressing_mode.h"
namespace isa {
using namespace nsasm;
// Mode notation: i implied, A accumulator, #b #w #m #x immediates (byte, word, by the m or x flag), d direct page,
// a absolute, l long, "dx" indexed, (..) indirect, [..] long indirect, s stack relative, mv block move, r rl relative.
static const char* const kMatrix[256] = {
    "brk #b", "ora (dx)", "cop #b", "ora s", "tsb d", "ora d", "asl d", "ora [d]", "php i", "ora #m", "asl A", "phd i", "tsb a", "ora a", "asl a", "ora l",
    "bpl r", "ora (d)y", "ora (d)", "ora (s)y", "trb d", "ora dx", "asl dx", "ora [d]y", "clc i", "ora ay", "inc A", "tcs i", "trb a", "ora ax", "asl ax", "ora lx",
    "jsr a", "and (dx)", "jsl l", "and s", "bit d", "and d", "rol d", "and [d]", "plp i", "and #m", "rol A", "pld i", "bit a", "and a", "rol a", "and l",
    "bmi r", "and (d)y", "and (d)", "and (s)y", "bit dx", "and dx", "rol dx", "and [d]y", "sec i", "and ay", "dec A", "tsc i", "bit ax", "and ax", "rol ax", "and lx",
    "rti i", "eor (dx)", "wdm #b", "eor s", "mvp mv", "eor d", "lsr d", "eor [d]", "pha i", "eor #m", "lsr A", "phk i", "jmp a", "eor a", "lsr a", "eor l",
    "bvc r", "eor (d)y", "eor (d)", "eor (s)y", "mvn mv", "eor dx", "lsr dx", "eor [d]y", "cli i", "eor ay", "phy i", "tcd i", "jmp l", "eor ax", "lsr ax", "eor lx",
    "rts i", "adc (dx)", "per rl", "adc s", "stz d", "adc d", "ror d", "adc [d]", "pla i", "adc #m", "ror A", "rtl i", "jmp (a)", "adc a", "ror a", "adc l",
    "bvs r", "adc (d)y", "adc (d)", "adc (s)y", "stz dx", "adc dx", "ror dx", "adc [d]y", "sei i", "adc ay", "ply i", "tdc i", "jmp (ax)", "adc ax", "ror ax", "adc lx",
    "bra r", "sta (dx)", "brl rl", "sta s", "sty d", "sta d", "stx d", "sta [d]", "dey i", "bit #m", "txa i", "phb i", "sty a", "sta a", "stx a", "sta l",
    "bcc r", "sta (d)y", "sta (d)", "sta (s)y", "sty dx", "sta dx", "stx dy", "sta [d]y", "tya i", "sta ay", "txs i", "txy i", "stz a", "sta ax", "stz ax", "sta lx",
    "ldy #x", "lda (dx)", "ldx #x", "lda s", "ldy d", "lda d", "ldx d", "lda [d]", "tay i", "lda #m", "tax i", "plb i", "ldy a", "lda a", "ldx a", "lda l",
    "bcs r", "lda (d)y", "lda (d)", "lda (s)y", "ldy dx", "lda dx", "ldx dy", "lda [d]y", "clv i", "lda ay", "tsx i", "tyx i", "ldy ax", "lda ax", "ldx ay", "lda lx",
    "cpy #x", "cmp (dx)", "rep #b", "cmp s", "cpy d", "cmp d", "dec d", "cmp [d]", "iny i", "cmp #m", "dex i", "wai i", "cpy a", "cmp a", "dec a", "cmp l",
    "bne r", "cmp (d)y", "cmp (d)", "cmp (s)y", "pei d", "cmp dx", "dec dx", "cmp [d]y", "cld i", "cmp ay", "phx i", "stp i", "jmp [a]", "cmp ax", "dec ax", "cmp lx",
    "cpx #x", "sbc (dx)", "sep #b", "sbc s", "cpx d", "sbc d", "inc d", "sbc [d]", "inx i", "sbc #m", "nop i", "xba i", "cpx a", "sbc a", "inc a", "sbc l",
    "beq r", "sbc (d)y", "sbc (d)", "sbc (s)y", "pea #w", "sbc dx", "inc dx", "sbc [d]y", "sed i", "sbc ay", "plx i", "xce i", "jsr (ax)", "sbc ax", "inc ax", "sbc lx"};
struct ModeInfo { const char* text; AddressingMode mode; int args; };  // args: operand bytes, -1 by flag
static const ModeInfo kModes[] = {
    {"i", A_imp, 0}, {"A", A_acc, 0}, {"#b", A_imm_b, 1}, {"#w", A_imm_w, 2}, {"#m", A_imm_fm, -1}, {"#x", A_imm_fx, -1}, {"d", A_dir_b, 1}, {"a", A_dir_w, 2}, {"l", A_dir_l, 3},
    {"dx", A_dir_bx, 1}, {"dy", A_dir_by, 1}, {"ax", A_dir_wx, 2}, {"ay", A_dir_wy, 2}, {"lx", A_dir_lx, 3}, {"(d)", A_ind_b, 1}, {"(a)", A_ind_w, 2}, {"(dx)", A_ind_bx, 1},
    {"(d)y", A_ind_by, 1}, {"(ax)", A_ind_wx, 2}, {"[d]", A_lng_b, 1}, {"[a]", A_lng_w, 2}, {"[d]y", A_lng_by, 1}, {"s", A_stk, 1}, {"(s)y", A_stk_y, 1}, {"mv", A_mov, 2},
    {"r", A_rel8, 1}, {"rl", A_rel16, 2}};
inline const ModeInfo& Mode(const std::string& t) { for (auto& m : kModes) if (t == m.text) return m; abort(); }
inline const ModeInfo& Mode(AddressingMode a) { for (auto& m : kModes) if (a == m.mode) return m; abort(); }
struct Op { int code; std::string name; Mnemonic mn; std::string mode; AddressingMode am; int args; };
inline const std::vector<Op>& Ops() {
  static const std::vector<Op>* ops = [] {
    auto* v = new std::vector<Op>;
    for (int i = 0; i < 256; ++i) {
      std::string s = kMatrix[i];
      Op o;
      o.code = i; o.name = s.substr(0, 3); o.mode = s.substr(4);
      o.mn = Mnemonic(vf::Name(0, o.name)); o.am = Mode(o.mode).mode; o.args = Mode(o.mode).args;
      v->push_back(o);
    }
    return v;
  }();
  return *ops;
}
// Opcode of a name in a mode notation, or -1.
inline int Find(const std::string& name, const std::string& mode) {
  for (auto& o : Ops()) if (o.name == name && o.mode == mode) return o.code;
  return -1;
}
inline std::string NameOf(Mnemonic m) { for (auto& n : vf::kOps) if (n.second == m) return n.first; return "?"; }
// Which flag gives the data width of an instruction: 'm', 'x' or 0.
inline char Width(const std::string& n) {
  static const std::string mm = " adc and asl bit cmp dec eor inc lda lsr ora pha pla rol ror sbc sta stz trb tsb txa tya add sub ", xx = " cpx cpy dex dey inx iny ldx ldy phx phy plx ply stx sty tax tay tsx txy tyx ";
  if (mm.find(" " + n + " ") != std::string::npos) return 'm';
  if (xx.find(" " + n + " ") != std::string::npos) return 'x';
  return 0;
}
}  // namespace isa
#endif
