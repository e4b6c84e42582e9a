// Which addressing mode a written operand form selects.
#ifndef VERIF_FORM_H_
#define VERIF_FORM_H_
#include "checks/isa.h"
#include "nsasm/addressing_mode.h"
namespace isa {
using namespace nsasm;
// Which mode notation a syntactic form with operand width w (1, 2, 3 bytes; 0 unknown) selects for a name; "" if none.
inline std::string Form(const std::string& n0, SyntacticAddressingMode s, int w, bool value_known, long v, bool name, bool both_bytes) {
  std::string n = n0 == "add" ? "adc" : n0 == "sub" ? "sbc" : n0;
  auto has = [&](const std::string& m) { return Find(n, m) >= 0 ? m : std::string(); };
  if (!has("r").empty() || !has("rl").empty()) return s == SA_dir && name ? has("r") + has("rl") : "";
  auto sized = [&](const char* b, const char* a, const char* l) { return w == 1 ? has(b) : w == 2 ? has(a) : w == 3 ? has(l) : std::string(); };
  bool byte = w == 1 || (w == 0 && value_known && v >= -128 && v <= 255), word = w == 2 || (w == 0 && value_known && v >= -32768 && v <= 65535);
  switch (s) {
    case SA_imp: return has("A") + has("i");
    case SA_acc: return has("A");
    case SA_imm: return has("#m") + has("#x") + (byte ? has("#b") : "") + (word ? has("#w") : "");
    case SA_dir: return sized("d", "a", "l");
    case SA_dir_x: return sized("dx", "ax", "lx");
    case SA_dir_y: return sized("dy", "ay", "?");
    case SA_ind: return sized("(d)", "(a)", "?");
    case SA_ind_x: return sized("(dx)", "(ax)", "?");
    case SA_ind_y: return sized("(d)y", "?", "?");
    case SA_lng: return sized("[d]", "[a]", "?");
    case SA_lng_y: return sized("[d]y", "?", "?");
    case SA_stk: return byte ? has("s") : "";
    case SA_stk_y: return byte ? has("(s)y") : "";
    case SA_mov: return both_bytes ? has("mv") : "";
  }
  return "";
}
}  // namespace isa
#endif
