// Independent list of the keywords of the language.
#ifndef VERIF_NAMES_H_
#define VERIF_NAMES_H_
#include <string>
#include <utility>
#include "nsasm/mnemonic.h"
namespace vf {
using namespace nsasm;
typedef std::pair<const char*, int> NV;
static const NV kOps[] = {
    {"adc", M_adc}, {"and", M_and}, {"asl", M_asl}, {"bit", M_bit}, {"cld", M_cld}, {"cli", M_cli}, {"clv", M_clv}, {"cmp", M_cmp}, {"cpx", M_cpx}, {"cpy", M_cpy}, {"dec", M_dec},
    {"dex", M_dex}, {"dey", M_dey}, {"eor", M_eor}, {"inc", M_inc}, {"inx", M_inx}, {"iny", M_iny}, {"lda", M_lda}, {"ldx", M_ldx}, {"ldy", M_ldy}, {"lsr", M_lsr}, {"mvn", M_mvn},
    {"mvp", M_mvp}, {"nop", M_nop}, {"ora", M_ora}, {"pea", M_pea}, {"pei", M_pei}, {"per", M_per}, {"pha", M_pha}, {"phb", M_phb}, {"phd", M_phd}, {"phk", M_phk}, {"phx", M_phx},
    {"phy", M_phy}, {"pla", M_pla}, {"plb", M_plb}, {"pld", M_pld}, {"plx", M_plx}, {"ply", M_ply}, {"rol", M_rol}, {"ror", M_ror}, {"sbc", M_sbc}, {"sed", M_sed}, {"sei", M_sei},
    {"sta", M_sta}, {"stp", M_stp}, {"stx", M_stx}, {"sty", M_sty}, {"stz", M_stz}, {"tax", M_tax}, {"tay", M_tay}, {"tcd", M_tcd}, {"tcs", M_tcs}, {"tdc", M_tdc}, {"trb", M_trb},
    {"tsb", M_tsb}, {"tsc", M_tsc}, {"tsx", M_tsx}, {"txa", M_txa}, {"txs", M_txs}, {"txy", M_txy}, {"tya", M_tya}, {"tyx", M_tyx}, {"wai", M_wai}, {"wdm", M_wdm}, {"xba", M_xba},
    {"bcc", M_bcc}, {"bcs", M_bcs}, {"beq", M_beq}, {"bmi", M_bmi}, {"bne", M_bne}, {"bpl", M_bpl}, {"bra", M_bra}, {"brk", M_brk}, {"brl", M_brl}, {"bvc", M_bvc}, {"bvs", M_bvs},
    {"cop", M_cop}, {"jmp", M_jmp}, {"jsl", M_jsl}, {"jsr", M_jsr}, {"rti", M_rti}, {"rtl", M_rtl}, {"rts", M_rts}, {"clc", M_clc}, {"php", M_php}, {"plp", M_plp}, {"rep", M_rep},
    {"sec", M_sec}, {"sep", M_sep}, {"xce", M_xce}, {"add", PM_add}, {"sub", PM_sub}};
static const NV kSuf[] = {{".b", S_b}, {".w", S_w}};
static const NV kDir[] = {{".begin", D_begin}, {".db", D_db}, {".dl", D_dl}, {".dw", D_dw}, {".end", D_end}, {".entry", D_entry}, {".equ", D_equ}, {".halt", D_halt}, {".mode", D_mode}, {".module", D_module}, {".org", D_org}, {".remote", D_remote}};

static std::string Lower(std::string s) { for (char& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }

inline int Name(int table, const std::string& s) {  // 0 instruction, 1 suffix, 2 directive
  std::string l = Lower(s);
  if (table == 0) for (auto& e : kOps) { if (l == e.first) return e.second; }
  if (table == 1) for (auto& e : kSuf) { if (l == e.first) return e.second; }
  if (table == 2) for (auto& e : kDir) { if (l == e.first) return e.second; }
  return -1;
}
}  // namespace vf
#endif
