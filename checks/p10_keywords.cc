// P10: instruction, size-suffix and directive names convert both ways, in any case, and nothing else does.
#include <functional>
#include <set>
#include "lib/mc.h"
#include "nsasm/execution_state.h"
#include "nsasm/mnemonic.h"
using namespace nsasm;
#include "checks/names.h"
using vf::kOps; using vf::kSuf; using vf::kDir; using vf::NV; using vf::Lower;
static int Want(int t, const std::string& s) { return vf::Name(t, s); }
static int Got(int table, const std::string& s) {
  if (table == 0) { auto r = ToMnemonic(s); return r ? int(*r) : -1; }
  if (table == 1) { auto r = ToSuffix(s); return r ? int(*r) : -1; }
  auto r = ToDirectiveName(s);
  return r ? int(*r) : -1;
}
// The processor modes: emulation, m and x, each 0 off, 1 on, 2 unknown.
struct ModeName { const char* name; int e, m, x; };
static const ModeName kModes[] = {{"unk", 2, 2, 2}, {"emu", 1, 1, 1}, {"native", 0, 2, 2}, {"m8", 0, 1, 2}, {"m16", 0, 0, 2}, {"x8", 0, 2, 1}, {"x16", 0, 2, 0}, {"m8x8", 0, 1, 1}, {"m8x16", 0, 1, 0}, {"m16x8", 0, 0, 1}, {"m16x16", 0, 0, 0}};
static int BitOf(BitState b) { return b == B_on ? 1 : b == B_off ? 0 : 2; }
static bool CheckMode(mc::Ctx& c, const std::string& s) {
  const ModeName* want = nullptr;
  for (auto& m : kModes) if (Lower(s) == m.name) want = &m;
  auto got = StatusFlags::FromName(s);
  c.step();
  if (got.has_value() != bool(want)) { c.fail("mode '" + s + "'", "'" + s + "' is " + (want ? "not recognised as a mode" : "taken for the mode " + got->ToName())); return false; }
  if (want && (BitOf(got->EBit()) != want->e || BitOf(got->MBit()) != want->m || BitOf(got->XBit()) != want->x || got->ToName() != want->name)) { c.fail("mode '" + s + "'", "'" + s + "' has the bits of " + got->ToName()); return false; }
  return true;
}
static const char* kTab[] = {"instruction", "suffix", "directive"};
static bool Check(mc::Ctx& c, int t, const std::string& s, int want) {
  int g = Got(t, s);
  c.step();
  if (g == want) return true;
  c.fail(mc::Fmt("%s '%s'", kTab[t], s.c_str()), mc::Fmt("'%s' as %s name is %d, expected %d", s.c_str(), kTab[t], g, want));
  return false;
}
static void Run(mc::Ctx& c) {
  // Each name, its print form, all its capitalisations and all its one-character edits.
  for (int t = 0; t < 3; ++t) {
    std::vector<NV> names;
    if (t == 0) names.assign(std::begin(kOps), std::end(kOps)); else if (t == 1) names.assign(std::begin(kSuf), std::end(kSuf)); else names.assign(std::begin(kDir), std::end(kDir));
    for (auto& n : names) {
      c.part(std::string(kTab[t]) + " names");
      if (!c.want()) continue;
      std::string name = n.first;
      c.describe([&] { return std::string("name ") + name + ": printed form, all capitalisations, all one-character edits"; });
      std::string printed(t == 0 ? ToString(Mnemonic(n.second)) : t == 1 ? ToString(Suffix(n.second)) : ToString(DirectiveName(n.second)));
      if (Lower(printed) != name) { c.fail("printed " + name, "prints as '" + printed + "'"); continue; }
      Check(c, t, printed, n.second);
      for (unsigned m = 0; m < (1u << name.size()); ++m) { std::string s = name; for (size_t i = 0; i < s.size(); ++i) if (m >> i & 1 && s[i] >= 'a' && s[i] <= 'z') s[i] -= 32; if (!Check(c, t, s, n.second)) break; c.state(mc::HashStr(s, t)); }
      for (size_t i = 0; i <= name.size(); ++i)
        for (int ch = 0; ch < 256; ++ch) {
          std::string s = name;
          s.insert(i, 1, char(ch));
          if (!Check(c, t, s, Want(t, s))) return;
          c.state(mc::HashStr(s, t));
          if (i < name.size()) { s = name; s[i] = char(ch); if (!Check(c, t, s, Want(t, s))) return; c.state(mc::HashStr(s, t)); }
        }
      for (size_t i = 0; i < name.size(); ++i) { std::string s = name; s.erase(i, 1); Check(c, t, s, Want(t, s)); Check(c, t, name.substr(0, i), Want(t, name.substr(0, i))); }
      for (int u = 0; u < 3; ++u) Check(c, u, name, Want(u, name));
      c.outcome("recognised", 1u << name.size());
      c.trace();
    }
  }
  // Every short string.
  const std::string alpha = "abcdefghijklmnopqrstuvwxyz.";
  for (char c0 : alpha)
    for (char c1 : alpha) {
      c.part("all short strings");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("all strings of up to 4 characters starting %c%c", c0, c1); });
      bool bad = false;
      auto each = [&](const std::string& s) { for (int t = 0; t < 3 && !bad; ++t) { int w = Want(t, s); c.outcome(w >= 0 ? "recognised" : "not a name"); if (!Check(c, t, s, w)) bad = true; } };
      each(std::string{c0});
      each(std::string{c0, c1});
      for (char c2 : alpha) { each(std::string{c0, c1, c2}); for (char c3 : alpha) { each(std::string{c0, c1, c2, c3}); if (c.thorough()) for (char c4 : alpha) each(std::string{c0, c1, c2, c3, c4}); } }
      c.trace();
    }
  for (auto& m : kModes) {
    c.part("mode names");
    if (!c.want()) continue;
    std::string name = m.name;
    c.describe([&] { return "mode " + name + ": all capitalisations, all edits of one character, all of those with one more"; });
    for (unsigned b = 0; b < (1u << name.size()); ++b) { std::string s = name; for (size_t i = 0; i < s.size(); ++i) if (b >> i & 1 && s[i] >= 'a' && s[i] <= 'z') s[i] -= 32; if (!CheckMode(c, s)) break; c.state(mc::HashStr(s, 9)); }
    bool bad = false;
    auto edits = [&](const std::string& from, int lo, int hi, auto&& then) {
      for (size_t i = 0; i <= from.size() && !bad; ++i) {
        for (int ch = lo; ch < hi && !bad; ++ch) { std::string s = from; s.insert(i, 1, char(ch)); then(s); if (i < from.size()) { s = from; s[i] = char(ch); then(s); } }
        if (i < from.size()) { std::string s = from; s.erase(i, 1); then(s); then(from.substr(0, i)); then(from.substr(i)); }
      }
    };
    edits(name, 0, 256, [&](const std::string& s) {
      if (!CheckMode(c, s)) { bad = true; return; }
      bool plain = true;
      for (char ch : s) if (ch < '0' || ch > 'x') plain = false;
      if (plain) edits(s, '0', 'y', [&](const std::string& u) { if (!CheckMode(c, u)) bad = true; });
    });
    for (auto& n : kModes) if (!CheckMode(c, name + n.name) || !CheckMode(c, name + " " + n.name) || !CheckMode(c, name + "," + n.name)) break;
    c.trace();
  }
  for (char c0 : std::string("mxMX8160unke")) {
    c.part("all short modes");
    if (!c.want()) continue;
    int len = c.thorough() ? 7 : 6;
    c.describe([&] { return mc::Fmt("all strings of up to %d of the characters m x M X 8 1 6 0 u n k e that start with %c", len, c0); });
    const std::string al = "mxMX8160unke";
    std::vector<int> ix(1, 0);
    std::string s(1, c0);
    uint64_t n = 0;
    std::function<bool()> go = [&] { ++n; if (!CheckMode(c, s)) return false; if (int(s.size()) == len) return true; for (char ch : al) { s.push_back(ch); if (!go()) return false; s.pop_back(); } return true; };
    go();
    c.trace(n); c.state(c0);
  }
  c.part("lists");
  if (c.want()) {
    c.describe([] { return std::string("the lists of all names"); });
    std::set<int> m, s;
    for (auto x : AllMnemonics()) m.insert(x);
    for (auto x : AllSuffixes()) s.insert(x);
    std::set<int> wm;
    for (auto& e : kOps) wm.insert(e.second);
    if (m != wm || AllMnemonics().size() != wm.size()) c.fail("all instructions", "the list of all instruction names is not complete and duplicate free");
    if (s != std::set<int>{S_b, S_w} || AllSuffixes().size() != 2) c.fail("all suffixes", "the list of all suffixes is wrong");
    CheckMode(c, "");
    if (Got(0, "") >= 0 || Got(1, "") >= 0 || Got(2, "") >= 0) c.fail("empty", "the empty string is a name");
    if (ToString(S_none) != "") c.fail("no suffix", "the absent suffix prints as text");
    c.step(4);
    c.trace();
  }
}
MC_MAIN((mc::Check{.property = "P10", .level = "model_checking",
  .rule = "every name with every capitalisation and every one-byte edit, and every string over letters and dot up to a length, against an independent list of 65816 names; a state is a distinct (table, string) near a name",
  .bounds_quick = "93 + 2 + 12 + 11 names; all strings of up to 4 of 27 characters x 3 tables, up to 6 of 12 characters as modes", .bounds_thorough = "all strings of up to 5 of 27 characters x 3 tables, up to 7 of 12 characters as modes", .run = Run}))
