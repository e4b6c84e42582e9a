// P27: the command line tools do what they say, on real files.
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include <iterator>
#include "checks/dis.h"
#include "checks/proc.h"
#include "checks/romref.h"
#include "nsasm/assembler.h"
using namespace dis;
typedef std::vector<uint8_t> Bytes;

static std::string Tool(const char* n) { return std::string(getenv("VF_TOOLS")) + "/" + n; }
static void Put(const std::string& path, const std::string& s) { std::ofstream f(path, std::ios::binary); f.write(s.data(), s.size()); f.flush(); if (!f) abort(); }
static std::optional<std::string> Get(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) return {};
  return std::string((std::istreambuf_iterator<char>(f)), {});
}
static std::vector<std::string> Names(const std::string& d) {
  std::vector<std::string> r;
  DIR* p = opendir(d.c_str());
  while (auto* e = readdir(p)) r.push_back(e->d_name);
  closedir(p);
  std::sort(r.begin(), r.end());
  return r;
}
struct Log : OutputSink {
  std::vector<std::pair<uint32_t, Bytes>> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override { w.push_back({Num(a), Bytes(d.begin(), d.end())}); return {}; }
};
static void Mark(Bytes* d, ref::Map m) {
  for (size_t at : {size_t(0x7fdc), size_t(0xffdc)}) { (*d)[at + 2] = ~(*d)[at]; (*d)[at + 3] = ~(*d)[at + 1]; }
  (*d)[m == ref::LO ? 0xffdc : 0x7fdc] ^= 1;
}
struct Img { ref::Map map; Bytes head, data; std::string file; };
static std::string Flat(std::string s) { for (auto& ch : s) if (ch == '\n') ch = '|'; return s; }
static bool Crash(mc::Ctx& c, const std::string& what, const proc::Result& r) {
  if (!r.timeout && !r.signal) return false;
  c.fail(what, what + (r.timeout ? " does not finish" : mc::Fmt(" is ended by signal %d", r.signal)));
  return true;
}

// ---- quick_assemble ----
static void Assembling(mc::Ctx& c) {
  bool t = c.thorough();
  std::vector<Img> imgs;
  for (int m = 0; m < 3; ++m) {
    Img i{ref::Map(m), m == 1 ? Bytes(0x200, 0x5a) : Bytes(), ref::Pattern(m == 2 ? 0x410000 : 0x18000), ""};
    Mark(&i.data, i.map);
    i.file = c.scratch() + "/asm/in.sfc";
    imgs.push_back(std::move(i));
  }
  static const char* const lines[] = {".org $8000", ".org $c0fffe", ".org $7e0000", ".org $02fffe", ".org $818000", ".db 1, 2, 3", ".dw $1234", ".entry m8 : rts", ".entry m16 : jsr $9000 : rts", "bad line", "x1:", ".dl x1"};
  const int m = sizeof(lines) / sizeof(lines[0]);
  for (auto& img : imgs)
    for (int first = 0; first < m; ++first) {
      c.part("quick_assemble");
      if (img.map == ref::EXHI && !t && first > 3) continue;
      if (!c.want()) continue;
      int len = img.map == ref::EXHI ? 2 : 3;
      c.describe([&] { return mc::Fmt("layout %d: every program of %d lines of %d forms that starts with [%s], written to a file and checked against the ROM", img.map, len, m, lines[first]); });
      std::string dir = c.scratch() + "/asm", rom = dir + "/in.sfc", out = dir + "/out.sfc", src = dir + "/a.asm", src2 = dir + "/b.asm";
      mkdir(dir.c_str(), 0700);
      std::string orig = std::string(img.head.begin(), img.head.end()) + std::string(img.data.begin(), img.data.end());
      Put(rom, orig);
      std::vector<int> ix(len, 0);
      ix[0] = first;
      uint64_t n = 0;
      while (true) {
        // The first line goes to one file, the others to another one.
        std::string a = std::string(lines[ix[0]]) + "\n", b;
        for (int i = 1; i < len; ++i) (ix[1] % 2 ? b : a) += std::string(lines[ix[i]]) + "\n";
        std::string name = mc::Fmt("layout %d, files [", img.map) + Flat(a) + "] [" + Flat(b) + "]";
        Put(src, a); Put(src2, b);
        Log log;
        auto r = Assemble({MakeFakeFile(src, a), MakeFakeFile(src2, b)}, &log);
        bool ok = r.ok(), same = true;
        Bytes want = img.data;
        for (auto& w : log.w)
          for (size_t i = 0; i < w.second.size(); ++i) {
            int64_t o = ref::Offset(ref::Wrap(w.first, i), img.map);
            if (o < 0 || o >= int64_t(want.size())) ok = false;
            else { if (img.data[o] != w.second[i]) same = false; want[o] = w.second[i]; }
          }
        std::string all = std::string(img.head.begin(), img.head.end()) + std::string(want.begin(), want.end());
        for (int form = 0; form < 4; ++form) {
          // 0: new file, 1: existing file, 2: "-", 3: "-" with the result as the ROM
          if (form == 3 && (!ok || (img.map == ref::EXHI && !t))) continue;
          if (form == 1 && img.map != ref::LO) continue;
          unlink(out.c_str());
          if (form == 1) Put(out, "old contents");
          if (form == 3) Put(out, all);
          auto before = Names(dir);
          proc::Result q = proc::Run({Tool("quick_assemble"), form == 3 ? out : rom, form < 2 ? out : "-", src, src2}, dir);
          ++n;
          std::string what = name + (form == 0 ? " to a new file" : form == 1 ? " to an old file" : form == 2 ? " compared" : " compared with the result");
          if (Crash(c, what, q)) continue;
          bool good = form < 2 ? ok : form == 2 ? ok && same : true;
          c.outcome(good ? "success expected" : "error expected");
          if ((q.code == 0) != good) { c.fail(what, what + mc::Fmt(": exit code %d, ", q.code) + Flat(q.out)); continue; }
          if (Get(rom) != orig) { c.fail(what, what + ": the ROM was changed"); Put(rom, orig); }
          if (form == 3) { if (Get(out) != all) c.fail(what, what + ": the ROM was changed"); }
          else if (form < 2 && good) { if (Get(out) != all) c.fail(what, what + ": the output is not the ROM with the bytes of the program"); }
          else if (form == 1) { if (Get(out) != std::string("old contents")) c.fail(what, what + ": failed, and changed the output"); }
          else if (Names(dir) != before) c.fail(what, what + ": makes a file");
          if (!good && q.out.empty()) c.fail(what, what + ": fails without a word");
          if (good && form >= 2) {
            for (auto& j : r->JumpTargets()) if (q.out.find(j.first.ToString() + " ") == q.out.npos) c.fail(what, what + ": jump target " + j.first.ToString() + " is not printed");
            size_t count = 0;
            for (size_t p = 0; (p = q.out.find("\n  $", p)) != q.out.npos; ++p) ++count;
            if (count != r->JumpTargets().size()) c.fail(what, what + mc::Fmt(": %d jump targets are printed instead of %d", int(count), int(r->JumpTargets().size())));
          }
        }
        int i = len - 1;
        for (; i >= 1; --i) { if (++ix[i] < m) break; ix[i] = 0; }
        if (i < 1) break;
      }
      c.step(n); c.trace(n);
      c.state(img.map * 100 + first);
      for (auto* f : {&rom, &out, &src, &src2}) unlink(f->c_str());
    }
}

// ---- listings ----
struct Listing {
  std::set<uint32_t> at, errors;
  std::vector<uint32_t> order;
  std::map<uint32_t, std::string> text;
  bool empty = false, unk = false;
};
static std::optional<Listing> Read(const std::string& out) {
  Listing l;
  size_t p = 0;
  while (p < out.size()) {
    size_t e = out.find('\n', p);
    if (e == out.npos) e = out.size();
    std::string s = out.substr(p, e - p);
    p = e + 1;
    unsigned a;
    if (sscanf(s.c_str(), "; ERROR branching to $%x", &a) == 1) { l.errors.insert(a); continue; }
    if (s.find("; Disassembled no") == 0) { l.empty = true; continue; }
    if (s.empty() || s[0] == ';') continue;
    if (s.find(".entry") != s.npos && s.find("unk") != s.npos) l.unk = true;
    if (size_t o = s.find(".org"); o != s.npos) { if (sscanf(s.c_str() + o, ".org $%x", &a) != 1) return {}; continue; }
    size_t k = s.rfind("; $");
    if (k == s.npos) continue;
    if (sscanf(s.c_str() + k, "; $%x", &a) != 1) return {};
    if (!l.at.insert(a).second) return {};
    l.order.push_back(a);
    l.text[a] = s.substr(0, k);
  }
  return l;
}
struct World2 { std::string rom, dir; Bytes data; };
static uint32_t Off(uint32_t a) { return ref::Offset(a, ref::LO); }
// The routines that the pieces call; they call each other.
static Bytes Base() {
  Bytes d(0x18000, 0x60);
  auto put = [&](uint32_t at, std::initializer_list<int> b) { for (int v : b) d[Off(at++)] = v; };
  put(0x809000, {0xa9, 0x12, 0x60});                          // lda #; rts at 8 bits
  put(0x029100, {0x18, 0x69, 0x60, 0x22, 0x00, 0x93, 0x80, 0x6b});   // clc adc# jsl $809300 rtl
  put(0x809300, {0x20, 0x00, 0x94, 0xd0, 0xfb, 0x60});        // jsr $9400; bne *-3; rts
  put(0x809400, {0xea, 0x20, 0x00, 0x93, 0x20, 0x00, 0x96, 0x60});
  put(0x809700, {0xe2, 0x30, 0x20, 0x00, 0x9a, 0x60});        // two routines that call a third at different widths
  put(0x809800, {0xc2, 0x20, 0x20, 0x00, 0x9a, 0x60});
  put(0x809a00, {0xa9, 0xea, 0xea, 0x60});
  put(0x019a1b, {0x22, 0x20, 0x9a, 0x02, 0x6b});              // ends at the address of what it calls, in another bank
  put(0x029a20, {0x6b});
  put(0x809c00, {0x20, 0x00, 0x80, 0x60});                    // call and jump to $808000, where the programs are
  put(0x809d00, {0xea, 0x4c, 0x00, 0x80});
  put(0x809e00, {0x20, 0x00, 0x9c, 0x22, 0x03, 0x80, 0x80, 0x60});
  put(0x029500, {0x5c, 0x00, 0x96, 0x80});                    // jml $809600
  put(0x809600, {0xc2, 0x20, 0xa9, 0x34, 0x12, 0x60});        // rep #$20; lda #$1234; rts
  Mark(&d, ref::LO);
  return d;
}
// Whether instructions of a listing share bytes, which no program can do.
static bool Overlap(const Bytes& d, const Listing& l) {
  std::set<uint32_t> used;
  for (auto& t : l.text) {
    int64_t o = ref::Offset(t.first, ref::LO);
    if (o < 0 || o >= int64_t(d.size())) continue;
    const isa::Op* op = &isa::Ops()[d[o]];
    std::string s = t.second;
    int size = 1;
    if (s.find(" add") != s.npos || s.find(" sub") != s.npos) { op = &isa::Ops()[d[Off(Wrap(t.first, 1))]]; size = 2; }
    int args = op->args;
    if (args < 0) { size_t h = s.find("#$"), e = h + 2; while (e < s.size() && isxdigit(s[e])) ++e; args = (e - h - 1) / 2; }
    for (int i = 0; i < size + args; ++i) if (!used.insert(Wrap(t.first, i)).second) return true;
  }
  return false;
}
// Targets of calls and jumps among the listed instructions.
static std::set<uint32_t> Targets(const Bytes& d, const std::set<uint32_t>& at) {
  std::set<uint32_t> r;
  for (uint32_t pc : at) {
    auto get = [&](int i) -> int { int64_t o = ref::Offset(Wrap(pc, i), ref::LO); return o < 0 || o >= int64_t(d.size()) ? 0 : d[o]; };
    int op = get(0), w = get(1) | get(2) << 8;
    if (op == 0x18 || op == 0x38) { if (!at.count(Wrap(pc, 1))) continue; }
    if (op == 0x20 || op == 0x4c) r.insert((pc & 0xff0000) | w);
    if (op == 0x22 || op == 0x5c) r.insert(w | get(3) << 16);
  }
  return r;
}
// Judges a listing: closed, and the bytes of the ROM.
static bool Closed(mc::Ctx& c, const std::string& what, const Bytes& d, const Listing& l, const std::set<uint32_t>& known) {
  for (uint32_t a : Targets(d, l.at))
    if (!l.at.count(a) && !l.errors.count(a) && !known.count(a)) { c.fail(what, what + mc::Fmt(": $%06x is called or jumped to, and neither listed nor reported", a)); return false; }
  return true;
}
static int Tri(BitState b) { return b == B_on ? 1 : b == B_off ? 0 : 2; }
// Runs the code from the seeds through every call and jump (a call comes back as its convention says) in every
// processor state; each instruction that is run must be listed, with the operand size of that state. Calls into
// given code (`known`) and to addresses that are reported as errors are not followed.
static bool Follow(mc::Ctx& c, const std::string& what, const Bytes& d, const Listing& l, const std::vector<std::pair<uint32_t, sim::Mode>>& seeds, const Convs& convs, const std::set<uint32_t>& known, uint64_t* steps) {
  std::map<uint32_t, std::set<sim::Cpu>> at;
  std::vector<std::pair<uint32_t, sim::Cpu>> todo;
  auto go = [&](uint32_t pc, const sim::Cpu& s) { if (s.stk.size() <= 4 && at[pc].insert(s).second) todo.push_back({pc, s}); };
  auto enter = [&](uint32_t pc, sim::Cpu s) {
    if (known.count(pc) || l.errors.count(pc)) return;
    s.stk.clear();
    s.e0 = s.e; s.m0 = s.m; s.x0 = s.x; s.c0 = s.c;
    go(pc, s);
  };
  for (auto& s : seeds) for (auto& e : sim::Entry(s.second)) enter(s.first, e);
  std::vector<sim::Cpu> out;
  while (!todo.empty()) {
    auto [pc, s] = todo.back();
    todo.pop_back();
    ++*steps;
    auto fail = [&](const std::string& why) { c.fail(what, what + mc::Fmt(": $%06x is run with e=%d m=%d x=%d, ", pc, s.e, s.m, s.x) + why); return false; };
    auto o = FetchFrom([&](uint32_t a) -> int { int64_t f = ref::Offset(a, ref::LO); return f < 0 || f >= int64_t(d.size()) ? -1 : d[f]; }, pc, s.m, s.x, convs);
    if (!o) return fail("and cannot be read, but no error is reported");
    auto line = l.text.find(pc);
    if (line == l.text.end()) {  // the second half of add or sub
      auto before = l.text.find(Wrap(pc, -1));
      if (before == l.text.end() || (before->second.find(" add") == std::string::npos && before->second.find(" sub") == std::string::npos)) return fail("but not listed");
      line = before;
    }
    if (o->op->mode == "#m" || o->op->mode == "#x") {
      size_t h = line->second.find("#$"), e = h + 2;
      if (h == std::string::npos) { if (line->first == pc && line->second.find(" clc") == std::string::npos && line->second.find(" sec") == std::string::npos) return fail("but has no operand in the listing"); }
      else { while (e < line->second.size() && isxdigit(line->second[e])) ++e; if (int(e - h - 2) / 2 != o->size - 1) return fail("but listed as [" + line->second + "]"); }
    }
    if (o->far) enter(*o->far, s);
    if (!o->exit) { out.clear(); sim::Step(o->ins, s, false, &out); for (auto& t : out) go(o->next, t); }
    if (o->branch) { out.clear(); sim::Step(o->ins, s, true, &out); for (auto& t : out) go(*o->branch, t); }
  }
  return true;
}
struct Count { uint64_t n = 0, ok = 0, skipped = 0, errors = 0, ins = 0, steps = 0; };
static void Disassembling(mc::Ctx& c) {
  bool t = c.thorough();
  const Bytes base = Base();
  typedef std::vector<std::pair<int, const char*>> Plan;
  const std::vector<Plan> plans = {{{0, "m8x8"}}, {{0, "m16x16"}}, {{0, "m8x8"}, {1, "m8x8"}}, {{0, "unk"}}, {{0, "m8x8"}, {0, "m16x8"}}, {{0, "emu"}}};
  auto all = [&](const std::string& pick, int len) {
    static std::map<std::string, std::vector<Frag>> menus;
    std::string key = pick + std::to_string(len);
    if (!menus.count(key)) {
      menus[key] = Menu(pick, len + 1);
      if (pick.find("jsr-ab") != pick.npos) for (auto& f : {F("jsr $9700", {0x20, 0x00, 0x97}), F("jsr $9800", {0x20, 0x00, 0x98})}) menus[key].push_back(f);
      if (pick.find("jsl-bank") != pick.npos) menus[key].push_back(F("jsl $019a1b", {0x22, 0x1b, 0x9a, 0x01}));
    }
    auto& menu = menus[key];
    int m = menu.size();
    for (int first = 0; first < m; ++first) {
      c.part("quick_disassemble");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("every image of %d pieces of %d and rts at $808000 that starts with [%s], disassembled from files, and the listing assembled", len, m, menu[first].text.c_str()); });
      static Frag rts = F("rts", {0x60});
      std::string dir = c.scratch() + "/dis", rom = dir + "/in.sfc", src = dir + "/l.asm";
      mkdir(dir.c_str(), 0700);
      Count k;
      std::vector<const Frag*> fs(len + 1, &rts);
      fs[0] = &menu[first];
      std::vector<int> ix(len, 0);
      while (true) {
        for (int i = 1; i < len; ++i) fs[i] = &menu[ix[i]];
        Image im;
        if (Lay(fs, 0x808000, &im)) {
          Bytes d = base;
          for (auto& b : im.at) d[Off(b.first)] = b.second;
          d[Off(0x80f000)] = 0; d[Off(0x80f001)] = 0x80;  // the word $8000
          Put(rom, std::string(d.begin(), d.end()));
          std::string name = "image" + im.ToString();
          for (size_t pi = 0; pi < plans.size(); ++pi) {
            if (len > 2 && pi > 2 && !t) continue;
            std::vector<std::string> args = {Tool("quick_disassemble"), rom};
            std::set<uint32_t> seeds;
            std::vector<std::pair<uint32_t, sim::Mode>> from;
            std::string what = name + ", from";
            for (auto& s : plans[pi]) {
              uint32_t a = Wrap(0x808000, s.first ? fs[0]->b.size() : 0);
              seeds.insert(a);
              from.push_back({a, {}});
              sim::FindMode(s.second, &from.back().second);
              args.push_back(mc::Fmt("%x", a)); args.push_back(s.second);
              what += mc::Fmt(" $%06x %s", a, s.second);
            }
            proc::Result q = proc::Run(args, dir);
            ++k.n;
            if (Crash(c, what, q)) continue;
            if (q.code) { c.fail(what, what + mc::Fmt(": exit code %d", q.code)); continue; }
            auto l = Read(q.out);
            if (!l) { c.fail(what, what + ": the listing is unreadable: " + Flat(q.out)); continue; }
            k.errors += l->errors.size();
            k.ins += l->at.size();
            bool bad = false;
            for (uint32_t s : seeds) if (!l->at.count(s) && !l->errors.count(s)) { c.fail(what, what + mc::Fmt(": $%06x is neither listed nor reported", s)); bad = true; }
            if (bad || !Closed(c, what, d, *l, {}) || !Follow(c, what, d, *l, from, {}, {}, &k.steps)) continue;
            if (l->at.empty()) { if (!l->empty) c.fail(what, what + ": an empty listing is not said to be empty"); ++k.skipped; continue; }
            // overlapping instructions and code that leaves its bank have no listing that assembles
            Log log;
            auto r = Assemble({MakeFakeFile("l.asm", q.out)}, &log);
            if (!r.ok()) {
              if (Overlap(d, *l)) { ++k.skipped; continue; }
              // The mode with unknown e and a known m has no name.
              if (l->unk) { ++k.skipped; continue; }
              c.fail(what, what + ": the listing does not assemble: " + r.error().ToString() + ": " + Flat(q.out));
              continue;
            }
            Put(src, q.out);
            proc::Result v = proc::Run({Tool("quick_assemble"), rom, "-", src}, dir);
            ++k.n;
            if (Crash(c, what, v)) continue;
            if (v.code) { c.fail(what, what + ": the listing is not accepted as the ROM's own: " + Flat(v.out) + " : " + Flat(q.out)); continue; }
            // The addresses shown are those of the instructions.
            std::vector<uint32_t> got;
            for (auto& w : log.w) got.push_back(w.first);
            if (got != l->order) { c.fail(what, what + ": the addresses shown are not those of the instructions: " + Flat(q.out)); continue; }
            ++k.ok;
          }
        }
        int i = len - 1;
        for (; i >= 1; --i) { if (++ix[i] < m) break; ix[i] = 0; }
        if (i < 1) break;
      }
      c.step(k.n + k.steps); c.trace(k.ok);
      c.outcome("listings assembled back", k.ok); c.outcome("overlapping code or nothing found", k.skipped); c.outcome("targets in error", k.errors); c.outcome("instructions listed", k.ins);
      c.state(mc::HashStr(key, first));
      unlink(rom.c_str()); unlink(src.c_str());
    }
  };
  const std::string most = "nop lda# ldx# adc# sta.w sep20 rep20 rep30 clc rts jmp jml jmpi jsr jsl jsr-self pea mvn brk bne bra bcc brl jsr-ab jsl-bank";
  all(most, 1);
  all(most, 2);
  all("lda# rep20 clc adc# bne jsr jsl jmp rts jsr-ab", 3);
  if (t) all(most, 3);
  // Chains of calls, each routine found through the one before.
  for (int n : {1, 2, 10, 50, 98}) {
    c.part("chains of calls");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("%d routines, each calling the next one", n); });
    Bytes d = base;
    std::string dir = c.scratch() + "/dis", rom = dir + "/in.sfc";
    mkdir(dir.c_str(), 0700);
    for (int i = 0; i < n; ++i) { uint32_t at = 0x80a000 + i * 0x20, next = 0xa000 + (i + 1) * 0x20; int o = Off(at); d[o] = i + 1 < n ? 0x20 : 0xea; if (i + 1 < n) { d[o + 1] = next; d[o + 2] = next >> 8; } else { d[o + 1] = d[o + 2] = 0xea; } d[o + 3] = 0x60; }
    Put(rom, std::string(d.begin(), d.end()));
    proc::Result q = proc::Run({Tool("quick_disassemble"), rom, "80a000", "m8x8"}, dir);
    auto l = Read(q.out);
    c.step(); c.trace();
    std::string what = mc::Fmt("chain of %d", n);
    if (q.code || !l) c.fail(what, what + ": fails"); else { for (int i = 0; i < n; ++i) if (!l->at.count(0x80a000 + i * 0x20)) { c.fail(what, what + mc::Fmt(": routine %d is not listed", i)); break; } }
    unlink(rom.c_str());
  }
}

// ---- disassemble_more ----
struct Text { const char* text; };
static void More(mc::Ctx& c) {
  bool t = c.thorough();
  const Bytes base = Base();
  static const std::vector<const char*> broad = {"nop", "lda #$60", "sep #$20", "rep #$30", "clc", "jsr $9300", "jsr $9000", "jsr $9600 yields m16x8", "jsl $029100", "jsl $029500 noreturn", "jmp $9000", "bne x9", ".remote $809000 m8x8", ".remote $809600 unk yields m16", ".remote $029500 m16x8 noreturn", ".remote $7e0000 m8", ".entry m16x16", "jsr x9", "jsr $9700", "jsr $9800", "jsl $019a1b"};
  // Routines that call and jump into the program.
  static const std::vector<const char*> back = {"nop", "rep #$30", "jsr $9c00", "jmp $9d00", "jsr $9e00", "jsl $809e00", "bne x9", "jsr x9", ".entry m16x16", ".remote $809c00 m16x16"};
  auto all = [&](const std::vector<const char*>& menu, int len, std::vector<const char*> modes) {
    const int m = menu.size();
    for (int first = 0; first < m; ++first) {
      c.part("disassemble_more");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("every program of %d lines of %d forms that starts with [%s], assembled into a ROM whose routines are then found from it", len, m, menu[first]); });
      std::string dir = c.scratch() + "/more", rom = dir + "/in.sfc", src = dir + "/a.asm", lst = dir + "/l.asm";
      mkdir(dir.c_str(), 0700);
      Count k;
      std::vector<int> ix(len, 0);
      ix[0] = first;
      while (true) {
        for (auto* mode : modes) {
          std::string a = std::string(".module given\n.org $808000\n.entry ") + mode + "\n";
          for (int i = 0; i < len; ++i) a += std::string(menu[ix[i]]) + "\n";
          a += "x9: rts\n";
          Log log;
          auto r = Assemble({MakeFakeFile(src, a)}, &log);
          if (!r.ok()) { ++k.skipped; continue; }
          Bytes d = base;
          std::set<uint32_t> mine;
          for (auto& w : log.w) for (size_t i = 0; i < w.second.size(); ++i) { d[Off(w.first + i)] = w.second[i]; mine.insert(w.first + i); }
          std::string name = "program [" + Flat(a) + "]", image(d.begin(), d.end());
          Put(rom, image);
          Put(src, a);
          proc::Result q = proc::Run({Tool("disassemble_more"), rom, src}, dir);
          ++k.n;
          if (Crash(c, name, q)) continue;
          if (q.code) { c.fail(name, name + mc::Fmt(": exit code %d: ", q.code) + Flat(q.out)); continue; }
          auto l = Read(q.out);
          if (!l) { c.fail(name, name + ": the listing is unreadable: " + Flat(q.out)); continue; }
          k.ins += l->at.size(); k.errors += l->errors.size();
          bool bad = false;
          for (uint32_t x : l->at) if (mine.count(x)) { c.fail(name, name + mc::Fmt(": $%06x is given, and listed again", x)); bad = true; break; }
          for (auto& j : r->JumpTargets()) if (!l->at.count(Num(j.first)) && !l->errors.count(Num(j.first))) { c.fail(name, name + ": jump target " + j.first.ToString() + " is neither listed nor reported"); bad = true; break; }
          if (bad || !Closed(c, name, d, *l, mine)) continue;
          std::vector<std::pair<uint32_t, sim::Mode>> from;
          for (auto& j : r->JumpTargets()) from.push_back({Num(j.first), {Tri(j.second.EBit()), Tri(j.second.MBit()), Tri(j.second.XBit())}});
          Convs convs;
          for (auto& v : r->JumpTargetReturnConventions()) {
            Conv& cv = convs[Num(v.first)];
            if (v.second.IsDefault()) { convs.erase(Num(v.first)); continue; }
            cv.noreturn = v.second.IsExitCall();
            if (auto f = v.second.YieldFlags()) cv.to = {Tri(f->EBit()), Tri(f->MBit()), Tri(f->XBit())};
          }
          if (!Follow(c, name, d, *l, from, convs, mine, &k.steps)) continue;
          if (l->at.empty()) { if (!l->empty) c.fail(name, name + ": an empty listing is not said to be empty"); ++k.ok; continue; }
          // The listing and the program together are the ROM's own.
          Put(lst, q.out);
          proc::Result v = proc::Run({Tool("quick_assemble"), rom, "-", src, lst}, dir);
          ++k.n;
          if (Crash(c, name, v)) continue;
          if (v.code) {
            if (Overlap(d, *l) || l->unk) { ++k.skipped; continue; }
            c.fail(name, name + ": program and listing are not accepted as the ROM's own: " + Flat(v.out) + " : " + Flat(q.out)); continue;
          }
          // Nothing is left to find.
          if (l->errors.empty()) {
            proc::Result again = proc::Run({Tool("disassemble_more"), rom, src, lst}, dir);
            ++k.n;
            auto l2 = Read(again.out);
            if (Crash(c, name, again)) continue;
            if (again.code || !l2 || !l2->at.empty() || !l2->empty) { c.fail(name, name + ": with the listing added there is more to find: " + Flat(again.out)); continue; }
          }
          ++k.ok;
          // A ROM that differs in one byte of the program is refused.
          uint32_t o = Off(*mine.begin() + k.n % mine.size());
          d[o] ^= 1 << (k.n % 8);
          Put(rom, std::string(d.begin(), d.end()));
          proc::Result diff = proc::Run({Tool("disassemble_more"), rom, src}, dir);
          ++k.n;
          if (Crash(c, name, diff)) continue;
          if (diff.code == 0 || diff.out.find(".org") != diff.out.npos) c.fail(name, name + mc::Fmt(": a ROM that differs at $%x is accepted", o));
        }
        int i = len - 1;
        for (; i >= 1; --i) { if (++ix[i] < m) break; ix[i] = 0; }
        if (i < 1) break;
      }
      c.step(k.n + k.steps); c.trace(k.ok);
      c.outcome("programs completed", k.ok); c.outcome("programs refused or overlapping", k.skipped); c.outcome("targets in error", k.errors); c.outcome("instructions found", k.ins);
      c.state(len * 100 + first + 10000 * m);
      for (auto* f : {&rom, &src, &lst}) unlink(f->c_str());
    }
  };
  all(broad, 1, {"m8x8", "m16x16", "unk", "emu"});
  all(broad, 2, {"m8x8", "m16x16", "unk", "emu"});
  all(broad, 3, {"m8x8"});
  for (int len = 1; len <= (t ? 4 : 3); ++len) all(back, len, {"m8x8", "m16"});
  if (t) { all(broad, 3, {"m16x16", "unk"}); all(broad, 4, {"m8x8"}); }
}

// ---- ends of banks ----
// A routine up to the end of a bank and one from the start of the next, on every layout.
static void BankEnds(mc::Ctx& c) {
  bool t = c.thorough();
  static const std::vector<Bytes> bodies = {{0x60}, {0xea, 0x60}, {0xa9, 0x12, 0x6b}, {0x18, 0x69, 0x01, 0x60}, {0x80, 0x00, 0x60}, {0xd0, 0x01, 0xea, 0x6b}, {0x22, 0x00, 0x90, 0x81, 0x60}, {0x4c, 0x00, 0x90}};
  for (ref::Map map : {ref::LO, ref::HI, ref::EXHI})
    for (uint32_t bank : {0x80u, 0xc0u, 0xc1u, 0x00u, 0x40u, 0xfeu, 0xffu}) {
      c.part("ends of banks");
      const uint32_t next = ((bank + 1) & 0xff) << 16;
      const uint32_t low = map == ref::LO || bank < 0x40 || (bank >= 0x80 && bank < 0xc0) ? 0x8000 : 0;
      const uint32_t low2 = map == ref::LO || (next >> 16) < 0x40 || ((next >> 16) >= 0x80 && (next >> 16) < 0xc0) ? 0x8000 : 0;
      const size_t size = map == ref::EXHI ? 0x420000 : 0x40000;
      auto at = [&](uint32_t a) { int64_t o = ref::Offset(a, map); return o >= 0 && o < int64_t(size) ? o : -1; };
      if (at((bank << 16) + 0xfff0) < 0 || at(next + low2) < 0) continue;
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("routines at the end of bank $%02x and the start of the next, layout %d, given to quick_disassemble and found by disassemble_more", bank, map); });
      std::string dir = c.scratch() + "/ends", rom = dir + "/in.sfc", src = dir + "/a.asm", lst = dir + "/l.asm";
      mkdir(dir.c_str(), 0700);
      Count k;
      for (size_t a = 0; a < bodies.size(); ++a) for (size_t b = 0; b < bodies.size(); ++b) for (int before = 0; before < 3; ++before) for (int after = 0; after < 3; ++after) {
        if (!t && size > 0x100000 && (b != (a + 1) % bodies.size() || before + after == 4)) continue;
        const uint32_t first = (bank << 16) + 0x10000 - before - bodies[a].size(), second = next + low2 + after;
        Bytes d(size, 0x60);
        auto put = [&](uint32_t p, const Bytes& v) { for (size_t i = 0; i < v.size(); ++i) d[at(p + i)] = v[i]; };
        put(first, bodies[a]); put(second, bodies[b]);
        const uint32_t prog = (bank << 16) + low + 0x1000;
        Bytes calls = {0x22, uint8_t(first), uint8_t(first >> 8), uint8_t(first >> 16), 0x22, uint8_t(second), uint8_t(second >> 8), uint8_t(second >> 16), 0x60};
        put(prog, calls);
        Mark(&d, map);
        Put(rom, std::string(d.begin(), d.end()));
        const std::string name = mc::Fmt("layout %d, routine %zu at $%06x and routine %zu at $%06x", map, a, first, b, second);
        auto judge = [&](const std::string& what, const proc::Result& q, std::vector<std::string> with) {
          ++k.n;
          if (Crash(c, what, q)) return;
          auto l = Read(q.out);
          if (q.code || !l) { c.fail(what, what + mc::Fmt(": exit code %d: ", q.code) + Flat(q.out)); return; }
          if (!l->at.count(first) || !l->at.count(second)) { c.fail(what, what + ": a routine is not listed: " + Flat(q.out)); return; }
          Log log;
          auto r = Assemble({MakeFakeFile("l.asm", q.out)}, &log);
          if (!r.ok()) { c.fail(what, what + ": the listing does not assemble: " + r.error().ToString() + ": " + Flat(q.out)); return; }
          std::vector<uint32_t> got;
          for (auto& w : log.w) got.push_back(w.first);
          if (got != l->order) { c.fail(what, what + ": the addresses shown are not those of the instructions: " + Flat(q.out)); return; }
          Put(lst, q.out);
          with.push_back(lst);
          proc::Result v = proc::Run(with, dir);
          ++k.n;
          if (Crash(c, what, v)) return;
          if (v.code) { c.fail(what, what + ": the listing is not accepted as the ROM's own: " + Flat(v.out) + " : " + Flat(q.out)); return; }
          k.ins += l->at.size();
          ++k.ok;
        };
        judge(name + ", quick_disassemble", proc::Run({Tool("quick_disassemble"), rom, mc::Fmt("%x", first), "m8x8", mc::Fmt("%x", second), "m8x8"}, dir), {Tool("quick_assemble"), rom, "-"});
        Put(src, mc::Fmt(".org $%06x\n.entry m8x8\njsl $%06x\njsl $%06x\nrts\n", prog, first, second));
        judge(name + ", disassemble_more", proc::Run({Tool("disassemble_more"), rom, src}, dir), {Tool("quick_assemble"), rom, "-", src});
      }
      c.step(k.n); c.trace(k.ok);
      c.outcome("listings assembled back", k.ok); c.outcome("instructions listed", k.ins);
      c.state(bank * 4 + map);
      for (auto* f : {&rom, &src, &lst}) unlink(f->c_str());
    }
}

// ---- many ----
// n routines, found from all of them, along a tree, or along chains; n files.
static void Many(mc::Ctx& c) {
  bool t = c.thorough();
  const Bytes base = Base();
  auto place = [](int i) { static const uint32_t bank[] = {0x80, 0x01, 0x02}; return (bank[i % 3] << 16) + 0xa800 + (i / 3) * 0x20; };
  static const char* shapes[] = {"each given", "a tree of calls", "a tree of calls, widest routine first", "eight chains", "each given, and each calls the one before"};
  for (int shape = 0; shape < 5; ++shape)
    for (int n : {1, 2, 3, 4, 8, 10, 15, 16, 17, 31, 32, 33, 64, 65, 99, 100, 101, 128, 129, 200, 255, 256, 257, 300, 500}) {
      c.part("many routines");
      if (n > 300 && !t) continue;
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%d routines, %s, disassembled; and found from a program of up to 7 files", n, shapes[shape]); });
      std::string dir = c.scratch() + "/many", rom = dir + "/in.sfc", lst = dir + "/l.asm";
      mkdir(dir.c_str(), 0700);
      Count k;
      Bytes d = base;
      std::vector<std::vector<int>> next(n);
      std::vector<int> roots;
      for (int i = 0; i < n; ++i) {
        if (shape == 0 || shape == 4) roots.push_back(i);
        if (shape == 4 && i) next[i] = {i - 1};
        if (shape == 1) next[i] = {2 * i + 1, 2 * i + 2};
        if (shape == 2) next[i] = {3 * i + 3, 3 * i + 2, 3 * i + 1};
        if (shape == 3) { if (i < 8) roots.push_back(i); next[i] = {i + 8}; }
        while (!next[i].empty() && next[i].back() >= n) next[i].pop_back();
        next[i].erase(std::remove_if(next[i].begin(), next[i].end(), [&](int x) { return x >= n; }), next[i].end());
      }
      if (roots.empty()) roots.push_back(0);
      for (int i = 0; i < n; ++i) {
        std::vector<int> b;
        auto put = [&](std::initializer_list<int> v) { b.insert(b.end(), v); };
        switch (i % 4) {
          case 0: put({0xe2, 0x20, 0xa9, i & 255}); break;
          case 1: put({0xc2, 0x20, 0xa9, i & 255, i >> 8}); break;
          case 2: put({0x08, 0xe2, 0x30, 0xa2, i & 255, 0x28}); break;
          case 3: put({0xd0, 0x01, 0xea, 0x18, 0x65, i & 255}); break;
        }
        for (size_t j = 0; j < next[i].size(); ++j) {
          uint32_t to = place(next[i][j]);
          // A routine after routine 3, 7, ... is jumped to.
          put({i % 4 == 3 && j + 1 == next[i].size() ? 0x5c : 0x22, int(to & 255), int(to >> 8 & 255), int(to >> 16)});
        }
        put({0x6b});
        for (size_t j = 0; j < b.size(); ++j) d[Off(place(i) + j)] = b[j];
      }
      std::string image(d.begin(), d.end());
      Put(rom, image);
      auto judge = [&](const std::string& what, const proc::Result& q, const std::vector<std::pair<uint32_t, sim::Mode>>& from, const std::set<uint32_t>& mine) -> std::optional<Listing> {
        ++k.n;
        if (Crash(c, what, q)) return {};
        if (q.code) { c.fail(what, what + mc::Fmt(": exit code %d", q.code)); return {}; }
        auto l = Read(q.out);
        if (!l) { c.fail(what, what + ": the listing is unreadable"); return {}; }
        k.ins += l->at.size();
        for (int i = 0; i < n; ++i) if (!l->at.count(place(i))) { c.fail(what, what + mc::Fmt(": routine %d at $%06x is not listed", i, place(i))); return {}; }
        if (!l->errors.empty()) { c.fail(what, what + mc::Fmt(": $%06x is reported as an error", *l->errors.begin())); return {}; }
        if (!Closed(c, what, d, *l, mine) || !Follow(c, what, d, *l, from, {}, mine, &k.steps)) return {};
        Put(lst, q.out);
        return l;
      };
      for (auto* mode : {"m8x8", "m16x16"})
        for (int back = 0; back < 2; ++back) {
          std::string what = mc::Fmt("%d routines, %s, from ", n, shapes[shape]) + mode + (back ? " backwards" : "");
          std::vector<std::string> args = {Tool("quick_disassemble"), rom};
          std::vector<std::pair<uint32_t, sim::Mode>> from;
          for (size_t i = 0; i < roots.size(); ++i) {
            int r = roots[back ? roots.size() - 1 - i : i];
            from.push_back({place(r), {}});
            sim::FindMode(mode, &from.back().second);
            args.push_back(mc::Fmt("%x", place(r))); args.push_back(mode);
          }
          if (!judge(what, proc::Run(args, dir), from, {})) continue;
          proc::Result v = proc::Run({Tool("quick_assemble"), rom, "-", lst}, dir);
          ++k.n;
          if (!Crash(c, what, v)) { if (v.code) c.fail(what, what + ": the listing is not accepted as the ROM's own: " + Flat(v.out).substr(0, 500)); else ++k.ok; }
        }
      for (int files : {1, 2, 7})
        for (auto* mode : {"m8x8", "m16"}) {
          std::string what = mc::Fmt("%d routines, %s, from a program of %d files under %s", n, shapes[shape], files, mode);
          std::vector<std::string> text(files), names;
          for (int f = 0; f < files; ++f) text[f] = mc::Fmt(".module given%d\n.org $%06x\n.entry %s\n", f, 0x808000 + 0x400 * f, mode);
          std::vector<std::pair<uint32_t, sim::Mode>> from;
          for (size_t i = 0; i < roots.size(); ++i) {
            text[i % files] += mc::Fmt(i % 3 == 1 ? ".remote $%06x " : "jsl $%06x", place(roots[i])) + (i % 3 == 1 ? mode : "") + "\n";
            from.push_back({place(roots[i]), {}});
            sim::FindMode(mode, &from.back().second);
          }
          Bytes mineb = d;
          std::set<uint32_t> mine;
          std::vector<File> fs;
          for (int f = 0; f < files; ++f) { text[f] += mc::Fmt("end%d: rts\n", f); names.push_back(dir + mc::Fmt("/s%d.asm", f)); fs.push_back(MakeFakeFile(names[f], text[f])); Put(names[f], text[f]); }
          Log log;
          auto r = Assemble(fs, &log);
          if (!r.ok()) { c.fail(what, what + ": " + r.error().ToString()); continue; }
          for (auto& w : log.w) for (size_t i = 0; i < w.second.size(); ++i) { mineb[Off(w.first + i)] = w.second[i]; mine.insert(w.first + i); }
          Put(rom, std::string(mineb.begin(), mineb.end()));
          std::vector<std::string> args = {Tool("disassemble_more"), rom};
          args.insert(args.end(), names.begin(), names.end());
          auto l = judge(what, proc::Run(args, dir), from, mine);
          if (l) {
            std::vector<std::string> as = {Tool("quick_assemble"), rom, "-"};
            as.insert(as.end(), names.begin(), names.end());
            as.push_back(lst);
            proc::Result v = proc::Run(as, dir);
            args.push_back(lst);
            proc::Result again = proc::Run(args, dir);
            k.n += 2;
            auto l2 = Read(again.out);
            if (!Crash(c, what, v) && !Crash(c, what, again)) {
              if (v.code) c.fail(what, what + ": program and listing are not accepted as the ROM's own: " + Flat(v.out).substr(0, 500));
              else if (again.code || !l2 || !l2->empty) c.fail(what, what + ": with the listing added there is more to find: " + Flat(again.out).substr(0, 500));
              else ++k.ok;
            }
          }
          for (auto& f : names) unlink(f.c_str());
          Put(rom, image);
        }
      c.step(k.n + k.steps); c.trace(k.ok);
      c.outcome("listings assembled back", k.ok); c.outcome("instructions listed", k.ins);
      c.state(mc::Mix(shape, n));
      for (auto* f : {&rom, &lst}) unlink(f->c_str());
    }
  for (int n : {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300})
    for (int order = 0; order < 3; ++order) {
      c.part("many files");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%d source files, each with bytes of its own and names of the others, in order %d", n, order); });
      std::string dir = c.scratch() + "/files", rom = dir + "/in.sfc", out = dir + "/out.sfc";
      mkdir(dir.c_str(), 0700);
      Put(rom, std::string(base.begin(), base.end()));
      Bytes want = base;
      std::vector<std::string> names(n);
      for (int i = 0; i < n; ++i) {
        int at = i * 37 % n, use = (i + n / 2) % n;  // places in another order than the files
        uint32_t a = place(at), v = place(use * 37 % n);
        std::string text = mc::Fmt(".module f%d\n.org $%06x\nhere: .db $%02x, <f%d::here\n .dl f%d::here\n", i, a, i & 255, use, use);
        uint8_t b[] = {uint8_t(i), uint8_t(v), uint8_t(v), uint8_t(v >> 8), uint8_t(v >> 16)};
        for (int j = 0; j < 5; ++j) want[Off(a + j)] = b[j];
        int slot = order == 0 ? i : order == 1 ? n - 1 - i : i % 2 ? n - 1 - i / 2 : i / 2;
        names[slot] = dir + mc::Fmt("/f%d.asm", i);
        Put(names[slot], text);
      }
      auto args = [&](const std::string& r, const std::string& o) { std::vector<std::string> a = {Tool("quick_assemble"), r, o}; a.insert(a.end(), names.begin(), names.end()); return a; };
      std::string what = mc::Fmt("%d files in order %d", n, order), all(want.begin(), want.end());
      if (std::set<int> places; [&] { for (int i = 0; i < n; ++i) if (!places.insert(i * 37 % n).second) return true; return false; }()) { c.outcome("places meet"); for (auto& f : names) unlink(f.c_str()); unlink(rom.c_str()); continue; }
      proc::Result q = proc::Run(args(rom, out), dir);
      if (!Crash(c, what, q)) { if (q.code) c.fail(what, what + ": refused: " + Flat(q.out).substr(0, 500)); else if (Get(out) != all) c.fail(what, what + ": the output is not the ROM with the bytes of the programs"); }
      Put(out, all);
      q = proc::Run(args(out, "-"), dir);
      if (!Crash(c, what, q) && q.code) c.fail(what, what + ": not accepted as the ROM's own: " + Flat(q.out).substr(0, 500));
      // One file's bytes differ.
      for (int i : {0, n / 2, n - 1}) {
        uint32_t a = place(i * 37 % n) + i % 5;
        Bytes w = want;
        w[Off(a)] ^= 1;
        Put(out, std::string(w.begin(), w.end()));
        q = proc::Run(args(out, "-"), dir);
        if (!Crash(c, what, q) && !q.code) c.fail(what, what + mc::Fmt(": a ROM that differs at $%06x is accepted", a));
      }
      c.step(5 * n); c.trace(5);
      c.outcome("programs of many files");
      c.state(mc::Mix(n, order));
      for (auto& f : names) unlink(f.c_str());
      unlink(rom.c_str()); unlink(out.c_str());
    }
}
// ---- command lines ----
static void Bad(mc::Ctx& c) {
  std::string dir = c.scratch() + "/bad";
  c.part("command lines");
  struct Line { const char* tool; std::vector<std::string> a; int want; };  // want: 0 success, 1 error, 2 any
  std::vector<Line> ls = {
      {"quick_assemble", {}, 2}, {"quick_assemble", {"rom"}, 2}, {"quick_assemble", {"rom", "out"}, 2},
      {"quick_assemble", {"rom", "out", "ok.asm"}, 0}, {"quick_assemble", {"rom", "-", "nothing.asm"}, 0}, {"quick_assemble", {"none", "out", "ok.asm"}, 1}, {"quick_assemble", {".", "out", "ok.asm"}, 1}, {"quick_assemble", {"small", "out", "ok.asm"}, 1},
      {"quick_assemble", {"rom", "out", "none.asm"}, 1}, {"quick_assemble", {"rom", "out", "."}, 1}, {"quick_assemble", {"rom", "out", "ok.asm", "none.asm"}, 1}, {"quick_assemble", {"rom", "out", "ok.asm", "bad.asm"}, 1}, {"quick_assemble", {"rom", "out", "ok.asm", "ok.asm"}, 1},
      {"quick_assemble", {"rom", "ok.asm", "bad.asm"}, 1}, {"quick_assemble", {"rom", "ok.asm", "nothing.asm"}, 1}, {"quick_assemble", {"rom", "new.asm", "ok.asm"}, 1}, {"quick_assemble", {"rom", "none/out", "ok.asm"}, 1}, {"quick_assemble", {"rom", ".", "ok.asm"}, 1}, {"quick_assemble", {"rom", "/dev/full", "ok.asm"}, 1}, {"quick_assemble", {"rom", "", "ok.asm"}, 1}, {"quick_assemble", {"rom", "-", "ok.asm"}, 1}, {"quick_assemble", {"rom", "out", ""}, 1}, {"quick_assemble", {"", "out", "ok.asm"}, 1},
      {"quick_disassemble", {}, 2}, {"quick_disassemble", {"rom"}, 2}, {"quick_disassemble", {"rom", "8000"}, 2}, {"quick_disassemble", {"rom", "8000", "m8"}, 0}, {"quick_disassemble", {"rom", "@8000", "m8"}, 0}, {"quick_disassemble", {"rom", "$8000", "m8"}, 1}, {"quick_disassemble", {"rom", "", "m8"}, 1}, {"quick_disassemble", {"rom", "@", "m8"}, 1}, {"quick_disassemble", {"rom", "xyz", "m8"}, 1}, {"quick_disassemble", {"rom", "8000", "zz"}, 1}, {"quick_disassemble", {"rom", "8000", ""}, 1}, {"quick_disassemble", {"rom", "1000000", "m8"}, 1}, {"quick_disassemble", {"rom", "ffffffff", "m8"}, 1}, {"quick_disassemble", {"rom", "@7e0000", "m8"}, 1}, {"quick_disassemble", {"rom", "8000", "m8", "9000"}, 1}, {"quick_disassemble", {"rom", "8000", "m8", "9000", "q"}, 1}, {"quick_disassemble", {"none", "8000", "m8"}, 1}, {"quick_disassemble", {"small", "8000", "m8"}, 1}, {"quick_disassemble", {"rom", "7e0000", "m8"}, 2},
      {"disassemble_more", {}, 2}, {"disassemble_more", {"rom"}, 2}, {"disassemble_more", {"none", "ok.asm"}, 1}, {"disassemble_more", {"rom", "none.asm"}, 1}, {"disassemble_more", {"rom", "bad.asm"}, 1}, {"disassemble_more", {"rom", "ok.asm"}, 1}, {"disassemble_more", {"rom", "nothing.asm"}, 0}, {"disassemble_more", {"rom", "nothing.asm", "none.asm"}, 1}, {"disassemble_more", {"small", "nothing.asm"}, 1},
      {"dumb_disassemble", {}, 2}, {"dumb_disassemble", {"rom", "8000"}, 2}, {"dumb_disassemble", {"rom", "809000", "m8"}, 0}, {"dumb_disassemble", {"rom", "7e0000", "m8"}, 1}, {"dumb_disassemble", {"rom", "", "m8"}, 1}, {"dumb_disassemble", {"rom", "1000000", "m8"}, 1}, {"dumb_disassemble", {"rom", "8000", "zz"}, 1}, {"dumb_disassemble", {"none", "8000", "m8"}, 1}, {"dumb_disassemble", {"rom", "809000", "unk"}, 1},
  };
  for (auto& l : ls) {
    if (!c.want()) continue;
    std::string text = l.tool;
    for (auto& s : l.a) text += " '" + s + "'";
    c.describe([&] { return text; });
    mkdir(dir.c_str(), 0700);
    Bytes d = Base();
    std::string rom(d.begin(), d.end());
    std::map<std::string, std::string> files = {{"rom", rom}, {"small", "x"}, {"ok.asm", ".org $8000\n.entry m8\nnop\nrts\n"}, {"bad.asm", "bad line here\n"}, {"nothing.asm", "; nothing\n"}};
    for (auto& f : files) Put(dir + "/" + f.first, f.second);
    auto before = Names(dir);
    std::vector<std::string> args = {Tool(l.tool)};
    args.insert(args.end(), l.a.begin(), l.a.end());
    proc::Result r = proc::Run(args, dir);
    c.step(); c.trace(); c.outcome(r.code ? "error" : "success");
    if (!Crash(c, text, r)) {
      if ((l.want == 1 && r.code == 0) || (l.want == 0 && r.code != 0)) c.fail(text, text + mc::Fmt(": exit code %d: ", r.code) + Flat(r.out));
      if (l.want != 0 && r.out.empty()) c.fail(text, text + ": no output");
      for (auto& f : files) if (Get(dir + "/" + f.first) != f.second) c.fail(text, text + ": " + f.first + " was changed");
      if (l.want == 1 && Names(dir) != before) c.fail(text, text + ": failed, and made a file");
    }
    for (auto& n : Names(dir)) if (n[0] != '.') unlink((dir + "/" + n).c_str());
  }
}
static void Run(mc::Ctx& c) { Assembling(c); Disassembling(c); More(c); BankEnds(c); Many(c); Bad(c); }
static const mc::Check kCheck = {
    .property = "P27", .level = "model_checking",
    .rule = "the real programs are run on files: quick_assemble on every program of a menu, its output compared with the ROM and the program's bytes; quick_disassemble on every image of a menu, its listing checked for closure and given back to quick_assemble; disassemble_more on every program of a menu in a ROM with routines that call each other, program and listing given back to both tools",
    .bounds_quick = "programs of 3 lines of 12 forms on two layouts (2 lines on ExHiROM), images of up to 2 pieces of about 50 kinds and 3 of 15, programs of up to 3 lines of 21 forms and 3 pieces of code that calls back into a program, up to 300 routines in 5 shapes found from all, one or eight of them or from programs of up to 7 files, up to 300 source files, routines on both sides of the end of up to 7 banks on each layout, about 60 command lines",
    .bounds_thorough = "images of 3 pieces of all kinds, programs of 4 lines", .run = Run, .chunk = 1, .hang_seconds = 600,
    .assumptions = {"a listing whose instructions overlap cannot be assembled and is judged for closure only", "calls are followed at most 100 levels deep by design", "the bytes a program should produce come from the assembler itself, which other checks verify"}};
MC_MAIN(kCheck)
