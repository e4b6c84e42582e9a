// P33: the tools for looking at code print what the processor would run.
#include <sys/stat.h>
#include <fstream>
#include "checks/dis.h"
#include "checks/proc.h"
#include "checks/romref.h"
#include "nsasm/assembler.h"
#include "nsasm/parse.h"
using namespace dis;
typedef std::vector<uint8_t> Bytes;

static std::string Tool(const char* n) { return std::string(getenv("VF_TOOLS")) + "/" + n; }
static void Put(const std::string& path, const std::string& s) { std::ofstream f(path, std::ios::binary); f.write(s.data(), s.size()); f.flush(); if (!f) abort(); }
static std::string Flat(std::string s) { for (auto& ch : s) if (ch == '\n') ch = '|'; return s; }
static std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> r;
  for (size_t p = 0; p < s.size();) { size_t e = s.find('\n', p); if (e == s.npos) e = s.size(); r.push_back(s.substr(p, e - p)); p = e + 1; }
  return r;
}
static std::string Squeeze(const std::string& s) { std::string r; for (char ch : s) if (ch != ' ') r += tolower(ch); return r; }

// ---- print_opcode_map ----
static void OpcodeMap(mc::Ctx& c) {
  c.part("print_opcode_map");
  if (!c.want()) return;
  c.describe([&] { return std::string("the 256 lines of print_opcode_map"); });
  proc::Result r = proc::Run({Tool("print_opcode_map")}, c.scratch());
  auto ls = Lines(r.out);
  if (r.code || r.signal || ls.size() != 256) { c.fail("map", mc::Fmt("exit code %d, %d lines", r.code, int(ls.size()))); return; }
  for (int i = 0; i < 256; ++i) {
    c.step(); c.trace();
    auto& op = isa::Ops()[i];
    const std::string& m = op.mode;
    std::string v = mc::Fmt("%d", 0x654321), w = "67", want = mc::Fmt("%02x", i) + op.name;
    if (m == "#m" || m == "#x") want += ".b";
    if (m[0] == '#') want += "#" + v;
    else if (m == "mv") want += "#" + v + ",#" + w;
    else if (m == "d" || m == "a" || m == "l") want += v;
    else if (m == "dx" || m == "ax" || m == "lx") want += v + ",x";
    else if (m == "dy" || m == "ay") want += v + ",y";
    else if (m == "(d)" || m == "(a)") want += "(" + v + ")";
    else if (m == "(dx)" || m == "(ax)") want += "(" + v + ",x)";
    else if (m == "(d)y") want += "(" + v + "),y";
    else if (m == "[d]" || m == "[a]") want += "[" + v + "]";
    else if (m == "[d]y") want += "[" + v + "],y";
    else if (m == "s") want += v + ",s";
    else if (m == "(s)y") want += "(" + v + ",s),y";
    std::string got = Squeeze(ls[i]);
    // How a displacement is shown is up to the tool.
    bool same = m[0] == 'r' ? got.compare(0, want.size(), want) == 0 : got == want;
    if (!same) c.fail(mc::Fmt("opcode %02x", i), mc::Fmt("opcode %02x (", i) + isa::kMatrix[i] + ") is shown as [" + ls[i] + "]");
    c.state(i);
  }
}

// ---- interactive_parse ----
static void Interactive(mc::Ctx& c) {
  bool t = c.thorough();
  static const char* const menu[] = {"nop", "lda #$12", "lda.w #1+2*3", "x1: y1:", "x1: rts", ".db 1, 2", ".org $8000", "bad line here", "\"", ".equ 4", "x2: .equ 4", "jsr x1 yields m8", "", "; comment", "lda [x1], y", ".entry m8x8", "{ nop", "mvn #1, #2", "+: bra -", "@x: nop", "lda $1000000000", "nop : rts", "x3: x4: x5: lda #1", "x6: x7: .db 1"};
  const int m = sizeof(menu) / sizeof(menu[0]);
  std::string dir = c.scratch() + "/ia", in = dir + "/in";
  uint64_t n = 0;
  auto session = [&](const std::vector<std::string>& ls, bool open) {
          std::string text, want;
          for (size_t i = 0; i < ls.size(); ++i) text += ls[i] + (open && i + 1 == ls.size() ? "" : "\n");
          auto one = [&](const std::string& l) {
            want += "> ";
            auto tok = Tokenize(l, Location());
            if (!tok.ok()) { want += "ERR\n"; return; }
            auto st = Parse(*tok);
            if (!st.ok()) { want += "ERR\n"; return; }
            for (auto& e : *st) {
              if (auto* lab = absl::get_if<ParsedLabel>(&e)) want += lab->ToString() + ":\n";
              else want += absl::get<Statement>(e).ToString() + "\n";
            }
          };
          for (auto& l : ls) one(l);
          Put(in, text);
          proc::Result r = proc::Run({"/bin/sh", "-c", "exec '" + Tool("interactive_parse") + "' < '" + in + "'"}, dir);
          ++n;
          std::string what = "input [" + Flat(text.size() > 400 ? text.substr(0, 400) + mc::Fmt("... (%d lines)", int(ls.size())) : text) + "]";
          if (r.timeout || r.signal || r.code) { c.fail(what, what + mc::Fmt(": ends with code %d, signal %d", r.code, r.signal)); return; }
          // Blanks and the prompts at the end are up to the tool, as are the texts of errors.
          std::vector<std::string> got = Lines(r.out), exp = Lines(want);
          std::vector<std::string> g, x;
          for (auto& l : got) { std::string q = Squeeze(l); while (!q.empty() && q[0] == '>') q = q.substr(1); if (!q.empty()) g.push_back(q); }
          for (auto& l : exp) { std::string q = Squeeze(l); while (!q.empty() && q[0] == '>') q = q.substr(1); if (!q.empty()) x.push_back(q); }
          bool same = g.size() == x.size();
          for (size_t i = 0; same && i < g.size(); ++i) same = x[i] == "err" || g[i] == x[i];
          if (!same) c.fail(what, what + ": prints [" + Flat(r.out.substr(0, 2000)) + "] instead of [" + Flat(want.substr(0, 2000)) + "]");
  };
  for (int first = 0; first < m; ++first) {
    c.part("interactive_parse");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("every %d lines of %d that start with [%s], typed into interactive_parse, with and without an end of the last one", t ? 3 : 2, m, menu[first]); });
    mkdir(dir.c_str(), 0700);
    n = 0;
    for (int second = 0; second < m; ++second)
      for (int third = 0; third < (t ? m : 1); ++third)
        for (int open = 0; open < 2; ++open) {
          std::vector<std::string> ls = {menu[first], menu[second]};
          if (t) ls.push_back(menu[third]);
          session(ls, open);
        }
    c.step(n); c.trace(n); c.state(first);
    unlink(in.c_str());
  }
  // Long sessions and long lines.
  for (int len : {1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 33, 64, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 5000})
    for (int stride : {1, 3, 5, 7}) {
      c.part("long sessions");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%d lines of %d in steps of %d typed into interactive_parse; and lines of as many items, labels and operators", len, m, stride); });
      mkdir(dir.c_str(), 0700);
      n = 0;
      for (int from = 0; from < m; from += 5) {
        std::vector<std::string> ls;
        for (int i = 0; i < len; ++i) ls.push_back(menu[(from + i * stride) % m]);
        session(ls, from % 2);
      }
      std::vector<std::string> ls(4);
      ls[0] = ".db "; ls[1] = ""; ls[2] = "lda.w #1"; ls[3] = "nop ; ";
      for (int i = 0; i < len; ++i) {
        ls[0] += mc::Fmt(i ? ", $%02x" : "$%02x", i * stride & 255);
        ls[1] += mc::Fmt("x%d: ", i);
        if (i < 200) ls[2] += i % 2 ? " + x1" : " * $02";
        ls[3] += "comment ";
      }
      ls.push_back(ls[1] + "lda #$12");  // labels and a statement
      for (int i = 0; i < 3; ++i) ls.push_back(menu[i]);
      session(ls, false);
      c.step(n); c.trace(n); c.state(mc::Mix(len, stride));
      unlink(in.c_str());
    }
}

// ---- dumb_disassemble ----
struct Shown { uint32_t at = 0; bool error = false; std::string text, flags; long target = -1; bool fresh = false; };
static std::optional<Shown> Parse1(const std::string& l) {
  Shown s;
  unsigned a;
  int used = 0;
  if (sscanf(l.c_str(), "$%x - %n", &a, &used) != 1 || !used) return {};
  s.at = a;
  std::string rest = l.substr(used);
  if (rest.find("ERROR:") == 0) { s.error = true; return s; }
  size_t k = rest.find(" ; ");
  if (k == rest.npos) return {};
  s.text = rest.substr(0, k);
  while (!s.text.empty() && s.text[0] == ' ') s.text = s.text.substr(1);
  s.flags = rest.substr(k + 3);
  if (size_t o = s.flags.find(" to $"); o != s.flags.npos) { if (sscanf(s.flags.c_str() + o, " to $%x", &a) != 1) return {}; s.target = a; s.fresh = s.flags.find("(new)") != s.flags.npos; s.flags = s.flags.substr(0, o); }
  return s;
}
// The bytes of a printed instruction.
static const std::string& Bytes1(const std::string& text, uint32_t at, bool m8, bool x8) {
  static std::map<std::string, std::string> memo;
  std::string key = mc::Fmt("%06x%d%d", at, m8, x8) + text;
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  struct Log : OutputSink {
    std::string b;
    ErrorOr<void> Write(Address, absl::Span<const std::uint8_t> d) override { b.append(d.begin(), d.end()); return {}; }
  };
  std::string r = "?";
  for (auto* tail : {"", "stp\n"}) {
    Log log;
    auto a = Assemble({MakeFakeFile("a.asm", mc::Fmt(".org $%06x\n.entry m%dx%d\n", at, m8 ? 8 : 16, x8 ? 8 : 16) + text + "\n" + tail)}, &log);
    if (!a.ok()) continue;
    r = *tail ? log.b.substr(0, log.b.size() - 1) : log.b;
    break;
  }
  return memo[key] = r;
}
static bool Judge(mc::Ctx& c, const std::string& what, const Image& im, uint32_t start, const std::string& mode, const proc::Result& r, uint64_t* ins) {
  if (r.timeout || r.signal) { c.fail(what, what + (r.timeout ? " does not finish" : mc::Fmt(" is ended by signal %d", r.signal))); return false; }
  auto bad = [&](const std::string& s) { c.fail(what, what + ": " + s + ": " + Flat(r.out)); return false; };
  std::vector<Shown> sh;
  for (auto& l : Lines(r.out)) if (auto s = Parse1(l)) sh.push_back(*s);
  sim::Mode md;
  if (!sim::FindMode(mode, &md)) abort();
  std::vector<sim::Cpu> cur = sim::Entry(md);
  bool precise = md.e == 0;
  std::map<uint32_t, std::pair<std::vector<sim::Cpu>, bool>> jumps;
  uint32_t pc = start;
  for (size_t i = 0;; ++i) {
    if (i >= sh.size()) return bad(mc::Fmt("stops before $%06x", pc));
    const Shown& s = sh[i];
    if (s.at != pc) return bad(mc::Fmt("$%06x is shown where $%06x is next", s.at, pc));
    int ms = 0, xs = 0;
    for (auto& st : cur) { ms |= 1 << st.m; xs |= 1 << st.x; }
    auto o = Fetch(im, pc, ms == 2, xs == 2);
    bool need = false;
    if (auto it = im.at.find(pc); it != im.at.end()) { auto& op = isa::Ops()[it->second]; need = (op.mode == "#m" && ms == 3) || (op.mode == "#x" && xs == 3); }
    if (s.error) {
      if (i + 1 != sh.size()) return bad("goes on after an error");
      if (r.code == 0) return bad("an error is reported as success");
      bool legit = !o || need;
      // An instruction whose widths the tool may have lost.
      if (!precise && im.at.count(pc) && isa::Ops()[im.at.at(pc)].args < 0) legit = true;
      if (!legit) return bad(mc::Fmt("$%06x is refused", pc));
      return true;
    }
    if (!o) return bad(mc::Fmt("$%06x is not all there", pc));
    if (need) return bad(mc::Fmt("the width at $%06x cannot be known", pc));
    ++*ins;
    if (s.text.compare(0, 3, o->op->name) != 0) return bad(mc::Fmt("$%06x is a ", pc) + o->op->name);
    if (o->op->mode[0] != 'r') {
      std::string b = Bytes1(s.text, pc, ms == 2, xs == 2), w;
      for (int k = 0; k < o->size; ++k) w += char(im.at.at(Wrap(pc, k)));
      if (b != w) return bad(mc::Fmt("the instruction shown at $%06x is another one", pc));
    }
    // The tool knows no return conventions.
    if (o->ins.noreturn) o->exit = false;
    o->ins.yields = o->ins.noreturn = false;
    std::vector<sim::Cpu> before = cur, next, taken;
    if (o->op->name == "plp" || o->op->name == "xce" || o->op->name == "rti") precise = false;
    for (auto& st : before) { if (o->exit) next.push_back(st); else sim::Step(o->ins, st, false, &next); if (o->branch) sim::Step(o->ins, st, true, &taken); }
    sim::Uniq(&next);
    sim::Uniq(&taken);
    cur = next;
    // Nothing runs after a branch that is always taken.
    if (cur.empty()) return true;
    // The flags shown hold in every state.
    sim::Mode f;
    std::string fl = s.flags, cy;
    if (size_t k = fl.find(','); k != fl.npos) { cy = fl.substr(k); fl = fl.substr(0, k); }
    while (!fl.empty() && fl.back() == ' ') fl.pop_back();
    if (!sim::FindMode(fl, &f)) { if (precise) return bad("unknown flags [" + s.flags + "]"); f = {2, 2, 2}; }
    int m2 = 0, x2 = 0;
    for (auto& st : cur) {
      if (!sim::Fits(f, st) && !o->exit) return bad(mc::Fmt("the flags shown at $%06x are wrong", pc));
      if (!o->exit && ((cy.find("c=1") != cy.npos && !st.c) || (cy.find("c=0") != cy.npos && st.c))) return bad(mc::Fmt("the carry shown at $%06x is wrong", pc));
      m2 |= 1 << st.m; x2 |= 1 << st.x;
    }
    if (precise && !o->exit && !cur.empty() && ((m2 != 3 && f.m == 2) || (x2 != 3 && f.x == 2))) return bad(mc::Fmt("the flags shown at $%06x are less than is known", pc));
    if (o->branch) {
      if (s.target != long(*o->branch)) return bad(mc::Fmt("the target of the branch at $%06x is wrong", pc));
      if (s.fresh != !jumps.count(*o->branch)) return bad(mc::Fmt("whether the target of the branch at $%06x is new is wrong", pc));
      jumps[*o->branch] = {taken, precise};
    } else if (s.target >= 0) return bad(mc::Fmt("there is no branch at $%06x", pc));
    if (o->exit) {
      auto j = jumps.find(o->next);
      if (j == jumps.end()) {
        if (i + 1 != sh.size()) return bad(mc::Fmt("goes on after $%06x", pc));
        if (r.code) return bad("an end is reported as failure");
        return true;
      }
      cur = j->second.first; precise = j->second.second;
    }
    pc = o->next;
  }
}
static void Dumb(mc::Ctx& c) {
  bool t = c.thorough();
  const size_t size = 0x8000 * 3;
  std::map<std::string, std::vector<Frag>> menus;
  auto all = [&](const std::string& pick, int len, uint32_t base, std::vector<const char*> modes, bool one_branch = false) {
    auto key = pick + std::to_string(len);
    if (!menus.count(key)) menus[key] = Menu(pick, len + 1);
    auto& menu = menus[key];
    int m = menu.size();
    for (int first = 0; first < m; ++first) {
      c.part("dumb_disassemble");
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("every image of %d pieces of %d and rts at $%06x that starts with [%s], shown instruction by instruction", len, m, base, menu[first].text.c_str()); });
      static Frag rts = F("rts", {0x60});
      std::string dir = c.scratch() + "/dumb", rom = dir + "/in.sfc";
      mkdir(dir.c_str(), 0700);
      std::vector<const Frag*> fs(len + 1, &rts);
      fs[0] = &menu[first];
      std::vector<int> ix(len, 0);
      uint64_t n = 0, ins = 0, err = 0;
      while (true) {
        for (int i = 1; i < len; ++i) fs[i] = &menu[ix[i]];
        Image im;
        int rel = 0;
        for (auto* f : fs) rel += f->rel;
        if ((!one_branch || rel == 1) && Lay(fs, base, &im)) {
          Bytes d(size, 0x6b);
          // The whole ROM's low bytes are the image: LoROM, three banks.
          Image world;
          for (auto& b : im.at) { int64_t o = ref::Offset(b.first, ref::LO); if (o >= 0 && o < int64_t(size)) d[o] = b.second; }
          for (size_t at : {size_t(0x7fdc), size_t(0xffdc)}) { d[at + 2] = ~d[at]; d[at + 3] = ~d[at + 1]; }
          d[0xffdc] ^= 1;
          uint32_t bank = base & 0xff0000;
          for (int a = 0; a < 0x10000; ++a) { int64_t o = ref::Offset(bank | a, ref::LO); if (o >= 0 && o < int64_t(size)) world.at[bank | a] = d[o]; }
          Put(rom, std::string(d.begin(), d.end()));
          for (auto* mode : modes) {
            proc::Result q = proc::Run({Tool("dumb_disassemble"), rom, mc::Fmt("%x", base), mode}, dir);
            ++n;
            std::string what = mc::Fmt("image") + im.ToString() + mc::Fmt(" from $%06x ", base) + mode;
            if (Judge(c, what, world, base, mode, q, &ins) && q.code) ++err;
          }
        }
        int i = len - 1;
        for (; i >= 1; --i) { if (++ix[i] < m) break; ix[i] = 0; }
        if (i < 1) break;
      }
      c.step(ins); c.trace(n);
      c.outcome("images shown", n); c.outcome("ends in an error", err);
      c.state(mc::HashStr(key, first) + base);
      unlink(rom.c_str());
    }
  };
  const std::vector<const char*> five = {"m8x8", "m16x16", "m8", "unk", "emu"};
  all("*", 1, 0x808000, five);
  all("*", 1, 0x02fff8, five);   // the end of the ROM
  all("*", 2, 0x808000, {"m8x8", "m16x16", "unk"});
  all("*", 1, 0x02fffd, {"m8x8", "m16x16"});
  all("*", 1, 0x01fffe, {"m8x8", "m16x16"});
  all("*", 1, 0x02ffff, {"m8x8", "m16x16"});
  all("lda# rep20 clc xce bcc bra rts", 3, 0x808000, {"m8x8", "unk"});
  all("lda# rep20 sep20 bne rts", 4, 0x808000, {"m8x8"}, true);
  if (t) { all("*", 2, 0x02fffa, five); all("*", 3, 0x808000, {"m8x8", "m16x16"}); }
}
// Every opcode alone.
static void Opcodes(mc::Ctx& c) {
  for (int op = 0; op < 256; ++op) {
    c.part("every opcode");
    if (!c.want()) continue;
    c.describe([&] { return mc::Fmt("opcode %02x with 6 operands in 6 modes, shown", op); });
    std::string dir = c.scratch() + "/dumb", rom = dir + "/in.sfc";
    mkdir(dir.c_str(), 0700);
    uint64_t n = 0, ins = 0;
    for (uint32_t v : {0x000000u, 0x010203u, 0x7f7f7fu, 0x808080u, 0xffffffu, 0xfe80ffu}) {
      Bytes d(0x10000, 0x6b);
      Image world;
      d[0x100] = op; d[0x101] = v; d[0x102] = v >> 8; d[0x103] = v >> 16;
      for (size_t at : {size_t(0x7fdc), size_t(0xffdc)}) { d[at + 2] = ~d[at]; d[at + 3] = ~d[at + 1]; }
      d[0xffdc] ^= 1;
      for (int a = 0x8000; a < 0x10000; ++a) world.at[0x800000 | a] = d[ref::Offset(0x800000 | a, ref::LO)];
      Put(rom, std::string(d.begin(), d.end()));
      for (auto* mode : {"m8x8", "m16x16", "m8x16", "m16x8", "unk", "emu"}) {
        proc::Result q = proc::Run({Tool("dumb_disassemble"), rom, "808100", mode}, dir);
        ++n;
        Judge(c, mc::Fmt("bytes %02x %02x %02x %02x from $808100 %s", op, v & 255, v >> 8 & 255, v >> 16, mode), world, 0x808100, mode, q, &ins);
      }
    }
    c.step(ins); c.trace(n); c.state(op);
    unlink(rom.c_str());
  }
}
// Code of many like units, shown from its start and from every entry.
static void LongDumb(mc::Ctx& c) {
  for (int kind = 0; kind < kLongKinds; ++kind)
    for (int n : kLongSizes) {
      Image im;
      std::vector<uint32_t> at;
      std::string text;
      c.part("long code");
      if (kind == 6 || !Long(kind, n, 0x808000, &im, &at, &text)) continue;
      if (!c.want()) continue;
      c.describe([&] { return mc::Fmt("%d times: %s; shown from up to 5 entries in 4 modes", n, text.c_str()); });
      std::string dir = c.scratch() + "/dumb", rom = dir + "/in.sfc";
      mkdir(dir.c_str(), 0700);
      Bytes d(0x10000, 0x6b);
      Image world;
      for (auto& b : im.at) { int64_t o = ref::Offset(b.first, ref::LO); if (o >= 0 && o < int64_t(d.size())) d[o] = b.second; }
      for (size_t h : {size_t(0x7fdc), size_t(0xffdc)}) { d[h + 2] = ~d[h]; d[h + 3] = ~d[h + 1]; }
      d[0xffdc] ^= 1;
      for (int a = 0x8000; a < 0x10000; ++a) world.at[0x800000 | a] = d[ref::Offset(0x800000 | a, ref::LO)];
      Put(rom, std::string(d.begin(), d.end()));
      uint64_t ins = 0, k = 0;
      for (size_t e = 0; e < at.size(); e += std::max<size_t>(1, at.size() / 4))
        for (auto* mode : {"m8x8", "m16x16", "unk", "emu"}) {
          proc::Result q = proc::Run({Tool("dumb_disassemble"), rom, mc::Fmt("%x", at[e]), mode}, dir);
          Judge(c, mc::Fmt("%d times: %s; from $%06x %s", n, text.c_str(), at[e], mode), world, at[e], mode, q, &ins);
          ++k;
        }
      c.step(ins); c.trace(k); c.outcome("images shown", k); c.state(mc::HashStr(text, n));
      unlink(rom.c_str());
    }
}
static void Run(mc::Ctx& c) { OpcodeMap(c); Interactive(c); Opcodes(c); LongDumb(c); Dumb(c); }
static const mc::Check kCheck = {
    .property = "P33", .level = "model_checking",
    .rule = "the real programs are run: print_opcode_map against the processor's opcode matrix, interactive_parse on every sequence of lines of a menu against the parser's statements, dumb_disassemble on every image of a menu and every opcode against a model of the processor that decodes the bytes and follows the status bits",
    .bounds_quick = "256 opcodes; 2 lines of 22; 256 opcodes x 6 operands x 6 modes; sessions of up to 5000 lines; images of up to 2 pieces of all kinds and 3 of 20 at 5 places including the ends of a bank and of the ROM, and of up to 1000 like units of 13 kinds",
    .bounds_thorough = "3 lines of 22; images of up to 3 pieces of all kinds", .run = Run, .chunk = 1, .hang_seconds = 600,
    .assumptions = {"the state that holds after an exit instruction is that of the last branch there, as the tool says it knows no more", "how displacements and errors are worded is not looked at"}};
MC_MAIN(kCheck)
