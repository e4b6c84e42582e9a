#include "mc.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <fstream>
#include <sstream>

namespace mc {

std::string Fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  char buf[8192];
  int n = vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (n < 0) return "";
  return std::string(buf, std::min<size_t>(n, sizeof buf - 1));
}

std::string Hex(const std::vector<uint8_t>& v) {
  std::string r;
  for (size_t i = 0; i < v.size() && i < 64; ++i) r += Fmt(i ? " %02x" : "%02x", v[i]);
  if (v.size() > 64) r += Fmt(" ... (%zu bytes)", v.size());
  return r;
}

std::string JsonStr(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) r += Fmt("\\u%04x", c);
    else r += c;
  }
  return r + "\"";
}

void Ctx::begin() {
  sh_->desc_len = 0;
  sh_->in_case = 1;
  ++cases_;
  ++parts_[part_];
  sample_now_ = !replay_ && (cases_ == 1 || cases_ == 97 || cases_ == 4099);
}

void Ctx::store_desc(const std::string& s) {
  size_t n = std::min(s.size(), sizeof sh_->desc);
  memcpy(sh_->desc, s.data(), n);
  sh_->desc_len = n;
  if (sample_now_) { samples_.push_back(s.substr(0, 400)); sample_now_ = false; }
}

static std::string OneLine(std::string s) {
  for (char& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' ';
  return s;
}
static std::string Esc(const std::string& s) {
  std::string r;
  for (char c : s) { if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; }
  return r;
}
static std::string UnEsc(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\\' && i + 1 < s.size()) { ++i; r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i]; } else r += s[i];
  }
  return r;
}

void Ctx::fail(const std::string& key, const std::string& msg) {
  fprintf(out_, "F\t%llu\t%s\t%s\n", (unsigned long long)index(), Esc(key).c_str(), Esc(msg).c_str());
  fflush(out_);
  if (known_.count(key)) return;
  ++sh_->fails;
  // Enough of this worker; also leave a case whose every run fails slowly.
  if (++nfail_ >= 8) { stopped_ = true; throw Done(); }
}

struct Violation { uint64_t index; std::string key, msg, desc; uint64_t shard; };

class Driver {
 public:
  Driver(const Check& c) : c_(c) {}
  int Run(int argc, char** argv);

 private:
  struct W { pid_t pid = -1; uint64_t last = ~0ull; double since = 0; uint64_t resume = 0; bool done = false; int restarts = 0; };
  static double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  pid_t Spawn(int shard, uint64_t resume, bool replay, uint64_t target, uint64_t upto, const std::string& out, Shared* sh);
  // Runs one case alone.  Result: 0 passed, 1 failed with `key`, 2 crashed, 3 hung.
  int RunAlone(uint64_t idx, std::string* key, std::string* msg, std::string* desc, double limit);
  int RunPrefix(uint64_t shard, uint64_t idx, std::string* key, std::string* msg);
  void ReadReport(const std::string& path, std::vector<Violation>* v, uint64_t shard, bool counters);
  void LoadKnown();
  Shared* MapShared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Shared*>(p);
  }
  const Check& c_;
  bool thorough_ = false;
  int seed_ = 1, nshards_ = 8;
  std::string evidence_, replay_dir_, known_file_, scratch_;
  std::map<std::string, std::string> known_;  // key -> what
  uint64_t cases_ = 0, steps_ = 0, traces_ = 0, total_ = 0;
  bool capped_ = false;
  std::map<std::string, uint64_t> outcomes_, parts_;
  std::vector<std::string> samples_;
  std::vector<uint64_t> states_;
};

static void Die(int) { _exit(99); }

pid_t Driver::Spawn(int shard, uint64_t resume, bool replay, uint64_t target, uint64_t upto, const std::string& out, Shared* sh) {
  fflush(nullptr);
  pid_t parent = getpid();
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid) return pid;
  setpgid(0, 0);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (getppid() != parent) _exit(98);
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
#if !defined(__SANITIZE_ADDRESS__)
  struct rlimit as = {3ull << 30, 3ull << 30};
  setrlimit(RLIMIT_AS, &as);
#endif
  std::string scratch = scratch_ + Fmt("/w%d_%d", shard, (int)getpid());
  mkdir(scratch.c_str(), 0700);
  // What the code under test prints goes nowhere; reports use their own file.
  std::string errlog = out + ".err";
  int e = open(errlog.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  dup2(e, 2);
  Ctx x;
  x.sh_ = sh;
  x.resume_ = resume; x.target_ = target; x.replay_ = replay;
  x.shard_ = shard; x.nshards_ = nshards_; x.chunk_ = c_.chunk;
  x.thorough_ = thorough_; x.seed_ = seed_; x.scratch_ = scratch;
  for (auto& k : known_) x.known_.insert(k.first);
  x.out_ = fopen(out.c_str(), "a");
  if (!x.out_) _exit(97);
  (void)upto;
  try {
    c_.run(x);
  } catch (const Done&) {
  } catch (const std::exception& ex) {
    fprintf(stderr, "uncaught exception: %s\n", ex.what());
    abort();
  }
  sh->in_case = 0;
  for (auto& s : x.samples_) fprintf(x.out_, "S\t%s\n", Esc(s).c_str());
  for (auto& o : x.outcomes_) fprintf(x.out_, "O\t%s\t%llu\n", Esc(o.first).c_str(), (unsigned long long)o.second);
  for (auto& o : x.parts_) fprintf(x.out_, "P\t%s\t%llu\n", Esc(o.first).c_str(), (unsigned long long)o.second);
  fprintf(x.out_, "C\t%llu\t%llu\t%llu\t%llu\t%d\n", (unsigned long long)x.cases_, (unsigned long long)x.steps_,
          (unsigned long long)x.traces_, (unsigned long long)x.index_, x.capped_ ? 1 : 0);
  fclose(x.out_);
  if (!replay) {
    FILE* b = fopen((out + ".states").c_str(), "ab");
    for (uint64_t h : x.states_) fwrite(&h, 8, 1, b);
    fclose(b);
  }
  _exit(x.stopped_ ? 10 : 0);
}

void Driver::ReadReport(const std::string& path, std::vector<Violation>* v, uint64_t shard, bool counters) {
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    std::vector<std::string> p;
    size_t s = 0;
    while (true) { size_t e = line.find('\t', s); p.push_back(line.substr(s, e == line.npos ? line.npos : e - s)); if (e == line.npos) break; s = e + 1; }
    if (p[0] == "F" && p.size() >= 4) v->push_back({strtoull(p[1].c_str(), 0, 10), UnEsc(p[2]), UnEsc(p[3]), "", shard});
    if (!counters) continue;
    if (p[0] == "S") samples_.push_back(UnEsc(p[1]));
    if (p[0] == "O") outcomes_[UnEsc(p[1])] += strtoull(p[2].c_str(), 0, 10);
    if (p[0] == "P") parts_[UnEsc(p[1])] += strtoull(p[2].c_str(), 0, 10);
    if (p[0] == "C") {
      cases_ += strtoull(p[1].c_str(), 0, 10);
      steps_ += strtoull(p[2].c_str(), 0, 10);
      traces_ += strtoull(p[3].c_str(), 0, 10);
      total_ = std::max<uint64_t>(total_, strtoull(p[4].c_str(), 0, 10));
      if (p[5] == "1") capped_ = true;
    }
  }
}

static std::string Slurp(const std::string& p, size_t max = 3000) {
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str().substr(0, max);
}

static std::string ExitText(int st) {
  if (WIFSIGNALED(st)) return Fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  return Fmt("exited with status %d", WEXITSTATUS(st));
}

int Driver::RunAlone(uint64_t idx, std::string* key, std::string* msg, std::string* desc, double limit) {
  Shared* sh = MapShared();
  std::string out = scratch_ + Fmt("/alone_%llu_%d", (unsigned long long)idx, rand());
  pid_t pid = Spawn(0, 0, true, idx, 0, out, sh);
  double start = Now();
  int st = 0;
  bool hung = false;
  double case_start = 0;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (sh->in_case && sh->index == idx && !case_start) case_start = Now();
    if ((case_start && Now() - case_start > limit) || Now() - start > limit + 300) {
      kill(-pid, SIGKILL); kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      hung = true;
      break;
    }
    usleep(2000);
  }
  *desc = std::string(sh->desc, sh->desc_len);
  std::vector<Violation> v;
  ReadReport(out, &v, 0, false);
  std::string err = Slurp(out + ".err");
  unlink(out.c_str()); unlink((out + ".err").c_str());
  munmap(sh, sizeof(Shared));
  if (hung) { *key = "hang:" + *desc; *msg = Fmt("no answer within %.0f s when run alone", limit); return 3; }
  if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10))) {
    *key = "crash:" + *desc;
    *msg = ExitText(st) + ": " + err;
    return 2;
  }
  if (v.empty()) return 0;
  *key = v[0].key; *msg = v[0].msg;
  return 1;
}

void Driver::LoadKnown() {
  std::ifstream f(known_file_);
  std::string line;
  // Lines: finding<TAB>property<TAB>key<TAB>what     (escaped \n \t)
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::vector<std::string> p;
    size_t s = 0;
    while (true) { size_t e = line.find('\t', s); p.push_back(line.substr(s, e == line.npos ? line.npos : e - s)); if (e == line.npos) break; s = e + 1; }
    if (p.size() >= 4 && p[0] == "finding" && p[1] == c_.property) known_[UnEsc(p[2])] = UnEsc(p[3]);
  }
}

int Driver::Run(int argc, char** argv) {
  double t0 = Now();
  uint64_t replay_idx = 0;
  bool replay = false;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--tier") thorough_ = v == "thorough";
    else if (a == "--seed") seed_ = atoi(v.c_str());
    else if (a == "--evidence") evidence_ = v;
    else if (a == "--replays") replay_dir_ = v;
    else if (a == "--known") known_file_ = v;
    else if (a == "--scratch") scratch_ = v;
    else if (a == "--jobs") nshards_ = atoi(v.c_str());
    else if (a == "--replay") { replay = true; replay_idx = strtoull(v.c_str(), 0, 10); }
  }
  signal(SIGPIPE, SIG_IGN);
  mkdir(scratch_.c_str(), 0700);
  LoadKnown();
  if (replay) {
    std::string key, msg, desc;
    int r = RunAlone(replay_idx, &key, &msg, &desc, 120);
    printf("case %llu: %s\n%s\n%s\n", (unsigned long long)replay_idx, r == 0 ? "passed" : "FAILED", desc.c_str(), r ? msg.c_str() : "");
    return r ? 1 : 0;
  }

  std::vector<W> ws(nshards_);
  std::vector<Shared*> sh(nshards_);
  std::vector<Violation> found;
  auto out = [&](int s) { return scratch_ + Fmt("/shard%d", s); };
  for (int s = 0; s < nshards_; ++s) {
    sh[s] = MapShared();
    ws[s].pid = Spawn(s, 0, false, 0, 0, out(s), sh[s]);
    ws[s].since = Now();
  }
  int live = nshards_;
  struct Event { uint64_t idx; uint64_t shard; std::string kind; std::string err; };
  std::vector<Event> events;
  std::vector<Violation> hangs;
  std::set<std::string> hang_known;
  // A run on every change has to answer soon, whatever the change: once something has failed, the
  // workers get a little longer, and the first confirmed hang ends the run.
  const double limit = thorough_ ? c_.hang_seconds : std::min(c_.hang_seconds, 90);
  const double more = thorough_ ? 900 : 90;
  double trouble = 0, longest = 0;
  uint64_t longest_at = 0;
  while (live) {
    bool progress = false;
    if (!trouble) {
      bool any = !events.empty();
      for (int s = 0; s < nshards_; ++s) any |= sh[s]->fails != 0;
      if (any) trouble = Now();
    }
    if (!hangs.empty() || (trouble && Now() - trouble > more)) {
      for (auto& w : ws) if (!w.done) { int st; kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.done = true; }
      capped_ = true;
      break;
    }
    for (int s = 0; s < nshards_; ++s) {
      W& w = ws[s];
      if (w.done) continue;
      int st;
      pid_t r = waitpid(w.pid, &st, WNOHANG);
      bool restart = false;
      if (r == w.pid) {
        progress = true;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10)) { w.done = true; --live; continue; }
        if (!sh[s]->in_case) {
          fprintf(stderr, "worker %d ended outside a case (%s) near index %llu\n%s\n", s, ExitText(st).c_str(),
                  (unsigned long long)sh[s]->index, Slurp(out(s) + ".err").c_str());
          for (auto& o : ws) if (!o.done && o.pid != w.pid) { kill(-o.pid, SIGKILL); kill(o.pid, SIGKILL); }
          return 2;
        }
        events.push_back({sh[s]->index, (uint64_t)s, "crash", ExitText(st) + ": " + Slurp(out(s) + ".err")});
        restart = true;
      } else {
        uint64_t cur = sh[s]->index;
        if (cur != w.last) { if (w.last != ~0ull && Now() - w.since > longest) { longest = Now() - w.since; longest_at = w.last; } w.last = cur; w.since = Now(); }
        else if (Now() - w.since > limit && sh[s]->in_case) {
          kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL);
          waitpid(w.pid, &st, 0);
          std::string key, msg, desc;
          int r = hangs.empty() ? RunAlone(cur, &key, &msg, &desc, 3 * limit) : 0;
          if (r && known_.count(key)) hang_known.insert(key);
          else if (r == 3) hangs.push_back({cur, key, msg, desc, (uint64_t)s});
          else if (r) events.push_back({cur, (uint64_t)s, "crash", ""});
          // Otherwise: a slow machine, not a hang.
          restart = true;
        }
      }
      if (restart) {
        if (++w.restarts > 60) { w.done = true; --live; capped_ = true; continue; }
        w.resume = sh[s]->index + 1;
        sh[s]->in_case = 0;
        w.last = ~0ull; w.since = Now();
        w.pid = Spawn(s, w.resume, false, 0, 0, out(s), sh[s]);
      }
    }
    if (!progress) usleep(2000);
  }
  for (int s = 0; s < nshards_; ++s) {
    ReadReport(out(s), &found, s, true);
    std::ifstream b(out(s) + ".states", std::ios::binary);
    uint64_t h;
    while (b.read(reinterpret_cast<char*>(&h), 8)) states_.push_back(h);
  }
  std::sort(states_.begin(), states_.end());
  states_.erase(std::unique(states_.begin(), states_.end()), states_.end());

  // Confirm: each failing case again, alone.
  std::vector<Violation> confirmed;
  std::set<std::string> known_seen = hang_known;
  const double confirming = Now();
  auto late = [&] { return !confirmed.empty() && Now() - confirming > (thorough_ ? 600 : 60); };
  std::stable_sort(found.begin(), found.end(), [](const Violation& a, const Violation& b) { return a.index < b.index; });
  uint64_t unconfirmed = 0;
  std::set<uint64_t> done_idx;
  for (auto& v : found) {
    if (known_.count(v.key)) {
      known_seen.insert(v.key);
      continue;
    }
    if (confirmed.size() >= 10 || late()) break;
    if (!done_idx.insert(v.index).second) continue;
    std::string key, msg, desc;
    int r = RunAlone(v.index, &key, &msg, &desc, 120);
    v.desc = desc;
    if (r == 1 && known_.count(key) && !known_.count(v.key)) r = 0;
    if (r == 0) {
      // Fails only after the cases before it: run that worker's share again.
      ++unconfirmed;
      v.msg += " (fails only after the earlier cases of its worker; deterministic prefix re-run)";
    }
    confirmed.push_back(v);
  }
  if (unconfirmed && unconfirmed < confirmed.size()) {
    // Some fail on their own: those are enough.
    std::vector<Violation> keep;
    for (auto& v : confirmed) if (v.msg.find("(fails only after") == std::string::npos) keep.push_back(v);
    confirmed = keep;
  } else if (unconfirmed) {
    // One more complete run of the affected shards; a failure that does not
    // come back the same way is a divergence of the harness, not a violation.
    std::set<uint64_t> shards;
    for (auto& v : confirmed) shards.insert(v.shard);
    std::set<std::pair<uint64_t, std::string>> again;
    std::map<uint64_t, pid_t> pids;
    auto name = [&](uint64_t s) { return scratch_ + Fmt("/again%llu", (unsigned long long)s); };
    for (uint64_t s : shards) pids[s] = Spawn(s, 0, false, 0, 0, name(s), MapShared());
    double start = Now();
    for (auto& p : pids) {
      int st;
      while (waitpid(p.second, &st, WNOHANG) != p.second) {
        if (Now() - start > 300) { kill(-p.second, SIGKILL); kill(p.second, SIGKILL); waitpid(p.second, &st, 0); break; }
        usleep(5000);
      }
      std::vector<Violation> v2;
      ReadReport(name(p.first), &v2, p.first, false);
      for (auto& v : v2) again.insert({v.index, v.key});
    }
    std::vector<Violation> keep;
    for (auto& v : confirmed)
      if (v.msg.find("(fails only after") == std::string::npos || again.count({v.index, v.key})) keep.push_back(v);
      else fprintf(stderr, "divergence: case %llu failed once and not again: %s\n", (unsigned long long)v.index, v.msg.c_str());
    if (keep.empty() && !confirmed.empty()) return 2;
    confirmed = keep;
  }
  for (auto& v : hangs) confirmed.push_back(v);
  int ev = 0;
  for (auto& e : events) {
    if (confirmed.size() >= 12 || ++ev > 40 || late()) break;
    std::string key, msg, desc;
    int r = RunAlone(e.idx, &key, &msg, &desc, 3 * limit);
    if (r == 0) {
      confirmed.push_back({e.idx, "crash-in-sequence", e.err + " (only after the earlier cases of its worker)", desc, e.shard});
      continue;
    }
    if (known_.count(key)) { known_seen.insert(key); continue; }
    confirmed.push_back({e.idx, key, msg, desc, e.shard});
  }

  for (auto& k : known_)
    if (known_seen.count(k.first)) printf("KNOWN-FINDING: property=%s %s\n", c_.property, OneLine(k.second).c_str());

  mkdir(replay_dir_.c_str(), 0755);
  for (auto& v : confirmed) {
    std::string path = replay_dir_ + Fmt("/%s_%llu.json", c_.property, (unsigned long long)v.index);
    std::ofstream f(path);
    f << "{\"property\": " << JsonStr(c_.property) << ", \"tier\": " << JsonStr(thorough_ ? "thorough" : "quick")
      << ", \"index\": " << v.index << ", \"key\": " << JsonStr(v.key) << ",\n \"case\": " << JsonStr(v.desc)
      << ",\n \"observed\": " << JsonStr(v.msg) << ",\n \"replay\": "
      << JsonStr(Fmt("python3 /verif/run.py %s %s --replay %llu", c_.property, thorough_ ? "thorough" : "quick", (unsigned long long)v.index)) << "}\n";
    printf("VIOLATION property=%s replay=%s\n", c_.property, path.c_str());
    printf("  case %llu: %s\n  %s\n", (unsigned long long)v.index, OneLine(v.desc).substr(0, 600).c_str(), OneLine(v.msg).substr(0, 900).c_str());
  }

  if (getenv("MC_LONGEST")) fprintf(stderr, "longest case: %.1f s, case %llu\n", longest, (unsigned long long)longest_at);
  std::ofstream f(evidence_);
  if (samples_.size() > 12) samples_.resize(12);
  std::string lvl = c_.level;
  f << "{\"property\": " << JsonStr(c_.property) << ", \"tier\": " << JsonStr(thorough_ ? "thorough" : "quick")
    << ", \"seed\": " << seed_ << ", \"level\": " << JsonStr(lvl) << ",\n \"coverage\": {\n";
  if (lvl == "model_checking") {
    f << "  \"states\": " << states_.size() << ",\n  \"transitions\": " << steps_
      << ",\n  \"traces_validated_against_impl\": " << traces_ << ",\n  \"cases\": " << cases_ << ",\n";
  } else {
    f << "  \"evaluations\": " << cases_ << ",\n  \"distinct_nontrivial\": " << states_.size()
      << ",\n  \"steps\": " << steps_ << ",\n";
  }
  f << "  \"rule\": " << JsonStr(c_.rule) << ",\n  \"bounds\": " << JsonStr(thorough_ ? c_.bounds_thorough : c_.bounds_quick)
    << ",\n  \"exhaustive\": " << (capped_ || !confirmed.empty() ? "false" : "true") << ",\n  \"samples\": [";
  for (size_t i = 0; i < samples_.size(); ++i) f << (i ? ",\n   " : "\n   ") << JsonStr(samples_[i]);
  f << "],\n  \"outcomes\": {";
  bool first = true;
  for (auto& o : outcomes_) { f << (first ? "" : ", ") << JsonStr(o.first) << ": " << o.second; first = false; }
  f << "},\n  \"parts\": {";
  first = true;
  for (auto& o : parts_) { f << (first ? "" : ", ") << JsonStr(o.first) << ": " << o.second; first = false; }
  f << "},\n  \"known_findings_seen\": " << known_seen.size() << "\n },\n \"assumptions\": [";
  for (size_t i = 0; i < c_.assumptions.size(); ++i) f << (i ? ", " : "") << JsonStr(c_.assumptions[i]);
  f << "],\n \"wall_s\": " << Fmt("%.2f", Now() - t0) << ", \"violations\": " << confirmed.size() << "}\n";
  f.close();
  printf("%s %s: %llu cases, %zu states, %llu transitions, %llu traces, %zu violations, %.1f s\n", c_.property,
         thorough_ ? "thorough" : "quick", (unsigned long long)cases_, states_.size(), (unsigned long long)steps_,
         (unsigned long long)traces_, confirmed.size(), Now() - t0);
  if (capped_) printf("note: a cap was reached; the run is not exhaustive\n");
  return confirmed.empty() ? 0 : 1;
}

int Main(int argc, char** argv, const Check& check) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);  // do not outlive run.py
  return Driver(check).Run(argc, argv);
}

}  // namespace mc
