// Bounded exhaustive exploration driver.
//
// A check is one deterministic enumeration of cases (operation sequences,
// programs, addresses, fault points, ...).  The enumeration is executed by
// several forked workers, each running a fixed share of the case indices, so a
// crash or hang of the code under test ends one worker, is attributed to one
// case index, and the worker is restarted after it.  Every violation is run
// again alone in a fresh process (or, if it needs the cases before it, by
// running the worker's prefix again) before it is reported.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace mc {

inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0x1234567) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return Mix(h, n);
}
inline uint64_t HashStr(std::string_view s, uint64_t h = 0x1234567) {
  return HashBytes(s.data(), s.size(), h);
}

struct Shared {  // one per worker, in shared memory
  volatile uint64_t index;      // case being enumerated
  volatile uint64_t in_case;    // 1 while a case of this worker is being executed
  volatile uint64_t desc_len;
  volatile uint64_t fails;      // violations reported so far
  char desc[65536];
};

struct Done {};  // thrown to end the enumeration early

class Ctx {
 public:
  // Starts the next case of the enumeration.  True: this process executes it.
  bool want() {
    uint64_t i = index_++;
    sh_->index = i;
    if (stopped_ || (replay_ && i > target_)) throw Done();
    if (replay_ ? i != target_ : (i < resume_ || ((i / chunk_) % nshards_) != shard_)) {
      if (sh_->in_case) sh_->in_case = 0;
      return false;
    }
    begin();
    return true;
  }
  uint64_t index() const { return index_ - 1; }

  template <typename F> void describe(F f) {
    if (sample_now_ || replay_) store_desc(f());
  }
  void fail(const std::string& key, const std::string& msg);
  // Counters reported in the evidence.
  void step(uint64_t n = 1) { steps_ += n; }
  void state(uint64_t h) { if (states_.size() < kMaxStates) states_.insert(h); else capped_ = true; }
  void trace(uint64_t n = 1) { traces_ += n; }
  void outcome(const std::string& name, uint64_t n = 1) { outcomes_[name] += n; }
  void part(const std::string& name) { part_ = name; }

  bool thorough() const { return thorough_; }
  int seed() const { return seed_; }
  const std::string& scratch() const { return scratch_; }
  bool stopped() const { return stopped_; }
  bool replaying() const { return replay_; }

 private:
  friend class Driver;
  static constexpr size_t kMaxStates = 20000000;
  void begin();
  void store_desc(const std::string& s);
  Shared* sh_ = nullptr;
  uint64_t index_ = 0, resume_ = 0, target_ = 0, chunk_ = 1;
  uint64_t shard_ = 0, nshards_ = 1;
  bool replay_ = false, prefix_ = false, thorough_ = false, stopped_ = false, sample_now_ = false, capped_ = false;
  int seed_ = 1;
  uint64_t cases_ = 0, steps_ = 0, traces_ = 0, nfail_ = 0;
  std::unordered_set<uint64_t> states_;
  std::map<std::string, uint64_t> outcomes_;
  std::map<std::string, uint64_t> parts_;
  std::string part_ = "all";
  std::vector<std::string> samples_;
  std::set<std::string> known_;
  std::string scratch_;
  FILE* out_ = nullptr;  // worker report file
};

// Static description of a check.
struct Check {
  const char* property;
  const char* level;       // model_checking, exploration or fault_enumeration
  const char* rule;        // how cases are made and what makes one non-trivial
  const char* bounds_quick;
  const char* bounds_thorough;
  void (*run)(Ctx&);
  uint64_t chunk = 1;
  int hang_seconds = 20;
  std::vector<std::string> assumptions = {};
};

int Main(int argc, char** argv, const Check& check);

std::string Hex(const std::vector<uint8_t>& v);
std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string JsonStr(std::string_view s);

}  // namespace mc

#define MC_MAIN(check) \
  int main(int argc, char** argv) { return mc::Main(argc, argv, check); }

#endif
