// Core of the deterministic simulator: seeded choices, plans, run context, statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
typedef std::vector<u8> Bytes;

static inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline u64 mix64(u64 a, u64 b) { return mix64(mix64(a) ^ (b * 0xd6e8feb86659fd93ull)); }

struct Rng {  // xoshiro256**; every choice of a run comes from one of these, seeded by VERIF_SEED
  u64 s[4];
  explicit Rng(u64 seed) { for (int i = 0; i < 4; i++) s[i] = seed = mix64(seed + i); }
  static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
  u64 next() {
    u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  i64 seed63() { return (i64)(next() >> 1); }
  void fill(u8 *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (u8)next(); }
};

struct Step {
  std::string op;
  std::vector<i64> a;
  i64 at(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
  std::string prop;
  std::map<std::string, i64> cfg;
  std::vector<Step> steps;
  i64 get(const char *k, i64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
  void add(const char *op, std::vector<i64> a = {}) { steps.push_back({op, std::move(a)}); }
  std::string str() const;
  static bool parse(const std::string &text, Plan &p);
};

struct Stats {
  u64 runs = 0, sim_time = 0;
  std::map<std::string, u64> faults, ops, probes;
  std::unordered_set<u64> distinct;
  std::vector<std::string> samples;
};

struct Ctx {
  Stats *st;
  bool verbose = false;
  u64 hash = 0xcbf29ce484222325ull;
  bool failed = false;
  std::string kind, detail;
  explicit Ctx(Stats *s) : st(s) {}
  void h(const void *p, size_t n) {
    const u8 *b = (const u8 *)p;
    for (size_t i = 0; i < n; i++) hash = (hash ^ b[i]) * 0x100000001b3ull;
  }
  void h(u64 v) { h(&v, 8); }
  void h(const Bytes &b) { if (!b.empty()) h(b.data(), b.size()); }
  void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void fault(const char *k, u64 n = 1) { st->faults[k] += n; }
  void op(const char *k, u64 n = 1) { st->ops[k] += n; }
  void probe(const char *k, u64 n = 1) { st->probes[k] += n; }
  void tick(u64 t) { st->sim_time += t; }
  void distinct(u64 v) { if (st->distinct.size() < 4000000) st->distinct.insert(v); }
  void fail(const std::string &k, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
};

struct Scenario {
  virtual ~Scenario() {}
  virtual bool setup(std::string &err) { (void)err; return true; }  // load what the runs need
  virtual u64 quick_runs() = 0;                                    // number of seeds in the quick tier
  virtual void generate(Rng &r, u64 index, bool thorough, Plan &p) = 0;
  virtual void execute(const Plan &p, Ctx &c) = 0;
  virtual bool simplify(const Plan &p, int round, Plan &out) { (void)p; (void)round; (void)out; return false; }
  virtual const char *rule() = 0;
};
Scenario *make_scenario(const std::string &prop);
extern std::string g_moddir;  // where the built modules are
std::string hex(const u8 *p, size_t n, size_t max = 16);
static inline u64 fnv(const void *p, size_t n, u64 h = 0xcbf29ce484222325ull) {
  const u8 *b = (const u8 *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}
static inline u64 fnv(const Bytes &b) { return fnv(b.data(), b.size()); }

// Runs f under protection: a fatal signal inside it comes back as its number (0: none, -1: CPU time used up).
int guarded(const std::function<void()> &f, unsigned cpu_seconds = 20);
// fatal signals on another thread than the one in guarded(): handler installed by the scenario
extern thread_local void *g_guard_jmp;  // sigjmp_buf*
void guard_thread_init();
