// C09: failing allocations and failing library calls inside the operations.
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <signal.h>

#include <algorithm>

#include "scen.h"

namespace {

struct Alloc {
  bool on = false;           // inside an operation of the code under test
  i64 calls = 0, fail_at = -1;
  bool fail_all = false;     // every allocation from fail_at on
  i64 live = 0;              // blocks outstanding that were allocated inside operations
  bool fired = false;
  std::unordered_set<void *> blocks;
} A;
struct Lib {
  bool on = false;
  i64 calls = 0, fail_at = -1;
  bool fail_all = false;
  std::string site;
  bool fired = false;
} Lf;

bool fails() {
  if (!A.on) return false;
  i64 k = A.calls++;
  bool f = A.fail_at >= 0 && (k == A.fail_at || (A.fail_all && k > A.fail_at));
  A.fired |= f;
  return f;
}
void note(void *p) { if (A.on && p) A.blocks.insert(p); }
void *cm(size_t n, const char *, int) {
  if (fails()) return nullptr;
  void *p = malloc(n ? n : 1);
  note(p);
  return p;
}
void *cr(void *o, size_t n, const char *, int) {
  if (fails()) return nullptr;
  bool had = A.blocks.erase(o);
  void *p = realloc(o, n ? n : 1);
  if (had || (A.on && !o)) A.blocks.insert(p);
  return p;
}
void cf(void *p, const char *, int) { A.blocks.erase(p); free(p); }

extern "C" void *mod_malloc(size_t n, void *(*real)(size_t)) {
  if (fails()) return nullptr;
  void *p = real(n);
  note(p);
  return p;
}
extern "C" int mod_free(void *p) { A.blocks.erase(p); return 0; }
extern "C" int mod_lib_fault(const char *site) {
  if (!Lf.on) return 0;
  i64 k = Lf.calls++;
  if (Lf.fail_at < 0 || (Lf.fail_all ? k < Lf.fail_at : k != Lf.fail_at)) return 0;
  if (!Lf.fired) Lf.site = site;
  Lf.fired = true;
  return 1;
}
bool in_op = false;
extern "C" void mod_abort() {
  if (in_op) raise(SIGABRT);
}

bool mem_ok = false;
__attribute__((constructor(101))) void early() { mem_ok = CRYPTO_set_mem_functions(cm, cr, cf); }

struct C09 : Scenario {
  std::vector<Module *> mods;
  struct Count { i64 allocs = 0, libs = 0; };
  std::map<std::pair<size_t, int>, Count> counts;
  struct World { Bytes pk, sk, ct, ss; };
  std::map<size_t, World> worlds;

  enum { KEY, ENC, DEC, GEN, INIT, XOF, OPS };
  const char *name(int op) { static const char *n[] = {"key generation", "encapsulation", "decapsulation", "random request", "seeding", "seed expansion"}; return n[op]; }

  struct Out { bool stopped = false; int crash = 0, rc = 0; Bytes a, b, state; };

  // Runs one operation; stopped: the code under test ended the process.
  Out run(Module *m, size_t mi, int op, u64 seed) {
    Out o;
    sim_module *s = m->m;
    World &w = worlds[mi];
    Bytes pk = w.pk, sk = w.sk, ct = w.ct, ss = seeded(seed, s->ssbytes), ent = seeded(seed, 48);
    if (op == KEY) { pk = seeded(seed + 1, s->pkbytes); sk = seeded(seed + 2, s->skbytes); }
    if (op == ENC) ct = seeded(seed + 3, s->ctbytes);
    if (op == DEC && (seed & 1)) ct[seed % ct.size()] ^= 1;
    Bytes buf = seeded(seed + 4, 100), xof(s->xofsize + 64, 0);
    m->reset();
    s->randombytes_init(ent.data(), nullptr, 256);  // the real generator, from a known state
    s->hooks->malloc_ = mod_malloc;
    s->hooks->free_ = mod_free;
    s->hooks->lib_fault = mod_lib_fault;
    s->hooks->abort_ = mod_abort;
    in_op = true;
    int sig = guarded([&] {
      A.on = Lf.on = true;
      switch (op) {
        case KEY: o.rc = s->keypair(pk.data(), sk.data()); break;
        case ENC: o.rc = s->enc(ct.data(), ss.data(), pk.data()); break;
        case DEC: o.rc = s->dec(ss.data(), ct.data(), sk.data()); break;
        case GEN: o.rc = s->randombytes(buf.data(), buf.size()); break;
        case INIT: s->randombytes_init(buf.data(), seed & 1 ? buf.data() + 48 : nullptr, 256); break;
        case XOF: {
          Bytes key = seeded(seed, 40);
          o.rc = s->seedexpander_init(xof.data(), key.data(), key.data() + 32, 1000);
          if (!o.rc) o.rc = s->seedexpander(xof.data(), buf.data(), 37);
          if (!o.rc) o.rc = s->seedexpander(xof.data(), buf.data() + 37, 50);
          break;
        }
      }
    }, 20);
    A.on = Lf.on = in_op = false;
    o.stopped = sig == SIGABRT || sig == SIGILL || sig == SIGTRAP;  // abort, exit, assertions and traps end the process in an orderly way
    if (sig && !o.stopped) o.crash = sig;
    s->hooks->malloc_ = nullptr;
    s->hooks->free_ = nullptr;
    s->hooks->lib_fault = nullptr;
    s->hooks->abort_ = nullptr;
    ERR_clear_error();
    if (!o.stopped && !o.crash && op != XOF) { o.state.resize(64); s->randombytes(o.state.data(), 64); }  // the generator's state afterwards
    if (op == KEY) { o.a = pk; o.b = sk; }
    else if (op == ENC) { o.a = ct; o.b = ss; }
    else if (op == DEC) o.a = ss;
    else if (op != INIT) o.a = buf;
    return o;
  }
  void arm(i64 alloc, bool all, i64 lib, bool lib_all = false) {
    Lf.fail_all = lib_all;
    A.calls = Lf.calls = 0;
    A.fail_at = alloc;
    A.fail_all = all;
    Lf.fail_at = lib;
    A.fired = Lf.fired = false;
    A.blocks.clear();
  }
  bool setup(std::string &err) override {
    if (!mem_ok) { err = "the library's allocator cannot be replaced"; return false; }
    if (!freopen("/dev/null", "w", stderr)) {}
    mods = load_modules("lib", err);
    if (mods.empty()) return false;
    for (size_t i = 0; i < mods.size(); i++) {
      Module *m = mods[i];
      sim_module *s = m->m;
      World &w = worlds[i];
      w.pk.resize(s->pkbytes); w.sk.resize(s->skbytes); w.ct.resize(s->ctbytes); w.ss.resize(s->ssbytes);
      Bytes e = seeded(77 + i, 48);
      s->randombytes_init(e.data(), nullptr, 256);
      s->keypair(w.pk.data(), w.sk.data());
      s->enc(w.ct.data(), w.ss.data(), w.pk.data());
      for (int op = 0; op < OPS; op++) {
        for (int k = 0; k < 2; k++) { arm(-1, false, -1); run(m, i, op, 5); }  // the second time everything is initialised
        counts[{i, op}] = {A.calls, Lf.calls};
      }
      m->reset();
    }
    return true;
  }
  u64 quick_runs() override { return 9000; }
  const char *rule() override { return "distinct (implementation, operation, failing call) points; an operation's calls are numbered and failures placed at every number"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    (void)thorough;
    size_t mi = index % mods.size();
    p.cfg["mod"] = (i64)mi;
    int len = (int)r.range(2, 10);
    for (int i = 0; i < len; i++) {
      int op = (int)r.below(OPS);
      Count &k = counts[{mi, op}];
      u64 x = r.below(10);
      if (x < 4) p.add("alloc", {op, r.seed63(), k.allocs ? (i64)r.below(k.allocs) : 0, (i64)r.below(2)});
      else if (x < 8) p.add("lib", {op, r.seed63(), k.libs ? (i64)r.below(k.libs) : 0, (i64)r.chance(1, 3)});
      else p.add("ok", {op, r.seed63(), r.range(1, 4)});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    size_t mi = (u64)p.get("mod") % mods.size();
    Module *m = mods[mi];
    for (auto &s : p.steps) {
      if (c.failed) return;
      int op = (int)((u64)s.at(0) % OPS);
      c.op(name(op));
      c.tick(300);
      arm(-1, false, -1);
      Out good = run(m, mi, op, s.at(1));
      if (good.crash) return c.fail("crash", "%s: %s without any fault %s", m->id.c_str(), name(op), good.crash < 0 ? "never returned" : "crashed");
      if (good.stopped || good.rc) return c.fail("status", "%s: %s failed without any fault (%s, rc %d)", m->id.c_str(), name(op), good.stopped ? "stopped" : "returned", good.rc);
      if (!A.blocks.empty()) return c.fail("leak", "%s: a successful %s left %zu blocks allocated", m->id.c_str(), name(op), A.blocks.size());
      if (s.op == "ok") continue;
      bool al = s.op == "alloc";
      arm(al ? s.at(2) : -1, al && s.at(3), al ? -1 : s.at(2), !al && s.at(3));
      Out o = run(m, mi, op, s.at(1));
      bool fired = al ? A.fired : Lf.fired;
      std::string what = al ? "allocation " + std::to_string(s.at(2)) + (s.at(3) ? " and all later ones" : "") : "call " + std::to_string(s.at(2)) + " (" + Lf.site + ")" + (s.at(3) ? " and all later ones" : "");
      A.blocks.clear();
      if (!fired) { c.probe("fault point not reached"); continue; }
      c.fault(al ? (s.at(3) ? "memory exhausted" : "one allocation failed") : ((s.at(3) ? "failed from here on: " : "failed: ") + Lf.site).c_str());
      c.distinct(mix64(mix64(mi * OPS + op, s.at(2)), al ? 1 + s.at(3) : 4 * s.at(3)));
      c.ev("%s %s: %s failed -> %s rc %d", m->id.c_str(), name(op), what.c_str(), o.stopped ? "stopped" : "returned", o.rc);
      c.probe(o.stopped ? "process stopped" : "completed in spite of the failure");
      if (o.crash) return c.fail("crash", "%s: after %s failed, %s %s", m->id.c_str(), what.c_str(), name(op), o.crash < 0 ? "never returned" : "crashed");
      if (o.stopped || o.rc) continue;
      if (o.a != good.a || o.b != good.b || o.state != good.state)
        return c.fail("weakened", "%s: %s of %s's library calls failed, yet it reported success with a different %s", m->id.c_str(), what.c_str(), name(op),
                      o.a != good.a ? "first output" : o.b != good.b ? "second output" : "generator state");
      // afterwards, everything works and nothing leaks
      arm(-1, false, -1);
      Out again = run(m, mi, op, s.at(1));
      if (again.stopped || again.a != good.a || again.b != good.b) return c.fail("after", "%s: %s after a failure differs", m->id.c_str(), name(op));
      if (!A.blocks.empty()) return c.fail("leak", "%s: %s after a failure left %zu blocks allocated", m->id.c_str(), name(op), A.blocks.size());
    }
  }
};

Register r9("C09", [] () -> Scenario * { return new C09; });
}  // namespace
