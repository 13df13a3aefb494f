// Scenarios on instrumented builds, in which every memory access and every block of code is an event of the simulator:
// C05 preempted and nested callers, C06 abandoned operations, C14 traces.
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <sys/mman.h>

#include <algorithm>

#include "scen.h"
#include "stack.h"

namespace {

enum { KEY, ENC, DEC };
const char *opname[] = {"key generation", "encapsulation", "decapsulation"};

struct Op {
  int op = 0;
  Bytes pk, sk, ct, ss, rnd;
  int rc = 0;
  size_t drawn = 0;
  void outputs(Bytes &o) const {
    o.clear();
    if (op == KEY) { o.insert(o.end(), pk.begin(), pk.end()); o.insert(o.end(), sk.begin(), sk.end()); }
    if (op == ENC) { o.insert(o.end(), ct.begin(), ct.end()); o.insert(o.end(), ss.begin(), ss.end()); }
    if (op == DEC) o.insert(o.end(), ss.begin(), ss.end());
    o.push_back((u8)rc);
  }
};

// Operations of one history share a few keys and repeat each other: the low bits of the seed choose the key, the rest
// the random value of the encapsulation.
enum { KEYBITS = 24 };
struct Seeds {
  i64 keys[2], msgs[3];
  explicit Seeds(Rng &r) {
    for (auto &k : keys) k = (i64)r.below(1 << KEYBITS);
    for (auto &m : msgs) m = (i64)r.below(1ll << 36);
  }
  i64 pick(Rng &r) { return (r.chance(1, 5) ? (i64)r.below(1 << KEYBITS) : keys[r.below(2)]) | (r.chance(1, 3) ? (i64)r.below(1ll << 36) : msgs[r.below(3)]) << KEYBITS; }
};
// kind: 0 honest, 1 one flipped bit, 2 garbage ciphertext or public key, 3.. extreme contents
Op make_op(Module *m, int op, i64 seed, i64 kind) {
  Op o;
  o.op = op;
  sim_module *s = m->m;
  Model mod(m->p);
  o.pk.resize(s->pkbytes);
  o.sk.resize(s->skbytes);
  o.ct.resize(s->ctbytes);
  o.ss.resize(s->ssbytes);
  for (int L = 0; L < m->lanes; L++) {
    Bytes r = drawn_bytes(mix64(seed & ((1 << KEYBITS) - 1), L), 96), pk, sk, ct, msg = drawn_bytes(mix64(seed >> KEYBITS, L + 7), 32);
    r.insert(r.end(), msg.begin(), msg.end());
    u8 ss[32];
    if (kind == 4) std::fill(r.begin(), r.end(), 0);
    if (kind == 5) std::fill(r.begin(), r.end(), 0xff);
    if (op == KEY) { o.rnd.insert(o.rnd.end(), r.begin(), r.begin() + 96); continue; }
    mod.keygen(&r[0], &r[32], &r[64], pk, sk);
    if (op == ENC) {
      if (kind == 2) { Rng x(seed); x.fill(pk.data(), pk.size()); }
      if (kind == 3) std::fill(pk.begin(), pk.end() - 32, (u8)(seed & 1 ? 0xff : 0));
      memcpy(&o.pk[L * pk.size()], pk.data(), pk.size());
      o.rnd.insert(o.rnd.end(), r.begin() + 96, r.end());
    } else {
      mod.enc(&r[96], pk.data(), ct, ss);
      if (kind == 1) ct[(u64)(seed >> 3) % ct.size()] ^= (u8)(1 << (seed & 7));
      if (kind == 2) { Rng x(seed); x.fill(ct.data(), ct.size()); }
      if (kind == 3) std::fill(sk.begin(), sk.begin() + m->p.skvec(), (u8)(seed & 1 ? 0xff : 0));
      if (kind == 6) std::fill(ct.begin(), ct.end(), (u8)(seed & 1 ? 0xff : 0));
      if (kind == 7) { ct[ct.size() - 1 - (u64)(seed >> 3) % 32] ^= (u8)(1 << (seed & 7)); }
      if (kind == 8) { ct[0] ^= (u8)(1 << (seed & 7)); }
      memcpy(&o.sk[L * sk.size()], sk.data(), sk.size());
      memcpy(&o.ct[L * ct.size()], ct.data(), ct.size());
    }
  }
  return o;
}

int call(Module *m, Op &o) {
  RandSrc src, *old = g_rand;
  src.want = o.rnd.data();
  src.n = o.rnd.size();
  g_rand = &src;
  sim_module *s = m->m;
  int rc = o.op == KEY ? s->keypair(o.pk.data(), o.sk.data()) : o.op == ENC ? s->enc(o.ct.data(), o.ss.data(), o.pk.data()) : s->dec(o.ss.data(), o.ct.data(), o.sk.data());
  o.drawn = src.total;
  g_rand = old;
  return o.rc = rc;
}

Module *g_mod = nullptr;

void hooks_on(Module *m, void (*acc)(const void *, size_t, int, void *), void (*blk)(void *)) {
  g_mod = m;
  m->m->hooks->randombytes = sim_randombytes;
  m->m->hooks->access = acc;
  m->m->hooks->block = blk;
}
void hooks_off(Module *m) {
  m->m->hooks->randombytes = nullptr;
  m->m->hooks->access = nullptr;
  m->m->hooks->block = nullptr;
  m->m->hooks->wait = nullptr;
}

// events of one operation run alone
struct Total { u64 ev = 0, st = 0; };
u64 cnt_ev, cnt_st;
void count_access(const void *a, size_t, int, void *) { cnt_ev++; if (g_mod->in_static(a)) cnt_st++; }
void count_block(void *) { cnt_ev++; }
Total measure(Module *m, Op o) {
  cnt_ev = cnt_st = 0;
  m->reset();
  hooks_on(m, count_access, count_block);
  call(m, o);
  hooks_off(m);
  m->reset();
  return {cnt_ev, cnt_st};
}

struct Inst : Scenario {
  std::vector<Module *> mods;
  std::map<std::pair<size_t, int>, Total> totals;
  bool setup(std::string &err) override {
    mods = load_modules("inst", err);
    for (size_t i = 0; i < mods.size(); i++)
      for (int op = 0; op < 3; op++) {
        Total t;
        int sig = guarded([&] { t = measure(mods[i], make_op(mods[i], op, 5, 0)); });
        if (sig) { hooks_off(mods[i]); t = {100000, 1}; }
        totals[{i, op}] = t;
      }
    return !mods.empty();
  }
  Bytes alone(Module *m, Op o) {
    Bytes r, img;
    m->save(img);
    m->reset();
    m->m->hooks->randombytes = sim_randombytes;
    call(m, o);
    m->m->hooks->randombytes = nullptr;
    m->restore(img);
    o.outputs(r);
    return r;
  }
};

// ======================================================================= C05

struct Point { u64 at; bool stat; int to; int nest; i64 seed, kind; };
struct Th {
  pthread_t t;
  sem_t go;
  bool done = false, started = false, busy = false, nested = false;
  std::vector<Op> ops;
  std::vector<Bytes> want;
  std::vector<Point> pts;
  u64 ev = 0, st = 0, since = 0;
  int crashed = 0;
  size_t next = 0;
  std::vector<std::pair<Op, Bytes>> nests;
};
std::vector<Th *> ths;
int running = -1;
sem_t main_go;
Ctx *g_c = nullptr;
u64 sched_hash = 0, switches = 0, waits = 0;
bool deadlock = false;
thread_local int me = -1;
thread_local int in_nest = 0;

void switch_to(int k) {  // hand the processor over; the caller sleeps until it is chosen again
  Th *self = ths[me];
  self->since = 0;
  switches++;
  sched_hash = mix64(sched_hash, (u64)me * 8 + k);
  running = k;
  sem_post(&ths[k]->go);
  while (sem_wait(&self->go)) {}
}
int other_runnable(int pref) {
  int n = (int)ths.size();
  for (int i = 0; i < n; i++) { int k = (pref + i) % n; if (k != me && !ths[k]->done) return k; }
  return -1;
}
void nest_here(Th *t, const Point &p) {
  in_nest++;
  Op o = make_op(g_mod, p.nest, p.seed, p.kind);
  // what it returns alone is computed afterwards: the image must not be touched here
  call(g_mod, o);
  Bytes out;
  o.outputs(out);
  t->nests.push_back({make_op(g_mod, p.nest, p.seed, p.kind), out});
  in_nest--;
}
void at_event(bool stat) {
  if (me < 0 || in_nest) return;
  Th *t = ths[me];
  t->ev++;
  if (stat) t->st++;
  if (++t->since > 30000000) { int k = other_runnable(me + 1); if (k >= 0) switch_to(k); else t->since = 0; }
  for (size_t i = 0; i < t->pts.size(); i++) {
    Point p = t->pts[i];
    if (p.stat ? (stat && t->st == p.at) : t->ev == p.at) {
      t->pts.erase(t->pts.begin() + i);
      if (p.nest >= 0) { g_c->fault("operation nested inside another"); nest_here(t, p); }
      else {
        int k = other_runnable(p.to);
        if (k >= 0) { g_c->fault(p.stat ? "preempted at an access to shared memory" : "preempted"); switch_to(k); }
      }
      return;
    }
  }
}
void c05_access(const void *a, size_t, int, void *) { at_event(g_mod->in_static(a)); }
void c05_block(void *) { at_event(false); }
void c05_wait() {  // a lock is held by somebody else
  if (me < 0) return;
  int k = in_nest ? -1 : other_runnable(me + 1);
  if (k < 0 || ++waits > 100000) { deadlock = true; if (g_guard_jmp) siglongjmp(*(sigjmp_buf *)g_guard_jmp, 2); return; }
  switch_to(k);
}
void *thread_main(void *vp) {
  me = (int)(intptr_t)vp;
  Th *t = ths[me];
  guard_thread_init();
  while (sem_wait(&t->go)) {}
  sigjmp_buf jb;
  int sig = sigsetjmp(jb, 1);
  if (sig == 0) {
    g_guard_jmp = &jb;
    for (; t->next < t->ops.size(); t->next++) call(g_mod, t->ops[t->next]);
  } else t->crashed = 1;
  g_guard_jmp = nullptr;
  t->done = true;
  int n = (int)ths.size();
  for (int i = 1; i < n; i++) {
    int k = (me + i) % n;
    if (!ths[k]->done) { running = k; sem_post(&ths[k]->go); return nullptr; }
  }
  sem_post(&main_go);
  return nullptr;
}

struct C05 : Inst {
  u64 quick_runs() override { return 4200; }
  const char *rule() override { return "distinct schedules: sequences of (thread, thread switched to) together with the places of the switches and nested calls"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t mi = index % mods.size();
    p.cfg["mod"] = (i64)mi;
    Seeds sd(r);
    int nt = (int)r.range(2, thorough ? 5 : 3);
    p.cfg["threads"] = nt;
    p.cfg["warm"] = r.chance(1, 2);
    std::vector<u64> ev(nt, 0), st(nt, 0);
    for (int t = 0; t < nt; t++) {
      int k = (int)r.range(1, 2);
      for (int i = 0; i < k; i++) {
        int op = (int)r.below(3);
        p.add("op", {t, op, sd.pick(r), r.chance(2, 3) ? 0 : (i64)r.below(6)});
        ev[t] += totals[{mi, op}].ev;
        st[t] += totals[{mi, op}].st;
      }
    }
    int pre = (int)r.range(1, thorough ? 24 : 10);
    for (int i = 0; i < pre; i++) {
      int t = (int)r.below(nt);
      bool stat = st[t] && r.chance(1, 2);
      u64 at = 1 + r.below(stat ? st[t] : ev[t]);
      if (r.chance(1, 8)) at = 1 + r.below(std::min<u64>(2000, stat ? st[t] : ev[t]));
      if (r.chance(1, 4)) p.add("nest", {t, (i64)at, stat, (i64)r.below(3), sd.pick(r), (i64)r.below(3)});
      else p.add("pre", {t, (i64)at, stat, (i64)r.below(nt)});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    Module *m = mods[(u64)p.get("mod") % mods.size()];
    m->reset();
    g_mod = m;
    g_c = &c;
    int nt = (int)p.get("threads", 2);
    std::vector<Th> store(nt);
    ths.clear();
    for (auto &t : store) { ths.push_back(&t); sem_init(&t.go, 0, 0); }
    sem_init(&main_go, 0, 0);
    sched_hash = switches = waits = 0;
    deadlock = false;
    u64 places = 0;
    for (auto &s : p.steps) {
      Th &t = store[(u64)s.at(0) % nt];
      if (s.op == "op") {
        Op o = make_op(m, (int)((u64)s.at(1) % 3), s.at(2), s.at(3));
        t.want.push_back(alone(m, o));
        t.ops.push_back(o);
        c.op(opname[o.op]);
        c.tick(500);
      } else if (s.op == "pre") t.pts.push_back({(u64)s.at(1), s.at(2) != 0, (int)((u64)s.at(3) % nt), -1, 0, 0});
      else if (s.op == "nest") t.pts.push_back({(u64)s.at(1), s.at(2) != 0, 0, (int)((u64)s.at(3) % 3), s.at(4), s.at(5)});
      if (s.op != "op") places = mix64(places, s.at(0) * 1000003 + s.at(1) * 2 + s.at(2));
    }
    m->reset();
    if (p.get("warm")) { Op o = make_op(m, KEY, 3, 0); m->m->hooks->randombytes = sim_randombytes; call(m, o); }
    hooks_on(m, c05_access, c05_block);
    m->m->hooks->wait = c05_wait;
    for (int i = 0; i < nt; i++) pthread_create(&store[i].t, nullptr, thread_main, (void *)(intptr_t)i);
    running = 0;
    sem_post(&store[0].go);
    while (sem_wait(&main_go)) {}
    for (auto &t : store) pthread_join(t.t, nullptr);
    hooks_off(m);
    c.probe("context switches", switches);
    c.h(sched_hash);
    c.distinct(mix64(mix64(sched_hash, places), (u64)p.get("mod")));
    for (int i = 0; i < nt && !c.failed; i++) {
      Th &t = store[i];
      if (deadlock && t.crashed) c.fail("deadlock", "%s: no caller can proceed", m->id.c_str());
      if (t.crashed) c.fail("crash", "%s: %s crashed in thread %d while others were running", m->id.c_str(), opname[t.ops[t.next].op], i);
      for (size_t k = 0; k < t.ops.size() && !c.failed; k++) {
        Bytes got;
        t.ops[k].outputs(got);
        c.h(got);
        if (got != t.want[k])
          c.fail("disturbed", "%s: %s in thread %d returned something else than when it runs alone (%llu switches)", m->id.c_str(), opname[t.ops[k].op], i, (unsigned long long)switches);
      }
      for (auto &x : t.nests) {
        if (c.failed) break;
        c.h(x.second);
        if (x.second != alone(m, x.first)) c.fail("disturbed", "%s: %s nested inside an operation of thread %d returned something else than when it runs alone", m->id.c_str(), opname[x.first.op], i);
      }
    }
    ths.clear();
    for (auto &t : store) sem_destroy(&t.go);
    m->reset();
  }
};

// ======================================================================= C06

sigjmp_buf c06_jmp;
u64 c06_at = 0, c06_ev = 0, c06_st = 0;
bool c06_stat = false, c06_fired = false, c06_armed = false;
void c06_event(bool stat) {
  if (!c06_armed) return;
  c06_ev++;
  if (stat) c06_st++;
  if (c06_stat ? (stat && c06_st == c06_at) : c06_ev == c06_at) {
    c06_armed = false;
    c06_fired = true;
    siglongjmp(c06_jmp, 1);
  }
}
void c06_access(const void *a, size_t, int, void *) { c06_event(g_mod->in_static(a)); }
void c06_block(void *) { c06_event(false); }
void c06_wait() { siglongjmp(c06_jmp, 2); }

struct C06 : Inst {
  OwnStack *st = nullptr;
  bool fresh;  // only what concerns the random values (C12)
  explicit C06(bool f) : fresh(f) {}
  bool setup(std::string &err) override { st = new OwnStack(8 << 20); return Inst::setup(err); }
  u64 quick_runs() override { return fresh ? 4000 : 7000; }
  const char *rule() override { return "distinct (implementation, operation, instant of abandonment, later operation) combinations"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t mi = index % mods.size();
    p.cfg["mod"] = (i64)mi;
    Seeds sd(r);
    int len = (int)r.range(2, thorough ? 20 : 8);
    for (int i = 0; i < len; i++) {
      u64 x = r.below(12);
      if (fresh && x >= 10) continue;
      if (x < 8) {
        int op = (int)r.below(fresh ? 2 : 3);
        Total t = totals[{mi, op}];
        bool stat = t.st && r.chance(1, 2);
        u64 lim = stat ? t.st : t.ev;
        if (!stat && r.chance(1, 4)) lim = std::min<u64>(lim, 1 + r.below(4000));
        i64 seed = sd.pick(r), kind = (i64)r.below(3);
        if (r.chance(1, 3)) p.add("op", {(i64)r.below(3), sd.pick(r), 0});
        p.add("kill", {op, seed, kind, (i64)(1 + r.below(lim)), stat, (i64)r.below(2)});
        if (r.chance(1, 3)) p.add("op", {op, seed, kind});   // tried again
        else p.add("op", {(i64)(r.chance(1, 2) ? op : r.below(3)), sd.pick(r), r.chance(2, 3) ? 0 : (i64)r.below(6)});
      } else if (x < 10) p.add("op", {(i64)r.below(3), sd.pick(r), (i64)r.below(6)});
      else if (x < 11) p.add("killrng", {r.range(0, 200), r.range(1, 3000), r.seed63()});
      else p.add("crash", {});
    }
  }
  struct Job { C06 *s; Module *m; Op *o; };
  // runs an operation until the chosen instant; true: it was cut off
  int cut(Module *m, const std::function<void()> &f) {
    volatile int how = 0;
    int k = sigsetjmp(c06_jmp, 1);
    if (k == 0) f();
    else how = k;
    c06_armed = false;
    g_rand = nullptr;
    (void)m;
    return how;
  }
  void execute(const Plan &p, Ctx &c) override {
    Module *m = mods[(u64)p.get("mod") % mods.size()];
    m->reset();
    u64 last = 0;
    for (auto &s : p.steps) {
      if (c.failed) return;
      if (s.op == "crash") { m->reset(); c.fault("crash and restart"); }
      else if (s.op == "kill") {
        Op o = make_op(m, (int)((u64)s.at(0) % 3), s.at(1), s.at(2));
        c06_at = (u64)s.at(3);
        c06_stat = s.at(4);
        c06_ev = c06_st = 0;
        c06_fired = false;
        hooks_on(m, c06_access, c06_block);
        m->m->hooks->wait = c06_wait;
        auto body = [&] { c06_armed = true; call(m, o); };
        if (s.at(5)) {  // in a thread that ends there
          struct A { C06 *s; Module *m; const std::function<void()> f; } a{this, m, body};
          pthread_t t;
          pthread_create(&t, nullptr, [](void *v) -> void * { A *x = (A *)v; guard_thread_init(); x->s->cut(x->m, x->f); return nullptr; }, &a);
          pthread_join(t, nullptr);
        } else {
          std::function<void()> f = body;
          st->call([&] { cut(m, f); }, 3, 0, false);
        }
        hooks_off(m);
        c.tick(200);
        if (c06_fired) {
          c.fault(s.at(5) ? "thread killed inside an operation" : "operation abandoned by a jump");
          last = mix64(s.at(0) * 4 + s.at(4) * 2 + s.at(5), s.at(3));
        } else c.probe("instant not reached");
      } else if (s.op == "killrng") {
        Bytes e = seeded(s.at(2), 48), buf(s.at(0) + 64), got(100), want(100);
        m->m->randombytes_init(e.data(), nullptr, 256);
        c06_at = (u64)s.at(1);
        c06_stat = false;
        c06_ev = 0;
        c06_fired = false;
        hooks_on(m, c06_access, c06_block);
        m->m->hooks->randombytes = nullptr;
        std::function<void()> f = [&] { c06_armed = true; m->m->randombytes(buf.data(), buf.size()); };
        st->call([&] { cut(m, f); }, 3, 0, false);
        hooks_off(m);
        if (c06_fired) c.fault("random request abandoned");
        e = seeded(s.at(2) + 1, 48);
        m->m->randombytes_init(e.data(), nullptr, 256);
        m->m->randombytes(got.data(), 100);
        DrbgModel d;
        d.init(e.data(), nullptr);
        d.gen(want.data(), 100);
        c.h(got);
        if (got != want) c.fail("generator", "%s: after an abandoned request and reseeding the generator differs from SP 800-90A", m->id.c_str());
      } else {
        Op o = make_op(m, (int)((u64)s.at(0) % 3), s.at(1), s.at(2));
        Bytes want = alone(m, o), got;
        m->m->hooks->randombytes = sim_randombytes;
        m->m->hooks->wait = c06_wait;
        std::function<void()> f = [&] { call(m, o); };
        int how = cut(m, f);
        hooks_off(m);
        o.outputs(got);
        c.op(opname[o.op]);
        c.tick(500);
        c.h(got);
        c.distinct(mix64(mix64(last, (u64)p.get("mod")), o.op));
        if (how == 2) c.fail("deadlock", "%s: %s waits for ever after an abandoned operation", m->id.c_str(), opname[o.op]);
        else if (fresh && o.drawn != (o.op == KEY ? 96u : o.op == ENC ? 32u : 0u) * m->lanes)
          c.fail("amount", "%s: %s after an abandoned operation drew %zu random bytes", m->id.c_str(), opname[o.op], o.drawn);
        else if (fresh && got != want) c.fail("reused", "%s: %s after an abandoned operation is not determined by the bytes it drew itself", m->id.c_str(), opname[o.op]);
        else if (got != want) c.fail("aftermath", "%s: %s after an abandoned operation returned something else than in a fresh process", m->id.c_str(), opname[o.op]);
      }
    }
  }
};

// ======================================================================= C14

u64 tr_hash, tr_n;
std::vector<u64> *tr_rec = nullptr;
const std::vector<u64> *tr_cmp = nullptr;
u64 tr_div_at = ~0ull;
void *tr_div_pc = nullptr;
const void *tr_div_addr = nullptr;
u8 *arena14 = nullptr;
size_t arena14_pos = 0;
const size_t ARENA14 = 64 << 20;
inline void tr_event(u64 v, void *pc, const void *addr) {
  tr_hash = (tr_hash ^ v) * 0x9e3779b97f4a7c15ull;
  tr_hash ^= tr_hash >> 29;
  if (tr_rec) tr_rec->push_back(v);
  if (tr_cmp && tr_div_at == ~0ull && (tr_n >= tr_cmp->size() || (*tr_cmp)[tr_n] != v)) { tr_div_at = tr_n; tr_div_pc = pc; tr_div_addr = addr; }
  tr_n++;
}
void tr_access(const void *a, size_t n, int w, void *pc) { tr_event(mix64((u64)(uintptr_t)a * 31 + n * 2 + w, (u64)(uintptr_t)pc), pc, a); }
void tr_block(void *pc) { tr_event(mix64((u64)(uintptr_t)pc), pc, nullptr); }
// A heap whose addresses depend on the sequence of calls alone: a stack of blocks, each behind a header of 64 bytes.
struct Blk { size_t prev, n, freed; };
size_t arena14_top = 0;  // offset of the last header + 1; 0: no block
extern "C" void *tr_malloc(size_t n, void *(*)(size_t)) {
  size_t need = 64 + ((n + 63) & ~(size_t)63);
  if (n > ARENA14 || arena14_pos + need > ARENA14) return nullptr;
  Blk *b = (Blk *)(arena14 + arena14_pos);
  *b = {arena14_top, n, 0};
  arena14_top = arena14_pos + 1;
  arena14_pos += need;
  memset((u8 *)b + 64, 0, n);
  return (u8 *)b + 64;
}
extern "C" int tr_free(void *p) {
  if ((u8 *)p < arena14 || (u8 *)p >= arena14 + ARENA14) return 0;
  ((Blk *)((u8 *)p - 64))->freed = 1;
  while (arena14_top && ((Blk *)(arena14 + arena14_top - 1))->freed) {
    arena14_pos = arena14_top - 1;
    arena14_top = ((Blk *)(arena14 + arena14_pos))->prev;
  }
  return 1;
}
extern "C" size_t tr_usable(void *p) { return ((Blk *)((u8 *)p - 64))->n; }

struct C14 : Inst {
  OwnStack *st = nullptr;
  u8 *buf = nullptr;
  std::map<std::pair<size_t, int>, std::pair<u64, u64>> base;
  bool setup(std::string &err) override {
    st = new OwnStack(8 << 20);
    buf = (u8 *)mmap(nullptr, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    arena14 = (u8 *)mmap(nullptr, ARENA14, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mods = load_modules("asm", err);  // the machine code as shipped
    if (mods.empty()) return false;
    for (Module *m : load_modules("inst", err)) mods.push_back(m);  // the program as written
    return mods.size() > 1;
  }
  u64 quick_runs() override { return 5200; }
  const char *rule() override { return "distinct (implementation, operation, secret inputs) executions whose complete trace of blocks and memory accesses was compared"; }
  void trace(Module *m, const Op &o, Bytes &out) {
    sim_module *s = m->m;
    m->reset();
    u8 *pk = buf, *sk = buf + 16384, *ct = buf + 49152, *ss = buf + 81920;  // always the same addresses
    memcpy(pk, o.pk.data(), o.pk.size());
    memcpy(sk, o.sk.data(), o.sk.size());
    memcpy(ct, o.ct.data(), o.ct.size());
    memset(ss, 0, s->ssbytes);
    RandSrc src;
    src.want = o.rnd.data();
    src.n = o.rnd.size();
    src.sizes.reserve(16);
    g_rand = &src;
    g_clock = 1;
    if (s->flush) s->flush();
    tr_hash = tr_n = 0;
    tr_div_at = ~0ull;
    arena14_pos = arena14_top = 0;
    int op = o.op;
    hooks_on(m, nullptr, nullptr);
    s->hooks->malloc_ = tr_malloc;
    s->hooks->free_ = tr_free;
    s->hooks->usable = tr_usable;
    st->call([&] {
      s->hooks->access = tr_access;
      s->hooks->block = tr_block;
      if (op == KEY) s->keypair(pk, sk);
      else if (op == ENC) s->enc(ct, ss, pk);
      else s->dec(ss, ct, sk);
      if (s->flush) s->flush();
      s->hooks->access = nullptr;
      s->hooks->block = nullptr;
    }, 1, 0, false);
    hooks_off(m);
    s->hooks->malloc_ = nullptr;
    s->hooks->free_ = nullptr;
    s->hooks->usable = nullptr;
    g_rand = nullptr;
    out.assign(ss, ss + s->ssbytes);
  }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    (void)thorough;
    p.cfg["mod"] = (i64)(index % mods.size());
    p.cfg["op"] = (i64)((index / mods.size()) % 3);
    int len = (int)r.range(2, 5);
    for (int i = 0; i < len; i++) p.add("secret", {r.seed63(), (i64)r.below(9)});
  }
  void execute(const Plan &p, Ctx &c) override {
    size_t mi = (u64)p.get("mod") % mods.size();
    Module *m = mods[mi];
    int op = (int)((u64)p.get("op") % 3);
    Bytes out;
    Op ref = make_op(m, op, 1, 0);
    std::pair<u64, u64> b;
    auto it = base.find({mi, op});
    if (it == base.end()) {
      trace(m, ref, out);
      b = {tr_hash, tr_n};
      base[{mi, op}] = b;
    } else b = it->second;
    c.ev("%s %s: %llu events", m->id.c_str(), opname[op], (unsigned long long)b.second);
    for (auto &s : p.steps) {
      if (c.failed) return;
      Op o = make_op(m, op, s.at(0), s.at(1));
      if (op == ENC) {  // the public key may matter
        Bytes rnd = ref.rnd;
        ref = o;
        ref.rnd = rnd;
        trace(m, ref, out);
        b = {tr_hash, tr_n};
      }
      trace(m, o, out);
      c.op(opname[op]);
      c.tick(tr_n);
      c.probe("trace events compared", tr_n);
      c.h(tr_hash);
      static const char *kinds[] = {"other secrets", "one altered ciphertext bit", "arbitrary ciphertext or public key", "extreme key", "zero random bytes", "0xff random bytes", "extreme ciphertext", "last bytes of the ciphertext altered", "first byte of the ciphertext altered"};
      c.fault(kinds[(u64)s.at(1) % 9]);
      c.distinct(mix64(mix64(mi * 3 + op, s.at(0)), s.at(1)));
      if (tr_hash != b.first || tr_n != b.second) {
        u64 n = tr_n;
        std::vector<u64> rec;
        tr_rec = &rec;
        trace(m, ref, out);
        tr_rec = nullptr;
        tr_cmp = &rec;
        trace(m, o, out);
        tr_cmp = nullptr;
        c.fail("trace", "%s: the course of %s depends on secret data (%s): %llu and %llu events, first difference at event %llu, code offset 0x%llx, %s", m->id.c_str(), opname[op],
               kinds[(u64)s.at(1) % 9], (unsigned long long)b.second, (unsigned long long)n, (unsigned long long)tr_div_at,
               (unsigned long long)((u8 *)tr_div_pc - (u8 *)m->m->keypair), tr_div_addr ? "a memory access" : "a branch");
      }
    }
  }
};

Register r5("C05", [] () -> Scenario * { return new C05; });
Register r6("C06", [] () -> Scenario * { return new C06(false); });
Register r12("C12i", [] () -> Scenario * { return new C06(true); });
Register r14("C14", [] () -> Scenario * { return new C14; });
}  // namespace
