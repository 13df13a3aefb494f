// The implementations on simulated processors in the properties about callers and memory: C05, C06, C07, C08, C14.
#include <algorithm>
#include "m0.h"
#include "m4.h"
#include "scen.h"

namespace {
const char *nm[] = {"keypair", "enc", "dec"};

// the inputs of one operation: {operation, seed, damage kind + 1, x, y} of the ciphertext or public key, {kind + 1, x, y} of the secret key
struct Job { int what = 0; Bytes rn, in1, in2, w1, w2; bool accepted = true; };
std::vector<i64> random_job(Rng &r, const Params &q, int what = -1) {
  if (what < 0) what = (int)r.below(3);
  i64 k = 0, x = 0, y = 0, sk = 0, sx = 0, sy = 0;
  if (what && r.chance(1, what == 2 ? 2 : 5)) { random_damage(r, what == 1 ? q.pkbytes() : q.ctbytes(), k, x, y); k++; }
  if (what == 2 && r.chance(1, 6)) { random_damage(r, q.skbytes(), sk, sx, sy); sk++; }
  return {what, r.seed63(), k, x, y, sk, sx, sy};
}
Job make_job(const Params &q, const Step &s, size_t o) {
  Job j;
  Model m(q);
  u8 x[32];
  u64 seed = (u64)s.at(o + 1);
  Bytes pk, sk, ct, e = drawn_bytes(seed + 1, 32);
  j.what = (int)((u64)s.at(o) % 3);
  j.rn = drawn_bytes(seed, 96);
  m.keygen(j.rn.data(), j.rn.data() + 32, j.rn.data() + 64, pk, sk);
  m.enc(e.data(), pk.data(), ct, x);
  auto hurt = [&](Bytes &t, size_t at) { size_t n = t.size(); if (s.at(at)) damage(t, s.at(at) - 1, s.at(at + 1), s.at(at + 2), seeded(seed + at, n)); t.resize(n); };
  if (j.what == 0) { j.w1 = pk; j.w2 = sk; }
  else if (j.what == 1) {
    hurt(pk, o + 2);
    j.in1 = pk;
    m.enc(j.rn.data(), pk.data(), j.w1, x);
    j.w2.assign(x, x + 32);
  } else {
    hurt(ct, o + 2);
    hurt(sk, o + 5);
    j.in1 = ct; j.in2 = sk;
    j.accepted = m.dec(ct.data(), sk.data(), x);
    j.w1.assign(x, x + 32);
  }
  return j;
}
struct Emu : Scenario {
  std::vector<EmuImpl *> impls;
  bool with_m0 = true;
  bool setup(std::string &err) override {
    for (auto i : load_emulated(err)) if (with_m0 || !dynamic_cast<M0Impl *>(i)) impls.push_back(i);
    if (impls.empty() && err.empty()) err = "no emulated implementations";
    return !impls.empty() && err.empty();
  }
  std::map<std::pair<size_t, int>, u64> length;
  u64 insns(size_t k, int what) {  // of an undisturbed operation
    u64 &n = length[{k, what}];
    if (!n) {
      Job j = make_job(impls[k]->p, Step{"", {what, 5}}, 0);
      M4Env e;
      Bytes a, b;
      e.guard = false;
      e.rnd = j.rn.data(); e.nrnd = j.rn.size();
      impls[k]->reset();
      impls[k]->op(what, a, b, j.in1, j.in2, e);
      n = std::max<u64>(e.insns, 1000);
    }
    return n;
  }
  size_t pick(Rng &r, u64 index) { size_t k = index % impls.size(); return dynamic_cast<M0Impl *>(impls[k]) && r.chance(1, 2) ? r.below(impls.size()) : k; }
  int run(size_t k, const Job &j, M4Env &e, Bytes &a, Bytes &b, Ctx &c) {
    e.rnd = j.rn.data(); e.nrnd = j.rn.size();
    int rc = impls[k]->op(j.what, a, b, j.in1, j.in2, e);
    c.op(nm[j.what]);
    c.tick(e.insns);
    c.h(a); c.h(b); c.h(e.insns); c.h((u64)rc);
    return rc;
  }
};

// ======================================================================= C05: an interrupt handler runs operations of its own

struct C05e : Emu {
  C05e() { with_m0 = false; }
  u64 quick_runs() override { return 2400; }
  const char *rule() override { return "distinct (Cortex-M4 implementation, operation, instruction at which another operation is run by an interrupt handler)"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t k = pick(r, index);
    p.cfg["impl"] = (i64)k;
    int n = (int)r.range(1, 2);
    for (int i = 0; i < n; i++) {
      auto job = random_job(r, impls[k]->p);
      int m = (int)r.range(1, thorough ? 12 : 4);
      u64 len = insns(k, (int)job[0]);
      for (int q = 0; q < m; q++) p.add("irq", {(i64)(r.chance(1, 6) ? r.below(60) : r.below(len)), r.seed63()});
      Step s;
      p.add("op", {job[0], job[1], job[2], job[3], job[4], job[5], job[6], job[7], r.seed63()});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    size_t k = (u64)p.get("impl") % impls.size();
    EmuImpl *I = impls[k];
    I->reset();
    std::vector<Irq> pending;
    for (auto &s : p.steps) {
      if (s.op == "irq") { pending.push_back({0, (u64)s.at(0), 0, (u64)s.at(1), 1}); continue; }
      std::stable_sort(pending.begin(), pending.end(), [](const Irq &a, const Irq &b) { return a.at < b.at; });
      Job j = make_job(I->p, s, 0);
      M4Env e;
      e.seed = (u64)s.at(8);
      e.guard = false;
      e.irqs = pending;
      pending.clear();
      Bytes a, b;
      int rc = run(k, j, e, a, b, c);
      c.fault("operation run by an interrupt handler", e.hit.size());
      c.op("nested operation", e.hit.size());
      for (u32 h : e.hit) c.distinct(mix64(k * 3 + j.what, h));
      c.ev("%s %s with %zu operations inside: rc %d %s", I->id.c_str(), nm[j.what], e.hit.size(), rc, e.problem.c_str());
      if (!e.problem.empty()) { c.fail("nested", "%s %s: %s", I->id.c_str(), nm[j.what], e.problem.c_str()); return; }
      if (rc || a != j.w1 || b != j.w2) {
        c.fail("nested", "%s %s, interrupted by operations of an interrupt handler (%s), gives another result than alone", I->id.c_str(), nm[j.what], e.hit.empty() ? "none" : I->where(e.hit[0]).c_str());
        return;
      }
    }
  }
};

// ======================================================================= C06: abandoned operations

struct C06e : Emu {
  u64 quick_runs() override { return 2000; }
  const char *rule() override { return "distinct (Cortex-M implementation, abandoned operation, instruction count at which it was cut off, next operation)"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t k = pick(r, index);
    p.cfg["impl"] = (i64)k;
    int n = (int)r.range(2, thorough ? 10 : 5);
    for (int i = 0; i < n; i++) {
      auto job = random_job(r, impls[k]->p);
      u64 len = insns(k, (int)job[0]);
      i64 kill = i + 1 < n && r.chance(2, 3) ? (i64)(1 + (r.chance(1, 5) ? r.below(2000) : r.below(len))) : 0;
      if (r.chance(1, 8)) p.add("restart", {});
      if (r.chance(1, 4) && i) job[1] = p.steps.back().at(1);  // the same keys again
      p.add("op", {job[0], job[1], job[2], job[3], job[4], job[5], job[6], job[7], r.seed63(), kill});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    size_t k = (u64)p.get("impl") % impls.size();
    EmuImpl *I = impls[k];
    I->reset();
    u64 before = 0;
    for (auto &s : p.steps) {
      if (s.op == "restart") { I->reset(); before = 0; c.fault("restart"); continue; }
      Job j = make_job(I->p, s, 0);
      M4Env e;
      e.seed = (u64)s.at(8);
      e.guard = false;
      e.kill = (u64)s.at(9);
      Bytes a, b;
      int rc = run(k, j, e, a, b, c);
      c.ev("%s %s kill at %llu: rc %d killed %d %s", I->id.c_str(), nm[j.what], (unsigned long long)e.kill, rc, e.killed, e.problem.c_str());
      if (e.killed) { c.fault("operation abandoned"); before = mix64(j.what, e.kill); continue; }
      c.distinct(mix64(mix64(k * 3 + j.what, before), 6));
      if (!e.problem.empty()) { c.fail("after-abandoned", "%s %s: %s", I->id.c_str(), nm[j.what], e.problem.c_str()); return; }
      if (rc || a != j.w1 || b != j.w2) { c.fail("after-abandoned", "%s %s gives a wrong result%s", I->id.c_str(), nm[j.what], before ? " after an operation was abandoned" : ""); return; }
    }
  }
};

// ======================================================================= C07: nothing but the arguments counts

struct C07e : Emu {
  u64 quick_runs() override { return 1800; }
  const char *rule() override { return "distinct (Cortex-M implementation, operation, inputs) executed with different memory, register and stack contents, addresses and histories, and compared"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t k = pick(r, index);
    p.cfg["impl"] = (i64)k;
    auto job = random_job(r, impls[k]->p);
    if (index < impls.size() * 3) {  // counters of eight bits come round
      k = index / 3;
      p.cfg["impl"] = (i64)k;
      job[0] = (i64)(index % 3);
      p.add("op", {job[0], job[1], job[2], job[3], job[4], job[5], job[6], job[7]});
      p.add("many", {impls[k]->p.rev != 1 ? 260 : 3, r.seed63()});
      return;
    }
    p.add("op", {job[0], job[1], job[2], job[3], job[4], job[5], job[6], job[7]});
    int n = (int)r.range(2, thorough ? 8 : 4);
    for (int i = 0; i < n; i++) {
      p.add("again", {r.seed63()});
      if (r.chance(1, 3)) { auto o = random_job(r, impls[k]->p); p.add("other", {o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], r.seed63()}); }
      if (r.chance(1, 6)) p.add("restart", {});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    size_t k = (u64)p.get("impl") % impls.size();
    EmuImpl *I = impls[k];
    I->reset();
    Job j;
    bool have = false, ref = false;
    Bytes ra, rb;
    int rrc = 0;
    size_t rdrawn = 0;
    for (auto &s : p.steps) {
      if (s.op == "restart") { I->reset(); c.fault("restart"); continue; }
      if (s.op == "op") { j = make_job(I->p, s, 0); have = true; ref = false; continue; }
      M4Env e;
      e.guard = false;
      Bytes a, b;
      if (s.op == "other") { Job o = make_job(I->p, s, 0); e.seed = (u64)s.at(8); run(k, o, e, a, b, c); c.fault("another operation before"); continue; }
      if (!have) continue;
      if (s.op == "many") {
        c.fault("long history before");
        for (i64 i = 0; i < s.at(0); i++) {
          M4Env f;
          f.guard = false;
          f.seed = (u64)s.at(1);
          int rc = run(k, j, f, a, b, c);
          if (!f.problem.empty()) rc = -1000;
          if (!i) { ra = a; rb = b; rrc = rc; rdrawn = f.drawn; continue; }
          if (rc != rrc || a != ra || b != rb || f.drawn != rdrawn) { c.fail("history", "%s %s gives another result when it is repeated for the %lldth time", I->id.c_str(), nm[j.what], (long long)i + 1); return; }
        }
        continue;
      }
      e.seed = (u64)s.at(0);
      int rc = run(k, j, e, a, b, c);
      if (!e.problem.empty()) rc = -1000;
      c.ev("%s %s seed %llx: rc %d drawn %zu %s", I->id.c_str(), nm[j.what], (unsigned long long)e.seed, rc, e.drawn, e.problem.c_str());
      if (!ref) { ra = a; rb = b; rrc = rc; rdrawn = e.drawn; ref = true; continue; }
      c.fault("other memory contents and addresses");
      c.distinct(mix64(mix64(k * 3 + j.what, fnv(ra)), fnv(j.in1)));
      if (rc != rrc || a != ra || b != rb || e.drawn != rdrawn) {
        c.fail("dependence", "%s %s: equal arguments and random bytes give different results (%s) with other memory contents, addresses or history%s%s", I->id.c_str(), nm[j.what],
               rc != rrc ? "status" : a != ra ? "first output" : b != rb ? "second output" : "random bytes drawn", e.problem.empty() ? "" : ": ", e.problem.c_str());
        return;
      }
    }
  }
};

// ======================================================================= C08: only the memory given

struct C08e : Emu {
  u64 quick_runs() override { return 3000; }
  const char *rule() override { return "distinct (Cortex-M implementation, operation, inputs) executed with every byte of memory protected that is not an argument, static data or stack"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t k = pick(r, index);
    p.cfg["impl"] = (i64)k;
    int n = (int)r.range(1, thorough ? 6 : 3);
    for (int i = 0; i < n; i++) {
      auto j = random_job(r, impls[k]->p);
      p.add("op", {j[0], j[1], j[2], j[3], j[4], j[5], j[6], j[7], r.seed63()});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    size_t k = (u64)p.get("impl") % impls.size();
    EmuImpl *I = impls[k];
    I->reset();
    for (auto &s : p.steps) {
      Job j = make_job(I->p, s, 0);
      M4Env e;
      e.seed = (u64)s.at(8);
      Bytes a, b;
      int rc = run(k, j, e, a, b, c);
      c.fault("memory beyond the arguments protected");
      if (j.what) c.fault("read-only inputs");
      c.probe("deepest stack", e.depth);
      c.distinct(mix64(mix64(k * 3 + j.what, (u64)s.at(1)), s.at(2)));
      c.ev("%s %s: rc %d stack %u %s", I->id.c_str(), nm[j.what], rc, e.depth, e.problem.c_str());
      if (!e.problem.empty()) { c.fail("memory", "%s %s: %s", I->id.c_str(), nm[j.what], e.problem.c_str()); return; }
    }
  }
};

// ======================================================================= C14

struct C14e : Scenario {
  std::vector<EmuImpl *> impls;
  std::map<std::pair<size_t, int>, std::pair<u64, u64>> base;
  bool setup(std::string &err) override {
    impls = load_emulated(err);
    return !impls.empty();
  }
  u64 quick_runs() override { return 1400; }
  const char *rule() override { return "distinct (Cortex-M implementation, operation, secret inputs) executions whose complete trace of instructions and addresses was compared"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    (void)thorough;
    p.cfg["impl"] = (i64)(index % impls.size());
    p.cfg["op"] = (i64)((index / impls.size()) % 3);
    int len = (int)r.range(1, 4);
    for (int i = 0; i < len; i++) {
      i64 kind, x, y;
      const Params &q = impls[index % impls.size()]->p;
      bool dec = p.cfg["op"] == 2;
      random_damage(r, dec ? q.ctbytes() : q.pkbytes(), kind, x, y);
      i64 sk = 0, sx = 0, sy = 0;
      if (dec && r.chance(1, 4)) { random_damage(r, q.skvec(), sk, sx, sy); sk++; }
      p.add("secret", {r.seed63(), r.chance(1, dec ? 3 : 4) ? 0 : kind + 1, x, y, sk, sx, sy});
    }
  }
  struct In { Bytes rn, pk, sk, ct; };
  In make(EmuImpl *I, int op, const Step &s) {
    In in;
    Model m(I->p);
    u8 x[32];
    u64 seed = (u64)s.at(0);
    in.rn = drawn_bytes(seed, 96);
    Bytes e = drawn_bytes(seed + 1, 32);
    m.keygen(in.rn.data(), in.rn.data() + 32, in.rn.data() + 64, in.pk, in.sk);
    m.enc(e.data(), in.pk.data(), in.ct, x);
    Bytes &t = op == 1 ? in.pk : in.ct;
    size_t n = t.size();
    if (op && s.at(1)) damage(t, s.at(1) - 1, s.at(2), s.at(3), seeded(seed, n));
    t.resize(n);
    if (s.at(4)) {
      Bytes v(in.sk.begin(), in.sk.begin() + I->p.skvec());
      damage(v, s.at(4) - 1, s.at(5), s.at(6), seeded(seed + 3, v.size()));
      v.resize(I->p.skvec());
      std::copy(v.begin(), v.end(), in.sk.begin());
    }
    return in;
  }
  std::pair<u64, u64> trace(EmuImpl *I, int op, const In &in, std::vector<u32> *rec = nullptr) {
    M4Env e;
    Bytes o1, o2;
    e.seed = 4711;
    e.rnd = in.rn.data(); e.nrnd = in.rn.size();
    e.trace = true;
    I->reset();
    I->cpu().trrec = rec;
    I->op(op, o1, o2, op == 1 ? in.pk : in.ct, in.sk, e);
    I->cpu().trrec = nullptr;
    return {e.tracehash, e.insns};
  }
  void execute(const Plan &p, Ctx &c) override {
    size_t k = (u64)p.get("impl") % impls.size();
    EmuImpl *I = impls[k];
    int op = (int)((u64)p.get("op") % 3);
      for (auto &s : p.steps) {
      In in = make(I, op, s), ref = make(I, op, Step{"secret", {1, 0, 0, 0, 0, 0, 0}});
      if (op == 1) ref.pk = in.pk;  // public: may matter
      std::pair<u64, u64> b;
      auto it = base.find({k, op});
      if (op == 1 || it == base.end()) {
        b = trace(I, op, ref);
        if (op != 1) base[{k, op}] = b;
      } else b = it->second;
      auto t = trace(I, op, in);
      c.op(nm[op]);
      c.tick(t.second);
      c.probe("instructions compared", t.second);
      c.fault(!s.at(1) || !op ? "other secrets" : damage_name(s.at(1) - 1));
      if (s.at(4)) c.fault("damaged secret key");
      c.h(t.first); c.h(t.second);
      c.distinct(mix64(mix64(k * 3 + op, s.at(0)), s.at(1)));
      if (t != b) {
        std::vector<u32> ra, rb;
        trace(I, op, ref, &ra);
        trace(I, op, in, &rb);
        size_t i = 0;
        while (i < ra.size() && i < rb.size() && ra[i] == rb[i]) i++;
        u32 at = 0;
        for (size_t q = i; q-- > 0 && !at;) if (ra[q] - I->cpu().flash_base < I->cpu().flash_size) at = ra[q];
        c.fail("trace", "%s: the course of %s depends on secret data: %llu and %llu instructions, first difference after %zu events, near %s", I->id.c_str(), nm[op],
               (unsigned long long)b.second, (unsigned long long)t.second, i, I->where(at).c_str());
        return;
      }
    }
  }
};
Register r14("C14e", []() -> Scenario * { return new C14e; });
Register r5("C05e", []() -> Scenario * { return new C05e; });
Register r6("C06e", []() -> Scenario * { return new C06e; });
Register r7("C07e", []() -> Scenario * { return new C07e; });
Register r8("C08e", []() -> Scenario * { return new C08e; });
}  // namespace
