// C15: the Cortex-M4 implementations under interrupts.
#include <algorithm>
#include "m4.h"
#include "scen.h"

namespace {
struct Dry { u64 insns = 0; std::vector<u32> pcs, count; };

struct C15 : Scenario {
  std::vector<M4Impl *> impls;
  std::vector<Dry> dry[3];
  bool setup(std::string &err) override {
    impls = load_m4(err);
    if (impls.empty()) { if (err.empty()) err = "no Cortex-M4 images"; return false; }
    // how long the operations take and which instructions they execute
    for (auto m : impls) {
      Model mod(m->p);
      Bytes rn = seeded(7, 96), pk, sk, ct, o1, o2;
      u8 ss[32];
      mod.keygen(rn.data(), rn.data() + 32, rn.data() + 64, pk, sk);
      mod.enc(rn.data(), pk.data(), ct, ss);
      for (int w = 0; w < 3; w++) {
        Dry d;
        d.count.assign(0x80000 / 2, 0);
        M4Env e;
        e.rnd = rn.data(); e.nrnd = 96; e.pcs = &d.pcs; e.pccount = &d.count;
        m->core.reset();
        m->core.op(w, o1, o2, w == 1 ? pk : ct, sk, e);
        d.insns = e.insns ? e.insns : 1000;
        dry[w].push_back(std::move(d));
      }
    }
    return true;
  }
  u64 quick_runs() override { return 9000; }
  const char *rule() override { return "distinct (implementation, operation, interrupted instruction address)"; }
  void irqs(Rng &r, size_t im, int what, Plan &p, bool thorough) {
    Dry &d = dry[what][im];
    int style = (int)r.below(6);
    int n = (int)r.range(1, thorough ? 400 : 120);
    u64 base = r.below(d.insns);
    for (int k = 0; k < n; k++) {
      if (style == 0 || style == 1) p.add("irq", {0, (i64)r.below(d.insns), 0, r.seed63(), 0});
      else if (style == 2) p.add("irq", {0, (i64)(base + k), 0, r.seed63(), 0});                          // every instruction of a stretch
      else if (style == 3) p.add("irq", {0, (i64)(r.below(2) ? r.below(40) : d.insns - 1 - r.below(40)), 0, r.seed63(), 0});
      else if (!d.pcs.empty()) {                                                                         // instructions seldom executed are hit as often as others
        i64 x = (i64)r.below(d.pcs.size());
        u32 cnt = d.count[(d.pcs[x] - 0x08000000) / 2];
        p.add("irq", {1, (i64)(r.chance(1, 2) ? 0 : r.below(cnt)), x, r.seed63(), 0});
        if (k > 12) break;
      }
    }
  }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t im = index % impls.size();
    p.cfg["impl"] = (i64)im;
    p.cfg["key"] = r.seed63();
    p.cfg["noisy"] = r.chance(1, 6);
    int n = (int)r.range(2, 4);
    if (index < 3 * impls.size()) {  // counters of eight bits come round
      p.cfg["noisy"] = 0;
      p.add("many", {(i64)(index / impls.size()), r.range(258, 264), r.seed63()});
      n = 1;
    }
    for (int k = 0; k < n; k++) {
      int what = p.cfg["noisy"] && k == 0 ? 2 : (int)r.below(3);
      if (!r.chance(1, 10)) irqs(r, im, what, p, thorough);
      i64 kind = 0, x = 0, y = 0;
      if (what == 2 && r.chance(1, 2) && !(p.cfg["noisy"] && k == 0)) { random_damage(r, impls[im]->p.ctbytes(), kind, x, y); kind++; }
      i64 kk = 0, kx = 0, ky = 0;
      if (what && r.chance(1, 8)) { random_damage(r, what == 1 ? impls[im]->p.pkbytes() : impls[im]->p.skbytes(), kk, kx, ky); kk++; }
      p.add("op", {what, r.seed63(), kind, x, y, kk, kx, ky});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    size_t im = (size_t)p.get("impl") % impls.size();
    M4Impl *I = impls[im];
    Model m(I->p);
    I->core.reset();
    Bytes krn = drawn_bytes((u64)p.get("key"), 96), pk, sk, ct;
    u8 mss[32];
    m.keygen(krn.data(), krn.data() + 32, krn.data() + 64, pk, sk);
    Bytes ern = drawn_bytes((u64)p.get("key") + 1, 32);
    if (p.get("noisy")) { ern = marginal(m, pk, sk, (u64)p.get("key"), 24); c.fault("keys with noise at the edge of correct decryption"); }
    m.enc(ern.data(), pk.data(), ct, mss);
    std::vector<Irq> pending;
    for (auto &s : p.steps) {
      if (s.op == "irq") { pending.push_back({(int)s.at(0), (u64)s.at(1), (u32)s.at(2), (u64)s.at(3), (int)s.at(4)}); continue; }
      if (s.op == "many") {  // the operation before, so many times
        Bytes rn = drawn_bytes(mix64(s.at(2), 0x5eed), 96), o1, o2, f1, f2, C = ct;
        for (i64 i = 0; i < s.at(1); i++) {
          M4Env e;
          e.guard = false;
          e.seed = mix64(s.at(2), i);
          e.rnd = rn.data(); e.nrnd = rn.size();
          I->core.op((int)(s.at(0) % 3), o1, o2, s.at(0) == 1 ? pk : C, sk, e);
          if (!e.problem.empty()) { c.fail("m4-fault", "%s: %s after %lld operations", I->id.c_str(), e.problem.c_str(), (long long)i); return; }
          c.tick(e.insns);
          if (!i) { f1 = o1; f2 = o2; }
          else if (o1 != f1 || o2 != f2) { c.fail("m4-result", "%s gives another result when an operation is repeated for the %lldth time", I->id.c_str(), (long long)i + 1); return; }
        }
        c.h(o1);
        c.op("operation of a long history", s.at(1));
        c.fault("long history before");
        continue;
      }
      int what = (int)(s.at(0) % 3);
      u64 seed = (u64)s.at(1);
      Dry &d = dry[what][im];
      for (auto &i : pending) if (i.mode == 1) i.pc = d.pcs.empty() ? 0 : d.pcs[i.pc % d.pcs.size()];
      std::stable_sort(pending.begin(), pending.end(), [](const Irq &a, const Irq &b) { return a.mode != b.mode ? a.mode < b.mode : a.mode == 0 && a.at < b.at; });
      M4Env e;
      Bytes rn = drawn_bytes(mix64(seed, 0x5eed), 96), o1, o2, w1, w2, P = pk, S = sk, C = ct;
      if (s.at(5)) damage(what == 1 ? P : S, s.at(5) - 1, s.at(6), s.at(7), what == 1 ? seeded(seed, P.size()) : seeded(seed, S.size()));
      if (s.at(2)) damage(C, s.at(2) - 1, s.at(3), s.at(4), seeded(seed, C.size()));
      P.resize(I->p.pkbytes()); S.resize(I->p.skbytes()); C.resize(I->p.ctbytes());
      e.seed = seed;
      e.rnd = rn.data(); e.nrnd = rn.size();
      e.irqs = pending;
      pending.clear();
      bool accepted = true;
      if (what == 0) m.keygen(rn.data(), rn.data() + 32, rn.data() + 64, w1, w2);
      else if (what == 1) { m.enc(rn.data(), P.data(), w1, mss); w2.assign(mss, mss + 32); }
      else { u8 x[32]; accepted = m.dec(C.data(), S.data(), x); w1.assign(x, x + 32); }
      int rc = I->core.op(what, o1, o2, what == 1 ? P : C, S, e);
      static const char *nm[] = {"keypair", "enc", "dec"};
      c.op(what == 2 ? accepted ? "dec" : "dec rejecting" : nm[what]);
      c.tick(e.insns);
      c.fault("interrupt", e.hit.size());
      c.probe("stack depth sum", e.depth);
      for (u32 h : e.hit) c.distinct(mix64(mix64(im * 3 + what, h), 0));
      c.ev("%s %s seed %llx interrupts %zu rc %d insns %llu %s", I->id.c_str(), nm[what], (unsigned long long)seed, e.hit.size(), rc, (unsigned long long)e.insns, e.problem.c_str());
      c.h(o1); c.h(o2); c.h(e.insns); c.h((u64)e.drawn);
      if (!e.problem.empty()) { c.fail("m4-fault", "%s %s: %s", I->id.c_str(), nm[what], e.problem.c_str()); return; }
      if (rc != 0) { c.fail("m4-result", "%s %s returns %d", I->id.c_str(), nm[what], rc); return; }
      size_t want = what == 0 ? 96 : what == 1 ? 32 : 0;
      if (e.drawn != want) { c.fail("m4-randomness", "%s %s draws %zu random bytes instead of %zu", I->id.c_str(), nm[what], e.drawn, want); return; }
      if (o1 != w1 || o2 != w2) {
        c.fail("m4-result", "%s %s gives a result different from the specification%s%s", I->id.c_str(), nm[what], e.hit.empty() ? "" : " when interrupted", accepted ? "" : " for a ciphertext to be rejected");
        return;
      }
      // what was not to be changed is checked by the memory permissions
    }
  }
};
Register reg("C15", []() -> Scenario * { return new C15; });
}  // namespace
