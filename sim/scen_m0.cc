// C16, C17: the firmware of the Cortex-M0 board.
#include <algorithm>
#include <fstream>
#include <sstream>
#include "m0.h"
#include "scen.h"

namespace {
const char *opn[] = {"keypair", "enc", "dec"};

struct M0Base : Scenario {
  Board b;
  u64 insns = 0;            // of an undisturbed exchange
  u64 at[3][2] = {{0}};     // instruction numbers of entry and exit of the operations
  u64 clock[3][2] = {{0}};
  std::vector<u32> pcs;     // instructions executed, in order of first execution
  std::vector<u64> first;
  BoardState snap[3];       // at entry of the operations
  BoardState rnd;           // at the first request for random bytes
  bool whole = false;
  bool setup(std::string &err) override {
    std::string file;
    if (!find_m0(file, err) || !b.load(file, err)) return false;
    b.cfg = BoardCfg();
    b.power_up();
    bool haver = false;
    u64 n[3] = {0};
    b.hook = [&](int f, bool exit) {
      if (f <= F_DEC) {
        if (!exit) { n[f]++; b.snapshot(snap[f]); }
        at[f][exit] = b.cpu.insns;
        clock[f][exit] = b.now();
      }
      if (f == F_RAND && !exit && !haver) { haver = true; b.snapshot(rnd); }
      return true;
    };
    int rc = b.run();
    b.hook = nullptr;
    insns = std::max<u64>(b.cpu.insns, 1000);
    whole = rc == E_DONE && n[0] == 1 && n[1] == 1 && n[2] == 1 && haver;
    return true;
  }
  // the instruction numbers at which faults are most worthwhile
  u64 instant(Rng &r) {
    u64 k = r.below(8);
    if (k < 3) return r.below(insns);
    if (k == 3) return r.below(2500);
    int f = (int)r.below(3);
    u64 base = at[f][r.below(2)];
    if (k < 6) return (u64)std::max<i64>(0, (i64)base + r.range(-60, 400));
    if (k == 6) return (u64)std::max<i64>(0, (i64)base + r.range(-8000, 8000));
    return insns - 1 - r.below(std::min<u64>(insns - 1, 4000));
  }
  Bytes mem(u32 a, size_t n, bool &ok) {
    Bytes x(n);
    u8 *p = b.cpu.ptr(a, (u32)n);
    if (p) memcpy(x.data(), p, n);
    else if (a - b.cpu.flash_base < b.cpu.flash_size && n <= b.cpu.flash_size - (a - b.cpu.flash_base)) memcpy(x.data(), &b.cpu.flash[a - b.cpu.flash_base], n);
    else ok = false;
    return x;
  }
};

// One operation being observed.
struct OpWatch { u32 a[3] = {0}; Bytes in1, in2; std::vector<Bytes> draws; u32 ra = 0; u64 rn = 0; };

struct C16 : M0Base {
  u64 quick_runs() override { return 2200; }
  const char *rule() override { return "distinct (operation, interrupted instruction address) and (power-loss instant in hundredths of the exchange, next boot's memory)"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    u64 k = (index + index / 8) % 8;
    int mode = k == 0 ? 0 : k == 1 ? 2 : 1;
    p.cfg["mode"] = mode;
    p.cfg["seed"] = r.seed63();
    if (mode == 2) {
      p.cfg["len"] = r.chance(1, 2) ? 32 : (i64)(2 * r.range(1, 60));
      int n = (int)r.range(4, 20);
      for (int i = 0; i < n; i++) p.add("flip", {(i64)r.below((u64)p.cfg["len"]), (i64)r.below(16)});
      return;
    }
    auto disturb = [&](u64 lo, u64 hi) {
      p.cfg["wait"] = r.chance(1, 3) ? r.range(1, 6) : 1;
      p.cfg["line"] = r.chance(1, 3) ? r.range(50, 4000) : 100;
      if (r.chance(1, 4)) p.cfg["clk"] = r.range(0, 20000);
      if (r.chance(1, 3)) p.cfg["prng"] = r.range(0, 3000);
      if (r.chance(1, 6)) p.cfg["rx"] = r.range(0, 40);
      int n = (int)r.below(thorough ? 400 : 60);
      int style = (int)r.below(3);
      u64 base = lo + r.below(hi - lo);
      for (int i = 0; i < n; i++) {
        u64 x = style == 0 ? base + (u64)i * (1 + r.below(40)) : lo + r.below(hi - lo);
        if (r.chance(1, 8)) p.add("stall", {(i64)x, (i64)(r.chance(1, 4) ? r.below(2000000) : r.below(300))});
        else p.add("tick", {(i64)x, (i64)(1 + r.below(30))});
      }
    };
    i64 kind, x, y;
    if (mode == 0) {
      int boots = (int)r.range(0, 2);
      for (int q = 0; q < boots; q++) {
        disturb(0, insns);
        p.add("loss", {(i64)instant(r), r.seed63()});
      }
      disturb(0, insns);
      if (r.chance(1, 2)) { random_damage(r, m0_params().ctbytes(), kind, x, y); p.add("damage", {kind, x, y}); }
    } else {
      int f = (int)r.below(5);
      f = f == 0 ? 0 : f < 3 ? 1 : 2;
      p.cfg["op"] = f;
      disturb(at[f][0], std::max(at[f][1], at[f][0] + 2));
      if (f == 2 && r.chance(1, 6)) p.cfg["noisy"] = 1;
      else if (f == 2 && r.chance(3, 4)) { random_damage(r, m0_params().ctbytes(), kind, x, y); p.add("damage", {kind, x, y}); }
      if (f && r.chance(1, 6)) { random_damage(r, f == 1 ? m0_params().pkbytes() : m0_params().skbytes(), kind, x, y); p.add("keydamage", {kind, x, y}); }
    }
  }
  void configure(const Plan &p) {
    b.cfg = BoardCfg();
    u64 seed = (u64)p.get("seed");
    b.cfg.ramseed = mix64(seed, 1);
    b.cfg.prng = mix64(seed, 2);
    b.cfg.wait = (u32)std::max<i64>(1, p.get("wait", 1));
    b.cfg.line = (u32)std::max<i64>(1, p.get("line", 100));
    b.cfg.clk_busy = (u64)p.get("clk");
    b.cfg.prng_busy = (u64)p.get("prng");
    b.cfg.rx = (u32)p.get("rx");
    b.cfg.limit = insns * 2 + 3000000;
  }
  void account(Ctx &c, int f) {
    c.fault("timer interrupt", b.irqs);
    if (b.frozen) c.fault("processor stalled");
    if (b.cfg.wait > 1) c.fault("slow memory");
    if (b.cfg.clk_busy) c.fault("clock slow to start");
    if (b.cfg.prng_busy) c.fault("generator slow to load");
    if (b.cfg.line != 100) c.fault("slow serial line");
    if (b.cfg.rx) c.fault("bytes waiting at power-up");
    for (u32 pc : b.irq_pc) c.distinct(mix64(f, pc));
    c.tick(b.now());
  }
  // the bit of the property about the generator that every run sees
  bool generator(Ctx &c) {
    if (b.dry_reads) { c.fail("generator", "random bytes are taken from the generator before it is loaded with its key"); return false; }
    if (b.raw_reads) { c.fail("generator", "random bytes are taken from the generator before its warm-up is over"); return false; }
    return true;
  }
  void execute(const Plan &p, Ctx &c) override {
    int mode = (int)p.get("mode");
    if (!whole && mode) mode = 0;
    if (mode == 0) exchange(p, c);
    else if (mode == 1) single(p, c);
    else bits(p, c);
  }
  void exchange(const Plan &p, Ctx &c) {
    Model m(m0_params());
    configure(p);
    const Step *dmg = nullptr;
    std::vector<BoardCfg::F> faults;
    std::vector<std::pair<std::vector<BoardCfg::F>, u64>> boots;
    for (auto &s : p.steps) {
      if (s.op == "stall") faults.push_back({(u64)s.at(0), X_STALL, s.at(1)});
      else if (s.op == "tick") faults.push_back({(u64)s.at(0), X_TICK, s.at(1)});
      else if (s.op == "damage") dmg = &s;
      else if (s.op == "loss") { faults.push_back({(u64)s.at(0), X_LOSS, 0}); boots.push_back({faults, (u64)s.at(1)}); faults.clear(); }
    }
    boots.push_back({faults, 0});
    u64 prevram = 0;
    for (size_t k = 0; k < boots.size(); k++) {
      b.cfg.faults = boots[k].first;
      if (k) b.cfg.ramseed = prevram;
      prevram = mix64(b.cfg.ramseed, boots[k].second);
      bool last = k + 1 == boots.size();
      b.power_up();
      OpWatch w;
      int cur = -1, done = 0;
      Bytes pk, sk, ct, ss;
      bool altered = false, ok = true;
      b.hook = [&](int f, bool exit) -> bool {
        if (f == F_RAND) {
          if (!exit) { w.ra = b.cpu.r[0]; w.rn = b.rnd_length(); w.draws.push_back(Bytes()); w.draws.back().resize(w.rn > 4096 ? 0 : w.rn); }
          else if (!w.draws.empty()) w.draws.back() = mem(w.ra, w.draws.back().size(), ok);
          return ok;
        }
        if (f > F_DEC) return true;
        if (!exit) {
          cur = f;
          w = OpWatch();
          for (int i = 0; i < 3; i++) w.a[i] = b.cpu.r[i];
          if (f == F_ENC) w.in1 = mem(w.a[2], m.p.pkbytes(), ok);
          if (f == F_DEC) {
            w.in1 = mem(w.a[1], m.p.ctbytes(), ok);
            if (ok && w.in1 != ct) { c.fail("firmware", "the ciphertext handed to decapsulation is not the one encapsulation produced"); return false; }
            if (dmg && last && ok) {
              Bytes d = w.in1;
              damage(d, dmg->at(0), dmg->at(1), dmg->at(2), seeded((u64)dmg->at(1), d.size()));
              d.resize(w.in1.size());
              altered = d != w.in1;
              w.in1 = d;
              if (u8 *q = b.cpu.ptr(w.a[1], (u32)d.size())) memcpy(q, d.data(), d.size());
              c.fault(damage_name(dmg->at(0)));
            }
            w.in2 = mem(w.a[2], m.p.skbytes(), ok);
            if (ok && w.in2 != sk) { c.fail("firmware", "the secret key handed to decapsulation is not the one generated"); return false; }
          }
          if (f == F_ENC && ok && w.in1 != pk) { c.fail("firmware", "the public key handed to encapsulation is not the one generated"); return false; }
          return ok;
        }
        if (f != cur) return true;
        done++;
        c.op(opn[f]);
        if (!judge(c, m, f, w, altered, &pk, &sk, &ct, &ss)) return false;
        return true;
      };
      int rc = b.run();
      b.hook = nullptr;
      account(c, 9);
      if (!last) { c.fault("power loss"); c.distinct(mix64(mix64(77, k), b.cpu.insns * 100 / insns)); }
      c.ev("boot %zu: end %d after %llu instructions, %llu interrupts, %d operations %s", k, rc, (unsigned long long)b.cpu.insns, (unsigned long long)b.irqs, done, b.problem.c_str());
      c.h(b.cpu.insns); c.h(b.now()); c.h(fnv(b.cpu.ram));
      if (c.failed) return;
      if (!ok) { c.fail("firmware", "a function is given memory that does not exist"); return; }
      if (rc == E_FAULT) { c.fail("firmware-fault", "%s", b.problem.c_str()); return; }
      if (!generator(c)) return;
      if (rc == E_LIMIT) { c.fail("firmware-stuck", "the firmware does not come to an end (%d operations completed)", done); return; }
      if (rc == E_LOST) continue;
      if (done != 3) { c.fail("firmware", "the firmware ends after %d of 3 operations", done); return; }
    }
  }
  // checks the results of an operation against the specification
  bool judge(Ctx &c, Model &m, int f, OpWatch &w, bool altered, Bytes *pk, Bytes *sk, Bytes *ct, Bytes *ss) {
    bool ok = true;
    if (b.cpu.r[0] != 0) { c.fail("firmware-result", "%s returns %d", opn[f], (int)b.cpu.r[0]); return false; }
    Bytes all;
    for (auto &d : w.draws) all.insert(all.end(), d.begin(), d.end());
    size_t want = f == F_KEY ? 96 : f == F_ENC ? 32 : 0;
    if (all.size() != want) { c.fail("firmware-result", "%s draws %zu random bytes instead of %zu", opn[f], all.size(), want); return false; }
    c.h(all);
    Bytes e1, e2, o1, o2;
    const char *what1 = "", *what2 = "";
    if (f == F_KEY) {
      m.keygen(all.data(), all.data() + 32, all.data() + 64, e1, e2);
      o1 = mem(w.a[0], m.p.pkbytes(), ok); o2 = mem(w.a[1], m.p.skbytes(), ok);
      what1 = "public key"; what2 = "secret key";
    } else if (f == F_ENC) {
      u8 x[32];
      m.enc(all.data(), w.in1.data(), e1, x);
      e2.assign(x, x + 32);
      o1 = mem(w.a[0], m.p.ctbytes(), ok); o2 = mem(w.a[1], 32, ok);
      what1 = "ciphertext"; what2 = "shared secret";
    } else {
      u8 x[32];
      bool acc = m.dec(w.in1.data(), w.in2.data(), x);
      e1.assign(x, x + 32);
      o1 = mem(w.a[0], 32, ok);
      what1 = acc ? "shared secret" : "secret for a rejected ciphertext";
      if (ok && pk && !altered && o1 != *ss) { c.fail("firmware-agreement", "decapsulation and encapsulation on the board end with different shared secrets"); return false; }
      if (ok && pk && altered && o1 == *ss) { c.fail("firmware-agreement", "decapsulation of an altered ciphertext ends with the shared secret of the original"); return false; }
    }
    if (!ok) { c.fail("firmware", "%s is given memory that does not exist", opn[f]); return false; }
    c.h(o1); c.h(o2);
    if (o1 != e1) { c.fail("firmware-result", "%s: the %s differs from the specification%s", opn[f], what1, b.irqs ? " (timer interrupts came in)" : ""); return false; }
    if (o2 != e2) { c.fail("firmware-result", "%s: the %s differs from the specification%s", opn[f], what2, b.irqs ? " (timer interrupts came in)" : ""); return false; }
    if (f == F_KEY && pk) { *pk = o1; *sk = o2; }
    if (f == F_ENC && ct) { *ct = o1; *ss = o2; }
    return true;
  }
  // one operation, from the state of the board at its entry, on inputs of the plan's choice
  void single(const Plan &p, Ctx &c) {
    Model m(m0_params());
    int f = (int)(p.get("op") % 3);
    u64 seed = (u64)p.get("seed");
    configure(p);
    for (auto &s : p.steps) {
      if (s.op == "stall") b.cfg.faults.push_back({(u64)s.at(0), X_STALL, s.at(1)});
      else if (s.op == "tick") b.cfg.faults.push_back({(u64)s.at(0), X_TICK, s.at(1)});
    }
    b.power_up();
    b.restore(snap[f]);
    // what is below the stack pointer is left over from before
    Rng r(seed);
    u32 sp = b.cpu.r[13];
    for (u32 a = b.bss_end; a < sp; a++) if (u8 *q = b.cpu.ptr(a, 1)) *q = (u8)r.next();
    Bytes rn = drawn_bytes(mix64(seed, 3), 128), pk, sk, ct;
    u8 x[32];
    m.keygen(rn.data(), rn.data() + 32, rn.data() + 64, pk, sk);
    if (p.get("noisy")) {
      Bytes q = marginal(m, pk, sk, seed, 24);
      std::copy(q.begin(), q.end(), rn.begin() + 96);
      c.fault("keys with noise at the edge of correct decryption");
    }
    m.enc(rn.data() + 96, pk.data(), ct, x);
    bool altered = false;
    for (auto &s : p.steps) {
      bool key = s.op == "keydamage";
      if (s.op != "damage" && !key) continue;
      Bytes &t = !key ? ct : f == F_ENC ? pk : sk;
      Bytes before = t;
      size_t n = t.size();
      damage(t, s.at(0), s.at(1), s.at(2), seeded((u64)s.at(1) + 5, n));
      t.resize(n);
      if (t != before) { altered = true; c.fault(damage_name(s.at(0))); }
    }
    OpWatch w;
    bool ok = true;
    for (int i = 0; i < 3; i++) w.a[i] = b.cpu.r[i];
    auto put = [&](u32 a, const Bytes &d) { if (u8 *q = b.cpu.ptr(a, (u32)d.size())) memcpy(q, d.data(), d.size()); else ok = false; };
    if (f == F_ENC) { put(w.a[2], pk); w.in1 = pk; }
    if (f == F_DEC) { put(w.a[1], ct); put(w.a[2], sk); w.in1 = ct; w.in2 = sk; }
    b.hook = [&](int g, bool exit) -> bool {
      if (g != F_RAND) return true;
      if (!exit) { w.ra = b.cpu.r[0]; w.rn = b.rnd_length(); w.draws.push_back(Bytes(w.rn > 4096 ? 0 : w.rn)); }
      else if (!w.draws.empty()) w.draws.back() = mem(w.ra, w.draws.back().size(), ok);
      return ok;
    };
    u32 ret = b.cpu.r[14] & ~1u;
    u32 saved[8];
    memcpy(saved, &b.cpu.r[4], sizeof saved);
    int rc = b.run_until(ret, (at[f][1] - at[f][0]) * 2 + 1000000);
    b.hook = nullptr;
    account(c, f);
    c.op(opn[f]);
    c.ev("%s: end %d after %llu instructions, %llu interrupts %s", opn[f], rc, (unsigned long long)(b.cpu.insns - snap[f].insns), (unsigned long long)b.irqs, b.problem.c_str());
    c.h(b.cpu.insns); c.h(b.now());
    if (rc == E_FAULT) { c.fail("firmware-fault", "%s: %s", opn[f], b.problem.c_str()); return; }
    if (rc != E_STOPPED) { c.fail("firmware-stuck", "%s does not return", opn[f]); return; }
    if (!ok) { c.fail("firmware", "%s is given memory that does not exist", opn[f]); return; }
    if (b.cpu.r[13] != sp || memcmp(saved, &b.cpu.r[4], sizeof saved)) { c.fail("firmware-fault", "%s returns without restoring the registers of its caller", opn[f]); return; }
    if (!generator(c)) return;
    if (f == F_ENC && mem(w.a[2], pk.size(), ok) != pk) { c.fail("firmware-result", "enc changes the public key"); return; }
    if (f == F_DEC && (mem(w.a[1], ct.size(), ok) != ct || mem(w.a[2], sk.size(), ok) != sk)) { c.fail("firmware-result", "dec changes its inputs"); return; }
    judge(c, m, f, w, altered, nullptr, nullptr, nullptr, nullptr);
  }
  // every bit the generator delivers ends up in the random bytes handed out
  void bits(const Plan &p, Ctx &c) {
    size_t n = (size_t)std::min<i64>(std::max<i64>(2, p.get("len", 32)), 512);
    configure(p);
    u32 buf = 0x20001000 + (u32)((u64)p.get("seed") & 3);
    auto ask = [&](i64 word, u32 bit, Bytes &o) -> bool {
      b.cfg.flip_word = word;
      b.cfg.flip_bit = bit;
      b.power_up();
      b.restore(rnd);
      for (u32 i = 0; i < n + 64; i++) *b.cpu.ptr(buf - 32 + i, 1) = (u8)mix64(i, 99);
      b.cpu.r[0] = buf; b.cpu.r[1] = (u32)n; b.cpu.r[2] = (u32)n; b.cpu.r[3] = 0;
      int rc = b.run_until(b.cpu.r[14] & ~1u, 200000);
      c.tick(b.now() - rnd.cycles);
      if (rc == E_FAULT) { c.fail("firmware-fault", "randombytes: %s", b.problem.c_str()); return false; }
      if (rc != E_STOPPED) { c.fail("firmware-stuck", "randombytes does not return"); return false; }
      bool ok = true;
      o = mem(buf, n, ok);
      for (u32 i = 0; i < 32; i++)
        if (*b.cpu.ptr(buf - 32 + i, 1) != (u8)mix64(i, 99) || *b.cpu.ptr(buf + (u32)n + i, 1) != (u8)mix64(32 + n + i, 99)) { c.fail("firmware-result", "randombytes(%zu) writes outside the buffer", n); return false; }
      return generator(c);
    };
    Bytes base, o;
    u64 w0 = rnd.words;
    if (!ask(-1, 0, base)) return;
    u64 used = b.rand_reads ? b.rand_reads : b.s.words - w0;
    c.op("randombytes");
    c.h(base);
    if (b.rand_reads && b.rand_bits < 8 * n) { c.fail("generator", "%zu random bytes are made of %llu bits of the generator", n, (unsigned long long)b.rand_bits); return; }
    if (used == 0) { c.fail("generator", "randombytes does not ask the generator"); return; }
    std::set<Bytes> seen;
    seen.insert(base);
    for (auto &s : p.steps) {
      if (s.op != "flip") continue;
      u64 word = (u64)s.at(0) % used;
      u32 bit = (u32)s.at(1) & 15;
      if (!ask((i64)(w0 + word), bit, o)) return;
      c.fault("generator bit flipped");
      c.distinct(mix64(mix64(n, word), bit));
      c.ev("len %zu word %llu bit %u: %s", n, (unsigned long long)word, bit, o == base ? "same" : "different");
      c.h(o);
      if (o == base) { c.fail("generator", "bit %u of a 16-bit word of the generator has no influence on the random bytes (%zu asked for, word %llu)", bit, n, (unsigned long long)word); return; }
    }
  }
};
Register reg16("C16", []() -> Scenario * { return new C16; });

struct C17 : M0Base {
  u64 quick_runs() override { return 60000; }
  const char *rule() override { return "distinct (operation measured, timer value when the measurement is stopped if a wrap is near, wraps, interrupted instruction)"; }
  void generate(Rng &r, u64 index, bool, Plan &p) override {
    p.cfg["seed"] = r.seed63();
    if (index % 4 == 3) { calls_plan(r, p); return; }
    if (havem && index % 12 == 1) { stack_plan(r, index, p); return; }
    if (havep && index % 60 == 6) { peripherals_plan(r, p); return; }
    bool real = index % 151 == 0;
    p.cfg["real"] = real;
    p.cfg["wait"] = real ? r.range(1, 8) : r.chance(1, 2) ? 1 : r.range(1, 6);
    i64 styles[] = {100, r.range(20, 300), r.range(300, 6000)};
    p.cfg["line"] = styles[r.below(3)];
    if (r.chance(1, 4)) p.cfg["clk"] = r.range(0, 30000);
    if (r.chance(1, 3)) p.cfg["prng"] = r.range(0, 3000);
    if (r.chance(1, 6)) p.cfg["rx"] = r.range(0, 60);
    int boots = r.chance(1, 6) ? (int)r.range(1, 3) : 0;
    for (int k = 0; k <= boots; k++) {
      for (int f = 0; f < 3; f++) {
        u64 kind = r.below(6);
        if (kind == 0) p.add("takes", {f, (i64)r.below(200)});
        else if (kind == 1) p.add("takes", {f, (i64)r.below(r.chance(1, 4) ? 4200000000ull : 80000000ull)});
        else if (kind == 2) p.add("takes", {f, (i64)(0xffffff - r.below(80))});
        else p.add("wrap", {f, (i64)(r.chance(1, 3) ? r.below(r.chance(1, 8) ? 250 : 5) : 0), (i64)(1 + r.below(r.chance(1, 2) ? 40 : 250))});
        if (real) break;
      }
      int n = r.chance(1, 3) ? (int)r.range(1, 6) : 0;
      for (int i = 0; i < n; i++) p.add("stall", {(i64)r.below(real ? 13000000 : 900), (i64)(1 + r.below(150))});
      n = r.chance(1, 3) ? (int)r.range(1, 5) : 0;
      for (int i = 0; i < n; i++) p.add("line", {(i64)r.below(75), (i64)r.below(r.chance(1, 4) ? 400000 : 20000)});
      if (k < boots) p.add("loss", {(i64)(r.chance(1, 3) ? r.below(1700) : r.below(real ? insns : 2600)), r.seed63()});
    }
  }
  Board bm;            // with the build that measures the stack
  Board bp;            // with the test program for the peripherals
  bool havem = false, havep = false;
  bool setup(std::string &err) override {
    if (!M0Base::setup(err)) return false;
    std::string file, none;
    havem = find_m0(file, none, "m0mem") && bm.load(file, none);
    havep = find_m0(file, none, "m0per") && bp.load(file, none);
    return true;
  }
  void peripherals_plan(Rng &r, Plan &p) {
    p.cfg["peripherals"] = (i64)r.range(1, 4);
    p.cfg["wait"] = r.chance(1, 2) ? 1 : r.range(1, 6);
    i64 styles[] = {100, r.range(20, 300), r.range(300, 6000)};
    p.cfg["line"] = styles[r.below(3)];
    if (r.chance(1, 4)) p.cfg["clk"] = r.range(0, 30000);
    if (r.chance(1, 3)) p.cfg["prng"] = r.range(0, 3000);
    if (r.chance(1, 6)) p.cfg["loss"] = (i64)r.below(r.chance(1, 2) ? 2000 : 30000);
    int n = r.chance(1, 3) ? (int)r.range(1, 5) : 0;
    for (int i = 0; i < n; i++) p.add("line", {(i64)r.below(250), (i64)r.below(r.chance(1, 4) ? 20000000 : 20000)});
    n = r.chance(1, 3) ? (int)r.range(1, 5) : 0;
    for (int i = 0; i < n; i++) p.add("stall", {(i64)r.below(60000), (i64)(1 + r.below(r.chance(1, 3) ? 3000000 : 150))});
  }
  // the test program: random bytes and the time they took, again and again
  void peripherals(const Plan &p, Ctx &c) {
    u64 seed = (u64)p.get("seed");
    int rounds = (int)std::min<i64>(std::max<i64>(p.get("peripherals"), 1), 20);
    u64 w = (u64)std::max<i64>(1, p.get("wait", 1));
    bp.cfg = BoardCfg();
    bp.cfg.ramseed = mix64(seed, 1);
    bp.cfg.prng = mix64(seed, 2);
    bp.cfg.wait = (u32)w;
    bp.cfg.line = (u32)std::max<i64>(1, p.get("line", 100));
    bp.cfg.clk_busy = (u64)p.get("clk");
    bp.cfg.prng_busy = (u64)p.get("prng");
    bp.cfg.limit = 40000000 + (300 * 700ull * bp.cfg.line / 100 + bp.cfg.clk_busy + bp.cfg.prng_busy * 5) / 2;
    for (auto &s : p.steps) {
      if (s.op == "line") { bp.cfg.line_stalls.push_back({(u64)s.at(0), (u64)s.at(1)}); bp.cfg.limit += (u64)s.at(1) / 2; }
    }
    for (int bt = p.get("loss") ? 0 : 1; bt < 2; bt++) {
      bp.cfg.faults.clear();
      if (!bt) bp.cfg.faults.push_back({(u64)p.get("loss"), X_LOSS, 0});
      else bp.cfg.ramseed = mix64(bp.cfg.ramseed, 9);
      for (auto &s : p.steps) if (s.op == "stall") bp.cfg.faults.push_back({(u64)s.at(0), X_STALL, std::min<i64>(s.at(1), 3000000)});
      bp.power_up();
      struct Round { Bytes rnd; u64 in = 0, on = 0, off = 0, wraps = 0; bool closed = false; };
      std::vector<Round> rd;
      u32 x = 0, n = 0;
      bool odd = false;
      bp.hook = [&](int f, bool exit) -> bool {
        if (f != F_RAND) return true;
        if (!exit) {
          if ((int)rd.size() == rounds) return false;
          rd.push_back(Round());
          x = bp.cpu.r[0]; n = (u32)bp.rnd_length();
          rd.back().in = bp.now();
        } else if (!rd.empty()) {
          if (n > 4096 || !bp.cpu.ptr(x, n)) { odd = true; return true; }
          rd.back().rnd.assign(bp.cpu.ptr(x, 1), bp.cpu.ptr(x, 1) + n);
        }
        return true;
      };
      bp.timer_stopped = [&](u64 on, u64 off, u64 wraps, u64) {
        if (rd.empty() || rd.back().closed) return;
        Round &r = rd.back();
        r.on = on; r.off = off; r.wraps = wraps; r.closed = on <= r.in;
      };
      int rc = bp.run();
      bp.hook = nullptr;
      bp.timer_stopped = nullptr;
      if (rc == E_STOPPED) bp.drain();
      c.tick(bp.now());
      c.fault("timer interrupt", bp.irqs);
      for (u32 pc : bp.irq_pc) c.distinct(mix64(7, pc));
      if (bp.frozen) c.fault("processor stalled");
      if (w > 1) c.fault("slow memory");
      if (bp.cfg.line > 100) c.fault("slow serial line");
      if (!bp.cfg.line_stalls.empty()) c.fault("serial line stalled");
      if (bp.cfg.clk_busy) c.fault("clock slow to start");
      if (bp.cfg.prng_busy) c.fault("generator slow to load");
      if (rc == E_LOST) c.fault("power loss");
      c.op("test program of the peripherals");
      std::string vis;
      for (char ch : bp.s.out) { char t[8]; snprintf(t, sizeof t, ch >= 32 && ch < 127 ? "%c" : "\\x%02x", (u8)ch); vis += t; }
      c.ev("end %d after %llu instructions, %zu rounds, line: %s %s", rc, (unsigned long long)bp.cpu.insns, rd.size(), vis.c_str(), bp.problem.c_str());
      c.h(bp.cpu.insns); c.h(bp.now()); c.h(fnv(bp.s.out.data(), bp.s.out.size()));
      if (rc == E_FAULT) { c.fail("firmware-fault", "the test program of the peripherals: %s", bp.problem.c_str()); return; }
      if (rc == E_LIMIT) { c.fail("firmware-stuck", "the test program of the peripherals stops reporting"); return; }
      if (rc == E_DONE) { c.fail("firmware-stuck", "the test program of the peripherals ends"); return; }
      if (odd) { c.fail("report", "random bytes are put outside memory"); return; }
      std::string pat;  // 1: hexadecimal digit, with the positions of the random bytes apart
      std::vector<size_t> at;
      std::string kind;
      for (auto &r : rd) {
        pat.append(r.rnd.begin(), r.rnd.end());
        kind.append(r.rnd.size(), 'r');
        std::string t = "0x00000000\r\ntest time = 0x";
        pat += t; kind.append(t.size(), 'r');
        at.push_back(pat.size());
        pat += "00000000\r\n"; kind += "hhhhhhhhrr";
      }
      const std::string &o = bp.s.out;
      if (rc != E_LOST && o.size() != pat.size()) { c.fail("report", "%zu bytes of report from %zu rounds, %zu expected: \"%s\"", o.size(), rd.size(), pat.size(), vis.c_str()); return; }
      for (size_t i = 0; i < o.size(); i++) {
        if (rc == E_LOST && i >= pat.size()) { c.fail("report", "more is sent than was to be reported: \"%s\"", vis.c_str()); return; }
        if (kind[i] == 'h' ? !((o[i] >= '0' && o[i] <= '9') || (o[i] >= 'A' && o[i] <= 'F')) : o[i] != pat[i]) { c.fail("report", "wrong or missing character at position %zu of the reports: \"%s\"", i, vis.c_str()); return; }
      }
      if (rc == E_LOST) continue;
      for (size_t k = 0; k < rd.size(); k++) {
        Round &r = rd[k];
        u64 v = strtoull(o.substr(at[k], 8).c_str(), nullptr, 16), tol = 500 * w + r.wraps * (120 * w + 200);
        if (!r.closed) { c.fail("time", "the timer does not run from before the random bytes to the end of the report"); return; }
        c.ev("round %zu: timer ran %llu, from random bytes on %llu, wraps %llu, reported %llu", k, (unsigned long long)(r.off - r.on), (unsigned long long)(r.off - r.in), (unsigned long long)r.wraps, (unsigned long long)v);
        c.distinct(mix64(mix64(8, r.wraps), v >> 8));
        if (v + tol < r.off - r.in || v > r.off - r.on + tol) { c.fail("time", "round %zu takes %llu cycles, %llu are reported (%llu timer wraps)", k, (unsigned long long)(r.off - r.on), (unsigned long long)v, (unsigned long long)r.wraps); return; }
      }
    }
  }
  void stack_plan(Rng &r, u64 index, Plan &p) {
    p.cfg["stack"] = 1;
    p.cfg["real"] = index % 1212 == 1;
    p.cfg["wait"] = r.chance(1, 2) ? 1 : r.range(1, 6);
    i64 styles[] = {100, r.range(20, 300), r.range(300, 6000)};
    p.cfg["line"] = styles[r.below(3)];
    if (r.chance(1, 4)) p.cfg["clk"] = r.range(0, 30000);
    if (r.chance(1, 3)) p.cfg["prng"] = r.range(0, 3000);
    if (r.chance(1, 6)) p.cfg["loss"] = (i64)r.below(r.chance(1, 2) ? 2000 : 900000);
    int style = (int)r.below(3);
    for (int k = 0; k < 6; k++) p.add("uses", {k, (i64)(style == 0 ? 4 * r.below(60) : style == 1 ? 4 * (2000 + r.below(500)) : 4 * r.below(2500)), r.seed63()});
    int n = r.chance(1, 3) ? (int)r.range(1, 5) : 0;
    for (int i = 0; i < n; i++) p.add("line", {(i64)r.below(92), (i64)r.below(r.chance(1, 4) ? 400000 : 20000)});
  }
  // the stack use that is reported is what the operations really used
  void stack(const Plan &p, Ctx &c) {
    u64 seed = (u64)p.get("seed");
    bool real = p.get("real");
    bm.cfg = BoardCfg();
    bm.cfg.ramseed = mix64(seed, 1);
    bm.cfg.prng = mix64(seed, 2);
    bm.cfg.wait = (u32)std::max<i64>(1, p.get("wait", 1));
    bm.cfg.line = (u32)std::max<i64>(1, p.get("line", 100));
    bm.cfg.clk_busy = (u64)p.get("clk");
    bm.cfg.prng_busy = (u64)p.get("prng");
    bm.cfg.limit = (real ? insns * 4 : 0) + 6000000 + (180 * 700ull * bm.cfg.line / 100 + bm.cfg.clk_busy + bm.cfg.prng_busy * 5) / 2;
    const Step *how[6] = {nullptr};
    for (auto &s : p.steps) {
      if (s.op == "uses" && s.at(0) >= 0 && s.at(0) < 6) how[s.at(0)] = &s;
      if (s.op == "line") { bm.cfg.line_stalls.push_back({(u64)s.at(0), (u64)s.at(1)}); bm.cfg.limit += (u64)s.at(1) / 2; }
    }
    for (int bt = p.get("loss") ? 0 : 1; bt < 2; bt++) {
      bm.cfg.faults.clear();
      if (!bt) bm.cfg.faults.push_back({(u64)p.get("loss"), X_LOSS, 0});
      else bm.cfg.ramseed = mix64(bm.cfg.ramseed, 9);
      bm.power_up();
      u32 mainsp = 0, in[6] = {0}, low[6] = {0};
      int k = 0, cur = -1;
      bool wrong = false;
      Bytes before;
      bm.hook = [&](int f, bool exit) -> bool {
        if (f == F_MAIN && !exit) mainsp = bm.cpu.r[13];
        if (f > F_DEC) return true;
        if (!exit) {
          if (k >= 6 || f != k % 3) { wrong = true; return true; }
          cur = k++;
          in[cur] = bm.cpu.r[13];
          before = bm.cpu.ram;
          if (!real) {
            Rng r(how[cur] ? (u64)how[cur]->at(2) : 1);
            u32 n = (u32)std::min<i64>(how[cur] ? how[cur]->at(1) : 400, in[cur] - bm.bss_end - 700);
            for (u32 a = in[cur] - n; a < in[cur]; a++) { u8 *q = bm.cpu.ptr(a, 1); u8 v = (u8)r.next(); *q = a == in[cur] - n && (v == *q || v == 42) ? (u8)~*q : v; }
            bm.sleep(1000);
          }
          return true;
        }
        if (cur < 0) return true;
        u32 a = bm.bss_end;
        while (a < in[cur] && *bm.cpu.ptr(a, 1) == before[a - bm.cpu.ram_base]) a++;
        low[cur] = a;
        cur = -1;
        return true;
      };
      int rc = bm.run();
      bm.hook = nullptr;
      if (rc == E_DONE) bm.drain();
      c.tick(bm.now());
      if (bm.cfg.wait > 1) c.fault("slow memory");
      if (bm.cfg.line > 100) c.fault("slow serial line");
      if (!bm.cfg.line_stalls.empty()) c.fault("serial line stalled");
      if (bm.cfg.clk_busy) c.fault("clock slow to start");
      if (bm.cfg.prng_busy) c.fault("generator slow to load");
      if (rc == E_LOST) c.fault("power loss");
      c.op(real ? "stack use reported" : "stand-in stack use reported");
      std::string vis;
      for (char ch : bm.s.out) { char t[8]; snprintf(t, sizeof t, ch >= 32 && ch < 127 ? "%c" : "\\x%02x", (u8)ch); vis += t; }
      c.ev("end %d after %llu instructions, line: %s %s", rc, (unsigned long long)bm.cpu.insns, vis.c_str(), bm.problem.c_str());
      c.h(bm.cpu.insns); c.h(bm.now()); c.h(fnv(bm.s.out.data(), bm.s.out.size()));
      if (rc == E_FAULT) { c.fail("firmware-fault", "the firmware that measures the stack: %s", bm.problem.c_str()); return; }
      if (rc == E_LIMIT) { c.fail("firmware-stuck", "the report of the stack use does not come to an end"); return; }
      static const char *lead[4] = {"RAM keygen0x", "RAM encaps0x", "RAM decaps0x", "RAM total0x"};
      std::string pat;
      size_t at[4];
      for (int f = 0; f < 4; f++) { pat += lead[f]; at[f] = pat.size(); pat += "\1\1\1\1\1\1\1\1\r\n"; }
      const std::string &o = bm.s.out;
      if (o.size() > pat.size()) { c.fail("report", "more than the four reports is sent: \"%s\"", vis.c_str()); return; }
      for (size_t i = 0; i < o.size(); i++)
        if (pat[i] == 1 ? !((o[i] >= '0' && o[i] <= '9') || (o[i] >= 'A' && o[i] <= 'F')) : o[i] != pat[i]) { c.fail("report", "wrong or missing character at position %zu of the reports: \"%s\"", i, vis.c_str()); return; }
      if (rc == E_LOST) continue;
      if (o.size() != pat.size()) { c.fail("report", "the reports are incomplete: \"%s\"", vis.c_str()); return; }
      if (wrong || k != 6) { c.fail("report", "operations are not run in the order of the reports"); return; }
      for (int f = 0; f < 4; f++) {
        u64 v = strtoull(o.substr(at[f], 8).c_str(), nullptr, 16);
        u32 l = f < 3 ? low[f] : std::min(low[3], std::min(low[4], low[5])), sp = f < 3 ? in[f] : std::max(in[3], std::max(in[4], in[5]));
        c.ev("%s: stack touched down to %08x, main's frame %08x..%08x, reported %llu", lead[f], l, sp, mainsp, (unsigned long long)v);
        c.distinct(mix64(f, l));
        if (v + 8 < sp - l || v > mainsp - l) { c.fail("stack-use", "\"%s\" reports %llu bytes, %u to %u were used", lead[f], (unsigned long long)v, sp - l, mainsp - l); return; }
      }
    }
  }
  // the reporting functions called with contents of the plan's choice
  void calls_plan(Rng &r, Plan &p) {
    p.cfg["calls"] = 1;
    p.cfg["wait"] = r.chance(1, 2) ? 1 : r.range(1, 6);
    i64 styles[] = {100, r.range(20, 300), r.range(300, 6000)};
    p.cfg["line"] = styles[r.below(3)];
    int n = (int)r.range(1, 8);
    for (int i = 0; i < n; i++) {
      u64 k = r.below(8);
      // values of all lengths, digits that repeat
      u64 v = r.chance(1, 3) ? r.next() >> r.below(64) : r.chance(1, 2) ? r.below(16) * 0x11111111ull : r.next();
      if (k < 5) p.add("trace", {(i64)(r.chance(1, 6) ? r.below(2) * 20 : r.below(21)), r.seed63(), (i64)(v & 0xffffffff)});
      else if (k < 7) p.add("word", {(i64)(v & 0xffff)});
      else p.add("read", {(i64)r.below(33), r.seed63()});
      if (r.chance(1, 4)) p.add("pause", {(i64)r.below(20000)});
      if (r.chance(1, 4)) p.add("stall", {(i64)r.below(400), (i64)(1 + r.below(20000))});
      if (r.chance(1, 4)) p.add("tick", {(i64)r.below(400), (i64)(1 + r.below(30))});
    }
    n = r.chance(1, 3) ? (int)r.range(1, 5) : 0;
    for (int i = 0; i < n; i++) p.add("line", {(i64)r.below(100), (i64)r.below(r.chance(1, 4) ? 400000 : 20000)});
  }
  u32 function(const char *name, const char *shape) { return b.protos.fits(name, shape) ? b.elf.addr(name) & ~1u : 0; }
  void calls(const Plan &p, Ctx &c) {
    b.cfg = BoardCfg();
    b.cfg.prng = mix64((u64)p.get("seed"), 2);
    b.cfg.wait = (u32)std::max<i64>(1, p.get("wait", 1));
    b.cfg.line = (u32)std::max<i64>(1, p.get("line", 100));
    u64 slack = 2000000 + 140 * 700ull * b.cfg.line / 100;
    for (auto &s : p.steps) if (s.op == "line") { b.cfg.line_stalls.push_back({(u64)s.at(0), (u64)s.at(1)}); slack += (u64)s.at(1); }
    b.power_up();
    b.restore(snap[0]);
    u32 trace = function("UART_SendTrace", "cII"), word = function("UART_SendWord", "I"), read = function("UART_Read", "P");
    u32 sp = b.cpu.r[13];
    std::string want;
    u64 nstall = 0, ntick = 0, nbytes = 0, ncalls = 0;
    std::vector<BoardCfg::F> f;
    for (auto &s : p.steps) {
      if (s.op == "pause") { b.s.extra += (u64)s.at(0); continue; }
      if (s.op == "stall") { f.push_back({(u64)s.at(0), X_STALL, s.at(1)}); nstall++; continue; }
      if (s.op == "tick") { f.push_back({(u64)s.at(0), X_TICK, s.at(1)}); ntick++; continue; }
      bool t = s.op == "trace", w = s.op == "word", rd = s.op == "read";
      u32 fn = t ? trace : w ? word : rd ? read : 0;
      if (!fn) continue;
      Rng r((u64)s.at(1));
      u32 buf = b.bss_end + 200 + (u32)r.below(8);
      Bytes got;
      for (int i = 4; i < 12; i++) b.cpu.r[i] = (u32)r.next();
      u32 keep[8];
      memcpy(keep, &b.cpu.r[4], sizeof keep);
      if (t) {
        u32 n = (u32)std::min<i64>(s.at(0), 20);
        Bytes x(n);
        for (auto &q : x) q = r.chance(1, 4) ? (u8)r.next() : (u8)(32 + r.below(95));
        if (u8 *q = b.cpu.ptr(buf, 64)) { memset(q, 0xa5, 64); memcpy(q, x.data(), n); }
        b.cpu.r[0] = buf; b.cpu.r[1] = n; b.cpu.r[2] = (u32)s.at(2);
        want.append(x.begin(), x.end());
        char d[16];
        snprintf(d, sizeof d, "0x%08X\r\n", (u32)s.at(2));
        want += d;
      } else if (w) {
        b.cpu.r[0] = (u32)s.at(0) & 0xffff;
        char d[16];
        snprintf(d, sizeof d, "0x%04X\r\n", (u32)s.at(0) & 0xffff);
        want += d;
      } else {
        got = seeded((u64)s.at(1), (size_t)std::min<i64>(s.at(0), 32));
        nbytes += got.size();
        b.s.rxq.assign(got.begin(), got.end());
        if (u8 *q = b.cpu.ptr(buf, 64)) memset(q, 0xa5, 64);
        b.cpu.r[0] = buf;
      }
      u32 ret = b.fn[F_KEY];  // an address the functions never get to
      b.cpu.r[14] = ret | 1;
      b.cpu.r[15] = fn;
      b.add_faults(f);
      f.clear();
      int rc = b.run_until(ret, slack);
      ncalls++;
      c.op(s.op.c_str());
      if (rc == E_FAULT) { c.fail("firmware-fault", "%s", b.problem.c_str()); break; }
      if (rc != E_STOPPED) { c.fail("firmware-stuck", "a reporting function does not come to an end"); break; }
      if (b.cpu.r[13] != sp || memcmp(keep, &b.cpu.r[4], sizeof keep)) { c.fail("firmware-fault", "a reporting function returns without restoring the registers of its caller"); break; }
      if (rd) {
        bool ok = true;
        Bytes m = mem(buf, 64, ok), e(64, 0xa5);
        std::copy(got.begin(), got.end(), e.begin());
        if ((b.cpu.r[0] & 0xff) != got.size() || m != e || !b.s.rxq.empty()) { c.fail("receive", "%zu bytes were waiting, %u are reported, or their contents are wrong", got.size(), b.cpu.r[0] & 0xff); break; }
      }
    }
    b.drain();
    c.tick(b.now());
    c.fault("timer interrupt", b.irqs);
    c.fault("processor stalled", nstall);
    if (b.cfg.wait > 1) c.fault("slow memory");
    if (b.cfg.line > 100) c.fault("slow serial line");
    if (!b.cfg.line_stalls.empty()) c.fault("serial line stalled");
    if (nbytes) c.fault("bytes waiting at the receiver", nbytes);
    for (u32 pc : b.irq_pc) c.distinct(mix64(6, pc));
    std::string vis;
    for (char ch : b.s.out) { char t[8]; snprintf(t, sizeof t, ch >= 32 && ch < 127 ? "%c" : "\\x%02x", (u8)ch); vis += t; }
    c.ev("%llu calls, %llu interrupts, line: %s %s", (unsigned long long)ncalls, (unsigned long long)b.irqs, vis.c_str(), b.problem.c_str());
    c.h(b.cpu.insns); c.h(b.now()); c.h(fnv(b.s.out.data(), b.s.out.size()));
    if (c.failed) return;
    if (b.s.out != want) {
      size_t i = 0;
      while (i < want.size() && i < b.s.out.size() && want[i] == b.s.out[i]) i++;
      c.fail("report", "%zu bytes reported, %zu arrive; the first wrong or missing one is at position %zu: \"%s\"", want.size(), b.s.out.size(), i, vis.c_str());
    }
  }
  struct Meas { u64 in = 0, out = 0, on = 0, off = 0, wraps = 0, irqs = 0, frozen = 0; bool started = false, closed = false; };
  void execute(const Plan &p, Ctx &c) override {
    u64 seed = (u64)p.get("seed");
    if (p.get("calls")) { if (whole) calls(p, c); return; }
    if (p.get("stack")) { if (havem) stack(p, c); return; }
    if (p.get("peripherals")) { if (havep) peripherals(p, c); return; }
    bool real = p.get("real");
    u64 ram = mix64(seed, 1);
    std::vector<Step> part;
    for (size_t k = 0; k <= p.steps.size(); k++) {
      bool last = k == p.steps.size();
      if (!last && p.steps[k].op != "loss") { part.push_back(p.steps[k]); continue; }
      b.cfg = BoardCfg();
      b.cfg.ramseed = ram;
      b.cfg.prng = mix64(seed, 2);
      b.cfg.wait = (u32)std::max<i64>(1, p.get("wait", 1));
      b.cfg.line = (u32)std::max<i64>(1, p.get("line", 100));
      b.cfg.clk_busy = (u64)p.get("clk");
      b.cfg.prng_busy = (u64)p.get("prng");
      b.cfg.rx = (u32)std::min<i64>(p.get("rx"), 200);
      b.cfg.limit = (real ? insns * 2 : 0) + 2000000 + (140 * 700ull * b.cfg.line / 100 + b.cfg.clk_busy + b.cfg.prng_busy * 5) / 2;
      if (!last) { b.cfg.faults.push_back({(u64)p.steps[k].at(0), X_LOSS, 0}); ram = mix64(ram, (u64)p.steps[k].at(1)); }
      boot(part, real, last, c);
      if (c.failed) return;
      part.clear();
    }
  }
  void boot(const std::vector<Step> &part, bool real, bool last, Ctx &c) {
    const Step *how[3] = {nullptr, nullptr, nullptr};
    std::vector<BoardCfg::F> stalls;
    for (auto &s : part) {
      if (s.op == "takes" || s.op == "wrap") how[s.at(0) % 3] = &s;
      if (s.op == "stall") stalls.push_back({(u64)s.at(0), X_STALL, std::min<i64>(s.at(1), 200)});
      if (s.op == "line") b.cfg.line_stalls.push_back({(u64)s.at(0) + b.cfg.rx, (u64)s.at(1)});
    }
    for (auto &x : b.cfg.line_stalls) b.cfg.limit += x.second / 2;
    b.power_up();
    Meas m[3];
    int order = 0;
    bool wrong = false;
    b.hook = [&](int f, bool exit) -> bool {
      if (f > F_DEC) {
        return true;
      }
      if (!exit) {
        if (f != order || m[f].started) wrong = true;
        m[f].started = true;
        m[f].in = b.now(); m[f].on = b.t_running ? b.t_on : ~0ull; m[f].irqs = b.irqs; m[f].frozen = b.frozen;
        if (f == F_KEY) b.add_faults(stalls);
        if (!real) {
          const Step *h = how[f];
          if (!h) b.sleep(1000);
          else if (h->op == "takes") b.sleep((u64)h->at(1));
          else b.sleep_to((u64)std::min<i64>(h->at(1), 250), (u32)(h->at(2)) * b.cfg.wait);
          return true;
        }
      } else { m[f].out = b.now(); order = f + 1; }
      return true;
    };
    // the interval during which the timer ran around each operation
    b.timer_stopped = [&](u64 on, u64 off, u64 wraps, u64 left) {
      for (int f = 0; f < 3; f++)
        if (m[f].started && !m[f].closed && m[f].on == on) {
          m[f].off = off; m[f].wraps = wraps; m[f].closed = true;
          m[f].irqs = b.irqs - m[f].irqs; m[f].frozen = b.frozen - m[f].frozen;
          if (left < 400 * b.cfg.wait || left > 0xffffff - 400 * b.cfg.wait) c.distinct(mix64(mix64(f, left), mix64(b.cfg.wait, wraps)));
        }
    };
    int rc = b.run();
    b.hook = nullptr;
    b.timer_stopped = nullptr;
    if (rc == E_DONE) b.drain();
    c.tick(b.now());
    c.fault("timer interrupt", b.irqs);
    for (u32 pc : b.irq_pc) c.distinct(mix64(5, pc));
    if (b.frozen) c.fault("processor stalled");
    if (b.cfg.wait > 1) c.fault("slow memory");
    if (b.cfg.line > 100) c.fault("slow serial line");
    if (!b.cfg.line_stalls.empty()) c.fault("serial line stalled");
    if (b.cfg.clk_busy) c.fault("clock slow to start");
    if (b.cfg.prng_busy) c.fault("generator slow to load");
    if (b.cfg.rx) c.fault("bytes waiting at power-up");
    if (rc == E_LOST) c.fault("power loss");
    c.op(real ? "exchange reported" : "stand-in exchange reported");
    std::string vis;
    for (char ch : b.s.out) { char t[8]; snprintf(t, sizeof t, ch >= 32 && ch < 127 ? "%c" : "\\x%02x", (u8)ch); vis += t; }
    c.ev("end %d after %llu instructions, %llu interrupts, line: %s %s", rc, (unsigned long long)b.cpu.insns, (unsigned long long)b.irqs, vis.c_str(), b.problem.c_str());
    c.h(b.cpu.insns); c.h(b.now()); c.h(fnv(b.s.out.data(), b.s.out.size()));
    if (rc == E_FAULT) { c.fail("firmware-fault", "%s", b.problem.c_str()); return; }
    if (rc == E_LIMIT) { c.fail("firmware-stuck", "the report does not come to an end"); return; }
    // what is on the line
    static const char *lead[3] = {"keygen time= 0x", "encaps time= 0x", "decaps time= 0x"};
    std::string pat;  // h: hexadecimal digit
    for (int f = 0; f < 3; f++) pat += std::string(lead[f]) + "\1\1\1\1\1\1\1\1\r\n";
    size_t skip = 0;
    if (b.cfg.rx) {  // what was waiting at power-up may be echoed before the first report
      size_t at = b.s.out.find(lead[0]);
      if (at == std::string::npos) { for (at = b.s.out.size() > 20 ? b.s.out.size() - 20 : 0; at < b.s.out.size(); at++) if (!std::string(lead[0]).compare(0, b.s.out.size() - at, b.s.out, at, std::string::npos)) break; }
      skip = std::min(at, b.s.out.size());
      if (skip > b.cfg.rx) { c.fail("report", "%zu bytes precede the first report, %u were waiting: \"%s\"", skip, b.cfg.rx, vis.c_str()); return; }
    }
    std::string o = b.s.out.substr(skip);
    if (o.size() > pat.size()) { c.fail("report", "more than the three reports is sent: \"%s\"", vis.c_str()); return; }
    for (size_t i = 0; i < o.size(); i++)
      if (pat[i] == 1 ? !((o[i] >= '0' && o[i] <= '9') || (o[i] >= 'A' && o[i] <= 'F')) : o[i] != pat[i]) { c.fail("report", "wrong or missing character at position %zu of the reports: \"%s\"", i, vis.c_str()); return; }
    if (rc == E_LOST && !last) return;
    if (rc == E_DONE && o.size() != pat.size()) { c.fail("report", "the reports are incomplete: \"%s\"", vis.c_str()); return; }
    if (o.size() != pat.size()) return;
    if (wrong) { c.fail("report", "operations are not run once each, in the order of the reports"); return; }
    for (int f = 0; f < 3; f++) {
      u64 v = strtoull(o.substr((size_t)f * 25 + 15, 8).c_str(), nullptr, 16);
      u64 w = b.cfg.wait;
      if (!m[f].started || m[f].on == ~0ull || !m[f].closed) { c.fail("time", "the timer does not run while %s is measured", opn[f]); return; }
      u64 span = m[f].off - m[f].on, d = m[f].out - m[f].in;
      u64 tol = 120 * w + m[f].wraps * (120 * w + 200);
      c.ev("%s took %llu, timer ran %llu, wraps %llu, reported %llu", opn[f], (unsigned long long)d, (unsigned long long)span, (unsigned long long)m[f].wraps, (unsigned long long)v);
      if (span > d + 400 * w + m[f].frozen + m[f].irqs * 100 * w) { c.fail("time", "the measurement of %s (%llu cycles) takes in %llu cycles of something else", opn[f], (unsigned long long)d, (unsigned long long)(span - d)); return; }
      if (v + tol < d || v > span + tol) { c.fail("time", "%s takes %llu cycles, %llu are reported (%llu timer wraps)", opn[f], (unsigned long long)d, (unsigned long long)v, (unsigned long long)m[f].wraps); return; }
    }
  }
};
Register reg17("C17", []() -> Scenario * { return new C17; });
}  // namespace
