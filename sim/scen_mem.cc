// C07 results depend on nothing but arguments and randomness; C08 memory contract.
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>

#include "pages.h"
#include "scen.h"
#include "stack.h"

#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace {

enum { KEY, ENC, DEC };
const char *opname[] = {"key generation", "encapsulation", "decapsulation"};

struct Inputs {  // all lanes
  int op = 0;
  Bytes pk, sk, ct, rnd;
};
struct Results {
  Bytes a, b;
  int rc = 0;
  bool operator==(const Results &o) const { return a == o.a && b == o.b && rc == o.rc; }
};

// inputs of one operation, made from a seed; kind selects honest or damaged contents
Inputs make_inputs(Module *m, int op, i64 seed, i64 kind) {
  Inputs in;
  in.op = op;
  Model mod(m->p);
  for (int L = 0; L < m->lanes; L++) {
    Bytes r = drawn_bytes(mix64(seed, L), 128), pk, sk, ct;
    u8 ss[32];
    if (op == KEY) { in.rnd.insert(in.rnd.end(), r.begin(), r.begin() + 96); continue; }
    if (kind == 6)  // a public key whose seed has a zero byte early on
      for (u64 k = 0; k < 60; k++) {
        u8 sd[32];
        Bytes y = seeded(mix64(mix64(seed, L), 0x6000 + k), 32);
        std::copy(y.begin(), y.end(), r.begin());
        mod.prf(r.data(), sd, 32);
        if (std::find(sd, sd + 20, 0) != sd + 20) break;
      }
    mod.keygen(&r[0], &r[32], &r[64], pk, sk);
    if (op == ENC) {
      if (kind == 1) { Rng x(seed); x.fill(pk.data(), pk.size()); }
      if (kind == 2) std::fill(pk.begin(), pk.end(), 0xff);
      in.pk.insert(in.pk.end(), pk.begin(), pk.end());
      in.rnd.insert(in.rnd.end(), r.begin() + 96, r.end());
    } else {
      mod.enc(&r[96], pk.data(), ct, ss);
      if (kind == 1) ct[(u64)seed % ct.size()] ^= (u8)(1 << (seed & 7));
      if (kind == 2) { Rng x(seed); x.fill(ct.data(), ct.size()); }
      if (kind == 3) std::fill(ct.begin(), ct.end(), 0xff);
      if (kind == 4) { Rng x(seed); x.fill(sk.data(), sk.size()); }
      if (kind == 5) std::fill(sk.begin(), sk.end(), 0xff);
      in.sk.insert(in.sk.end(), sk.begin(), sk.end());
      in.ct.insert(in.ct.end(), ct.begin(), ct.end());
    }
  }
  return in;
}

int call_op(Module *m, int op, u8 *pk, u8 *sk, u8 *ct, u8 *ss, const Bytes &rnd) {
  RandSrc src, *old = g_rand;
  src.want = rnd.data();
  src.n = rnd.size();
  g_rand = &src;
  m->m->hooks->randombytes = sim_randombytes;
  int rc = op == KEY ? m->m->keypair(pk, sk) : op == ENC ? m->m->enc(ct, ss, pk) : m->m->dec(ss, ct, sk);
  m->m->hooks->randombytes = nullptr;
  g_rand = old;
  return rc;
}

// ======================================================================= C07

u64 heap_fill = 1;
extern "C" void dirty(void *p, size_t n) {  // what the memory from malloc contains
  Rng r(heap_fill++);
  r.fill((u8 *)p, n);
}

struct C07 : Scenario {
  std::vector<Module *> mods;
  OwnStack *st = nullptr;
  u8 *arena = nullptr;
  static const size_t ARENA = 1 << 18;
  bool setup(std::string &err) override {
    mods = load_modules("plain", err);
    st = new OwnStack(8 << 20);
    arena = (u8 *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return !mods.empty();
  }
  u64 quick_runs() override { return 12000; }
  const char *rule() override { return "distinct (implementation, operation, inputs, surroundings) executions, where surroundings are stale memory, buffer placement, clock and earlier operations on related inputs"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t k = index % mods.size();
    p.cfg["mod"] = (i64)k;
    p.cfg["op"] = (i64)(index < mods.size() * 12 ? (index / mods.size()) % 3 : r.below(3));
    p.cfg["seed"] = r.seed63();
    p.cfg["kind"] = r.chance(1, 2) ? 0 : (i64)r.below(7);
    int len = (int)r.range(2, thorough ? 30 : 9);
    if (index < mods.size() * 3) {  // a very long history: counters of 16 bits come round
      p.cfg["op"] = (i64)(index / mods.size());
      p.cfg["kind"] = 0;
      p.add("history", {quickest(mods[k]->p, mods[k]->lanes) ? 65536 + r.range(16, 64) : r.range(300, 600), r.seed63()});
      p.add("run", {r.seed63(), 0, 0, 0});
      return;
    }
    bool longrun = r.chance(1, 100);
    if (longrun) p.add("history", {r.range(200, 700), r.seed63()});
    for (int i = 0; i < len; i++) {
      u64 x = r.below(12);
      if (x < 5) p.add("run", {r.seed63(), (i64)r.below(64), (i64)r.below(4096), (i64)r.below(8)});
      else if (x < 6) p.add("near", {(i64)r.below(3), (i64)r.below(8), r.seed63(), r.seed63()});
      else if (x < 9) {
        p.add("near2", {r.chance(2, 3) ? p.cfg["op"] : (i64)r.below(3), (i64)r.below(8), r.seed63(), r.seed63(), (i64)r.below(4)});
        if (r.chance(1, 2)) p.add("run", {r.seed63(), (i64)r.below(64), (i64)r.below(4096), (i64)r.below(8)});
      } else if (x < 10) p.add("other", {(i64)r.below(3), r.seed63(), (i64)r.below(6)});
      else if (x < 11) p.add("clock", {r.seed63() - r.seed63()});
      else p.add("crash", {});
    }
    p.add("run", {r.seed63(), (i64)r.below(64), (i64)r.below(4096), (i64)r.below(8)});
  }
  Results go(Module *m, const Inputs &in, u64 fill, i64 align, size_t skew, i64 layout, Ctx &c) {
    Results out;
    sim_module *s = m->m;
    Rng r(fill);
    if (fill) { u64 *w = (u64 *)arena; for (size_t i = 0; i < ARENA / 8; i++) w[i] = mix64(fill) + i * (fill | 1); }
    else memset(arena, 0, ARENA);
    u8 *pos = arena + 64;
    // layout: order of the buffers and gaps between them
    size_t sz[4] = {s->pkbytes, s->skbytes, s->ctbytes, s->ssbytes};
    u8 *at[4];
    int order[4] = {0, 1, 2, 3};
    if (layout & 1) std::reverse(order, order + 4);
    if (layout & 2) std::swap(order[0], order[2]);
    for (int i = 0; i < 4; i++) {
      if (!(layout & 4)) pos = (u8 *)(((uintptr_t)pos + 63) & ~(uintptr_t)63) + align;  // (layout & 4): directly adjacent
      else if (i == 0) pos += align;
      at[order[i]] = pos;
      pos += sz[order[i]];
    }
    if (in.op == ENC && m->lanes == 1 && (layout & 3) == 3) at[0] = at[1] + m->p.skvec();  // the public key inside a secret key
    if (!in.pk.empty()) memcpy(at[0], in.pk.data(), in.pk.size());
    if (!in.sk.empty()) memcpy(at[1], in.sk.data(), in.sk.size());
    if (!in.ct.empty()) memcpy(at[2], in.ct.data(), in.ct.size());
    heap_fill = fill;
    s->hooks->fresh = fill ? dirty : nullptr;
    st->call([&] { out.rc = call_op(m, in.op, at[0], at[1], at[2], at[3], in.rnd); }, fill, skew, fill & 2);
    s->hooks->fresh = nullptr;
    if (in.op == KEY) { out.a.assign(at[0], at[0] + sz[0]); out.b.assign(at[1], at[1] + sz[1]); }
    if (in.op == ENC) { out.a.assign(at[2], at[2] + sz[2]); out.b.assign(at[3], at[3] + sz[3]); }
    if (in.op == DEC) out.a.assign(at[3], at[3] + sz[3]);
    c.op(opname[in.op]);
    c.tick(500);
    return out;
  }
  void execute(const Plan &p, Ctx &c) override {
    Module *m = mods[(u64)p.get("mod") % mods.size()];
    m->reset();
    g_clock = 1;
    Inputs in = make_inputs(m, (int)p.get("op"), p.get("seed"), p.get("kind"));
    Results base = go(m, in, 0, 0, 0, 0, c);
    m->reset();
    c.h(base.a);
    c.h(base.b);
    for (auto &s : p.steps) {
      if (c.failed) return;
      if (s.op == "run") {
        Results r = go(m, in, (u64)s.at(0) | 4, s.at(1), (size_t)s.at(2), s.at(3), c);
        c.fault("stale stack and buffers");
        if (s.at(1) % 16) c.fault("misaligned buffers");
        if (s.at(3) & 4) c.fault("adjacent buffers");
        c.distinct(mix64(mix64(fnv(base.a), s.at(0)), s.at(3) * 64 + s.at(1)));
        c.h(r.a);
        c.h(r.b);
        if (!(r == base))
          c.fail("depends", "%s: %s with the same inputs and random bytes gave another %s after the surroundings changed (alignment %d, layout %d)", m->id.c_str(), opname[in.op],
                 r.rc != base.rc ? "status" : r.a != base.a ? "first output" : "second output", (int)s.at(1), (int)s.at(3));
      } else if (s.op == "near") {  // an operation on almost the same inputs
        Inputs x = in;
        int op = (int)s.at(0);
        if (op != in.op) { x = make_inputs(m, op, p.get("seed"), p.get("kind")); }
        Bytes *t[] = {&x.pk, &x.sk, &x.ct, &x.rnd};
        for (int i = 0; i < 4; i++) {
          Bytes *b = t[(s.at(1) + i) % 4];
          if (b->empty()) continue;
          switch (s.at(1) / 4 + (s.at(2) & 2)) {
            case 0: (*b)[(u64)s.at(2) % b->size()] ^= (u8)(1 << (s.at(3) & 7)); break;
            case 1: { Rng r(s.at(3)); r.fill(b->data() + b->size() / 2, b->size() - b->size() / 2); break; }
            case 2: { Rng r(s.at(3)); r.fill(b->data(), std::min<size_t>(b->size(), 64)); break; }
            default: b->back() ^= 0x80; break;
          }
          break;
        }
        Results r = go(m, x, (u64)s.at(3), 0, 0, 0, c);
        c.fault("operation on nearly equal inputs before");
        c.h(r.a);
      } else if (s.op == "near2") {  // one part of one input (seed, hash, vector, ...) altered in a way that a short cut in a comparison overlooks
        Inputs x = in;
        if ((int)s.at(0) != in.op) x = make_inputs(m, (int)s.at(0), p.get("seed"), p.get("kind"));
        const Params &q = m->p;
        size_t pk = q.pkbytes(), sv = q.skvec(), lane = m->lanes > 1 ? (u64)s.at(3) % 4 : 0;
        struct Part { Bytes *b; size_t off, len; };
        std::vector<Part> parts;
        if (!x.pk.empty()) { size_t o = lane * pk; parts = {{&x.pk, o + pk - 32, 32}, {&x.pk, o, pk - 32}}; }
        if (!x.sk.empty()) {
          size_t o = lane * q.skbytes();
          parts = {{&x.sk, o + sv + pk - 32, 32}, {&x.sk, o + sv + pk, 32}, {&x.sk, o + sv + pk + 32, 32}, {&x.sk, o, sv}, {&x.sk, o + sv, pk - 32}, {&x.ct, lane * q.ctbytes(), q.ctbytes()}};
        }
        if (!x.rnd.empty()) for (size_t o = 0; o < x.rnd.size(); o += 32) parts.push_back({&x.rnd, o, 32});
        Part t = parts[(u64)s.at(1) % parts.size()];
        Bytes y(t.b->begin() + t.off, t.b->begin() + t.off + t.len);
        Rng r((u64)s.at(2));
        nearly(y, (int)s.at(4), (u64)s.at(3), r);
        std::copy(y.begin(), y.begin() + t.len, t.b->begin() + t.off);
        Results z = go(m, x, (u64)s.at(3), 0, 0, 0, c);
        c.fault("operation on nearly equal inputs before");
        c.h(z.a);
      } else if (s.op == "other") {
        Results r = go(m, make_inputs(m, (int)s.at(0), s.at(1), s.at(2)), (u64)s.at(1), 0, 0, 0, c);
        c.fault("unrelated operation before");
        c.h(r.a);
      } else if (s.op == "history") {
        Inputs x = make_inputs(m, in.op, s.at(1), 0);
        Bytes first;
        for (i64 i = 0; i < s.at(0) && !c.failed; i++) {
          const Bytes &o = call_light(m, x);
          if (i == 0) first = o;
          else if (o != first) c.fail("history", "%s: %s gives another result when it is repeated for the %lldth time with the same inputs and random bytes", m->id.c_str(), opname[x.op], (long long)i + 1);
        }
        c.h(first);
        c.op("repetition", s.at(0));
        c.fault("long history before");
      } else if (s.op == "clock") { g_clock += s.at(0); c.fault("clock jump"); }
      else if (s.op == "crash") { m->reset(); c.fault("crash and restart"); }
    }
  }
  const Bytes &call_light(Module *m, const Inputs &in) {
    sim_module *s = m->m;
    static Bytes b;
    b.assign(s->pkbytes + s->skbytes + s->ctbytes + s->ssbytes, 0);
    u8 *pk = b.data(), *sk = pk + s->pkbytes, *ct = sk + s->skbytes, *ss = ct + s->ctbytes;
    if (!in.pk.empty()) memcpy(pk, in.pk.data(), in.pk.size());
    if (!in.sk.empty()) memcpy(sk, in.sk.data(), in.sk.size());
    if (!in.ct.empty()) memcpy(ct, in.ct.data(), in.ct.size());
    call_op(m, in.op, pk, sk, ct, ss, in.rnd);
    return b;
  }
};

// ======================================================================= C08

#ifdef SIM_ASAN
std::string asan_report;
void on_asan(const char *t) {
  if (!asan_report.empty()) return;
  std::string s(t);
  size_t a = s.find("ERROR: AddressSanitizer: ");
  std::string head = a == std::string::npos ? s.substr(0, 80) : s.substr(a + 25, s.find_first_of(" \n", a + 25) - a - 25);
  // first frames that have a name, without addresses
  std::string where;
  size_t p = 0;
  for (int k = 0; k < 3; k++) {
    p = s.find(" in ", p);
    if (p == std::string::npos) break;
    p += 4;
    size_t e = s.find_first_of(" \n", p);
    where += (k ? " < " : "") + s.substr(p, e - p);
  }
  asan_report = head + " in " + where;
}
#endif

struct C08 : Scenario {
  std::vector<Module *> mods;
  bool asan;
  OwnStack *st = nullptr;
  Pages pg[4];
  explicit C08(bool a) : asan(a) {}
  bool setup(std::string &err) override {
    mods = load_modules(asan ? "asan" : "plain", err);
    if (!asan) st = new OwnStack(1 << 20);
#ifdef SIM_ASAN
    __asan_set_error_report_callback(on_asan);
#endif
    return !mods.empty();
  }
  u64 quick_runs() override { return asan ? 2500 : 12000; }
  const char *rule() override { return asan ? "same under the address sanitizer, which also watches the working storage of the operations" : "distinct (implementation, operation, inputs, placement of each buffer against inaccessible pages) executions"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    (void)thorough;
    p.cfg["mod"] = (i64)(index % mods.size());
    int len = (int)r.range(2, 8);
    for (int i = 0; i < len; i++) {
      i64 op = index < mods.size() * 3 && i == 0 ? (i64)(index / mods.size()) : (i64)r.below(3);
      p.add("run", {op, r.seed63(), (i64)r.below(6), (i64)r.below(16), r.seed63()});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    Module *m = mods[(u64)p.get("mod") % mods.size()];
    m->reset();
    sim_module *s = m->m;
    size_t sz[4] = {s->pkbytes, s->skbytes, s->ctbytes, s->ssbytes};
    for (auto &t : p.steps) {
      if (c.failed) return;
      Inputs in = make_inputs(m, (int)t.at(0), t.at(1), t.at(2));
      bool input[4] = {in.op == ENC, in.op == DEC, in.op == DEC, false}, used[4] = {in.op != DEC, in.op != ENC, in.op != KEY, in.op != KEY};
      const Bytes *src[4] = {&in.pk, &in.sk, &in.ct, nullptr};
      c.op(opname[in.op]);
      c.tick(500);
      c.distinct(mix64(mix64((u64)p.get("mod") * 4 + in.op, t.at(1)), t.at(3)));
      c.fault("buffers against inaccessible memory", 1);
      if (in.op != KEY) c.fault("inputs in read-only memory");
      if (t.at(2)) c.fault("hostile contents");
      int rc = 0;
#ifdef SIM_ASAN
      if (asan) {
        u8 *b[4];
        for (int i = 0; i < 4; i++) {
          b[i] = (u8 *)malloc(used[i] ? sz[i] : 1);
          if (input[i]) memcpy(b[i], src[i]->data(), sz[i]);
        }
        asan_report.clear();
        rc = call_op(m, in.op, b[0], b[1], b[2], b[3], in.rnd);
        for (int i = 0; i < 4; i++) {
          if (used[i]) c.h(b[i], sz[i]);
          if (input[i] && memcmp(b[i], src[i]->data(), sz[i])) c.fail("input-changed", "%s: %s changed its input", m->id.c_str(), opname[in.op]);
          free(b[i]);
        }
        if (!asan_report.empty()) c.fail("memory", "%s: %s: %s", m->id.c_str(), opname[in.op], asan_report.c_str());
        continue;
      }
#endif
      for (int i = 0; i < 4; i++) {
        pg[i].make(used[i] ? sz[i] : 1, (t.at(3) >> i) & 1, (u64)t.at(4) + i);
        if (input[i]) { memcpy(pg[i].buf, src[i]->data(), sz[i]); pg[i].readonly(); }
      }
      int sig = guarded([&] { st->call([&] { rc = call_op(m, in.op, pg[0].buf, pg[1].buf, pg[2].buf, pg[3].buf, in.rnd); }, (u64)t.at(4) | 1, 0, false); });
      if (sig) {
        s->hooks->randombytes = nullptr;
        g_rand = nullptr;
        c.fail("memory", "%s: %s %s (pk at the %s, sk at the %s, ct at the %s, ss at the %s of its memory)", m->id.c_str(), opname[in.op],
               sig == -1 ? "never returned" : "accessed memory outside its buffers or wrote to an input", pg[0].at_end ? "end" : "start", pg[1].at_end ? "end" : "start",
               pg[2].at_end ? "end" : "start", pg[3].at_end ? "end" : "start");
        return;
      }
      for (int i = 0; i < 4; i++) {
        if (!pg[i].intact()) c.fail("overrun", "%s: %s wrote next to its buffers", m->id.c_str(), opname[in.op]);
        if (used[i]) c.h(pg[i].buf, sz[i]);
      }
      (void)rc;
    }
  }
};

Register r7("C07", [] () -> Scenario * { return new C07; });
Register r8("C08", [] () -> Scenario * { return new C08(false); });
#ifdef SIM_ASAN
Register r8a("C08a", [] () -> Scenario * { return new C08(true); });
#endif
}  // namespace
