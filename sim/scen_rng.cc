// C10 generator history, C11 seed expander streams, C12 use of randomness by the key exchange.
#include <openssl/evp.h>
#include <setjmp.h>

#include <algorithm>

#include "scen.h"

namespace {

void chosen_entropy(const u8 K[32], const u8 V[16], u8 out[48]) {  // seed material after which the generator is in state (K, V)
  u8 zero[32] = {0}, t[48];
  for (int i = 0; i < 3; i++) {
    u8 c[16] = {0};
    c[15] = (u8)(i + 1);
    aes256_block(zero, c, t + 16 * i);
  }
  for (int i = 0; i < 32; i++) out[i] = t[i] ^ K[i];
  for (int i = 0; i < 16; i++) out[32 + i] = t[32 + i] ^ V[i];
}

i64 size_choice(Rng &r, bool big) {
  switch (r.below(8)) {
    case 0: return r.range(0, 3);
    case 1: return 16 * r.range(1, 20) + r.range(-1, 1);
    case 2: return 32;
    case 3: return 48;
    case 4: return r.range(1, 64);
    case 5: return r.range(1, 2000);
    case 6: return big && r.chance(1, 20) ? r.range(4096, 70000) : r.range(16, 5000);
    default: return 1 << r.range(0, 12);
  }
}

struct RngScen : Scenario {
  std::vector<Module *> mods;
  bool setup(std::string &err) override {
    mods = load_modules("plain", err);
    return !mods.empty();
  }
};

// ======================================================================= C10

struct C10 : RngScen {
  u64 quick_runs() override { return 16000; }
  const char *rule() override { return "distinct (generator copy, key, counter before the request, request size) states; counters are also placed so that 1..16 bytes carry"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    p.cfg["mod"] = (i64)(index % mods.size());
    if (index >= 2 * mods.size() && index < 3 * mods.size()) {  // very long requests
      p.add("init", {r.seed63(), 0, 0, 0});
      for (int b = 12; b <= (r.chance(1, 2) ? 24 : 20); b += 4) {
        p.add("gen", {(1 << b) - r.range(0, 20), r.range(0, 15)});
        p.add("gen", {(1 << b) + r.range(1, 60), r.range(0, 15)});
      }
      p.add("gen", {r.range(65536, 1 << 21), r.range(0, 15)});
      p.add("gen", {64});
      return;
    }
    if (index < 2 * mods.size()) {  // a very long history of requests
      p.add("init", {r.seed63(), 0, 0, 0});
      p.add("many", {65536 + r.range(10, 90), index < mods.size() ? 1 : r.range(17, 40)});
      p.add("gen", {64});
      return;
    }
    int len = (int)r.range(3, thorough ? 80 : 24);
    p.add("init", {r.seed63(), 0, 0, 0});
    for (int i = 0; i < len; i++) {
      u64 x = r.below(20);
      if (x < 3) p.add("init", {r.seed63(), (i64)r.below(2), (i64)r.below(r.chance(1, 3) ? 9 : 1), r.chance(1, 4) ? r.range(0, 512) : 256});
      else if (x < 8) {
        i64 n = size_choice(r, thorough);
        p.add("place", {r.seed63(), (i64)r.below(17), (i64)r.below(n / 16 + 6), (i64)r.below(2)});  // ..ff ff minus k
        p.add("gen", {n, r.chance(1, 3) ? r.range(0, 15) : 0});
        i++;
      } else if (x < 17) p.add("gen", {size_choice(r, true), r.chance(1, 3) ? r.range(0, 15) : 0});
      else if (x < 18) p.add("xof", {r.seed63(), r.range(0, 300)});
      else if (x < 19) p.add("kem", {r.seed63(), (i64)r.below(3)});
      else p.add("crash", {r.seed63()});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    Module *m = mods[(u64)p.get("mod") % mods.size()];
    m->reset();
    m->m->hooks->randombytes = nullptr;
    DrbgModel d;
    bool seeded_ = false;
    auto init = [&](const u8 *ent, const u8 *pers, int strength = 256) {
      u8 e[48], q[48];
      memcpy(e, ent, 48);
      if (pers) memcpy(q, pers, 48);
      m->m->randombytes_init(e, pers ? q : nullptr, strength);
      if (memcmp(e, ent, 48) || (pers && memcmp(q, pers, 48))) c.fail("seed-changed", "%s: seeding changes the %s it is given", m->id.c_str(), memcmp(e, ent, 48) ? "entropy" : "personalisation string");
      d.init(ent, pers);
      seeded_ = true;
      c.op("seeding");
    };
    Bytes pk(m->m->pkbytes), sk(m->m->skbytes), ct(m->m->ctbytes), ss(m->m->ssbytes);
    bool have = false;
    for (auto &s : p.steps) {
      if (c.failed) return;
      if (s.op == "init") {
        Bytes e = seeded(s.at(0), 48), q = seeded(s.at(0) + 1, 48);
        auto special = [](Bytes &x, i64 how) {  // 1..4 the first string, 5..8 the second
          if (how == 1) std::fill(x.begin(), x.end(), 0);
          if (how == 2) std::fill(x.begin(), x.end(), 0xff);
          if (how == 3) std::fill(x.begin() + 1, x.end(), 0);
          if (how == 4) std::fill(x.begin(), x.end() - 1, x[0]);
        };
        special(e, s.at(2));
        special(q, s.at(2) - 4);
        init(e.data(), s.at(1) ? q.data() : nullptr, s.at(3) ? (int)s.at(3) : 256);
      } else if (s.op == "xof") {
        if (!m->m->seedexpander_init) continue;
        Bytes x(m->m->xofsize + 64), key = seeded(s.at(0), 32), div = seeded(s.at(0) + 1, 8), o((size_t)s.at(1) + 1);
        m->m->seedexpander_init(x.data() + 32, key.data(), div.data(), 100000);
        m->m->seedexpander(x.data() + 32, o.data(), (unsigned long)s.at(1));
        c.op("seed expander used in between");
      } else if (s.op == "place") {
        Bytes K = seeded(s.at(0), 32), V = seeded(s.at(0) + 1, 16), q = seeded(s.at(0) + 2, 48);
        for (int i = 0; i < s.at(1) && i < 16; i++) V[15 - i] = 0xff;
        i64 k = s.at(2);  // go back k blocks
        for (int i = 15; i >= 0 && k; i--) { i64 v = (i64)V[i] - (k & 255); k >>= 8; if (v < 0) { v += 256; k++; } V[i] = (u8)v; }
        u8 e[48];
        chosen_entropy(K.data(), V.data(), e);
        if (s.at(3)) for (int i = 0; i < 48; i++) e[i] ^= q[i];
        init(e, s.at(3) ? q.data() : nullptr);
        c.fault("counter placed before a carry");
      } else if (s.op == "crash") {
        m->reset();
        Bytes e = seeded(s.at(0), 48);
        init(e.data(), nullptr);
        c.fault("crash, restart and reseeding");
      } else if (!seeded_) continue;
      else if (s.op == "many") {
        size_t n = (size_t)s.at(1);
        Bytes got(n), want(n);
        for (i64 i = 0; i < s.at(0) && !c.failed; i++) {
          int rc = m->m->randombytes(got.data(), n);
          d.gen(want.data(), n);
          if (rc || got != want) c.fail("stream", "%s: request number %lld since the seeding, of %zu bytes, differs from SP 800-90A", m->id.c_str(), (long long)i + 1, n);
        }
        c.h(got);
        c.op("request", s.at(0));
        c.tick(s.at(0) * (n / 16 + 3));
        c.probe("more than 65536 requests");
      } else if (s.op == "gen") {
        size_t n = (size_t)s.at(0);
        size_t off = (size_t)s.at(1) & 15;
        Bytes room(n + 48, 0xa5), got, want(n);
        c.distinct(mix64(mix64(fnv(d.K, 32), fnv(d.V, 16)), n));
        int rc = m->m->randombytes(room.data() + 16 + off, n);
        got.assign(room.begin() + (long)off, room.begin() + (long)(off + n + 32));
        d.gen(want.data(), n);
        c.op("request");
        c.h(got);
        c.tick(n / 16 + 3);
        if (rc) return c.fail("status", "%s: a request of %zu bytes returned %d", m->id.c_str(), n, rc);
        for (size_t i = 0; i < 16; i++) if (got[i] != 0xa5 || got[n + 16 + i] != 0xa5) return c.fail("overrun", "%s: a request of %zu bytes wrote outside its buffer", m->id.c_str(), n);
        if (n && memcmp(got.data() + 16, want.data(), n)) {
          size_t i = 0;
          while (got[16 + i] == want[i]) i++;
          return c.fail("stream", "%s: request of %zu bytes differs from SP 800-90A from byte %zu on", m->id.c_str(), n, i);
        }
      } else if (s.op == "kem") {
        if (s.at(1) && !have) continue;
        if (s.at(1) == 0) m->m->keypair(pk.data(), sk.data()), have = true;
        else if (s.at(1) == 1) m->m->enc(ct.data(), ss.data(), pk.data());
        else m->m->dec(ss.data(), ct.data(), sk.data());
        u8 t[32];
        int draws = s.at(1) == 0 ? 3 * m->lanes : s.at(1) == 1 ? m->lanes : 0;
        for (int i = 0; i < draws; i++) d.gen(t, 32);
        c.op("key exchange operation drawing from the generator");
      }
    }
  }
};

// ======================================================================= C11

struct XofModel {
  u8 key[32];
  u8 ctr[16];
  u64 pos = 0, left = 0;
  bool live = false;
  void bytes(u8 *out, size_t n) const {  // the next n bytes of the stream
    u64 first = pos / 16, last = (pos + n + 15) / 16;
    Bytes in((last - first) * 16), o((last - first) * 16 + 32);
    for (u64 b = first; b < last; b++) {
      u8 *x = &in[(b - first) * 16];
      memcpy(x, ctr, 12);
      x[12] = (u8)(b >> 24); x[13] = (u8)(b >> 16); x[14] = (u8)(b >> 8); x[15] = (u8)b;
    }
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new();
    int l = 0;
    EVP_EncryptInit_ex(e, EVP_aes_256_ecb(), nullptr, key, nullptr);
    EVP_CIPHER_CTX_set_padding(e, 0);
    if (!in.empty()) EVP_EncryptUpdate(e, o.data(), &l, in.data(), (int)in.size());
    EVP_CIPHER_CTX_free(e);
    if (n) memcpy(out, o.data() + pos % 16, n);
  }
};

struct C11 : RngScen {
  std::vector<size_t> long_runs;
  u64 quick_runs() override { return 16000; }
  const char *rule() override { return "distinct (copy, seed, diversifier, maximum, offset, request) situations, including refused ones; some streams run across 2^16 and 2^24 blocks"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    p.cfg["mod"] = (i64)(index % mods.size());
    if (index < mods.size()) {  // one stream over the carry into the highest counter byte for every copy of the generator
      p.add("init", {0, r.seed63(), 0xfffffff0ll});
      p.add("skip", {0, 268435456 - 4096, 1 << 20});
      for (int i = 0; i < 8; i++) p.add("req", {0, r.range(1, 2000)});
      return;
    }
    if (index < 2 * mods.size()) {
      p.add("init", {0, r.seed63(), 0xffffffll + r.range(0, 1 << 20)});
      p.add("skip", {0, 70000, 1, 1});
      p.add("skip", {0, 9 * 8000, 9, 1});
      return;
    }
    int len = (int)r.range(5, thorough ? 120 : 40);
    if (r.chance(1, 40)) {
      p.add("init", {0, r.seed63(), r.range(1200000, 0xffffffffll)});
      p.add("skip", {0, 1048576 - r.range(0, 4000), r.range(1, 70000)});
      for (int i = 0; i < 6; i++) p.add("req", {0, r.range(1, 2000)});
    }
    for (int i = 0; i < 4; i++) p.add("init", {i, r.seed63(), maxlen(r)});
    for (int i = 0; i < len; i++) {
      u64 x = r.below(30);
      i64 k = (i64)r.below(4);
      if (x < 18) p.add("req", {k, size_choice(r, false)});
      else if (x < 20) p.add("rest", {k, r.range(-2, 3)});
      else if (x < 21) p.add("null", {k, r.range(0, 100)});
      else if (x < 23) p.add("badinit", {k, r.seed63(), 0x100000000ll + (r.chance(1, 2) ? 0 : r.seed63() >> 1)});
      else if (x < 25) p.add("init", {k, r.seed63(), maxlen(r)});
      else if (x < 26) p.add("save", {k});
      else if (x < 27) p.add("load", {k});
      else if (x < 28) p.add("drbg", {r.range(1, 100)});
      else if (x < 29) p.add("same", {k, (k + 1) % 4});
      else p.add("crash", {});
    }
  }
  static i64 maxlen(Rng &r) {
    switch (r.below(6)) {
      case 0: return r.range(0, 40);
      case 1: return r.range(1, 5000);
      case 2: return 0xffffffffll;
      case 3: return 0xffffffffll - r.range(0, 3);
      case 4: return 1ll << r.range(0, 31);
      default: return r.range(0, 0xffffffffll);
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    Module *m = mods[(u64)p.get("mod") % mods.size()];
    m->reset();
    size_t xs = m->m->xofsize;
    std::vector<Bytes> ctx(4, Bytes(xs + 64, 0x5a)), saved(4);
    XofModel mod[4], smod[4];
    auto X = [&](int k) { return (void *)(ctx[k].data() + 32); };
    auto init = [&](int k, i64 seed, u64 maxlen) {
      Bytes key = seeded(seed, 32), div = seeded(seed + 1, 8);
      if (seed & 64) { if (seed & 128) std::fill(key.begin() + (seed & 256 ? 1 : 0), key.end(), seed & 512 ? 0xff : 0); else std::fill(div.begin() + (seed & 256 ? 1 : 0), div.end(), seed & 512 ? 0xff : 0); }
      Bytes key0 = key, div0 = div;
      int rc = m->m->seedexpander_init(X(k), key.data(), div.data(), (unsigned long)maxlen);
      c.op("stream initialised");
      if (key != key0 || div != div0) return c.fail("seed-changed", "%s: initialisation changes the seed or diversifier it is given", m->id.c_str());
      if (maxlen >= 0x100000000ull) {
        c.fault("initialisation with a maximum that is too large");
        if (rc != -1) c.fail("init-status", "%s: a maximum of %llu bytes was answered with %d instead of RNG_BAD_MAXLEN", m->id.c_str(), (unsigned long long)maxlen, rc);
        return;
      }
      if (rc) return c.fail("init-status", "%s: initialisation with a maximum of %llu returned %d", m->id.c_str(), (unsigned long long)maxlen, rc);
      XofModel &x = mod[k];
      memcpy(x.key, key.data(), 32);
      memcpy(x.ctr, div.data(), 8);
      for (int i = 0; i < 4; i++) x.ctr[8 + i] = (u8)(maxlen >> (24 - 8 * i));
      x.pos = 0;
      x.left = maxlen;
      x.live = true;
    };
    auto req = [&](int k, u64 n, bool check) {
      XofModel &x = mod[k];
      if (!x.live) return;
      u64 cap = std::min<u64>(n, 1 << 21);
      if (n > cap && n < x.left) return;  // a request of this size would be granted: not with this buffer
      size_t off = (n + x.pos) % 7 == 3 ? (size_t)(x.pos + n / 7) & 15 : 0;
      Bytes room(cap + 48, 0xa5), got, want(cap);
      int rc = m->m->seedexpander(X(k), room.data() + 16 + off, (unsigned long)n);
      got.assign(room.begin() + (long)off, room.begin() + (long)(off + cap + 32));
      c.op("request");
      c.h((u64)rc);
      c.tick(n / 16 + 1);
      c.distinct(mix64(mix64(fnv(x.ctr, 12), x.pos), n));
      bool refused = rc != 0;
      if (n > x.left || (n == x.left && refused)) {
        c.fault("request beyond the maximum");
        if (!refused) return c.fail("unbounded", "%s: %llu bytes were handed out with %llu left of the maximum", m->id.c_str(), (unsigned long long)n, (unsigned long long)x.left);
        if (rc != -3) return c.fail("status", "%s: an excessive request was answered with %d instead of RNG_BAD_REQ_LEN", m->id.c_str(), rc);
        for (u8 b : got) if (b != 0xa5) return c.fail("refused-output", "%s: a refused request wrote to the output", m->id.c_str());
        return;
      }
      if (refused) return c.fail("status", "%s: a request of %llu bytes with %llu left returned %d", m->id.c_str(), (unsigned long long)n, (unsigned long long)x.left, rc);
      for (int i = 0; i < 16; i++) if (got[i] != 0xa5 || got[cap + 16 + i] != 0xa5) return c.fail("overrun", "%s: a request of %llu bytes wrote outside its buffer", m->id.c_str(), (unsigned long long)n);
      if (check) {
        x.bytes(want.data(), n);
        c.h(got);
        if (n && memcmp(got.data() + 16, want.data(), n))
          return c.fail("stream", "%s: request of %llu bytes at offset %llu differs from the stream of its seed", m->id.c_str(), (unsigned long long)n, (unsigned long long)x.pos);
      }
      x.pos += n;
      x.left -= n;
    };
    for (auto &s : p.steps) {
      if (c.failed) return;
      int k = (int)((u64)s.at(0) % 4);
      if (s.op == "init" || s.op == "badinit") init(k, s.at(1), (u64)s.at(2));
      else if (s.op == "same") { if (mod[k].live) { ctx[(int)s.at(1) % 4] = ctx[k]; mod[(int)s.at(1) % 4] = mod[k]; c.probe("stream copied"); } }
      else if (s.op == "req") req(k, (u64)s.at(1), true);
      else if (s.op == "rest") req(k, (u64)std::max<i64>(0, (i64)mod[k].left + s.at(1)), true);
      else if (s.op == "skip") { for (i64 n = s.at(1); n > 0 && !c.failed; n -= std::min(n, s.at(2))) req(k, (u64)std::min(n, s.at(2)), n <= 3 * s.at(2) || s.at(3)); c.probe("long stream"); }
      else if (s.op == "null") {
        if (!mod[k].live) continue;
        int rc = m->m->seedexpander(X(k), nullptr, (unsigned long)s.at(1));
        c.fault("request without an output buffer");
        bool over = (u64)s.at(1) >= mod[k].left;
        if (rc != -2 && !(over && rc == -3)) c.fail("status", "%s: a request without a buffer was answered with %d instead of RNG_BAD_OUTBUF", m->id.c_str(), rc);
      } else if (s.op == "save") { saved[k] = ctx[k]; smod[k] = mod[k]; }
      else if (s.op == "load") { if (!saved[k].empty()) { ctx[k] = saved[k]; mod[k] = smod[k]; c.fault("stream rolled back to a checkpoint"); } }
      else if (s.op == "drbg") { Bytes t(s.at(0)); m->m->randombytes(t.data(), t.size()); c.op("generator used in between"); }
      else if (s.op == "crash") { m->reset(); c.fault("crash and restart with the stored stream state"); }
      for (auto &x : ctx) for (int i = 0; i < 32; i++) if (x[i] != 0x5a || x[xs + 32 + i] != 0x5a) return c.fail("overrun", "%s: bytes next to the stream state were overwritten", m->id.c_str());
    }
  }
};

// ======================================================================= C12

sigjmp_buf kill_jmp;
int kill_at = -1, draw_no = 0;
bool kill_before = false;
extern "C" int killing_randombytes(u8 *x, unsigned long long n) {
  bool hit = draw_no++ == kill_at;
  if (hit && kill_before) siglongjmp(kill_jmp, 1);
  sim_randombytes(x, n);
  if (hit) siglongjmp(kill_jmp, 1);
  return 0;
}

struct C12 : Scenario {
  std::vector<Impl *> impls;
  bool setup(std::string &err) override { impls = load_impls(true, err); return !impls.empty() && err.empty(); }
  u64 bits() { return impls.size() * 32; }  // runs that flip every drawn bit of both operations: 32 x (24 + 8) bits
  u64 quick_runs() override { return bits() + 6000; }
  const char *rule() override { return "distinct (implementation, operation, random stream) executions; every drawn bit of both operations is flipped once per implementation"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t im = index < bits() ? index % impls.size() : r.below(impls.size());
    bool em = impls[im]->emulated;
    p.cfg["impl"] = (i64)im;
    if (index < bits()) {
      i64 part = (i64)(index / impls.size());
      p.add("key", {r.seed63()});
      if (em) {  // two of the bits of this part
        p.add("flipkey", {r.seed63(), part * 24 + (i64)r.below(24), 1});
        p.add("flipenc", {r.seed63(), part * 8 + (i64)r.below(8), 1});
      } else {
        p.add("flipkey", {r.seed63(), part * 24, 24});
        p.add("flipenc", {r.seed63(), part * 8, 8});
      }
      return;
    }
    if (index < bits() + impls.size()) {  // counters come round
      im = index - bits();
      p.cfg["impl"] = (i64)im;
      p.add("key", {r.seed63()});
      bool m0 = impls[im]->p.rev == 1;
      p.add("flood", {r.seed63(), m0 ? 2 : impls[im]->emulated ? quickest(impls[im]->p, 1) ? r.range(258, 264) : 8 : !quickest(impls[im]->p, impls[im]->lanes) ? r.range(258, 264) : 65536 + r.range(16, 64)});
      return;
    }
    bool longrun = !em && r.chance(1, 60);
    int len = longrun ? (int)r.range(300, 1200) : em ? (int)r.range(3, 8) : (int)r.range(5, thorough ? 80 : 30);
    p.add("key", {r.seed63()});
    for (int i = 0; i < len; i++) {
      u64 x = r.below(16);
      if (x < 4) p.add("key", {r.seed63()});
      else if (x < 8) p.add("enc", {r.seed63()});
      else if (x < 11) p.add("dec", {r.seed63(), (i64)r.below(2)});
      else if (x < 13 && !em) p.add("kill", {r.seed63(), (i64)r.below(2), (i64)r.below(4), (i64)r.below(2)});
      else if (x < 14) p.add("same", {r.seed63()});
      else if (x < 15) p.add("crash", {});
      else p.add("low", {(i64)r.below(6), (i64)r.below(2), r.seed63()});
    }
  }
  static bool contains(const Bytes &hay, const u8 *needle, size_t n) {
    return std::search(hay.begin(), hay.end(), needle, needle + n) != hay.end();
  }
  void execute(const Plan &p, Ctx &c) override {
    Impl *im = impls[(u64)p.get("impl") % impls.size()];
    HostImpl *hi = dynamic_cast<HostImpl *>(im);
    im->reset();
    Bytes pk, sk, ct, ss, img;
    u64 ops = 0;
    auto mk = [&](i64 seed, size_t n) {
      OpEnv e;
      e.seed = mix64(ops++, 0xc12);
      e.rnd = seeded(seed, n);
      e.lane = im->lanes > 1 ? (int)(mix64(seed, 9) % im->lanes) : 0;
      return e;
    };
    auto amount = [&](const OpEnv &e, size_t want, const char *what) {
      size_t tot = want * im->lanes;
      if (e.total_drawn != tot) c.fail("amount", "%s: %s drew %zu random bytes instead of %zu", im->id.c_str(), what, e.total_drawn, tot);
      else for (size_t n : e.sizes) if (n != 32) { c.fail("amount", "%s: %s drew %zu bytes at once instead of 32", im->id.c_str(), what, n); break; }
    };
    auto raw = [&](const Bytes &out, const OpEnv &e, const char *what) {
      for (size_t i = 0; i + 8 <= e.rnd.size(); i++) {
        bool zero = true;  // degenerate streams repeat legitimately
        for (int j = 1; j < 8; j++) zero &= e.rnd[i + j] == e.rnd[i];
        if (!zero && contains(out, &e.rnd[i], 8)) return c.fail("raw", "%s: %s contains bytes %zu.. of the random stream as drawn", im->id.c_str(), what, i);
      }
    };
    auto fresh = [&](const std::function<void()> &f) {  // the same operation in a process without history
      im->save(img);
      im->reset();
      f();
      im->restore(img);
    };
    auto do_key = [&](OpEnv e, bool degenerate) {
      OpEnv e2 = e;
      Bytes p2, s2;
      int rc = im->keypair(pk, sk, e);
      c.op("keypair");
      c.tick(400);
      c.h(pk);
      c.h(sk);
      c.distinct(mix64(fnv(pk), (u64)p.get("impl")));
      if (rc) return c.fail("status", "%s: key generation returned %d", im->id.c_str(), rc);
      amount(e, 96, "key generation");
      if (!degenerate) {
        raw(pk, e, "the public key");
        raw(Bytes(sk.begin(), sk.end() - 32), e, "the secret key outside its rejection value");
      }
      if (hi) fresh([&] { im->keypair(p2, s2, e2); });
      if (hi && !c.failed && (p2 != pk || s2 != sk)) c.fail("history", "%s: key generation after this history differs from one in a fresh process with the same random bytes", im->id.c_str());
    };
    auto do_enc = [&](OpEnv e, bool degenerate) {
      if (pk.empty()) return;
      OpEnv e2 = e;
      Bytes c2, k2;
      int rc = im->enc(ct, ss, pk, e);
      c.op("encapsulate");
      c.tick(500);
      c.h(ct);
      c.h(ss);
      c.distinct(mix64(fnv(ct), (u64)p.get("impl")));
      if (rc) return c.fail("status", "%s: encapsulation returned %d", im->id.c_str(), rc);
      amount(e, 32, "encapsulation");
      if (!degenerate) {
        raw(ct, e, "the ciphertext");
        raw(ss, e, "the shared secret");
      }
      if (hi) fresh([&] { im->enc(c2, k2, pk, e2); });
      if (hi && !c.failed && (c2 != ct || k2 != ss)) c.fail("history", "%s: encapsulation after this history differs from one in a fresh process with the same random bytes", im->id.c_str());
    };
    for (auto &s : p.steps) {
      if (c.failed) return;
      if (s.op == "crash") { im->reset(); c.fault("crash and restart"); }
      else if (s.op == "key") do_key(mk(s.at(0), 96), false);
      else if (s.op == "enc") do_enc(mk(s.at(0), 32), false);
      else if (s.op == "flood") {  // many encapsulations in turn with few different random values, keys in between
        if (pk.empty()) continue;
        OpEnv e[3];
        Bytes wc[3], wk[3], p2, s2;
        for (int k = 0; k < 3; k++) e[k] = mk(mix64(s.at(0), k), 32);
        for (i64 n = 0; n < s.at(1) && !c.failed; n++) {
          int k = (int)(n % 3);
          OpEnv x = e[k];
          im->enc(ct, ss, pk, x);
          c.tick(500);
          if (n < 3) { wc[k] = ct; wk[k] = ss; }
          if (ct != wc[k] || ss != wk[k]) c.fail("history", "%s: encapsulation %lld of one process does not depend on the bytes it drew as the earlier ones did", im->id.c_str(), (long long)n + 1);
          else amount(x, 32, "encapsulation after a long history");
          if (n % 64 == 9) {
            OpEnv g = mk(mix64(s.at(0), n), 96);
            im->keypair(p2, s2, g);
            amount(g, 96, "key generation after a long history");
          }
        }
        for (int i = 0; i < 2 && !c.failed; i++) if (wc[i] == wc[i + 1]) c.fail("history", "%s: different random bytes give equal ciphertexts", im->id.c_str());
        c.op("encapsulate", s.at(1));
        c.h(ct);
        c.fault("long history before");
      } else if (s.op == "same") { do_enc(mk(s.at(0), 32), false); if (!c.failed) do_enc(mk(s.at(0), 32), false); c.fault("generator returned the same bytes twice"); }
      else if (s.op == "low") {
        OpEnv e = mk(s.at(2), s.at(1) ? 96 : 32);
        for (auto &b : e.rnd) b = s.at(0) == 0 ? 0 : s.at(0) == 1 ? 0xff : s.at(0) == 2 ? 0x80 : s.at(0) == 3 ? b & 1 : s.at(0) == 4 ? b | 0xf0 : b;
        c.fault("degenerate random bytes");
        if (s.at(1)) do_key(e, true); else do_enc(e, true);
      } else if (s.op == "dec") {
        if (ct.empty() || pk.empty()) continue;
        OpEnv e = mk(s.at(0), 32);
        Bytes k, x = ct;
        if (s.at(1)) x[(u64)s.at(0) % x.size()] ^= 1;
        im->dec(k, x, sk, e);
        c.op("decapsulate");
        c.h(k);
        if (e.total_drawn) c.fail("amount", "%s: decapsulation drew %zu random bytes", im->id.c_str(), e.total_drawn);
      } else if (s.op == "kill") {
        if (!hi || (!s.at(1) && pk.empty())) continue;
        sim_module *m = hi->mod->m;
        Bytes P(m->pkbytes), S(m->skbytes), C(m->ctbytes), K(m->ssbytes), stream = seeded(s.at(0), 96 * im->lanes);
        if (!pk.empty()) for (int L = 0; L < im->lanes; L++) memcpy(&P[L * pk.size()], pk.data(), pk.size());
        RandSrc src;
        src.want = stream.data();
        src.n = stream.size();
        g_rand = &src;
        draw_no = 0;
        kill_at = (int)s.at(2) % ((s.at(1) ? 3 : 1) * im->lanes);
        kill_before = s.at(3);
        m->hooks->randombytes = killing_randombytes;
        if (sigsetjmp(kill_jmp, 0) == 0) {
          if (s.at(1)) m->keypair(P.data(), S.data());
          else m->enc(C.data(), K.data(), P.data());
        } else c.fault("operation abandoned while drawing randomness");
        m->hooks->randombytes = nullptr;
        g_rand = nullptr;
      } else if (s.op == "flipkey") {
        Bytes p0, s0;
        size_t v = im->p.skvec();
        OpEnv e0 = mk(s.at(0), 96);
        e0.seed = 1;
        OpEnv base = e0;
        im->keypair(p0, s0, e0);
        for (i64 b = s.at(1); b < s.at(1) + s.at(2) && b < 768 && !c.failed; b++) {
          OpEnv e = base;
          e.rnd[b / 8] ^= (u8)(1 << (b & 7));
          Bytes p1, s1;
          im->keypair(p1, s1, e);
          c.op("keypair");
          c.fault("one drawn bit flipped");
          c.h(s1);
          c.distinct(mix64(fnv(s1), (u64)p.get("impl")));
          bool seed = memcmp(&p0[p0.size() - 32], &p1[p1.size() - 32], 32), vec = memcmp(s0.data(), s1.data(), v), z = memcmp(&s0[s0.size() - 32], &s1[s1.size() - 32], 32);
          bool ok = b < 256 ? seed && !vec && !z : b < 512 ? !seed && vec && !z : !seed && !vec && z;
          if (!ok) c.fail("unused-bit", "%s: flipping bit %d of the bytes drawn by key generation changed: matrix seed %d, secret %d, rejection value %d", im->id.c_str(), (int)b, seed, vec, z);
        }
      } else if (s.op == "flipenc") {
        if (pk.empty()) continue;
        Bytes c0, k0;
        OpEnv e0 = mk(s.at(0), 32);
        e0.seed = 1;
        OpEnv base = e0;
        im->enc(c0, k0, pk, e0);
        for (i64 b = s.at(1); b < s.at(1) + s.at(2) && b < 256 && !c.failed; b++) {
          OpEnv e = base;
          e.rnd[b / 8] ^= (u8)(1 << (b & 7));
          Bytes c1, k1;
          im->enc(c1, k1, pk, e);
          c.op("encapsulate");
          c.fault("one drawn bit flipped");
          c.h(k1);
          c.distinct(mix64(fnv(c1), (u64)p.get("impl")));
          if (c1 == c0 || k1 == k0) c.fail("unused-bit", "%s: flipping bit %d of the bytes drawn by encapsulation left the %s unchanged", im->id.c_str(), (int)b, c1 == c0 ? "ciphertext" : "shared secret");
        }
      }
    }
  }
};

Register r10("C10", [] () -> Scenario * { return new C10; });
Register r11("C11", [] () -> Scenario * { return new C11; });
Register r12("C12", [] () -> Scenario * { return new C12; });
}  // namespace
