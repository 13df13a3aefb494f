// C20: the hash, extendable-output and keystream functions, on the host and on the Cortex-M0.
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <setjmp.h>

#include <algorithm>

#include "m0.h"
#include "pages.h"
#include "protos.h"
#include "scen.h"
#include "stack.h"

namespace {

// ---- what the functions are to compute

void keccakp(u64 A[25], int rounds = 24) {  // FIPS 202, section 3, literally
  static u64 rc[24];
  static int rot[25];
  if (!rc[0]) {
    u8 R = 1;
    for (int i = 0; i < 24; i++)
      for (int j = 0; j <= 6; j++) {
        if (R & 1) rc[i] |= 1ull << ((1 << j) - 1);
        R = (u8)(R << 1 ^ (R & 0x80 ? 0x71 : 0));
      }
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) { rot[x + 5 * y] = (t + 1) * (t + 2) / 2 % 64; int n = (2 * x + 3 * y) % 5; x = y; y = n; }
  }
  auto rl = [](u64 v, int k) { return k ? v << k | v >> (64 - k) : v; };
  for (int i = 24 - rounds; i < 24; i++) {
    u64 C[5], B[25];
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int k = 0; k < 25; k++) A[k] ^= C[(k % 5 + 4) % 5] ^ rl(C[(k % 5 + 1) % 5], 1);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rl(A[x + 5 * y], rot[x + 5 * y]);
    for (int k = 0; k < 25; k++) A[k] = B[k] ^ (~B[k / 5 * 5 + (k + 1) % 5] & B[k / 5 * 5 + (k + 2) % 5]);
    A[0] ^= rc[i];
  }
}
void add_bytes(u64 *s, const u8 *d, size_t off, size_t n) { for (size_t i = 0; i < n; i++) s[(off + i) / 8] ^= (u64)d[i] << 8 * ((off + i) % 8); }
u8 byte_of(const u64 *s, size_t i) { return (u8)(s[i / 8] >> 8 * (i % 8)); }
// the state before the permutation that precedes the first block of output
void absorb(u64 *s, size_t rate, const u8 *m, size_t n, u8 ds) {
  for (; n >= rate; n -= rate, m += rate) { add_bytes(s, m, 0, rate); keccakp(s); }
  add_bytes(s, m, 0, n);
  u8 e = 0x80;
  add_bytes(s, &ds, n, 1);
  add_bytes(s, &e, rate - 1, 1);
}
void squeeze(u64 *s, size_t rate, u8 *out, size_t n) {
  for (size_t i = 0; i < n; i++) { if (i % rate == 0) keccakp(s); out[i] = byte_of(s, i % rate); }
}
void custom(u64 *s, size_t rate, u16 c) {  // cSHAKE with an empty name and a two-byte customisation, one block
  u8 p[8] = {1, (u8)rate, 1, 0, 1, 16, (u8)c, (u8)(c >> 8)};
  add_bytes(s, p, 0, 8);
  keccakp(s);
}
Bytes sponge(size_t rate, u8 ds, const Bytes &m, size_t n, int cstm = -1) {
  u64 s[25] = {0};
  Bytes o(n);
  if (cstm >= 0) custom(s, rate, (u16)cstm);
  absorb(s, rate, m.data(), m.size(), ds);
  squeeze(s, rate, o.data(), n);
  return o;
}
Bytes keystream(const u8 *key, const u8 iv[16], u64 from, size_t n, bool wide) {  // counter: the last 4 bytes, or all 16
  Bytes in((n + 15) / 16 * 16), o(in.size() + 32);
  u8 c[16];
  memcpy(c, iv, 16);
  auto step = [&](u64 by) { unsigned carry = 0; for (int i = 15; i >= (wide ? 0 : 12); i--) { unsigned v = c[i] + (unsigned)(by & 0xff) + carry; by >>= 8; c[i] = (u8)v; carry = v >> 8; } };
  step(from);
  for (size_t i = 0; i < in.size(); i += 16) { memcpy(&in[i], c, 16); step(1); }
  EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
  int k = 0;
  EVP_EncryptInit_ex(x, EVP_aes_256_ecb(), nullptr, key, nullptr);
  EVP_EncryptUpdate(x, o.data(), &k, in.data(), (int)in.size());
  EVP_CIPHER_CTX_free(x);
  o.resize(n);
  return o;
}

// ---- one call

enum Kind { NONE, K1, K4, AES };  // what a context is: a Keccak state, four of them, a keystream
struct Slot { Kind kind = NONE; u64 s[4][25] = {{0}}; Bytes key, iv; u64 blocks = 0; };
struct Buf { Bytes init, want, got; bool ro; };
struct Arg { char t; u64 v; int buf; };  // t: P pointer to byte v of a buffer, S pointer to the context, L 64 bits, I 32 bits
struct Job {
  std::string fn;
  std::vector<Arg> a;
  std::vector<Buf> b;
  int slot = -1;
  bool opens = false, ctx_same = false, has_ret = false;
  Kind kind = NONE;
  Slot after;
  u64 ret = 0, got_ret = 0;
  u64 what = 0;     // for counting
  bool done = false;
  int in(const Bytes &d) { b.push_back({d, d, {}, true}); a.push_back({'P', 0, (int)b.size() - 1}); return (int)b.size() - 1; }
  int out(const Bytes &want, u64 stale) { b.push_back({seeded(stale, want.size()), want, {}, false}); a.push_back({'P', 0, (int)b.size() - 1}); return (int)b.size() - 1; }
  void num(char t, u64 v) { a.push_back({t, v, -1}); }
  void ctx() { a.push_back({'S', 0, -1}); }
};

enum Shape { XOF, HASH, SHA2, CSH, XOF4, HASH4, PRF, CTR12, STREAM };
struct Fn { const char *name; Shape shape; unsigned rate; u8 ds; unsigned fixed; };
const Fn fns[] = {
    {"shake128", XOF, 168, 0x1f, 0}, {"shake256", XOF, 136, 0x1f, 0}, {"sha3_256", HASH, 136, 6, 32}, {"sha3_512", HASH, 72, 6, 64},
    {"sha256", SHA2, 64, 0, 32}, {"sha512", SHA2, 128, 0, 64}, {"cshake128_simple", CSH, 168, 4, 0}, {"cshake256_simple", CSH, 136, 4, 0},
    {"shake128x4", XOF4, 168, 0x1f, 0}, {"shake256x4", XOF4, 136, 0x1f, 0}, {"sha3_256x4", HASH4, 136, 6, 32}, {"sha3_512x4", HASH4, 72, 6, 64},
    {"saber_aes256ctr_prf", PRF, 128, 0, 0}, {"aes256ctr_prf", CTR12, 64, 0, 0}, {"crypto_stream_aes256ctr", STREAM, 128, 0, 0}};

// How the functions are called: P pointer to output, c to input, S to a context, L and I integers.
// A function whose declaration in the tree differs in more than the width of integers is not called: it is another interface.
const std::map<std::string, const char *> shapes = {
    {"shake128", "PLcL"}, {"shake256", "PLcL"}, {"sha3_256", "PcL"}, {"sha3_512", "PcL"}, {"sha256", "PcL"}, {"sha512", "PcL"},
    {"cshake128_simple", "PLIcL"}, {"cshake256_simple", "PLIcL"}, {"shake128x4", "PPPPLccccL"}, {"shake256x4", "PPPPLccccL"},
    {"sha3_256x4", "PPPPccccL"}, {"sha3_512x4", "PPPPccccL"}, {"saber_aes256ctr_prf", "PLc"}, {"aes256ctr_prf", "PLcc"}, {"crypto_stream_aes256ctr", "PLcc"},
    {"cshake128_simple_absorb", "SIcL"}, {"cshake256_simple_absorb", "SIcL"}, {"shake128_absorb", "ScI"}, {"shake256_absorb", "ScI"}, {"keccak_absorb", "SIcLI"},
    {"KeccakF1600_StateInitialize", "S"}, {"KeccakP1600times4_InitializeAll", "S"}, {"aes256ctr_init", "Scc"},
    {"cshake128_simple_squeezeblocks", "PLS"}, {"cshake256_simple_squeezeblocks", "PLS"}, {"shake128_squeezeblocks", "PLS"}, {"shake256_squeezeblocks", "PLS"},
    {"keccak_squeezeblocks", "PLSI"}, {"KeccakF1600_StateXORBytes", "ScII"}, {"KeccakF1600_StateExtractBytes", "SPII"}, {"KeccakF1600_StatePermute", "S"},
    {"KeccakP1600times4_AddBytes", "SIcII"}, {"KeccakP1600times4_AddLanesAll", "ScII"}, {"KeccakP1600times4_OverwriteBytes", "SIcII"}, {"KeccakP1600times4_OverwriteLanesAll", "ScII"},
    {"KeccakP1600times4_OverwriteWithZeroes", "SII"}, {"KeccakP1600times4_PermuteAll_12rounds", "S"}, {"KeccakP1600times4_PermuteAll_24rounds", "S"},
    {"KeccakP1600times4_ExtractBytes", "SIPII"}, {"KeccakP1600times4_ExtractLanesAll", "SPII"}, {"KeccakP1600times4_ExtractAndAddBytes", "SIcPII"}, {"KeccakP1600times4_ExtractAndAddLanesAll", "ScPII"},
    {"KeccakF1600times4_FastLoop_Absorb", "SIIIcL"}, {"KeccakP1600times4_12rounds_FastLoop_Absorb", "SIIIcL"}, {"shake128x4_squeezeblocks", "PPPPLS"}, {"aes256ctr_squeezeblocks", "PLS"}};
bool fits(const Protos &p, const std::string &fn) {
  auto s = shapes.find(fn);
  return s == shapes.end() || p.fits(fn, s->second);
}

struct Machine {
  std::string id;
  Protos protos;
  Slot sl[4];
  u64 events = 0;     // of the last run
  bool fired = false; // it was cut off, or the inner call was made
  std::vector<const Fn *> calls;
  virtual ~Machine() {}
  virtual bool has(const std::string &f) = 0;
  virtual size_t maxlen() = 0;
  virtual bool events_seen() = 0;
  virtual void reset() = 0;
  virtual size_t size_of(Kind k) = 0;
  virtual void close(int slot) = 0;
  // at: 0, or the event at which the call is cut off (inner null) or interrupted by another. Returns a problem or "".
  virtual std::string run(Job &j, u64 around, u64 at, Job *inner, bool dry) = 0;
  virtual Impl *kem() = 0;
  virtual bool repeat(Job &, u64, u64 &) { return true; }
  virtual bool lengthy(const Fn &, u64, size_t, size_t, size_t &) { return true; }
  void find() { for (auto &f : fns) if (has(f.name)) calls.push_back(&f); }
};

size_t length(Rng &r, size_t rate, size_t max) {
  static const size_t sizes[] = {0, 1, 8, 32, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 136, 168, 255, 256, 257};
  u64 x = r.below(10);
  size_t n = x < 2 ? r.below(71) : x < 6 ? rate * r.range(0, 5) + r.range(-1, 1) : x < 7 ? sizes[r.below(20)] : x < 8 ? (1ull << r.below(12)) + r.range(-1, 1) : r.below(x < 9 ? 600 : max + 1);
  if ((i64)n < 0) n = 0;
  return std::min(n, max);
}
Bytes contents(Rng &r, size_t n) {
  Bytes b(n);
  u64 k = r.below(12);
  if (k == 0) std::fill(b.begin(), b.end(), (u8)(r.below(2) ? 0xff : 0));
  else r.fill(b.data(), n);
  if (k == 1 && n) { std::fill(b.begin(), b.end(), 0); b[r.below(n)] = (u8)r.next(); }
  return b;
}
Job make_call(Machine &m, const Fn &f, u64 seed, size_t max) {
  Rng r(seed);
  Job j;
  j.fn = f.name;
  size_t n = length(r, f.rate, max), o = f.fixed ? f.fixed : length(r, f.rate, max);
  if (f.shape == CTR12 || f.shape == PRF || f.shape == STREAM) o = length(r, 128, max);
  bool same = r.chance(1, 5);  // output over the input
  u16 cstm = (u16)(r.chance(1, 3) ? r.below(4) : r.next());
  // an output that may lie over an input; returns the buffer
  auto over = [&](const Bytes &in, const Bytes &out) {
    Buf x;
    x.ro = false;
    x.init = in;
    if (out.size() > in.size()) { Bytes t = seeded(seed + 9, out.size() - in.size()); x.init.insert(x.init.end(), t.begin(), t.end()); }
    x.want = x.init;
    std::copy(out.begin(), out.end(), x.want.begin());
    j.b.push_back(x);
    return (int)j.b.size() - 1;
  };
  auto digest = [&](const Bytes &in) {
    if (f.shape != SHA2) return sponge(f.rate, f.ds, in, o, f.shape == CSH ? (int)cstm : -1);
    Bytes d(o);
    if (o == 32) SHA256(in.data(), in.size(), d.data()); else SHA512(in.data(), in.size(), d.data());
    return d;
  };
  if (f.shape == XOF4 || f.shape == HASH4) {
    Bytes in[4];
    int ib[4], ob[4], shared = same ? 0 : (int)r.below(4);  // all lanes different, or some of them the same memory
    for (int i = 0; i < 4; i++) {
      in[i] = shared == 3 && i ? in[r.below(i)] : contents(r, n);
      if (same) { ib[i] = ob[i] = over(in[i], digest(in[i])); continue; }
      j.b.push_back({in[i], in[i], {}, true});
      ib[i] = (int)j.b.size() - 1;
      if (shared == 2 && i) { ib[i] = ib[r.below(i)]; in[i] = j.b[ib[i]].init; j.b.pop_back(); }
    }
    if (!same) for (int i = 0; i < 4; i++) { Bytes w = digest(in[i]); j.b.push_back({seeded(seed + i, w.size()), w, {}, false}); ob[i] = (int)j.b.size() - 1; }
    for (int i = 0; i < 4; i++) j.a.push_back({'P', 0, ob[i]});
    if (f.shape == XOF4) j.num('L', o);
    for (int i = 0; i < 4; i++) j.a.push_back({'P', 0, ib[i]});
    j.num('L', n);
  } else if (f.shape == PRF || f.shape == CTR12 || f.shape == STREAM) {
    Bytes key = contents(r, 32), iv(16, 0);
    if (f.shape == CTR12) { Bytes t = contents(r, 12); std::copy(t.begin(), t.end(), iv.begin()); }
    if (f.shape == STREAM) {
      iv = contents(r, 16);
      // counters that run over into the upper half, or over everything, shortly
      if (r.chance(1, 2)) { std::fill(iv.begin() + 8, iv.end(), 0xff); iv[15] = (u8)(0 - r.range(1, 40)); if (r.chance(1, 4)) std::fill(iv.begin() + (long)r.below(8), iv.begin() + 8, 0xff); }
      else if (r.chance(1, 3)) { std::fill(iv.begin() + r.range(8, 14), iv.end() - 1, 0xff); iv[15] = (u8)(0 - r.range(1, 40)); }
    }
    Bytes w = keystream(key.data(), iv.data(), 0, o, f.shape == STREAM);
    int kb;
    if (f.shape == PRF && same) { kb = over(key, w); j.a.push_back({'P', 0, kb}); j.num('L', o); j.a.push_back({'P', 0, kb}); }
    else {
      j.out(w, seed + 3);
      j.num('L', o);
      if (f.shape == STREAM) { j.in(iv); j.in(key); }
      else { j.in(key); if (f.shape == CTR12) j.in(Bytes(iv.begin(), iv.begin() + 12)); }
    }
    n = iv[15];
  } else {
    Bytes in = contents(r, n), w = digest(in);
    int ob, ib;
    if (same) ob = ib = over(in, w);
    else { j.b.push_back({seeded(seed + 3, o), w, {}, false}); ob = 0; j.b.push_back({in, in, {}, true}); ib = 1; }
    j.a.push_back({'P', 0, ob});
    if (f.shape == XOF || f.shape == CSH) j.num('L', o);
    if (f.shape == CSH) j.num('I', cstm);
    j.a.push_back({'P', 0, ib});
    j.num('L', n);
  }
  (void)m;
  j.what = mix64(mix64(fnv(f.name, strlen(f.name)), n), o * 2 + same);
  return j;
}
// opens a context in a slot; an empty name: there is no such function here
Job make_open(Machine &m, int slot, i64 sel, u64 seed, size_t max) {
  Rng r(seed);
  Job j;
  j.slot = slot;
  j.opens = true;
  std::vector<int> can;
  static const char *opens[] = {"cshake128_simple_absorb", "cshake256_simple_absorb", "shake128_absorb", "shake256_absorb", "keccak_absorb", "KeccakF1600_StateInitialize", "KeccakP1600times4_InitializeAll", "aes256ctr_init"};
  for (int i = 0; i < 8; i++) if (m.has(opens[i])) can.push_back(i);
  if (can.empty()) return j;
  int k = can[(u64)sel % can.size()];
  j.fn = opens[k];
  j.kind = k == 7 ? AES : k == 6 ? K4 : K1;
  j.after.kind = j.kind;
  static const unsigned rates[] = {72, 104, 136, 144, 168};
  if (k < 5) {
    unsigned rate = k == 0 || k == 2 ? 168 : k == 1 || k == 3 ? 136 : rates[r.below(5)];
    Bytes in = contents(r, length(r, rate, max));
    u16 c = (u16)(r.chance(1, 3) ? r.below(3) : r.next());
    u8 ds = k < 2 ? 4 : k < 4 ? 0x1f : (u8)(r.chance(1, 2) ? 0x1f : r.below(2) ? 6 : r.range(1, 0x7f));
    j.ctx();
    if (k < 2) { j.num('I', c); custom(j.after.s[0], rate, c); }
    if (k == 4) j.num('I', rate);
    j.in(in);
    j.num(k == 2 || k == 3 ? 'I' : 'L', in.size());
    if (k == 4) j.num('I', ds);
    absorb(j.after.s[0], rate, in.data(), in.size(), ds);
    j.what = mix64(k, in.size());
  } else if (k == 7) {
    j.after.key = contents(r, 32);
    j.after.iv = contents(r, 12);
    j.ctx();
    j.in(j.after.key);
    j.in(j.after.iv);
    j.after.iv.resize(16);
  } else j.ctx();
  j.what = mix64(fnv(j.fn.data(), j.fn.size()), j.what);
  return j;
}
// an operation on an open context
Job make_more(Machine &m, int slot, u64 seed) {
  Rng r(seed);
  Job j;
  Slot &s = m.sl[slot];
  j.slot = slot;
  j.kind = s.kind;
  j.after = s;
  Slot &t = j.after;
  static const char *k1[] = {"cshake128_simple_squeezeblocks", "cshake256_simple_squeezeblocks", "shake128_squeezeblocks", "shake256_squeezeblocks", "keccak_squeezeblocks",
                             "KeccakF1600_StateXORBytes", "KeccakF1600_StateExtractBytes", "KeccakF1600_StatePermute"};
  static const char *k4[] = {"KeccakP1600times4_AddBytes", "KeccakP1600times4_AddLanesAll", "KeccakP1600times4_OverwriteBytes", "KeccakP1600times4_OverwriteLanesAll",
                             "KeccakP1600times4_OverwriteWithZeroes", "KeccakP1600times4_PermuteAll_12rounds", "KeccakP1600times4_PermuteAll_24rounds", "KeccakP1600times4_ExtractBytes",
                             "KeccakP1600times4_ExtractLanesAll", "KeccakP1600times4_ExtractAndAddBytes", "KeccakP1600times4_ExtractAndAddLanesAll",
                             "KeccakF1600times4_FastLoop_Absorb", "KeccakP1600times4_12rounds_FastLoop_Absorb", "shake128x4_squeezeblocks"};
  std::vector<int> can;
  if (s.kind == AES) {
    if (!m.has("aes256ctr_squeezeblocks")) return j;
    size_t n = r.below(r.chance(1, 10) ? 90 : 7);
    j.fn = "aes256ctr_squeezeblocks";
    j.out(keystream(s.key.data(), s.iv.data(), s.blocks, 64 * n, false), seed);
    j.num('L', n);
    j.ctx();
    t.blocks += 4 * n;
    j.what = n;
  } else if (s.kind == K1) {
    for (int i = 0; i < 8; i++) if (m.has(k1[i])) can.push_back(i);
    if (can.empty()) return j;
    int k = can[r.below(can.size())];
    static const unsigned rates[] = {72, 104, 136, 144, 168};
    j.fn = k1[k];
    if (k < 5) {
      unsigned rate = k == 0 || k == 2 ? 168 : k == 1 || k == 3 ? 136 : rates[r.below(5)];
      size_t n = r.below(5);
      Bytes w(n * rate);
      squeeze(t.s[0], rate, w.data(), w.size());
      j.out(w, seed);
      j.num('L', n);
      j.ctx();
      if (k == 4) j.num('I', rate);
      j.what = n;
    } else if (k == 7) { j.ctx(); keccakp(t.s[0]); }
    else {
      size_t off = r.below(200), n = r.below(201 - off);
      if (r.chance(1, 3)) { off &= ~7ull; n &= ~7ull; }
      if (r.chance(1, 3)) n = std::min<size_t>(n, r.below(9));
      j.ctx();
      if (k == 5) { Bytes d = contents(r, n); add_bytes(t.s[0], d.data(), off, n); j.in(d); }
      else { Bytes w(n); for (size_t i = 0; i < n; i++) w[i] = byte_of(t.s[0], off + i); j.out(w, seed); j.ctx_same = true; }
      j.num('I', off);
      j.num('I', n);
      j.what = off * 256 + n;
    }
  } else if (s.kind == K4) {
    for (int i = 0; i < 14; i++) if (m.has(k4[i])) can.push_back(i);
    if (can.empty()) return j;
    int k = can[r.below(can.size())];
    j.fn = k4[k];
    unsigned L = (unsigned)r.below(4);
    size_t off = r.below(200), n = r.below(201 - off);
    if (r.chance(1, 3)) { off &= ~7ull; n &= ~7ull; }
    if (r.chance(1, 3)) n = std::min<size_t>(n, r.below(9));
    unsigned count = (unsigned)(r.chance(1, 3) ? (r.chance(1, 2) ? 21 : 17) : r.below(26)), lo = (unsigned)(r.chance(1, 2) ? count : count + r.below(8));
    size_t lanes = count ? (3 * lo + count) * 8 : 0;
    auto put = [&](int i, size_t o, u8 v, bool add) { u64 &x = t.s[i][o / 8]; int b = 8 * (int)(o % 8); x = add ? x ^ (u64)v << b : (x & ~(0xffull << b)) | (u64)v << b; };
    j.ctx();
    switch (k) {
      case 0: case 2: { Bytes d = contents(r, n); for (size_t i = 0; i < n; i++) put(L, off + i, d[i], k == 0); j.num('I', L); j.in(d); j.num('I', off); j.num('I', n); break; }
      case 1: case 3: { if (k == 1 && r.chance(1, 4)) { lo = (unsigned)r.below(count + 1); lanes = count ? (3 * lo + count) * 8 : 0; }  // the same words for several
        Bytes d = contents(r, lanes); for (unsigned i = 0; i < 4; i++) for (unsigned q = 0; q < 8 * count; q++) put((int)i, q, d[i * lo * 8 + q], k == 1); j.in(d); j.num('I', count); j.num('I', lo); break; }
      case 4: n = r.below(201); for (size_t i = 0; i < n; i++) put(L, i, 0, false); j.num('I', L); j.num('I', n); break;
      case 5: case 6: for (auto &x : t.s) keccakp(x, k == 5 ? 12 : 24); break;
      case 7: { Bytes w(n); for (size_t i = 0; i < n; i++) w[i] = byte_of(t.s[L], off + i); j.num('I', L); j.out(w, seed); j.num('I', off); j.num('I', n); j.ctx_same = true; break; }
      case 9: { Bytes d = contents(r, n), w(n); for (size_t i = 0; i < n; i++) w[i] = byte_of(t.s[L], off + i) ^ d[i]; j.num('I', L);
        if (r.chance(1, 3)) { j.b.push_back({d, w, {}, false}); j.a.push_back({'P', 0, 0}); j.a.push_back({'P', 0, 0}); } else { j.in(d); j.out(w, seed); }
        j.num('I', off); j.num('I', n); j.ctx_same = true; break; }
      case 8: case 10: {
        Bytes d = contents(r, lanes), st = seeded(seed, lanes), w = st;
        for (unsigned i = 0; i < 4; i++) for (unsigned q = 0; q < 8 * count; q++) w[i * lo * 8 + q] = byte_of(t.s[i], q) ^ (k == 10 ? d[i * lo * 8 + q] : 0);
        if (k == 10) j.in(d);
        j.b.push_back({st, w, {}, false});
        j.a.push_back({'P', 0, (int)j.b.size() - 1});
        j.num('I', count); j.num('I', lo);
        j.ctx_same = true;
        break;
      }
      case 11: case 12: {
        if (!count) count = 1;
        if (lo < count) lo = count;
        unsigned os = (unsigned)(r.chance(1, 2) ? count : r.range(1, 3 * lo + count));
        size_t need = (size_t)(3 * lo + count) * 8, len = need + r.below(5) * os * 8 + r.below(os * 8), at = 0, left = len;
        if (r.chance(1, 6)) left = len = r.below(need);
        Bytes d = contents(r, len);
        while (left >= need) {
          for (unsigned i = 0; i < 4; i++) { add_bytes(t.s[i], &d[at + i * lo * 8], 0, count * 8); keccakp(t.s[i], k == 12 ? 12 : 24); }
          at += os * 8;
          left -= os * 8;
        }
        j.num('I', count); j.num('I', lo); j.num('I', os);
        j.in(d);
        j.num('L', len);
        j.has_ret = true;
        j.ret = at;
        n = len;
        break;
      }
      case 13: {
        n = r.below(4);
        j.a.clear();
        for (auto &x : t.s) { Bytes w(168 * n); squeeze(x, 168, w.data(), w.size()); j.out(w, seed + j.b.size()); }
        j.num('L', n);
        j.ctx();
        break;
      }
    }
    j.what = mix64(n, k == 1 || k == 3 || k == 8 || k > 9 ? count * 64 + lo : off);
  }
  j.what = mix64(fnv(j.fn.data(), j.fn.size()), j.what);
  return j;
}

// ---- the host

sigjmp_buf jmp20;
u64 ev20, at20;
bool armed20;
std::function<void()> *then20;  // null: cut off
void event20() {
  if (!armed20) return;
  if (++ev20 != at20) return;
  if (!then20) { armed20 = false; siglongjmp(jmp20, 1); }
  armed20 = false;
  (*then20)();
  armed20 = true;
}
void access20(const void *, size_t, int, void *) { event20(); }
void block20(void *) { event20(); }

struct HostMachine : Machine {
  Module *mod;
  HostImpl impl;
  bool inst;
  OwnStack *st;
  std::map<std::string, void (*)(void)> f;
  Pages pg[24], cx[4];
  Bytes copy[4];
  HostMachine(Module *m, bool i, OwnStack *s) : mod(m), impl(m), inst(i), st(s) {
    id = m->id;
    protos.load(m->so);
    for (const sim_prim *p = m->m->prims; p->name; p++) if (p->f && fits(protos, p->name)) f[p->name] = p->f;
    find();
  }
  bool has(const std::string &n) override { return f.count(n) && (n.compare(0, 9, "aes256ctr") || n == "aes256ctr_prf" || mod->m->aesctx); }
  size_t maxlen() override { return inst ? 700 : 2000; }
  bool events_seen() override { return inst; }
  size_t size_of(Kind k) override { return k == AES ? mod->m->aesctx : k == K4 ? 800 : 200; }
  void reset() override { mod->reset(); for (int i = 0; i < 4; i++) close(i); }
  void close(int s) override { sl[s] = Slot(); }
  Impl *kem() override { return &impl; }
  u64 invoke(const Job &j, Pages *p) {
    u64 v[10] = {0};
    for (size_t i = 0; i < j.a.size() && i < 10; i++) v[i] = j.a[i].t == 'P' ? (u64)(uintptr_t)(p[j.a[i].buf].buf + j.a[i].v) : j.a[i].t == 'S' ? (u64)(uintptr_t)cx[j.slot].buf : j.a[i].v;
    auto fn = (u64 (*)(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64))f[j.fn];
    return fn(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]);
  }
  void prepare(Job &j, Pages *p, u64 around) {
    for (size_t i = 0; i < j.b.size(); i++) {
      u64 x = mix64(around, i);
      p[i].make(j.b[i].init.size(), x & 1, x);
      if (!j.b[i].init.empty()) memcpy(p[i].buf, j.b[i].init.data(), j.b[i].init.size());
      if (j.b[i].ro) p[i].readonly();
    }
    if (j.opens) cx[j.slot].make(size_of(j.kind), around & 2, mix64(around, 77));
  }
  std::string after(Job &j, Pages *p, bool cut) {
    for (size_t i = 0; i < j.b.size(); i++) {
      if (!p[i].intact()) return j.fn + " writes next to its buffers";
      j.b[i].got.assign(p[i].buf, p[i].buf + p[i].n);
    }
    (void)cut;
    return "";
  }
  std::string run(Job &j, u64 around, u64 at, Job *inner, bool dry) override {
    Bytes img, was;
    if (dry) { mod->save(img); if (j.slot >= 0 && !j.opens) was.assign(cx[j.slot].buf, cx[j.slot].buf + cx[j.slot].n); }
    prepare(j, pg, around);
    if (inner) prepare(*inner, pg + 12, mix64(around, 5));
    volatile bool cut = false;
    bool did = false;
    fired = false;
    std::function<void()> then = [&] { did = true; inner->got_ret = invoke(*inner, pg + 12); };
    then20 = inner ? &then : nullptr;
    ev20 = 0;
    at20 = at;
    armed20 = false;
    auto *hk = mod->m->hooks;
    if (inst) { hk->access = access20; hk->block = block20; }
    int sig = guarded([&] {
      st->call([&] {
        if (sigsetjmp(jmp20, 1) == 0) { armed20 = true; j.got_ret = invoke(j, pg); armed20 = false; }
        else cut = true;
        armed20 = false;
      }, around | 1, (around >> 8) & 0xff0, around & 4);
    });
    armed20 = false;
    hk->access = nullptr;
    hk->block = nullptr;
    if (sig) return j.fn + (sig == -1 ? " does not return" : " accesses memory that is not its own");
    events = ev20;
    j.done = !cut;
    fired = cut || did;
    std::string e = after(j, pg, cut);
    if (inner && did) { inner->done = true; if (e.empty()) e = after(*inner, pg + 12, false); }
    if (dry) {
      mod->restore(img);
      if (!was.empty()) memcpy(cx[j.slot].buf, was.data(), was.size());
      return e;
    }
    for (int s = 0; s < 4; s++) {
      bool mine = (j.slot == s && !(j.ctx_same && !cut)) || (inner && did && inner->slot == s && !inner->ctx_same);
      if (sl[s].kind == NONE && !mine) continue;
      if (!cx[s].intact()) return j.fn + " writes next to a context";
      Bytes now(cx[s].buf, cx[s].buf + cx[s].n);
      if (!mine && now != copy[s]) return j.fn + (j.slot == s ? " changes the state it only reads" : " changes the context of another computation");
      copy[s] = now;
    }
    return e;
  }
  bool repeat(Job &j, u64 times, u64 &which) override {
    prepare(j, pg, 8);
    for (size_t i = 0; i < j.b.size(); i++) if (j.b[i].ro) pg[i].make(j.b[i].init.size(), true, 8), memcpy(pg[i].buf, j.b[i].init.data(), j.b[i].init.size());
    for (which = 1; which <= times; which++) {
      for (auto &x : j.b) if (!x.ro && !x.init.empty()) memcpy(pg[&x - &j.b[0]].buf, x.init.data(), x.init.size());
      invoke(j, pg);
      for (auto &x : j.b) if (!x.want.empty() && memcmp(pg[&x - &j.b[0]].buf, x.want.data(), x.want.size())) return false;
    }
    return true;
  }
  // One call with a very long message or a very long output. All lanes of a four-way function get the same message.
  bool lengthy(const Fn &f, u64 seed, size_t n, size_t o, size_t &at) override {
    struct Map {
      u8 *p; size_t n;
      explicit Map(size_t k) : n(k) { p = (u8 *)mmap(nullptr, k + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } }
      ~Map() { munmap(p, n + 4096); }
    };
    int lanes = f.shape == XOF4 || f.shape == HASH4 ? 4 : 1;
    bool stream = f.shape == PRF || f.shape == CTR12 || f.shape == STREAM;
    Bytes piece = seeded(seed, 65521), iv(16, 0);
    if (stream) n = f.shape == PRF ? 32 : 48;
    Map in(n), out(o * (size_t)lanes);
    for (size_t i = 0; i < n; i += piece.size()) { memcpy(in.p + i, piece.data(), std::min(piece.size(), n - i)); in.p[i] ^= (u8)(i >> 16); }
    u64 v[10] = {0}, I = (u64)(uintptr_t)in.p, k = 0;
    u16 cstm = (u16)seed;
    for (int i = 0; i < lanes; i++) v[k++] = (u64)(uintptr_t)(out.p + o * (size_t)i);
    if (f.shape == XOF || f.shape == XOF4 || f.shape == CSH || stream) v[k++] = o;
    if (f.shape == CSH) v[k++] = cstm;
    if (f.shape == STREAM) { v[k++] = I; v[k++] = I + 16; memcpy(iv.data(), in.p, 16); }
    else if (f.shape == CTR12) { v[k++] = I; v[k++] = I + 32; memcpy(iv.data(), in.p + 32, 12); }
    else for (int i = 0; i < lanes; i++) v[k++] = I;
    if (!stream) v[k++] = n;
    auto fn = (u64 (*)(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64))this->f[f.name];
    fn(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]);
    u64 s[25] = {0};
    Bytes d(o);
    if (f.shape == SHA2) { if (o == 32) SHA256(in.p, n, d.data()); else SHA512(in.p, n, d.data()); }
    else if (!stream) {
      if (f.shape == CSH) custom(s, f.rate, cstm);
      absorb(s, f.rate, in.p, n, f.ds);
      squeeze(s, f.rate, d.data(), o);
    }
    for (at = 0; at < o; at += 1 << 20) {
      size_t len = std::min<size_t>(1 << 20, o - at);
      if (stream) { Bytes w = keystream(f.shape == STREAM ? in.p + 16 : in.p, iv.data(), at / 16, len, f.shape == STREAM); d.resize(len); d = w; }
      for (int i = 0; i < lanes; i++) if (memcmp(out.p + o * (size_t)i + at, stream ? d.data() : d.data() + at, len)) return false;
    }
    return true;
  }
};

// ---- the Cortex-M0

struct BoardMachine : Machine {
  M0Impl *m;
  enum { RAM0 = 0x20000000, STOP20 = 0xf0000000, SLOT = 224 };
  Bytes state[4];
  std::map<std::string, u32> f;
  explicit BoardMachine(M0Impl *i) : m(i) { id = i->id; protos = i->b.protos; find(); }
  bool has(const std::string &n) override { auto it = f.find(n); if (it == f.end()) it = f.insert({n, fits(protos, n) ? m->elf().addr(n.c_str()) & ~1u : 0}).first; return it->second != 0; }
  size_t maxlen() override { return 1100; }
  bool events_seen() override { return true; }
  size_t size_of(Kind) override { return 200; }
  void reset() override { m->reset(); for (int i = 0; i < 4; i++) close(i); m->b.cfg = BoardCfg(); m->b.power_up(); m->b.restore(m->boot); }
  void close(int s) override { sl[s] = Slot(); state[s].clear(); }
  Impl *kem() override { return m; }
  u32 ctx_at(int s) { return ((m->boot.r[13] & ~31u) - SLOT * (u32)(s + 1)); }
  // places the buffers below 'next'
  u32 place(Job &j, std::vector<u32> &at, u32 next, u64 around) {
    Rng r(around);
    at.resize(j.b.size());
    for (size_t i = 0; i < j.b.size(); i++) {
      next -= (u32)j.b[i].init.size() + (u32)r.below(9);
      at[i] = next;
      if (!j.b[i].init.empty()) memcpy(m->b.cpu.ptr(next, 1), j.b[i].init.data(), j.b[i].init.size());
      next -= 4;
    }
    return next;
  }
  void allow(Job &j, const std::vector<u32> &at, u32 sp) {
    Bytes &p = m->perm;
    std::fill(p.begin(), p.end(), 0);
    memset(&p[0], 3, m->image.size());
    memset(&p[m->b.bss_end - RAM0], 3, sp - m->b.bss_end);
    for (size_t i = 0; i < j.b.size(); i++) if (!j.b[i].init.empty()) memset(&p[at[i] - RAM0], j.b[i].ro ? 1 : 3, j.b[i].init.size());
    if (j.slot >= 0) memset(&p[ctx_at(j.slot) - RAM0], j.ctx_same ? 1 : 3, 200);
  }
  // registers and stack of a call; the arguments on the stack belong to the callee
  u32 enter(Job &j, const std::vector<u32> &at, u32 sp, Rng &r) {
    Arm &c = m->b.cpu;
    std::vector<u32> w;
    u32 reg[4];
    for (auto &x : reg) x = (u32)r.next();
    size_t n = 0;
    for (auto &a : j.a) {
      u64 v = a.t == 'P' ? at[a.buf] + a.v : a.t == 'S' ? ctx_at(j.slot) : a.v;
      char how = a.t == 'L' || a.t == 'I' ? protos.width(j.fn, (size_t)(&a - &j.a[0]), a.t) : a.t;
      if (how == 'L') {
        n += n & 1;
        if (n < 4) { reg[n] = (u32)v; reg[n + 1] = (u32)(v >> 32); n += 2; }
        else { if (w.size() & 1) w.push_back((u32)r.next()); w.push_back((u32)v); w.push_back((u32)(v >> 32)); }
      } else if (n < 4) reg[n++] = (u32)v;
      else w.push_back((u32)v);
    }
    sp = (sp - 4 * (u32)w.size()) & ~7u;
    for (size_t i = 0; i < w.size(); i++) memcpy(c.ptr(sp + 4 * (u32)i, 4), &w[i], 4);
    for (int i = 0; i < 13; i++) c.r[i] = i < 4 ? reg[i] : (u32)r.next();
    c.N = r.below(2); c.Z = r.below(2); c.C = r.below(2); c.V = r.below(2);
    c.r[13] = sp;
    c.r[14] = STOP20 | 1;
    c.r[15] = f[j.fn];
    allow(j, at, sp);
    if (!w.empty()) memset(&m->perm[sp - RAM0], 3, 4 * w.size());
    c.perm = m->perm.data();
    return sp;
  }
  bool repeat(Job &j, u64 times, u64 &which) override {
    for (which = 1; which <= std::min<u64>(times, 258); which++) {
      std::string e = run(j, 8, 0, nullptr, false);
      for (auto &x : j.b) if (x.got != x.want) e = "wrong";
      if (!e.empty()) return false;
    }
    return true;
  }
  std::string drive(Job &j, u32 sp, u64 limit, bool &out_of) {
    Arm &c = m->b.cpu;
    u32 keep[8];
    memcpy(keep, &c.r[4], sizeof keep);
    return resume(j, sp, limit, out_of, keep);
  }
  std::string resume(Job &j, u32 sp, u64 limit, bool &out_of, const u32 *keep) {
    Arm &c = m->b.cpu;
    out_of = false;
    int st = c.run(limit, STOP20);
    if (st == A_LIMIT && c.r[15] != STOP20) { out_of = true; return ""; }
    if (c.r[15] != STOP20) { char b[200]; snprintf(b, sizeof b, "%s: %s at %s (address %08x)", j.fn.c_str(), arm_stop_name(st), m->where(c.r[15]).c_str(), c.fault_addr); return b; }
    if (c.r[13] != sp) return j.fn + " returns with a different stack pointer";
    for (int k = 0; k < 8; k++) if (c.r[4 + k] != keep[k]) return j.fn + " returns with register r" + std::to_string(4 + k) + " changed";
    j.got_ret = c.r[0];
    j.done = true;
    return "";
  }
  std::string run(Job &j, u64 around, u64 at, Job *inner, bool dry) override {
    Arm &c = m->b.cpu;
    Rng r(around);
    r.fill(c.ram.data() + m->image.size(), c.ram.size() - m->image.size());
    memcpy(c.ram.data(), m->image.data(), m->image.size());
    for (int s = 0; s < 4; s++) if (!state[s].empty()) memcpy(c.ptr(ctx_at(s), 200), state[s].data(), 200);
    std::vector<u32> where1, where2;
    u32 next = place(j, where1, ctx_at(3) - 8, mix64(around, 1));
    if (inner) next = place(*inner, where2, next, mix64(around, 2));
    if (next < m->b.bss_end + 3000) return "no room on the board for this call";
    fired = false;
    bool out_of = false;
    u32 sp = enter(j, where1, next & ~7u, r), keep[8];
    memcpy(keep, &c.r[4], sizeof keep);
    u64 base = c.insns;
    std::string e = resume(j, sp, base + (at ? at : 20000000), out_of, keep);
    events = c.insns - base;
    if (e.empty() && out_of && !at) e = j.fn + " does not come to an end";
    if (e.empty() && out_of && inner) {
      fired = true;
      u32 sr[16];
      u8 fl[4] = {c.N, c.Z, c.C, c.V};
      memcpy(sr, c.r, sizeof sr);
      Bytes sperm = m->perm;
      u64 n = c.insns;
      u32 isp = enter(*inner, where2, (c.r[13] - 32) & ~7u, r);
      bool more = false;
      e = drive(*inner, isp, n + 20000000, more);
      if (e.empty() && more) e = inner->fn + " does not come to an end";
      memcpy(c.r, sr, sizeof sr);
      c.N = fl[0]; c.Z = fl[1]; c.C = fl[2]; c.V = fl[3];
      m->perm = sperm;
      c.perm = m->perm.data();
      c.insns = n;
      if (e.empty()) e = resume(j, sp, base + 20000000, out_of, keep);
      if (e.empty() && out_of) e = j.fn + " does not come to an end";
    } else if (out_of) fired = true;
    c.perm = nullptr;
    auto take = [&](Job &q, const std::vector<u32> &w) { for (size_t i = 0; i < q.b.size(); i++) { u8 *p = c.ptr(w[i], (u32)q.b[i].init.size()); q.b[i].got.assign(p, p + q.b[i].init.size()); } };
    take(j, where1);
    if (inner) take(*inner, where2);
    if (dry) return e;
    m->image.assign(c.ram.begin(), c.ram.begin() + (long)m->image.size());
    for (int s = 0; s < 4; s++) {
      bool mine = j.slot == s || (inner && inner->done && inner->slot == s);
      if (!mine) continue;  // the memory protection sees to the others
      u8 *p = c.ptr(ctx_at(s), 200);
      state[s].assign(p, p + 200);
    }
    return e;
  }
};

// ---- the scenario

struct C20 : Scenario {
  bool inst;
  std::vector<Machine *> ms;
  M0Impl *m0 = nullptr;
  explicit C20(bool i) : inst(i) {}
  bool setup(std::string &err) override {
    Bytes in = seeded(4, 333), a(200), b(200);
    a = sponge(168, 0x1f, in, 200); shake(128, in.data(), in.size(), b.data(), 200);
    bool ok = a == b;
    a = sponge(72, 6, in, 64); b.resize(64); sha3(512, in.data(), in.size(), b.data());
    if (!ok || a != b) { err = "the model of Keccak is wrong"; return false; }
    auto *st = new OwnStack(1 << 20);
    for (Module *m : load_modules(inst ? "inst" : "plain", err)) { auto *h = new HostMachine(m, inst, st); if (h->calls.empty()) delete h; else ms.push_back(h); }
    if (!inst) { m0 = load_m0(err); if (m0) ms.push_back(new BoardMachine(m0)); }
    if (ms.empty() && err.empty()) err = "no implementation with functions of these names";
    return !ms.empty() && err.empty();
  }
  u64 quick_runs() override { return inst ? 40000 : 24000; }
  const char *rule() override { return inst ? "distinct (implementation, function, lengths or offsets, event at which it was interrupted or abandoned)" : "distinct (implementation, function, lengths or offsets, output over input or not)"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t k = (index + index / ms.size()) % ms.size();
    u64 round = index / ms.size();
    bool long_history = !inst && round < 12;
    if (ms[k]->kem()->emulated && !long_history && r.chance(2, 3)) k = r.below(ms.size());
    p.cfg["impl"] = (i64)k;
    Machine &m = *ms[k];
    int open = 0;
    int len = (int)r.range(3, thorough ? 40 : 14);
    bool ctx = make_open(m, 0, 0, 1, 100).fn.size();
    if (m.has("KeccakP1600times4_AddBytes") || m.has("KeccakF1600_StateXORBytes")) len *= 3;
    // every function once with a message, and an output, whose length in bits, bytes and blocks needs one more byte than usual
    if (!inst && !m.kem()->emulated && round >= 12 && round < 12 + m.calls.size()) {
      const Fn &f = *m.calls[round - 12];
      bool aes = f.shape == CTR12 || f.shape == PRF || f.shape == STREAM;
      i64 in = f.shape == SHA2 ? 1ll << 29 : 1 << 24, out = f.fixed ? f.fixed : aes ? 1ll << 28 : 1 << 24;
      if (!aes) p.add("long", {(i64)round - 12, r.seed63(), in + r.range(1, f.shape == SHA2 ? 50 : 300), f.fixed ? f.fixed : r.range(1, 300)});
      if (f.shape == SHA2) p.add("long", {(i64)round - 12, r.seed63(), in + r.range(120, 127), f.fixed});  // the length of the message takes a block of its own
      if (f.shape == SHA2) p.add("long", {(i64)round - 12, r.seed63(), (1ll << (i64)r.range(20, 28)) + r.range(1, 300), f.fixed});
      if (!f.fixed) p.add("long", {(i64)round - 12, r.seed63(), r.range(1, 300), out + r.range(1, 300)});
      if (aes) p.add("long", {(i64)round - 12, r.seed63(), 0, (1ll << (i64)r.range(18, 26)) + r.range(1, 300)});
    }
    if (long_history) p.add("many", {(i64)(index / ms.size()), r.seed63(), 65536 + r.range(8, 40)});
    for (int i = 0; i < len; i++) {
      u64 x = r.below(ctx ? 16 : 6);
      if (m.events_seen() && r.chance(1, inst ? 2 : 3)) p.add(r.chance(1, 3) ? "cut" : "during", {(i64)r.below(r.chance(1, 6) ? 2000 : 1000000)});
      if (x >= 8 && (!open || r.chance(1, 12))) x = 6;
      if (x < 5) p.add("call", {(i64)r.below(64), r.seed63(), r.seed63(), !inst && r.chance(1, 300)});
      else if (x == 5) { if (r.chance(1, 3)) { p.add("crash", {}); open = 0; } else p.add("kem", {r.seed63()}); }
      else if (x < 8) open++, p.add("open", {(i64)r.below(4), (i64)r.below(64), r.seed63(), r.seed63()});
      else p.add("more", {(i64)r.below(4), r.seed63(), r.seed63()});
    }
  }
  Job job(Machine &m, const Step &s) {
    size_t max = m.maxlen();
    if (s.op == "call" && s.at(3) && max > 1500) max = 70000;
    if (s.op == "call" && !m.calls.empty()) return make_call(m, *m.calls[(u64)s.at(0) % m.calls.size()], (u64)s.at(1), max);
    if (s.op == "open") return make_open(m, (int)((u64)s.at(0) % 4), s.at(1), (u64)s.at(2), max);
    if (s.op == "more") {  // the next open context
      for (int i = 0; i < 4; i++) { int q = (int)(((u64)s.at(0) + i) % 4); if (m.sl[q].kind != NONE) return make_more(m, q, (u64)s.at(1)); }
    }
    return Job();
  }
  u64 around(const Step &s) { return (u64)s.at(s.op == "open" ? 3 : 2); }
  bool check(Machine &m, Job &j, const char *when, Ctx &c) {
    for (auto &b : j.b) {
      c.h(b.got);
      if (b.got == b.want) continue;
      size_t i = 0;
      while (i < b.want.size() && b.got[i] == b.want[i]) i++;
      if (b.ro) c.fail("input-changed", "%s: %s changes its input", m.id.c_str(), j.fn.c_str());
      else c.fail("result", "%s: %s%s returns something else than its definition says (byte %zu of %zu)", m.id.c_str(), j.fn.c_str(), when, i, b.want.size());
      return false;
    }
    c.h(j.got_ret & (j.has_ret ? ~0ull : 0));
    if (j.has_ret && j.got_ret != j.ret) { c.fail("result", "%s: %s%s returns %llu instead of %llu", m.id.c_str(), j.fn.c_str(), when, (unsigned long long)j.got_ret, (unsigned long long)j.ret); return false; }
    if (j.slot >= 0) m.sl[j.slot] = j.after;
    c.op(j.fn.c_str());
    return true;
  }
  void execute(const Plan &p, Ctx &c) override {
    Machine &m = *ms[(u64)p.get("impl") % ms.size()];
    m.reset();
    for (size_t i = 0; i < p.steps.size(); i++) {
      if (c.failed) break;
      const Step &s = p.steps[i];
      if (s.op == "crash") { m.reset(); c.fault("crash and restart"); continue; }
      if (s.op == "kem") { exchange(m, (u64)s.at(0), c); continue; }
      if (s.op == "cut" || s.op == "during") continue;
      if (s.op == "many") {
        if (m.calls.empty()) continue;
        Job j = make_call(m, *m.calls[(u64)s.at(0) % m.calls.size()], (u64)s.at(1), 100);
        u64 which = 0;
        if (!m.repeat(j, (u64)s.at(2), which)) c.fail("history", "%s: %s returns something else when it is called for the %lluth time with the same arguments", m.id.c_str(), j.fn.c_str(), (unsigned long long)which);
        c.op(j.fn.c_str(), which);
        c.fault("long history before");
        continue;
      }
      if (s.op == "long") {
        if (m.calls.empty()) continue;
        const Fn &f = *m.calls[(u64)s.at(0) % m.calls.size()];
        size_t at = 0, o = f.fixed ? f.fixed : (size_t)s.at(3);
        if (!m.lengthy(f, (u64)s.at(1), (size_t)s.at(2), o, at)) c.fail("result", "%s: %s returns something else than its definition says for %lld bytes of message and %zu bytes of output (from byte %zu)", m.id.c_str(), f.name, (long long)s.at(2), o, at);
        c.op(f.name);
        c.probe("message or output of 2^18 bytes and more");
        continue;
      }
      Job j = job(m, s);
      if (j.fn.empty()) { c.probe("step without an object"); continue; }
      const Step *mod = i && (p.steps[i - 1].op == "cut" || p.steps[i - 1].op == "during") && m.events_seen() ? &p.steps[i - 1] : nullptr;
      Job in;
      bool during = mod && mod->op == "during";
      if (during) {  // by the job after it
        size_t k = i + 1;
        while (k < p.steps.size() && p.steps[k].op != "call" && p.steps[k].op != "open" && p.steps[k].op != "more") k++;
        if (k < p.steps.size()) {
          if (p.steps[k].op == "more") {  // on a context that the interrupted one does not use
            Slot keep;
            if (j.slot >= 0) { keep = m.sl[j.slot]; m.sl[j.slot] = Slot(); }
            in = job(m, p.steps[k]);
            if (j.slot >= 0) m.sl[j.slot] = keep;
          } else in = job(m, p.steps[k]);
          if (in.slot >= 0 && in.slot == j.slot) in = Job();
        }
        if (in.fn.empty()) { mod = nullptr; during = false; }
      }
      u64 at = 0;
      if (mod) {
        std::string e = m.run(j, around(s), 0, nullptr, true);
        if (e.empty() && !j.done) e = j.fn + " does not return";
        if (!e.empty()) { c.fail("memory", "%s: %s", m.id.c_str(), e.c_str()); break; }
        j.done = false;
        u64 f = (u64)mod->at(0);
        at = f < 2000 ? 1 + f / 8 : 1 + (u64)((__uint128_t)m.events * f / 1000000);
        if (at > m.events) at = m.events;
      }
      std::string e = m.run(j, around(s), at, during ? &in : nullptr, false);
      c.tick(m.events ? m.events : 100);
      c.ev("%s %s: %llu events%s%s", m.id.c_str(), j.fn.c_str(), (unsigned long long)m.events, j.done ? "" : ", abandoned", in.done ? ", interrupted" : "");
      c.distinct(mix64(mix64(j.what, (u64)p.get("impl")), mod ? at : 0));
      if (!e.empty()) { c.fail("memory", "%s: %s", m.id.c_str(), e.c_str()); break; }
      for (auto &b : j.b) if (b.ro && b.got != b.want) c.fail("input-changed", "%s: %s changes its input", m.id.c_str(), j.fn.c_str());
      if (c.failed) break;
      if (during && in.done) { c.fault("interrupted by another call"); if (!check(m, in, " during another call", c)) break; }
      if (!j.done) {
        c.fault("call abandoned");
        if (j.slot >= 0) m.close(j.slot);
        continue;
      }
      if (!check(m, j, in.done ? ", interrupted by another call," : "", c)) break;
    }
    m.reset();
  }
  void exchange(Machine &m, u64 seed, Ctx &c) {  // an operation of the key exchange in between
    Impl *I = m.kem();
    OpEnv e;
    e.seed = seed;
    e.rnd = seeded(seed + 1, 96);
    Bytes pk, sk, pk2, sk2;
    I->keypair(pk, sk, e);
    c.op("key generation in between");
    c.h(pk);
    if (I->lanes > 1) return;
    Model(I->p).keygen(e.rnd.data(), e.rnd.data() + 32, e.rnd.data() + 64, pk2, sk2);
    if (pk != pk2 || sk != sk2) c.fail("key-exchange", "%s: key generation after calls of the hash functions differs from the specification", m.id.c_str());
  }
};

Register r20("C20", []() -> Scenario * { return new C20(false); });
Register r20i("C20i", []() -> Scenario * { return new C20(true); });
}  // namespace
