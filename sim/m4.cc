#include "m4.h"
#include "m0.h"
#include <algorithm>
#include <cstdarg>
#include <fstream>
#include <sstream>
#include <unistd.h>

enum { FLASH = 0x08000000, FLASH_SIZE = 0x80000, RAM = 0x20000000, RAM_SIZE = 0x20000, STOP = 0xf0000000, STACK_LO = 0x20010000, STACK_TOP = 0x2001e000 };

void cannot_simulate(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "the simulated processor cannot go on: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  fflush(stderr);
  _exit(3);
}

static void keccakf(u64 A[25]) {
  static const u64 RC[24] = {
      1ull, 0x8082ull, 0x800000000000808aull, 0x8000000080008000ull, 0x808bull, 0x80000001ull, 0x8000000080008081ull, 0x8000000000008009ull,
      0x8aull, 0x88ull, 0x80008009ull, 0x8000000aull, 0x8000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull,
      0x8000000000008002ull, 0x8000000000000080ull, 0x800aull, 0x800000008000000aull, 0x8000000080008081ull, 0x8000000000008080ull, 0x80000001ull, 0x8000000080008008ull};
  static const int rot[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
  static const int pil[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  for (int r = 0; r < 24; r++) {
    u64 bc[5], t;
    for (int i = 0; i < 5; i++) bc[i] = A[i] ^ A[i + 5] ^ A[i + 10] ^ A[i + 15] ^ A[i + 20];
    for (int i = 0; i < 5; i++) { t = bc[(i + 4) % 5] ^ Rng::rotl(bc[(i + 1) % 5], 1); for (int j = 0; j < 25; j += 5) A[j + i] ^= t; }
    t = A[1];
    for (int i = 0; i < 24; i++) { u64 x = A[pil[i]]; A[pil[i]] = Rng::rotl(t, rot[i]); t = x; }
    for (int j = 0; j < 25; j += 5) { for (int i = 0; i < 5; i++) bc[i] = A[j + i]; for (int i = 0; i < 5; i++) A[j + i] ^= ~bc[(i + 1) % 5] & bc[(i + 2) % 5]; }
    A[0] ^= RC[r];
  }
}

bool M4Core::load(const std::string &file, std::string &err) {
  if (!elf.load(file, err)) return false;
  cpu.map(FLASH, FLASH_SIZE, RAM, RAM_SIZE);
  if (!cpu.place(elf, true)) { err = id + ": image does not fit"; return false; }
  f_key = elf.addr("crypto_kem_keypair"); f_enc = elf.addr("crypto_kem_enc"); f_dec = elf.addr("crypto_kem_dec");
  stat_lo = RAM; stat_hi = elf.addr("sim_static_end");
  if (!f_key || !f_enc || !f_dec || stat_hi < RAM || stat_hi > RAM + 0x8000) { err = id + ": functions or data not found"; return false; }
  perm.assign(RAM_SIZE, 0);
  reset();
  return true;
}

void M4Core::reset() {  // what the start-up code of the board does: initialised data from flash, the rest zero
  image.assign(stat_hi - stat_lo, 0);
  for (auto &s : elf.segs)
    if (s.vaddr >= RAM && s.vaddr < stat_hi) memcpy(&image[s.vaddr - RAM], s.data.data(), std::min<size_t>(s.data.size(), stat_hi - s.vaddr));
}

u32 M4Core::put(Rng &r, size_t n, u8 perms) {
  u64 k = r.below(3);
  u32 a = ((buf_next + 7) & ~7u) + 8 + (u32)(k == 0 ? 0 : k == 1 ? r.below(8) : r.below(4) * 2);
  buf_next = a + (u32)n + 8;
  memset(&perm[a - RAM], perms, n);
  return a;
}

static std::string fstr(const char *fmt, ...) {
  char b[300];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}

// The functions pqm4 supplies (hash functions and randomness) are the simulator's.
bool M4Core::hle(M4Env &e) {
  u32 a[4] = {cpu.r[0], cpu.r[1], cpu.r[2], cpu.r[3]};
  auto in = [&](u32 p, u32 n, Bytes &b) {
    b.resize(n);
    for (u32 i = 0; i < n; i++) { u32 v; if (!cpu.rd(p + i, 1, v)) { e.problem = fstr("a hash function is given memory at %08x the caller may not read", p + i); return false; } b[i] = (u8)v; }
    return true;
  };
  auto out = [&](u32 p, const u8 *b, u32 n) {
    for (u32 i = 0; i < n; i++) if (!cpu.wr(p + i, 1, b[i])) { e.problem = fstr("the output of a hash function or generator goes to %08x, outside the memory given", p + i); return false; }
    return true;
  };
  auto state = [&](u32 p, u64 s[26]) { Bytes b; if (!in(p, 208, b)) return false; memcpy(s, b.data(), 208); return true; };
  // like a real callee: caller-saved registers and flags are anything afterwards
  auto clobber = [&](u32 ret) {
    u64 x = mix64(cpu.insns, e.seed);
    cpu.r[0] = ret; cpu.r[1] = (u32)x; cpu.r[2] = (u32)(x >> 32); cpu.r[3] = (u32)(x >> 16); cpu.r[12] = (u32)(x >> 7);
    cpu.N = x & 1; cpu.Z = x >> 1 & 1; cpu.C = x >> 2 & 1; cpu.V = x >> 3 & 1; cpu.ge = x >> 4 & 15;
    for (int i = 0; i < 16; i++) cpu.s[i] = (u32)mix64(x, i);
    // and its stack frame was below the caller's
    u32 n = 64 + (x >> 20 & 0xff);
    for (u32 q = cpu.r[13] - n; q < cpu.r[13]; q++) if (u8 *m = cpu.ptr(q, 1)) { if (perm[q - RAM] & 2) *m = (u8)mix64(x, q); }
  };
  if (cpu.tracing) {  // where it reads and writes, and how much
    static const int args[] = {0, 2, 3, 3, 4, 1, 3, 1, 3, 1};
    for (int i = 0; i < (cpu.bkpt < 10 ? args[cpu.bkpt] : 0); i++) cpu.tr(a[i]);
  }
  Bytes b;
  switch (cpu.bkpt) {
    case 1: {  // randombytes(out, n)
      Bytes o(a[1] > 0x10000 ? 0 : a[1]);
      if (a[1] > 0x10000) { e.problem = "randombytes is asked for more than all memory"; return false; }
      for (size_t i = 0; i < o.size(); i++) o[i] = e.drawn + i < e.nrnd ? e.rnd[e.drawn + i] : (u8)mix64(e.seed, 0x7000 + e.drawn + i);
      e.drawn += o.size();
      e.sizes.push_back(o.size());
      if (!out(a[0], o.data(), (u32)o.size())) return false;
      clobber(0);
      return true;
    }
    case 2: case 3: {  // sha3_256, sha3_512 (out, in, n)
      if (a[2] > RAM_SIZE) { e.problem = "a hash function is given a wrong length"; return false; }
      if (!in(a[1], a[2], b)) return false;
      u8 h[64];
      sha3(cpu.bkpt == 2 ? 256 : 512, b.data(), b.size(), h);
      if (!out(a[0], h, cpu.bkpt == 2 ? 32 : 64)) return false;
      clobber((u32)mix64(1, cpu.insns));
      return true;
    }
    case 4: {  // shake128(out, outlen, in, inlen)
      if (a[1] > RAM_SIZE || a[3] > RAM_SIZE) { e.problem = "a hash function is given a wrong length"; return false; }
      if (!in(a[2], a[3], b)) return false;
      Bytes o(a[1]);
      shake(128, b.data(), b.size(), o.data(), o.size());
      if (!out(a[0], o.data(), (u32)o.size())) return false;
      clobber((u32)mix64(2, cpu.insns));
      return true;
    }
    case 5: { u64 s[26] = {0}; if (!out(a[0], (u8 *)s, 208)) return false; clobber((u32)mix64(3, cpu.insns)); return true; }
    case 6: {  // absorb(state, in, n)
      u64 s[26];
      if (a[2] > RAM_SIZE) { e.problem = "a hash function is given a wrong length"; return false; }
      if (!state(a[0], s) || !in(a[1], a[2], b)) return false;
      if (s[25] >= 168) { e.problem = "incremental hash state is not initialised"; return false; }
      for (u8 x : b) { ((u8 *)s)[s[25]++] ^= x; if (s[25] == 168) { keccakf(s); s[25] = 0; } }
      if (!out(a[0], (u8 *)s, 208)) return false;
      clobber((u32)mix64(4, cpu.insns));
      return true;
    }
    case 7: {  // finalize
      u64 s[26];
      if (!state(a[0], s)) return false;
      if (s[25] >= 168) { e.problem = "incremental hash state is not initialised"; return false; }
      ((u8 *)s)[s[25]] ^= 0x1f; ((u8 *)s)[167] ^= 0x80; s[25] = 0;
      if (!out(a[0], (u8 *)s, 208)) return false;
      clobber((u32)mix64(5, cpu.insns));
      return true;
    }
    case 8: {  // squeeze(out, n, state): s[25] bytes of the block are left
      u64 s[26];
      if (a[1] > RAM_SIZE) { e.problem = "a hash function is given a wrong length"; return false; }
      if (!state(a[2], s)) return false;
      if (s[25] > 168) { e.problem = "incremental hash state is not initialised"; return false; }
      Bytes o(a[1]);
      for (auto &x : o) { if (!s[25]) { keccakf(s); s[25] = 168; } x = ((u8 *)s)[168 - s[25]--]; }
      if (!out(a[0], o.data(), (u32)o.size()) || !out(a[2], (u8 *)s, 208)) return false;
      clobber((u32)mix64(6, cpu.insns));
      return true;
    }
    case 9: clobber((u32)mix64(7, cpu.insns)); return true;  // release
  }
  e.problem = "breakpoint in the code";
  return false;
}

int M4Core::drive(M4Env &e, u32 fn, u32 a0, u32 a1, u32 a2, int nest) {
  Rng r(mix64(e.seed, 0x4e65));
  for (int i = 0; i < 13; i++) cpu.r[i] = (u32)r.next();
  for (auto &x : cpu.s) x = (u32)r.next();
  cpu.r[0] = a0; cpu.r[1] = a1; cpu.r[2] = a2; cpu.r[3] = (u32)r.next();
  cpu.N = r.below(2); cpu.Z = r.below(2); cpu.C = r.below(2); cpu.V = r.below(2); cpu.Q = r.below(2); cpu.ge = r.below(16); cpu.it = 0;
  u32 sp0 = cpu.r[13];
  cpu.minsp = sp0;
  cpu.r[14] = STOP | 1;
  cpu.r[15] = fn;
  u32 keep[16], keeps[32];
  memcpy(keep, cpu.r, sizeof keep);
  memcpy(keeps, cpu.s, sizeof keeps);
  u64 base = cpu.insns;
  const u64 LIMIT = 20000000;
  size_t q = 0;
  std::map<u32, u32> visits;
  auto interrupt = [&](const Irq &i) {
    e.hit.push_back(cpu.r[15]);
    u32 fs[32];
    memcpy(fs, cpu.s, sizeof fs);
    u32 kr[16];
    memcpy(kr, cpu.r, sizeof kr);
    u32 minsp = cpu.minsp;
    u64 keepins = cpu.insns;
    cpu.exc_entry(0);
    Rng ir(i.seed);
    if (i.kind == 1 && nest == 0) {  // the handler itself runs an operation
      M4Env n;
      n.seed = ir.next();
      Bytes o1, o2, i1 = Bytes(p.skbytes() > p.pkbytes() ? p.skbytes() : p.pkbytes()), i2(p.ctbytes());
      Model m(p);
      Bytes rn(96);
      ir.fill(rn.data(), 96);
      n.rnd = rn.data(); n.nrnd = 96;
      Bytes mpk, msk, mct; u8 mss[32], ss2[32];
      m.keygen(rn.data(), rn.data() + 32, rn.data() + 64, mpk, msk);
      int what = (int)ir.below(3);
      u32 frame = cpu.r[13];
      bool ok = true;
      if (what == 0) { op(KEY, o1, o2, i1, i2, n, 1); ok = o1 == mpk && o2 == msk; }
      else if (what == 1) { m.enc(rn.data(), mpk.data(), mct, mss); op(ENC, o1, o2, mpk, i2, n, 1); ok = o1 == mct && !memcmp(o2.data(), mss, 32); }
      else { m.enc(rn.data(), mpk.data(), mct, mss); mct[ir.below(mct.size())] ^= (u8)ir.below(2); m.dec(mct.data(), msk.data(), ss2); op(DEC, o1, o2, mct, msk, n, 1); ok = !memcmp(o1.data(), ss2, 32); }
      if (!n.problem.empty()) e.problem = "in an operation run by an interrupt handler: " + n.problem;
      else if (!ok) e.problem = "an operation run by an interrupt handler gives a wrong result";
      cpu.r[13] = frame;
    } else {
      u64 q8 = ir.below(8);  // handlers are small, large, and sometimes enormous
      u32 n = ((u32)(q8 == 0 ? ir.range(512, 16384) : q8 < 3 ? ir.range(256, 4096) : ir.range(8, 512)) + 7) & ~7u, at = cpu.r[13] & ~7u;
      u64 g = ir.next();
      for (u32 a = at - 8; a >= at - n && a >= stack_lo; a -= 8) { g = g * 6364136223846793005ull + 1442695040888963407ull; memcpy(cpu.ptr(a, 8), &g, 8); }
    }
    cpu.exc_return();
    memcpy(cpu.s, fs, sizeof fs);
    for (int k = 4; k < 12; k++) cpu.r[k] = kr[k];
    cpu.minsp = minsp;
    cpu.insns = keepins;
  };
  int rc;
  for (;;) {
    if (!e.problem.empty()) return -1;
    if (e.pcs || e.pccount) {
      if (cpu.r[15] == STOP) { rc = A_STOP; break; }
      if (e.pccount) { u32 o = (cpu.r[15] - FLASH) / 2; if (o < e.pccount->size() && !(*e.pccount)[o]++ && e.pcs) e.pcs->push_back(cpu.r[15]); }
      rc = cpu.step();
      if (rc == A_OK) { if (cpu.insns - base > LIMIT) { rc = A_LIMIT; break; } continue; }
    } else if (q < e.irqs.size()) {
      const Irq &i = e.irqs[q];
      if (i.mode == 0) {
        rc = cpu.insns - base >= i.at ? (int)A_LIMIT : cpu.run(base + i.at, STOP);
        if (rc == A_LIMIT) { interrupt(i); q++; continue; }
      } else {
        rc = cpu.run(base + LIMIT, i.pc);
        if (rc == A_STOP) {
          if (++visits[i.pc] > i.at) { interrupt(i); q++; visits.clear(); }
          if (cpu.r[15] == STOP) break;
          rc = cpu.step();
          if (rc == A_OK) continue;
        } else if (rc == A_UNDEF && cpu.r[15] == STOP) break;  // finished without coming by
      }
    } else rc = cpu.run(base + (e.kill ? e.kill : LIMIT), STOP);
    if (rc == A_STOP) break;
    if (rc == A_BKPT) { if (!hle(e)) return -1; continue; }
    if (rc == A_LIMIT && e.kill) { e.killed = true; e.insns = e.kill; return 0; }
    if (rc == A_LIMIT) { e.problem = "does not come to an end"; return -1; }
    if (rc == A_UNIMPL) cannot_simulate("%s: instruction at %08x", id.c_str(), cpu.r[15]);
    e.problem = fstr("processor fault: %s at pc %08x", arm_stop_name(rc), cpu.r[15]);
    if (rc == A_ACCESS || rc == A_ALIGN) e.problem += fstr(" (%s of address %08x)", cpu.fault_write ? "write" : "read", cpu.fault_addr);
    return -1;
  }
  e.insns = cpu.insns - base;
  e.depth = sp0 - cpu.minsp;
  if (cpu.r[13] != sp0) { e.problem = fstr("returns with the stack pointer off by %d", (int)(cpu.r[13] - sp0)); return -1; }
  for (int k = 4; k < 12; k++) if (cpu.r[k] != keep[k]) { e.problem = fstr("returns with register r%d changed", k); return -1; }
  for (int k = 16; k < 32; k++) if (cpu.s[k] != keeps[k]) { e.problem = fstr("returns with register s%d changed", k); return -1; }
  return (int)cpu.r[0];
}

int M4Core::op(int what, Bytes &o1, Bytes &o2, const Bytes &i1, const Bytes &i2, M4Env &e, int nest) {
  Rng r(mix64(e.seed, 0xb0f));
  u32 sp;
  u32 keep_next = buf_next;
  Bytes keep_perm;
  if (!nest) {
    r.fill(cpu.ram.data(), 64);
    u64 g = r.next();
    for (u32 i = 0; i < RAM_SIZE; i += 8) { u64 v = g = g * 6364136223846793005ull + 1442695040888963407ull; memcpy(&cpu.ram[i], &v, 8); }
    memcpy(&cpu.ram[0], image.data(), image.size());
    std::fill(perm.begin(), perm.end(), 0);
    memset(&perm[0], 3, stat_hi - RAM);
    sp = STACK_TOP - 8 * (u32)r.below(64);
    u32 lo = e.stack ? sp - e.stack : STACK_LO;
    memset(&perm[lo - RAM], 3, sp - lo);
    stack_lo = (lo + 7) & ~7u;
    buf_next = (stat_hi + 63) & ~63u;
    cpu.perm = e.guard ? perm.data() : nullptr;
    cpu.tracing = e.trace;
    cpu.trace = 0;
  } else { sp = cpu.r[13]; keep_perm = perm; }
  size_t so1 = what == KEY ? p.pkbytes() : what == ENC ? p.ctbytes() : 32, so2 = what == KEY ? p.skbytes() : what == ENC ? 32 : 0;
  u32 order = (u32)r.below(2), A = 0, B = 0, X = 0, Y = 0;
  auto outs = [&] { A = put(r, so1, 3); if (so2) B = put(r, so2, 3); };
  auto ins = [&] { if (what != KEY) X = put(r, what == ENC ? p.pkbytes() : p.ctbytes(), 1); if (what == DEC) Y = put(r, p.skbytes(), 1); };
  if (order) { outs(); ins(); } else { ins(); outs(); }
  if (X) memcpy(cpu.ptr(X, 1), i1.data(), what == ENC ? p.pkbytes() : p.ctbytes());
  if (Y) memcpy(cpu.ptr(Y, 1), i2.data(), p.skbytes());
  cpu.r[13] = sp;
  int rc = what == KEY ? drive(e, f_key, A, B, 0, nest) : what == ENC ? drive(e, f_enc, A, B, X, nest) : drive(e, f_dec, A, X, Y, nest);
  if (e.trace) e.tracehash = cpu.trace;
  o1.assign(cpu.ptr(A, 1), cpu.ptr(A, 1) + so1);
  o2.clear();
  if (so2) o2.assign(cpu.ptr(B, 1), cpu.ptr(B, 1) + so2);
  if (!nest) image.assign(cpu.ram.begin(), cpu.ram.begin() + image.size());
  else { buf_next = keep_next; perm = keep_perm; }
  return rc;
}

bool M4Impl::load(const std::string &i, const std::string &file, Params q, std::string &err) {
  id = core.id = i;
  p = core.p = q;
  emulated = true;
  return core.load(file, err);
}
std::string EmuImpl::where(u32 pc) {
  std::string fn = "?";
  u32 best = 0;
  for (auto &y : elf().sym) if (y.second.first <= pc && y.second.first > best && y.second.second) { best = y.second.first; fn = y.first; }
  return fstr("%08x in %s", pc, fn.c_str());
}
int EmuImpl::go(int what, Bytes &o1, Bytes &o2, const Bytes &i1, const Bytes &i2, OpEnv &e) {
  M4Env m;
  m.guard = false;
  m.seed = e.seed;
  m.rnd = e.rnd.data();
  m.nrnd = e.rnd.size();
  int rc = op(what, o1, o2, i1, i2, m);
  e.drawn = e.total_drawn = m.drawn;
  e.calls = m.sizes.size();
  e.sizes = m.sizes;
  if (!m.problem.empty()) { fprintf(stderr, "%s: %s\n", id.c_str(), m.problem.c_str()); return -1000; }
  return rc;
}
int EmuImpl::keypair(Bytes &pk, Bytes &sk, OpEnv &e) { return go(M4Core::KEY, pk, sk, {}, {}, e); }
int EmuImpl::enc(Bytes &ct, Bytes &ss, const Bytes &pk, OpEnv &e) { return go(M4Core::ENC, ct, ss, pk, {}, e); }
int EmuImpl::dec(Bytes &ss, const Bytes &ct, const Bytes &sk, OpEnv &e) { Bytes none; return go(M4Core::DEC, ss, none, ct, sk, e); }

std::vector<M4Impl *> load_m4(std::string &err) {
  std::vector<M4Impl *> v;
  std::ifstream f(g_moddir + "/arm.txt");
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string kind, id, file;
    Params p;
    is >> kind >> id >> file >> p.l >> p.packed;
    if (kind != "m4") continue;
    auto *m = new M4Impl;
    if (!m->load(id, file, p, err)) return {};
    v.push_back(m);
  }
  return v;
}
std::vector<EmuImpl *> load_emulated(std::string &err) {
  std::vector<EmuImpl *> v;
  for (auto m : load_m4(err)) v.push_back(m);
  if (auto m = load_m0(err)) v.push_back(m);
  return v;
}
void add_arm_impls(std::vector<Impl *> &v, std::string &err) { for (auto m : load_emulated(err)) v.push_back(m); }
