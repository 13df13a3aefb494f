#include "m0.h"
#include <algorithm>
#include <cstdarg>
#include <fstream>
#include <sstream>

enum { FLASH = 0x10001000, FLASH_SIZE = 0x10000, RAM = 0x20000000, RAM_SIZE = 0x4000, SYSTICK_VECTOR = 0x2000003c };

bool Board::fail(const char *fmt, ...) {
  if (!problem.empty()) return false;
  char b[300];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  problem = b;
  return false;
}

bool Board::load(const std::string &file, std::string &err) {
  if (!elf.load(file, err)) return false;
  protos.load(file);
  rnd_narrow = protos.width("randombytes", 1, 'L') == 'I';
  cpu.v6m = true;
  cpu.map(FLASH, FLASH_SIZE, RAM, RAM_SIZE);
  if (!cpu.place(elf, true)) { err = "the firmware does not fit into the memory of the board"; return false; }
  static const char *names[] = {"crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec", "randombytes", "main", "end_tick_count", "start_tick_count", "rng_enable"};
  hooked.assign(FLASH_SIZE / 2 + 1, 0);
  for (int f = 0; f < F_COUNT; f++) {
    fn[f] = elf.addr(names[f]) & ~1u;
    if (!fn[f] && f <= F_MAIN) { err = std::string("no function ") + names[f] + " in the firmware"; return false; }
    if (fn[f] - FLASH < FLASH_SIZE) hooked[(fn[f] - FLASH) / 2] |= 1;
  }
  bss_end = elf.addr("BSS_END");
  for (auto &g : elf.segs) if (g.vaddr >= RAM && g.vaddr < RAM + RAM_SIZE) bss_end = std::max(bss_end, g.vaddr + g.memsz);
  cpu.mmio = [this](u32 a, int size, bool w, u32 &v) { return io(a, size, w, v); };
  return true;
}

void Board::power_up() {
  s = BoardState();
  Rng r(cfg.ramseed);
  r.fill(cpu.ram.data(), cpu.ram.size());
  for (int i = 0; i < 16; i++) cpu.r[i] = (u32)r.next();
  cpu.N = cpu.Z = cpu.C = cpu.V = cpu.Q = 0;
  cpu.it = 0;
  cpu.primask = cpu.handler = false;
  cpu.insns = cpu.cycles = 0;
  u32 sp, pc;
  memcpy(&sp, &cpu.flash[0], 4);
  memcpy(&pc, &cpu.flash[4], 4);
  cpu.r[13] = top = sp & ~3u;
  cpu.r[14] = 0xffffffff;
  cpu.r[15] = pc & ~1u;
  cpu.minsp = cpu.r[13];
  for (u32 i = 0; i < cfg.rx; i++) s.rxq.push_back((u8)r.next());
  for (auto &a : active) if (a.ret - FLASH < FLASH_SIZE) hooked[(a.ret - FLASH) / 2] &= 1;
  for (auto &h : hooked) h &= 1;
  active.clear();
  problem.clear();
  next_fault = 0;
  rand_bits = rand_reads = raw_reads = dry_reads = irqs = frozen = 0;
  irq_pc.clear();
  asleep = false;
  t_running = false; t_on = t_off = 0;
  std::stable_sort(cfg.faults.begin(), cfg.faults.end(), [](const BoardCfg::F &a, const BoardCfg::F &b) { return a.at < b.at; });
}

void Board::snapshot(BoardState &b) {
  b = s;
  memcpy(b.r, cpu.r, sizeof b.r);
  b.N = cpu.N; b.Z = cpu.Z; b.C = cpu.C; b.V = cpu.V; b.primask = cpu.primask; b.handler = cpu.handler; b.insns = cpu.insns; b.cycles = cpu.cycles; b.minsp = cpu.minsp;
  b.ram = cpu.ram;
}
void Board::restore(const BoardState &b) {
  s = b;
  s.ram.clear();
  memcpy(cpu.r, b.r, sizeof b.r);
  cpu.N = b.N; cpu.Z = b.Z; cpu.C = b.C; cpu.V = b.V; cpu.primask = b.primask; cpu.handler = b.handler; cpu.insns = b.insns; cpu.cycles = b.cycles; cpu.minsp = b.minsp;
  cpu.it = 0;
  cpu.ram = b.ram;
  for (auto &h : hooked) h &= 1;
  active.clear();
  problem.clear();
  asleep = false;
}

// ---- timer
void Board::plan_tick() {
  if (!(s.csr & 1) || !(s.rvr || s.cvr)) { s.next_tick = ~0ull; return; }
  u64 div = s.csr & 4 ? 1 : 244;
  s.next_tick = s.tick_at + (s.cvr ? s.cvr : 1 + (u64)s.rvr) * div;
}
void Board::sync_tick(u64 t) {
  if (!(s.csr & 1)) { s.tick_at = t; return; }
  u64 div = s.csr & 4 ? 1 : 244, n = (t - s.tick_at) / div, w = 0;
  s.tick_at += n * div;
  if (n && s.cvr) { if (n < s.cvr) { s.cvr -= (u32)n; n = 0; } else { n -= s.cvr; s.cvr = 0; w++; } }
  if (n && !s.cvr && s.rvr) {
    u64 per = (u64)s.rvr + 1;
    w += n / per;
    n %= per;
    s.cvr = n ? s.rvr - (u32)(n - 1) : 0;
  }
  if (w) { s.csr |= 1u << 16; s.wraps += w; if (s.csr & 2) s.pend = true; }
  plan_tick();
}

// ---- serial line
u64 Board::byte_time() const {
  auto g = [&](u32 o) { auto it = s.reg.find(0x48000000 + o); return it == s.reg.end() ? 0u : it->second; };
  u32 fdr = g(0x10), brg = g(0x14);
  u64 step = fdr & 0x3ff;
  double f = (fdr >> 14 & 3) == 2 ? step / 1024.0 : (fdr >> 14 & 3) == 1 ? 1.0 / (1024 - step) : 0;
  if (f <= 0) return 0;
  double bit = ((brg >> 16 & 0x3ff) + 1.0) * ((brg >> 8 & 3) + 1.0) * ((brg >> 10 & 0x1f) + 1.0) / f;
  return (u64)(bit * 10 + 0.5);
}
void Board::sync_uart(u64 t) {
  auto g = [&](u32 a) { auto it = s.reg.find(a); return it == s.reg.end() ? 0u : it->second; };
  while (!s.tx.empty()) {
    if ((g(0x48000040) & 15) != 2 || (g(0x48000038) >> 10 & 3) == 0) return;  // not an enabled serial channel
    u64 bt = byte_time();
    if (!bt) return;
    u64 start = std::max(s.tx_free, s.tx.front().second);
    if (start > t) return;
    u8 b = s.tx.front().first;
    s.tx.pop_front();
    u64 took = bt * cfg.line / 100;
    for (auto &x : cfg.line_stalls) if (x.first == s.sent) took += x.second;
    s.sent++;
    s.tx_free = start + took;
    // what a receiver set to 115200 baud, 8 data bits sees
    u32 idiv = s.clkcr >> 8 & 0xff;
    double nominal = 10.0 * (idiv ? 32000000.0 / idiv : 64000000.0) / 115200.0;
    bool good = bt > nominal * 0.97 && bt < nominal * 1.03 && (g(0x48000034) >> 24 & 15) == 7;
    if ((g(0x40040210) >> 11 & 0x1f) != 0x16) continue;  // the pin is not connected to the channel
    s.out.push_back(good ? (char)b : (char)(b ^ 0x5a));
    s.last_out = s.tx_free;
  }
}
void Board::drain() {
  u64 t = now();
  for (int k = 0; k < 400 && !s.tx.empty(); k++) { t = std::max(t, s.tx_free) + 1; sync_uart(t); if (!byte_time()) break; }
}

// ---- registers
bool Board::io(u32 a, int size, bool write, u32 &v) {
  u64 t = now();
  u32 w = a & ~3u;
  if (a >= 0xe0000000) {
    if (size != 4) return false;
    switch (a) {
      case 0xe000e010:
        sync_tick(t);
        if (write) {
          bool was = s.csr & 1, is = v & 1;
          s.csr = (s.csr & 1u << 16) | (v & 7);
          s.tick_at = t;
          if (!was && is) { t_on = t; t_running = true; t_wraps_on = s.wraps; on_frozen = frozen; }
          if (was && !is) { t_off = t; t_running = false; if (timer_stopped) timer_stopped(t_on, t, s.wraps - t_wraps_on, s.cvr); }
          plan_tick();
        } else { v = s.csr; s.csr &= ~(1u << 16); }
        return true;
      case 0xe000e014: sync_tick(t); if (write) { s.rvr = v & 0xffffff; plan_tick(); } else v = s.rvr; return true;
      case 0xe000e018: sync_tick(t); if (write) { s.cvr = 0; s.csr &= ~(1u << 16); s.tick_at = t; plan_tick(); } else v = s.cvr; return true;
      case 0xe000e01c: if (!write) v = 0x40000000; return true;
      case 0xe000ed04:
        if (write) { if (v & 1u << 25) s.pend = false; if (v & 1u << 26) s.pend = true; }
        else v = (s.pend ? 1u << 26 : 0) | (cpu.handler ? 15 : 0);
        return true;
    }
    if (write) s.reg[a] = v; else { auto it = s.reg.find(a); v = it == s.reg.end() ? 0 : it->second; }
    return a < 0xe000f000;
  }
  auto merge = [&](u32 old) { if (size == 4) return v; u32 m = (size == 1 ? 0xffu : 0xffffu) << 8 * (a & 3); return (old & ~m) | (v << 8 * (a & 3) & m); };
  auto give = [&](u32 x) { x >>= 8 * (a & 3); v = size == 4 ? x : size == 2 ? x & 0xffff : x & 0xff; return true; };
  if (w >= 0x40010000 && w < 0x40012000) {
    switch (w - 0x40010000) {
      case 0x24: if (write) { u32 x = merge(0) & 0xff; if (x == 0xc0) s.locked = false; if (x == 0xc3) s.locked = true; return true; } return give(s.locked ? 0xc3 : 0xc0);
      case 0x300:
        if (write) { if (!s.locked) { s.clkcr = merge(s.clkcr) & ~(1u << 30); s.clk_at = t + cfg.clk_busy; } return true; }
        return give(s.clkcr | (t < s.clk_at ? 1u << 30 : 0));
      case 0x308: if (!write) return give(s.gated ? 8 : 0); return true;
      case 0x30c: if (write) { if (!s.locked && merge(0) & 8) s.gated = true; return true; } return give(0);
      case 0x310: if (write) { if (!s.locked && merge(0) & 8) s.gated = false; return true; } return give(0);
    }
  } else if (w >= 0x48000000 && w < 0x48000400) {
    if (s.gated) return fail("the serial channel is used while its clock is off");
    u32 o = w - 0x48000000;
    if ((o >= 0x180 && o < 0x200) || (o >= 0x80 && o < 0x100)) {
      sync_uart(t);
      if (!write) return give(0);
      u32 sz = s.reg.count(0x48000108) ? s.reg[0x48000108] >> 24 & 7 : 0;
      u32 cap = o >= 0x180 ? (sz ? 1u << sz : 0) : 1;
      if (s.tx.size() >= cap) s.lost++;
      else { s.tx.push_back({(u8)merge(0), t}); sync_uart(t); }
      return true;
    }
    if (o == 0x114) {
      sync_uart(t);
      u32 sz = s.reg.count(0x48000108) ? s.reg[0x48000108] >> 24 & 7 : 0;
      if (!write) return give((s.rxq.empty() ? 8u : 0) | (s.tx.empty() ? 1u << 11 : 0) | (sz && s.tx.size() >= (1u << sz) ? 1u << 12 : 0) | (u32)s.tx.size() << 24 | (u32)s.rxq.size() << 16);
      return true;
    }
    if (o == 0x11c) { if (!write) { u32 x = 0; if (!s.rxq.empty()) { x = s.rxq.front(); s.rxq.pop_front(); } return give(x); } return true; }
    sync_uart(t);
  } else if (w >= 0x48020000 && w < 0x48020010) {
    switch (w - 0x48020000) {
      case 0:
        if (write) {
          if (s.pctrl & 8) {
            if (t >= s.pready) { s.key = mix64(s.key, merge(0) & 0xffff); s.nkey++; s.pready = t + cfg.prng_busy; }
            s.loaded = s.nkey >= 5; s.warm = 4;
          }
          return true;
        } else {
          u32 bs = s.pctrl >> 1 & 3, x = 0;
          bool asked = false;
          for (auto &c : active) if (c.f == F_RAND) asked = true;
          if ((s.pctrl & 8) || !s.loaded || (bs != 1 && bs != 2)) { if (asked) dry_reads++; return give(0); }
          if (s.warm) { s.warm--; if (asked) raw_reads++; return give((u32)mix64(s.key, 0x77 + s.warm) & 0xffff); }
          x = (u32)mix64(mix64(cfg.prng, s.key), s.words) & (bs == 2 ? 0xffff : 0xff);
          if ((i64)s.words == cfg.flip_word) x ^= 1u << cfg.flip_bit % (bs == 2 ? 16 : 8);
          s.words++;
          if (asked) { rand_reads++; rand_bits += bs == 2 ? 16 : 8; }
          return give(x);
        }
      case 4: if (!write) return give(t >= s.pready ? 1 : 0); return true;
      case 0xc:
        if (write) { u32 x = merge(s.pctrl) & 0xf; if ((x & 8) && !(s.pctrl & 8)) { s.nkey = 0; s.key = 0; s.loaded = false; } s.pctrl = x; return true; }
        return give(s.pctrl);
    }
    return false;
  } else if (!(w >= 0x40040000 && w < 0x40040300)) return false;
  if (write) { u32 &x = s.reg[w]; x = merge(x); return true; }
  auto it = s.reg.find(w);
  return give(it == s.reg.end() ? 0 : it->second);
}

void Board::sleep(u64 cycles) { asleep = true; sleep_wraps = -1; sleep_until = now() + cycles; }
void Board::sleep_to(u64 wraps, u32 left) { asleep = true; sleep_wraps = (i64)wraps; sleep_left = left; sleep_irqs = irqs; sleep_until = ~0ull >> 1; if (!(s.csr & 1) || !s.rvr) sleep(5000); }
void Board::add_faults(const std::vector<BoardCfg::F> &f) {
  for (auto x : f) { x.at += cpu.insns; cfg.faults.push_back(x); }
  std::stable_sort(cfg.faults.begin() + (long)next_fault, cfg.faults.end(), [](const BoardCfg::F &a, const BoardCfg::F &b) { return a.at < b.at; });
}

// one instruction, or one event
int Board::one() {
  u64 t = now();
  while (next_fault < cfg.faults.size() && cfg.faults[next_fault].at <= cpu.insns) {
    auto &f = cfg.faults[next_fault++];
    if (f.kind == X_LOSS) return E_LOST;
    if (f.kind == X_STALL) { s.extra += (u64)f.a; frozen += (u64)f.a; t = now(); }
    if (f.kind == X_TICK && (s.csr & 1)) { sync_tick(t); s.cvr = (u32)std::min<i64>(std::max<i64>(f.a, 1), 0xffffff); s.tick_at = t; plan_tick(); }
  }
  if (asleep && !cpu.handler) {
    if (sleep_wraps >= 0 && !s.pend) {
      sync_tick(t);
      if (!s.pend && (i64)(irqs - sleep_irqs) >= sleep_wraps && s.cvr) sleep_until = t + (s.cvr > sleep_left ? s.cvr - sleep_left : 0);
    }
    if (t < sleep_until) { u64 to = std::min(sleep_until, std::max(s.next_tick, t + 1)); s.extra += to - t; t = now(); }
    if (t >= sleep_until) { asleep = false; cpu.r[0] = 0; cpu.r[15] = cpu.r[14] & ~1u; }
  }
  if (t >= s.next_tick) sync_tick(t);
  if (s.pend && !cpu.primask && !cpu.handler) {
    s.pend = false;
    irqs++;
    if (irq_pc.size() < 4096) irq_pc.push_back(cpu.r[15]);
    cpu.exc_entry(SYSTICK_VECTOR);
    if (cpu.minsp < bss_end) { fail("an interrupt pushes the stack into the static data (%08x, data ends at %08x)", cpu.minsp, bss_end); return E_FAULT; }
  }
  if (asleep && !cpu.handler) return -1;
  u32 pc = cpu.r[15];
  if (!cpu.handler && pc - FLASH < FLASH_SIZE && hooked[(pc - FLASH) / 2]) {
    u8 h = hooked[(pc - FLASH) / 2];
    if (h >> 1)
      while (!active.empty() && active.back().ret == pc && active.back().sp == cpu.r[13]) {
        int f = active.back().f;
        active.pop_back();
        hooked[(pc - FLASH) / 2] -= 2;
        if (hook && !hook(f, true)) return E_STOPPED;
        if (f == F_MAIN) return E_DONE;
      }
    if (h & 1)
      for (int f = 0; f < F_COUNT; f++)
        if (fn[f] == pc && !(active.size() && active.back().f == f && active.back().sp == cpu.r[13] && active.back().ret == (cpu.r[14] & ~1u))) {
          u32 ret = cpu.r[14] & ~1u;
          if (ret - FLASH < FLASH_SIZE && hooked[(ret - FLASH) / 2] < 200) {
            active.push_back({f, ret, cpu.r[13]});
            hooked[(ret - FLASH) / 2] += 2;
          }
          if (hook && !hook(f, false)) return E_STOPPED;
          if (asleep) return -1;
        }
  }
  int rc = cpu.step();
  if (rc == A_OK) {
    if (cpu.r[15] == pc && !cpu.handler && !(s.csr & 1)) return E_DONE;  // idles for ever
  } else if (rc == A_EXCRET) {
    if (!cpu.handler) return E_DONE;  // nothing to return to: the program is over
    if (!cpu.exc_return()) { fail("the interrupt handler returns with a wrong stack pointer"); return E_FAULT; }
  } else {
    if (problem.empty()) fail("%s at %08x (address %08x) in the firmware", arm_stop_name(rc), pc, cpu.fault_addr);
    return E_FAULT;
  }
  if (cpu.minsp < bss_end) { fail("the stack runs into the static data (%08x, data ends at %08x)", cpu.minsp, bss_end); return E_FAULT; }
  return -1;
}
int Board::run() {
  while (cpu.insns < cfg.limit) {
    int rc = one();
    if (rc >= 0) return rc;
  }
  return E_LIMIT;
}
int Board::run_until(u32 stop, u64 more) {
  u64 end = cpu.insns + more;
  while (cpu.insns < end) {
    if (cpu.r[15] == stop && !cpu.handler) return E_STOPPED;
    int rc = one();
    if (rc >= 0) return rc;
  }
  return E_LIMIT;
}

// ---- the functions of the firmware as an implementation
bool find_m0(std::string &file, std::string &err, const char *which) {
  std::ifstream f(g_moddir + "/arm.txt");
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string kind, id;
    if (is >> kind >> id >> file && kind == which) return true;
  }
  err = "no image for the Cortex-M0 board";
  return false;
}
Params m0_params() { Params p; p.l = 3; p.rev = 1; return p; }

bool M0Impl::load(const std::string &file, std::string &err) {
  id = "m0-Saber";
  p = m0_params();
  emulated = true;
  if (!b.load(file, err)) return false;
  b.cfg = BoardCfg();
  b.power_up();
  b.hook = [](int f, bool) { return f != F_MAIN; };
  booted = b.run() == E_STOPPED;
  b.hook = nullptr;
  b.snapshot(boot);
  perm.assign(RAM_SIZE, 0);
  reset();
  return true;
}
void M0Impl::reset() { image.assign(boot.ram.begin(), boot.ram.begin() + (b.bss_end - RAM)); }
int M0Impl::op(int what, Bytes &o1, Bytes &o2, const Bytes &i1, const Bytes &i2, M4Env &e) {
  if (!booted) { e.problem = "the firmware does not reach its main function"; return -1; }
  const u32 STOP = 0xf0000000;
  Rng r(mix64(e.seed, 0xb0f0));
  b.cfg = BoardCfg();
  b.power_up();
  b.restore(boot);
  r.fill(b.cpu.ram.data() + image.size(), b.cpu.ram.size() - image.size());
  memcpy(b.cpu.ram.data(), image.data(), image.size());
  // the caller's frame holds all the buffers, as the firmware's does
  u32 size[4] = {(u32)p.pkbytes(), (u32)p.skbytes(), (u32)p.ctbytes(), 32}, at[4], next = boot.r[13] & ~7u;
  int order[4] = {0, 1, 2, 3};
  for (int i = 3; i > 0; i--) std::swap(order[i], order[r.below((u64)i + 1)]);
  for (int i = 0; i < 4; i++) { next -= (size[order[i]] + 7) & ~7u; at[order[i]] = next; }
  u32 sp = next;
  enum { PK, SK, CT, SS };
  auto put = [&](int k, const Bytes &d) { memcpy(b.cpu.ptr(at[k], 1), d.data(), std::min<size_t>(d.size(), size[k])); };
  std::fill(perm.begin(), perm.end(), 0);
  memset(&perm[0], 3, image.size());
  memset(&perm[b.bss_end - RAM], 3, sp - b.bss_end);
  auto allow = [&](int k, u8 v) { memset(&perm[at[k] - RAM], v, size[k]); };
  for (int i = 0; i < 13; i++) b.cpu.r[i] = (u32)r.next();
  b.cpu.N = r.below(2); b.cpu.Z = r.below(2); b.cpu.C = r.below(2); b.cpu.V = r.below(2);
  b.cpu.r[13] = b.cpu.minsp = sp;
  b.cpu.r[14] = STOP | 1;
  if (what == M4Core::KEY) { b.cpu.r[0] = at[PK]; b.cpu.r[1] = at[SK]; allow(PK, 3); allow(SK, 3); }
  else if (what == M4Core::ENC) { put(PK, i1); b.cpu.r[0] = at[CT]; b.cpu.r[1] = at[SS]; b.cpu.r[2] = at[PK]; allow(CT, 3); allow(SS, 3); allow(PK, 1); }
  else { put(CT, i1); put(SK, i2); b.cpu.r[0] = at[SS]; b.cpu.r[1] = at[CT]; b.cpu.r[2] = at[SK]; allow(SS, 3); allow(CT, 1); allow(SK, 1); }
  b.cpu.r[15] = b.fn[what == M4Core::KEY ? F_KEY : what == M4Core::ENC ? F_ENC : F_DEC];
  b.cpu.perm = e.guard ? perm.data() : nullptr;
  b.cpu.tracing = e.trace;
  b.cpu.trace = 0;
  u32 keep[16];
  memcpy(keep, b.cpu.r, sizeof keep);
  auto random = [&] {
    u32 x = b.cpu.r[0];
    u64 n = b.rnd_length();
    if (n > RAM_SIZE) return b.fail("randombytes is asked for more than all memory");
    for (u64 i = 0; i < n; i++) {
      u8 v = e.drawn + i < e.nrnd ? e.rnd[e.drawn + i] : (u8)mix64(e.seed, 0x7000 + e.drawn + i);
      if (!b.cpu.wr(x + (u32)i, 1, v)) return b.fail("random bytes go to %08x, outside the memory given", x + (u32)i);
    }
    e.drawn += n;
    e.sizes.push_back(n);
    if (e.trace) { b.cpu.tr(x); b.cpu.tr((u32)n); }
    b.cpu.r[0] = 0;
    b.cpu.r[15] = b.cpu.r[14] & ~1u;
    return true;
  };
  u64 base = b.cpu.insns, limit = base + (e.kill ? e.kill : 40000000);
  int rc;
  for (;;) {  // no interrupts: the timer is off
    int st = b.cpu.run(limit, b.fn[F_RAND]);
    if (st == A_STOP) { if (random()) continue; rc = E_FAULT; }
    else if (st == A_LIMIT) rc = E_LIMIT;
    else if (b.cpu.r[15] == STOP) rc = E_STOPPED;
    else { b.fail("%s at %s (address %08x)", arm_stop_name(st), where(b.cpu.r[15]).c_str(), b.cpu.fault_addr); rc = E_FAULT; }
    break;
  }
  if (b.cpu.minsp < b.bss_end) b.fail("the stack runs into the static data");
  b.cpu.perm = nullptr;
  b.cpu.tracing = false;
  e.insns = b.cpu.insns - base;
  e.depth = sp - b.cpu.minsp;
  if (e.trace) e.tracehash = b.cpu.trace;
  auto get = [&](int k) { return Bytes(b.cpu.ptr(at[k], 1), b.cpu.ptr(at[k], 1) + size[k]); };
  o2.clear();
  if (what == M4Core::KEY) { o1 = get(PK); o2 = get(SK); } else if (what == M4Core::ENC) { o1 = get(CT); o2 = get(SS); } else o1 = get(SS);
  image.assign(b.cpu.ram.begin(), b.cpu.ram.begin() + (long)image.size());
  if (rc == E_LIMIT && e.kill) { e.killed = true; return 0; }
  if (rc == E_LIMIT) { e.problem = "does not come to an end"; return -1; }
  if (rc != E_STOPPED || !b.problem.empty()) { e.problem = b.problem.empty() ? "does not return" : b.problem; return -1; }
  if (b.cpu.r[13] != sp) { e.problem = "returns with a different stack pointer"; return -1; }
  for (int k = 4; k < 12; k++) if (b.cpu.r[k] != keep[k]) { e.problem = "returns with register r" + std::to_string(k) + " changed"; return -1; }
  return (int)b.cpu.r[0];
}
M0Impl *load_m0(std::string &err) {
  std::string file, none;
  if (!find_m0(file, none)) return nullptr;
  auto *m = new M0Impl;
  if (!m->load(file, err)) { delete m; return nullptr; }
  return m;
}
