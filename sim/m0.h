// The Cortex-M0 board: the firmware image on the simulated core with timer, serial line, generator, clock and ports.
#pragma once
#include <deque>
#include "protos.h"
#include "arm.h"
#include "m4.h"
#include "model.h"

enum M0Fn { F_KEY, F_ENC, F_DEC, F_RAND, F_MAIN, F_END, F_START, F_RNGINIT, F_COUNT };
enum M0Fault { X_STALL, X_TICK, X_LOSS };  // processor frozen for some cycles; timer value changed; power lost
enum M0End { E_DONE, E_LOST, E_FAULT, E_LIMIT, E_STOPPED };

struct BoardCfg {
  u64 ramseed = 1;      // memory contents at power-up
  u64 prng = 1;         // generator
  u32 wait = 1;         // clock cycles per processor cycle (slow memory)
  u32 line = 100;       // per cent of the nominal time a byte needs to leave
  std::vector<std::pair<u64, u64>> line_stalls;   // (byte number, cycles)
  u64 clk_busy = 0, prng_busy = 0;
  u32 rx = 0;           // bytes waiting in the receive buffer at power-up
  i64 flip_word = -1; u32 flip_bit = 0;           // a bit of the generator's output that comes out differently
  struct F { u64 at; int kind; i64 a; };
  std::vector<F> faults;   // at: instruction number since power-up
  u64 limit = 400000000;   // instructions
};

struct BoardState {  // everything that a running board consists of, flash apart
  u32 r[16]; u8 N, Z, C, V; bool primask, handler; u64 insns, cycles; u32 minsp;
  Bytes ram;
  u64 extra = 0;                    // clock cycles beyond the processor's own
  u32 csr = 0, rvr = 0, cvr = 0; bool pend = false; u64 tick_at = 0, next_tick = ~0ull; u64 wraps = 0;
  std::map<u32, u32> reg;
  bool locked = true, gated = true; u64 clk_at = 0; u32 clkcr = 0x3ff00400;
  std::deque<std::pair<u8, u64>> tx; std::deque<u8> rxq; u64 tx_free = 0, sent = 0, lost = 0;
  std::string out; u64 last_out = 0;
  u32 pctrl = 0; u64 pready = 0; int nkey = 0; u64 key = 0; u64 words = 0; int warm = 0; bool loaded = false;
};

struct Board {
  Elf32 elf;
  Protos protos;
  bool rnd_narrow = false;         // randombytes takes a length of 32 bits
  Arm cpu;
  BoardCfg cfg;
  BoardState s;
  u32 fn[F_COUNT] = {0};
  u32 bss_end = 0, top = 0;
  std::string problem;
  u64 rnd_length() const { return rnd_narrow ? cpu.r[1] : cpu.r[2] | (u64)cpu.r[3] << 32; }
  // called at entry and exit of the functions above; return false to stop
  std::function<bool(int f, bool exit)> hook;
  struct Act { int f; u32 ret, sp; };
  std::vector<Act> active;
  std::vector<u8> hooked;          // by (pc - flash) / 2
  // words the generator delivered while the application was asking for random bytes
  u64 rand_bits = 0, rand_reads = 0, raw_reads = 0, dry_reads = 0;
  u64 irqs = 0, frozen = 0;
  std::vector<u32> irq_pc;
  u64 sleep_until = 0; bool asleep = false; i64 sleep_wraps = -1; u32 sleep_left = 0; u64 sleep_irqs = 0;
  // timer running intervals seen at the register
  u64 t_on = 0, t_off = 0; bool t_running = false; u64 t_wraps_on = 0, on_frozen = 0;

  std::function<void(u64 on, u64 off, u64 wraps, u64 left)> timer_stopped;
  bool load(const std::string &file, std::string &err);
  void power_up();
  int run();                       // until the program ends or something happens
  int run_until(u32 pc, u64 more); // for calls made by the scenario
  void drain();
  u64 now() const { return cpu.cycles * cfg.wait + s.extra; }
  void snapshot(BoardState &b);
  void restore(const BoardState &b);
  void sleep(u64 cycles);          // the current function is replaced by one that takes so long and does nothing
  void sleep_to(u64 wraps, u32 left);  // ... or so many timer interrupts, and until the timer is that close to the next
  void add_faults(const std::vector<BoardCfg::F> &f);  // counted from now
  bool fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
 private:
  size_t next_fault = 0;
  void sync_tick(u64 t);
  void plan_tick();
  void sync_uart(u64 t);
  u64 byte_time() const;
  bool io(u32 a, int size, bool write, u32 &v);
  int one();
};

// The key exchange functions of the firmware, called by the simulator; randomness is the simulator's.
struct M0Impl : EmuImpl {
  Board b;
  BoardState boot;
  bool booted = false;
  Bytes image;
  Bytes perm;
  Arm &cpu() override { return b.cpu; }
  const Elf32 &elf() override { return b.elf; }
  bool load(const std::string &file, std::string &err);
  int op(int what, Bytes &o1, Bytes &o2, const Bytes &i1, const Bytes &i2, M4Env &e) override;
  void save(Bytes &img) override { img = image; }
  void restore(const Bytes &img) override { image = img; }
  void reset() override;
};
M0Impl *load_m0(std::string &err);   // null: the checks were not built with it
bool find_m0(std::string &file, std::string &err, const char *which = "m0");
Params m0_params();
