// A Cortex-M4 node: the project's code, compiled for the processor, running on the simulated core.
#pragma once
#include "arm.h"
#include "module.h"

struct Irq { int mode; u64 at; u32 pc; u64 seed; int kind; };  // mode 0: before instruction number 'at'; 1: at the at-th visit of 'pc'
struct M4Env {
  u64 seed = 1;
  const u8 *rnd = nullptr;
  size_t nrnd = 0;
  std::vector<Irq> irqs;
  u32 stack = 0;             // bytes of stack below the caller, 0: plenty
  bool trace = false;
  u64 kill = 0;              // abandoned after so many instructions
  bool guard = true;         // memory protection
  // results
  bool killed = false;
  std::string problem;       // empty: came back in good order
  u64 insns = 0, tracehash = 0;
  u32 depth = 0;             // stack used
  size_t drawn = 0;
  std::vector<size_t> sizes;
  std::vector<u32> hit;      // where interrupts came in
  std::vector<u32> *pcs = nullptr;   // distinct program counters, in order of first execution
  std::vector<u32> *pccount = nullptr;   // executions by (pc - flash) / 2
};

struct M4Core {
  Elf32 elf;
  Arm cpu;
  Params p;
  std::string id;
  Bytes perm;
  u32 f_key = 0, f_enc = 0, f_dec = 0, data_end = 0;
  Bytes image;  // static data of the running process
  u32 stat_lo = 0, stat_hi = 0;
  bool load(const std::string &file, std::string &err);
  void reset();
  enum { KEY, ENC, DEC };
  // out1,out2,in1,in2 by operation; all sizes from the parameter set. Returns the function's value.
  int op(int what, Bytes &o1, Bytes &o2, const Bytes &i1, const Bytes &i2, M4Env &e, int nest = 0);
 private:
  u32 stack_lo = 0;
  bool hle(M4Env &e);
  int drive(M4Env &e, u32 fn, u32 a0, u32 a1, u32 a2, int nest);
  u32 buf_next = 0;
  u32 put(Rng &r, size_t n, u8 perms);
};

// An implementation that runs on a simulated processor.
struct EmuImpl : Impl {
  // what: M4Core::KEY, ENC, DEC
  virtual int op(int what, Bytes &o1, Bytes &o2, const Bytes &i1, const Bytes &i2, M4Env &e) = 0;
  virtual Arm &cpu() = 0;
  virtual const Elf32 &elf() = 0;
  std::string where(u32 pc);  // function and address
  int keypair(Bytes &pk, Bytes &sk, OpEnv &e) override;
  int enc(Bytes &ct, Bytes &ss, const Bytes &pk, OpEnv &e) override;
  int dec(Bytes &ss, const Bytes &ct, const Bytes &sk, OpEnv &e) override;
 private:
  int go(int what, Bytes &o1, Bytes &o2, const Bytes &i1, const Bytes &i2, OpEnv &e);
};
struct M4Impl : EmuImpl {
  M4Core core;
  bool load(const std::string &id, const std::string &file, Params q, std::string &err);
  Arm &cpu() override { return core.cpu; }
  const Elf32 &elf() override { return core.elf; }
  int op(int what, Bytes &o1, Bytes &o2, const Bytes &i1, const Bytes &i2, M4Env &e) override { return core.op(what, o1, o2, i1, i2, e); }
  void save(Bytes &img) override { img = core.image; }
  void restore(const Bytes &img) override { core.image = img; }
  void reset() override { core.reset(); }
};
std::vector<M4Impl *> load_m4(std::string &err);
std::vector<EmuImpl *> load_emulated(std::string &err);  // Cortex-M4 and Cortex-M0
[[noreturn]] void cannot_simulate(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
