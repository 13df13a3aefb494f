// Instruction-level simulator of ARMv6-M (Cortex-M0) and ARMv7E-M (Cortex-M4, integer and FP moves).
#pragma once
#include "core.h"

enum ArmStop { A_OK, A_LIMIT, A_STOP, A_BKPT, A_UNIMPL, A_UNDEF, A_ALIGN, A_ACCESS, A_EXCRET, A_SVC };
const char *arm_stop_name(int s);

struct Ins { u16 k = 0; u8 d = 0, n = 0, m = 0, a = 0, len = 2, s = 0, sht = 0, shn = 0, cyc = 1; u32 imm = 0; };

struct Elf32 {  // a linked image
  struct Seg { u32 vaddr, paddr, filesz, memsz; Bytes data; bool w; };
  std::vector<Seg> segs;
  std::map<std::string, std::pair<u32, u32>> sym;  // address, size
  bool load(const std::string &file, std::string &err);
  u32 addr(const char *n) const { auto it = sym.find(n); return it == sym.end() ? 0 : it->second.first; }
};

struct Arm {
  bool v6m = false;
  u32 r[16] = {0};
  u8 N = 0, Z = 0, C = 0, V = 0, Q = 0, ge = 0;
  u8 it = 0;
  bool primask = false, handler = false;
  u32 s[32] = {0};
  u64 insns = 0, cycles = 0;
  u32 minsp = 0xffffffff;

  u32 flash_base = 0, flash_size = 0, ram_base = 0, ram_size = 0;
  Bytes flash, ram;
  const u8 *perm = nullptr;  // per byte of RAM: 1 readable, 2 writable; null: everything
  std::vector<Ins> cache;
  // memory-mapped registers; return false: no such register
  std::function<bool(u32 addr, int size, bool write, u32 &v)> mmio;
  // trace of the course of execution
  bool tracing = false;
  u64 trace = 0;
  std::vector<u32> *trrec = nullptr;  // the trace itself, to find out where two differ
  void tr(u32 v) { if (trrec) trrec->push_back(v); trace = (trace ^ v) * 0x9e3779b97f4a7c15ull; trace ^= trace >> 29; }

  u32 fault_addr = 0, bkpt = 0;
  bool fault_write = false;

  void map(u32 fb, u32 fs, u32 rb, u32 rs);
  bool place(const Elf32 &e, bool at_load_address);
  void decode(u32 pc, Ins &i);
  int step();                       // one instruction
  int run(u64 limit, u32 stop_pc);  // until so many instructions were executed, pc reaches stop_pc, or something happens
  void exc_entry(u32 target);       // pushes the frame, enters the handler
  bool exc_return();
  u32 xpsr() const { return (u32)N << 31 | (u32)Z << 30 | (u32)C << 29 | (u32)V << 28 | (u32)Q << 27 | (u32)(it & 3) << 25 | (u32)ge << 16 | (u32)(it >> 2) << 10 | 1u << 24; }
  void set_xpsr(u32 x) { N = x >> 31; Z = x >> 30 & 1; C = x >> 29 & 1; V = x >> 28 & 1; Q = x >> 27 & 1; ge = x >> 16 & 15; it = (x >> 25 & 3) | (x >> 10 & 0x3f) << 2; }

  bool rd(u32 a, int size, u32 &v);
  bool wr(u32 a, int size, u32 v);
  bool ld(u32 a, int size, u32 &v, bool strict = false);
  bool st(u32 a, int size, u32 v, bool strict = false);
  u8 *ptr(u32 a, u32 n) { return a >= ram_base && a - ram_base <= ram_size && n <= ram_size - (a - ram_base) ? &ram[a - ram_base] : nullptr; }
  int err = 0;
 private:
  void dec16(u32 op, Ins &i, u32 pc);
  void dec32(u32 h1, u32 h2, Ins &i, u32 pc);
  int exec(const Ins &i, u32 pc);
  bool cond(u32 c) const;
};
