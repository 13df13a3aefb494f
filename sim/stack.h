// Calls a function on a stack of our own whose stale contents and position the simulator chooses.
#pragma once
#include "core.h"
struct OwnStack {
  u8 *base = nullptr;
  size_t size = 0;
  explicit OwnStack(size_t n);
  // fill: bytes written over the whole stack before the call (seeded); skew: extra bytes (multiple of 16) below the top;
  // regs: garbage for the vector registers
  void call(const std::function<void()> &f, u64 fill, size_t skew, bool garbage_regs);
  size_t touched(u64 fill) const;  // bytes of the stack that were used, judging by the fill pattern
};
