#include "stack.h"

#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

OwnStack::OwnStack(size_t n) {
  size_t pg = sysconf(_SC_PAGESIZE);
  size = (n + pg - 1) / pg * pg;
  u8 *p = (u8 *)mmap(nullptr, size + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(p, pg, PROT_NONE);
  mprotect(p + pg + size, pg, PROT_NONE);
  base = p + pg;
}

static thread_local const std::function<void()> *cur;
static thread_local bool cur_garbage;
static thread_local u64 cur_fill;

static void trampoline() {
  if (cur_garbage) {
    alignas(32) u64 g[8];
    for (int i = 0; i < 8; i++) g[i] = mix64(cur_fill, i);
    asm volatile(
        "vmovdqu (%0), %%ymm0\n vmovdqu 32(%0), %%ymm1\n vmovdqa %%ymm0, %%ymm2\n vmovdqa %%ymm1, %%ymm3\n vmovdqa %%ymm0, %%ymm4\n"
        "vmovdqa %%ymm1, %%ymm5\n vmovdqa %%ymm0, %%ymm6\n vmovdqa %%ymm1, %%ymm7\n vmovdqa %%ymm0, %%ymm8\n vmovdqa %%ymm1, %%ymm9\n"
        "vmovdqa %%ymm0, %%ymm10\n vmovdqa %%ymm1, %%ymm11\n vmovdqa %%ymm0, %%ymm12\n vmovdqa %%ymm1, %%ymm13\n vmovdqa %%ymm0, %%ymm14\n"
        "vmovdqa %%ymm1, %%ymm15\n" ::"r"(g)
        : "memory", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
  }
  (*cur)();
}

__attribute__((no_sanitize("address"))) void OwnStack::call(const std::function<void()> &f, u64 fill, size_t skew, bool garbage_regs) {
  const size_t used = size < (3u << 19) ? size : (3u << 19);
  u64 *w = (u64 *)(base + size - used);
  u64 a = mix64(fill), b = fill & 1 ? mix64(fill, 7) : 0;
  for (size_t i = 0; i < used / 8; i++) w[i] = fill == 0 ? 0 : a + i * b;
  ucontext_t me, it;
  getcontext(&it);
  it.uc_stack.ss_sp = base;
  it.uc_stack.ss_size = size - (skew & ~(size_t)15);
  it.uc_link = &me;
  auto *oc = cur;
  bool og = cur_garbage;
  u64 of = cur_fill;
  cur = &f;
  cur_garbage = garbage_regs;
  cur_fill = fill;
  makecontext(&it, trampoline, 0);
  swapcontext(&me, &it);
  cur = oc;
  cur_garbage = og;
  cur_fill = of;
}

__attribute__((no_sanitize("address"))) size_t OwnStack::touched(u64 fill) const {
  const size_t used = size < (3u << 19) ? size : (3u << 19);
  u64 *w = (u64 *)(base + size - used);
  u64 a = mix64(fill), b = fill & 1 ? mix64(fill, 7) : 0;
  for (size_t i = 0; i < used / 8; i++) if (w[i] != (fill == 0 ? 0 : a + i * b)) return used - i * 8;
  return 0;
}
