// Compiled into every shared object together with the sources of one implementation of /repo.
// Seams: calls from the implementation's objects are redirected here by the linker (--wrap).
#include <stdint.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#include "shim.h"
#include "api.h"
#include "rng.h"

extern int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
extern int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
extern int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);

static struct sim_hooks H;

int __real_randombytes(unsigned char *x, unsigned long long n);
int __wrap_randombytes(unsigned char *x, unsigned long long n) {
  if (H.randombytes) return H.randombytes(x, n);
  int r = __real_randombytes(x, n);
  if (H.drawn) H.drawn(x, n);
  return r;
}
void __real_abort(void) __attribute__((noreturn));
void __wrap_abort(void) {
  if (H.abort_) H.abort_();
  __real_abort();
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
  if (H.abort_) H.abort_();
  __real_exit(c);
}
// other ways for a process to end
void __wrap__exit(int c) { __wrap_exit(c); }
void __wrap__Exit(int c) { __wrap_exit(c); }
void __wrap_quick_exit(int c) { __wrap_exit(c); }
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { (void)a; (void)f; (void)l; (void)fn; __wrap_abort(); }

void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) {
  void *p = H.malloc_ ? H.malloc_(n, __real_malloc) : __real_malloc(n);
  if (p && H.fresh) H.fresh(p, n);
  return p;
}
void __real_free(void *);
void __wrap_free(void *p) { if (!H.free_ || !H.free_(p)) __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
  void *q = __wrap_malloc(n);
  if (q && p) {
    size_t k = H.usable ? H.usable(p) : malloc_usable_size(p);
    memcpy(q, p, k < n ? k : n);
    __wrap_free(p);
  }
  return q;
}
static size_t al;
int __real_posix_memalign(void **, size_t, size_t);
static void *amalloc(size_t n) { void *p = NULL; return __real_posix_memalign(&p, al, n) ? NULL : p; }
void *__wrap_aligned_alloc(size_t a, size_t n) {
  al = a < sizeof(void *) ? sizeof(void *) : a;
  void *p = H.malloc_ ? H.malloc_(n, amalloc) : amalloc(n);
  if (p && H.fresh) H.fresh(p, n);
  return p;
}
void *__wrap_memalign(size_t a, size_t n) { return __wrap_aligned_alloc(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) {
  void *q = __wrap_aligned_alloc(a, n);
  if (!q) return 12;  // ENOMEM
  *p = q;
  return 0;
}
__attribute__((weak)) long long cpucycles(void) { return H.clock ? H.clock() : 0; }
void *__real_calloc(size_t, size_t);
static void *zmalloc(size_t n) { return __real_calloc(1, n); }
void *__wrap_calloc(size_t a, size_t b) {
  if (b && a > (size_t)-1 / 2 / b) return NULL;
  return H.malloc_ ? H.malloc_(a * b, zmalloc) : zmalloc(a * b);
}

#ifdef SIM_LIB
// Calls that can fail report failure as 0 or NULL. The arguments go through untouched.
int sim_lib_fault(const char *site) { return H.lib_fault ? H.lib_fault(site) : 0; }
#define LIB(f) \
  asm(".text\n.globl __wrap_" #f "\n.type __wrap_" #f ", @function\n__wrap_" #f ":\n" \
      "push %rdi\npush %rsi\npush %rdx\npush %rcx\npush %r8\npush %r9\npush %rax\n" \
      "lea 2f(%rip), %rdi\ncall sim_lib_fault\nmov %eax, %r11d\n" \
      "pop %rax\npop %r9\npop %r8\npop %rcx\npop %rdx\npop %rsi\npop %rdi\n" \
      "test %r11d, %r11d\njne 1f\njmp __real_" #f "@PLT\n1: xor %eax, %eax\nret\n" \
      ".section .rodata\n2: .asciz \"" #f "\"\n.text\n");
#include "libcalls.h"
#endif

#ifdef SIM_INST
#include <pthread.h>
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!H.wait) return __real_pthread_mutex_lock(m);
  int r;
  while ((r = pthread_mutex_trylock(m)) == 16 /* EBUSY */) H.wait();
  return r;
}
#ifdef SIM_ASM
// Reports of the assembly: (address or 0, place) pairs in a buffer, handed over when it is full and at the end.
#define HID __attribute__((visibility("hidden")))
struct report { const void *a; void *pc; };
HID uint64_t sim_ax, sim_ad, sim_vec[8];
HID struct report sim_buf[4096];
HID struct report *sim_pos = sim_buf, *sim_end = sim_buf + 4096;
HID unsigned char sim_xs[16384] __attribute__((aligned(64)));
HID void sim_flush(void) {
  for (struct report *r = sim_buf; r < sim_pos; r++) {
    if (r->a) { if (H.access) H.access(r->a, 0, 0, r->pc); }
    else if (H.block) H.block(r->pc);
  }
  sim_pos = sim_buf;
}
asm(".text\n.globl sim_hook\n.hidden sim_hook\n.type sim_hook, @function\nsim_hook:\n"
    "movq %rax, sim_ad(%rip)\nlahf\nseto %al\npushq %rax\npushq %rcx\npushq %rdx\n"
    "movq sim_pos(%rip), %rcx\nmovq sim_ad(%rip), %rax\nmovq %rax, (%rcx)\nmovq 24(%rsp), %rdx\nmovq %rdx, 8(%rcx)\n"
    "addq $16, %rcx\nmovq %rcx, sim_pos(%rip)\ncmpq sim_end(%rip), %rcx\njae 1f\n"
    "0: popq %rdx\npopq %rcx\npopq %rax\naddb $127, %al\nsahf\nret\n"
    "1: pushq sim_ax(%rip)\npushq %rsi\npushq %rdi\npushq %r8\npushq %r9\npushq %r10\npushq %r11\npushq %rbp\n"
    "movq %rsp, %rbp\nandq $-64, %rsp\nmovl $-1, %eax\nmovl $-1, %edx\nxsave64 sim_xs(%rip)\ncld\ncall sim_flush\n"
    "movl $-1, %eax\nmovl $-1, %edx\nxrstor64 sim_xs(%rip)\nmovq %rbp, %rsp\n"
    "popq %rbp\npopq %r11\npopq %r10\npopq %r9\npopq %r8\npopq %rdi\npopq %rsi\npopq sim_ax(%rip)\njmp 0b\n"
    ".size sim_hook, .-sim_hook\n");
#endif
// Run-time of -fsanitize=thread and -fsanitize-coverage=trace-pc: every access is a scheduling point.
#define PC __builtin_return_address(0)
#ifdef SIM_ASM
#define FLUSH() sim_flush()
#else
#define FLUSH() ((void)0)
#endif
#define ACC(a, n, w) do { FLUSH(); if (H.access) H.access((const void *)(a), (n), (w), PC); } while (0)
#define RW(n) \
  void __tsan_read##n(void *a) { ACC(a, n, 0); } \
  void __tsan_write##n(void *a) { ACC(a, n, 1); } \
  void __tsan_unaligned_read##n(void *a) { ACC(a, n, 0); } \
  void __tsan_unaligned_write##n(void *a) { ACC(a, n, 1); } \
  void __tsan_volatile_read##n(void *a) { ACC(a, n, 0); } \
  void __tsan_volatile_write##n(void *a) { ACC(a, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void *a) { ACC(a, n, 0); } \
  void __tsan_unaligned_volatile_write##n(void *a) { ACC(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { ACC(a, n, 0); }
void __tsan_write_range(void *a, size_t n) { ACC(a, n, 1); }
void __tsan_func_entry(void *p) { (void)p; if (H.block) H.block(PC); }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void *a, void *b) { (void)b; ACC(a, 8, 1); }
void __tsan_vptr_read(void *a) { ACC(a, 8, 0); }
void __sanitizer_cov_trace_pc(void) { if (H.block) H.block(PC); }
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int m) { (void)m; ACC(a, sizeof(T), 0); return *a; } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int m) { (void)m; ACC(a, sizeof(T), 1); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int m) { (void)m; ACC(a, sizeof(T), 1); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int m) { (void)m; ACC(a, sizeof(T), 1); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int m) { (void)m; ACC(a, sizeof(T), 1); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int m) { (void)m; ACC(a, sizeof(T), 1); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int m) { (void)m; ACC(a, sizeof(T), 1); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int m) { (void)m; ACC(a, sizeof(T), 1); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; ACC(a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; ACC(a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void *__real_memcpy(void *d, const void *s, size_t n);
void *__wrap_memcpy(void *d, const void *s, size_t n) { ACC(s, n, 0); ACC(d, n, 1); return __real_memcpy(d, s, n); }
void *__real_memmove(void *d, const void *s, size_t n);
void *__wrap_memmove(void *d, const void *s, size_t n) { ACC(s, n, 0); ACC(d, n, 1); return __real_memmove(d, s, n); }
void *__real_memset(void *d, int c, size_t n);
void *__wrap_memset(void *d, int c, size_t n) { ACC(d, n, 1); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) {  // the C library's may stop early: a trace must show that
  const unsigned char *x = a, *y = b;
  for (size_t i = 0; i < n; i++) {
    ACC(x + i, 1, 0);
    if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  }
  return 0;
}
int __wrap_bcmp(const void *a, const void *b, size_t n) { return __wrap_memcmp(a, b, n); }
int __wrap_strncmp(const char *a, const char *b, size_t n) {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; i++) {
    ACC(x + i, 1, 0);
    if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    if (!x[i]) return 0;
  }
  return 0;
}
int __wrap_strcmp(const char *a, const char *b) { return __wrap_strncmp(a, b, (size_t)-1); }
size_t __wrap_strlen(const char *a) { size_t i = 0; do ACC(a + i, 1, 0); while (a[i++]); return i - 1; }
void *__wrap_memchr(const void *a, int c, size_t n) {
  const unsigned char *x = a;
  for (size_t i = 0; i < n; i++) {
    ACC(x + i, 1, 0);
    if (x[i] == (unsigned char)c) return (void *)(x + i);
  }
  return 0;
}
#endif

#if defined AESCTX_TYPE && __has_include("aes256ctr.h")
#include "aes256ctr.h"
#define AESCTX sizeof(AESCTX_TYPE)
#else
#define AESCTX 0
#endif
#define P(n) extern void prim_##n(void) __asm__(#n) __attribute__((weak, visibility("hidden")));
#include "prims.h"
#undef P
#define P(n) {#n, prim_##n},
static const struct sim_prim prims[] = {
#include "prims.h"
    {0, 0}};

struct sim_module sim_module = {
    &H,
    CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES,
    crypto_kem_keypair, crypto_kem_enc, crypto_kem_dec,
    __real_randombytes, randombytes_init,
    (int (*)(void *, unsigned char *, unsigned char *, unsigned long))seedexpander_init,
    (int (*)(void *, unsigned char *, unsigned long))seedexpander,
    sizeof(AES_XOF_struct), 1,
#ifdef SIM_ASM
    sim_flush,
#else
    NULL,
#endif
    prims, AESCTX
};
