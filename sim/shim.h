// Interface between the simulator and one implementation built as a shared object.
#pragma once
#include <stddef.h>
struct sim_hooks {
  // randomness seam: if set, replaces the system generator for the key-exchange code
  int (*randombytes)(unsigned char *x, unsigned long long n);
  // log of draws (called after the real generator, if the seam is not replaced)
  void (*drawn)(const unsigned char *x, unsigned long long n);
  void (*abort_)(void);              // the code under test gave up
  int (*lib_fault)(const char *site);  // nonzero: this call into the library fails
  void *(*malloc_)(size_t n, void *(*real)(size_t));
  void (*fresh)(void *p, size_t n);  // memory whose contents are undefined
  size_t (*usable)(void *p);         // size of a block
  int (*free_)(void *p);             // nonzero: handled
  long long (*clock)(void);          // cycle counter
  void (*wait)(void);                // a lock is taken: let another thread run
  void (*access)(const void *addr, size_t n, int write, void *pc);  // instrumented memory access
  void (*block)(void *pc);                                         // instrumented basic block
};
struct sim_prim { const char *name; void (*f)(void); };  // f: null if the implementation has no such function
typedef struct { unsigned char opaque[4096]; } sim_xof_space;
struct sim_module {
  struct sim_hooks *hooks;
  size_t pkbytes, skbytes, ctbytes, ssbytes;
  int (*keypair)(unsigned char *, unsigned char *);
  int (*enc)(unsigned char *, unsigned char *, const unsigned char *);
  int (*dec)(unsigned char *, const unsigned char *, const unsigned char *);
  int (*randombytes)(unsigned char *, unsigned long long);
  void (*randombytes_init)(unsigned char *, unsigned char *, int);
  int (*seedexpander_init)(void *, unsigned char *, unsigned char *, unsigned long);
  int (*seedexpander)(void *, unsigned char *, unsigned long);
  size_t xofsize;
  int wrapped;  // this many seams are in force (checked by the simulator)
  void (*flush)(void);  // hand over what was reported so far
  const struct sim_prim *prims;
  size_t aesctx;        // size of a keystream context
};
