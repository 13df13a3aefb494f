// Implementations of the key exchange as seen by the simulated nodes.
#pragma once
#include "core.h"
#include "model.h"
extern "C" {
#include "shim.h"
}

struct Region { u8 *a; size_t n; };

struct Module {  // one shared object; its writable data is the memory image of the process that runs it
  std::string id, flavour, so;
  Params p;
  int lanes = 1;
  void *dl = nullptr;
  sim_module *m = nullptr;
  std::vector<Region> rw;   // writable static data, without the hooks
  Bytes pristine;
  size_t tls_size = 0, tls_init = 0;
  const u8 *tls_image = nullptr;
  size_t tls_mod = 0;
  bool load(std::string &err);
  void save(Bytes &img) const;
  void restore(const Bytes &img) const;
  void reset() const { restore(pristine); }
  u8 *tls() const;
  bool in_static(const void *a) const {
    if (tls_size) { const u8 *t = tls(); if ((u8 *)a >= t && (u8 *)a < t + tls_size) return true; }
    for (auto &r : rw) if ((u8 *)a >= r.a && (u8 *)a < r.a + r.n) return true;
    return false;
  }
};

std::vector<Module *> load_modules(const std::string &flavour, std::string &err);

struct OpEnv {  // everything around one call that the caller decides
  u64 seed = 0;          // buffer placement, stale contents, contents of the other lanes
  Bytes rnd;             // random bytes this caller's operation is to draw, in order
  bool real_rng = false; // draw from the implementation's own generator instead
  int lane = 0;
  // results
  size_t drawn = 0, calls = 0;   // per lane
  size_t total_drawn = 0;
  std::vector<size_t> sizes;
};

struct Impl {
  std::string id;
  Params p;
  int lanes = 1;
  bool emulated = false;
  virtual ~Impl() {}
  virtual int keypair(Bytes &pk, Bytes &sk, OpEnv &e) = 0;
  virtual int enc(Bytes &ct, Bytes &ss, const Bytes &pk, OpEnv &e) = 0;
  virtual int dec(Bytes &ss, const Bytes &ct, const Bytes &sk, OpEnv &e) = 0;
  virtual void save(Bytes &img) { img.clear(); }
  virtual void restore(const Bytes &) {}
  virtual void reset() {}                  // process start: a fresh memory image
  virtual void seed_rng(const u8 *) {}
};

struct HostImpl : Impl {
  Module *mod;
  explicit HostImpl(Module *m);
  int keypair(Bytes &pk, Bytes &sk, OpEnv &e) override;
  int enc(Bytes &ct, Bytes &ss, const Bytes &pk, OpEnv &e) override;
  int dec(Bytes &ss, const Bytes &ct, const Bytes &sk, OpEnv &e) override;
  void save(Bytes &img) override { mod->save(img); }
  void restore(const Bytes &img) override { mod->restore(img); }
  void reset() override { mod->reset(); }
  void seed_rng(const u8 *e48) override;
};

// All implementations the scenario may use: the host modules and (with_arm) the emulated Cortex-M4 ones.
std::vector<Impl *> load_impls(bool with_arm, std::string &err);
void add_arm_impls(std::vector<Impl *> &v, std::string &err);

// the randomness seam
struct RandSrc { const u8 *want = nullptr; size_t n = 0, pos = 0; Rng tail{1}; size_t total = 0; std::vector<size_t> sizes; };
extern thread_local RandSrc *g_rand;
extern "C" int sim_randombytes(u8 *x, unsigned long long n);
extern thread_local i64 g_clock;
extern "C" long long sim_clock();
