#include "module.h"

#include <dlfcn.h>
#include <link.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <sstream>

thread_local RandSrc *g_rand = nullptr;
thread_local i64 g_clock = 0;

extern "C" int sim_randombytes(u8 *x, unsigned long long n) {
  RandSrc *r = g_rand;
  if (!r) return 0;
  for (unsigned long long i = 0; i < n; i++) x[i] = r->pos < r->n ? r->want[r->pos++] : (u8)r->tail.next();
  r->total += n;
  r->sizes.push_back(n);
  return 0;
}
extern "C" long long sim_clock() { return g_clock += 977; }

// Copies without the checks of instrumented builds: red zones lie between the variables.
__attribute__((no_sanitize("address"), optimize("no-tree-loop-distribute-patterns"))) static void raw_copy(u8 *d, const u8 *s, size_t n) {
  size_t i = 0;
  for (; i + 8 <= n; i += 8) *(volatile u64 *)(d + i) = *(const volatile u64 *)(s + i);
  for (; i < n; i++) ((volatile u8 *)d)[i] = ((const volatile u8 *)s)[i];
}

static int on_phdr(struct dl_phdr_info *i, size_t, void *vp) {
  Module *m = (Module *)vp;
  const u8 *probe = (const u8 *)m->m;
  bool mine = false;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) &ph = i->dlpi_phdr[k];
    const u8 *a = (const u8 *)i->dlpi_addr + ph.p_vaddr;
    if (ph.p_type == PT_LOAD && probe >= a && probe < a + ph.p_memsz) mine = true;
  }
  if (!mine) return 0;
  uintptr_t relro_end = 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
      size_t pg = sysconf(_SC_PAGESIZE);
      relro_end = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) & ~(pg - 1);
    }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) &ph = i->dlpi_phdr[k];
    if (ph.p_type == PT_TLS) {
      m->tls_size = ph.p_memsz;
      m->tls_init = ph.p_filesz;
      m->tls_image = (const u8 *)i->dlpi_addr + ph.p_vaddr;
      m->tls_mod = i->dlpi_tls_modid;
    }
    if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
    uintptr_t lo = i->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
    if (relro_end > lo && relro_end <= hi) lo = relro_end;
    uintptr_t h0 = (uintptr_t)m->m->hooks, h1 = h0 + sizeof(sim_hooks);
    if (h0 >= lo && h1 <= hi) {
      if (h0 > lo) m->rw.push_back({(u8 *)lo, h0 - lo});
      if (hi > h1) m->rw.push_back({(u8 *)h1, hi - h1});
    } else if (hi > lo) m->rw.push_back({(u8 *)lo, hi - lo});
  }
  return 1;
}

bool Module::load(std::string &err) {
  dl = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!dl) { err = dlerror(); return false; }
  m = (sim_module *)dlsym(dl, "sim_module");
  if (!m) { err = so + ": no sim_module"; return false; }
  dl_iterate_phdr(on_phdr, this);
  if (rw.empty()) { err = so + ": cannot find its data"; return false; }
  m->hooks->clock = sim_clock;
  save(pristine);
  size_t pk = p.pkbytes() * lanes, sk = p.skbytes() * lanes, ct = p.ctbytes() * lanes, ss = 32 * lanes;
  if (m->pkbytes != pk || m->skbytes != sk || m->ctbytes != ct || m->ssbytes != ss) {
    char b[256];
    snprintf(b, sizeof b, "%s: api.h declares %zu/%zu/%zu/%zu bytes, the parameter set has %zu/%zu/%zu/%zu", id.c_str(), m->pkbytes,
             m->skbytes, m->ctbytes, m->ssbytes, pk, sk, ct, ss);
    err = b;
    return false;
  }
  return true;
}

extern "C" void *__tls_get_addr(void *);
u8 *Module::tls() const {  // thread-local variables of the calling thread
  struct { unsigned long mod, off; } ti = {tls_mod, 0};
  return (u8 *)__tls_get_addr(&ti);
}
void Module::save(Bytes &img) const {
  size_t n = tls_size;
  for (auto &r : rw) n += r.n;
  img.resize(n);
  n = 0;
  for (auto &r : rw) { raw_copy(img.data() + n, r.a, r.n); n += r.n; }
  if (tls_size) raw_copy(img.data() + n, tls(), tls_size);
}
void Module::restore(const Bytes &img) const {
  size_t n = 0;
  for (auto &r : rw) { raw_copy(r.a, img.data() + n, r.n); n += r.n; }
  if (tls_size) raw_copy(tls(), img.data() + n, tls_size);
}

std::vector<Module *> load_modules(const std::string &flavour, std::string &err) {
  std::vector<Module *> v;
  std::ifstream in(g_moddir + "/modules.txt");
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    Module *m = new Module;
    int lv, u, n;
    if (!(l >> m->id >> m->flavour >> m->so >> lv >> u >> n >> m->lanes)) continue;
    if (!flavour.empty() && m->flavour != flavour) continue;
    m->p.l = lv;
    m->p.uniform = u;
    m->p.nineties = n;
    if (!m->load(err)) return {};
    v.push_back(m);
  }
  if (v.empty() && err.empty()) err = "no modules of kind '" + flavour + "' in " + g_moddir;
  return v;
}

// ---------------------------------------------------------------- host implementations

HostImpl::HostImpl(Module *m) : mod(m) { id = m->id; p = m->p; lanes = m->lanes; }

void HostImpl::seed_rng(const u8 *e48) {
  u8 e[48];
  memcpy(e, e48, 48);
  mod->m->randombytes_init(e, nullptr, 256);
}

namespace {
struct Area {  // call buffers at seed-dependent alignments, full of stale bytes
  Bytes mem;
  u8 *next;
  Rng r;
  Area(u64 seed, size_t n) : mem(n + 1024), r(mix64(seed, 0xa11)) { r.fill(mem.data(), mem.size()); next = mem.data(); }
  u8 *get(size_t n) {
    u64 k = r.below(4);
    size_t off = k == 0 ? 0 : k == 1 ? r.below(32) : k == 2 ? 8 * r.below(8) : r.below(64);
    u8 *q = (u8 *)(((uintptr_t)next + 63) & ~(uintptr_t)63) + off;
    next = q + n;
    return q;
  }
};
struct Draw {  // installs the stream of one operation at the randomness seam
  RandSrc src, *old;
  Bytes stream;
  Module *m;
  OpEnv &e;
  size_t per;
  Draw(Module *mm, OpEnv &ee, size_t per_lane) : m(mm), e(ee), per(per_lane) {
    Rng r(mix64(e.seed, 0xd4a));
    stream.resize(per * m->lanes);
    r.fill(stream.data(), stream.size());
    size_t L = m->lanes > 1 ? e.lane : 0;
    if (!e.rnd.empty()) memcpy(stream.data() + L * per, e.rnd.data(), std::min(per, e.rnd.size()));
    src.want = stream.data();
    src.n = stream.size();
    src.tail = r;
    old = g_rand;
    g_rand = &src;
    m->m->hooks->randombytes = e.real_rng ? nullptr : sim_randombytes;
  }
  void done() {
    e.total_drawn = src.total;
    e.drawn = src.total / m->lanes;
    e.calls = src.sizes.size();
    e.sizes = src.sizes;
  }
  ~Draw() { g_rand = old; m->m->hooks->randombytes = nullptr; }
};
}  // namespace

int HostImpl::keypair(Bytes &pk, Bytes &sk, OpEnv &e) {
  sim_module *m = mod->m;
  Area a(e.seed, m->pkbytes + m->skbytes + 256);
  u8 *P = a.get(m->pkbytes), *S = a.get(m->skbytes);
  Draw d(mod, e, 96);
  int rc = m->keypair(P, S);
  d.done();
  int L = lanes > 1 ? e.lane : 0;
  pk.assign(P + L * p.pkbytes(), P + (L + 1) * p.pkbytes());
  sk.assign(S + L * p.skbytes(), S + (L + 1) * p.skbytes());
  return rc;
}
int HostImpl::enc(Bytes &ct, Bytes &ss, const Bytes &pk, OpEnv &e) {
  sim_module *m = mod->m;
  Area a(e.seed, m->pkbytes + m->ctbytes + m->ssbytes + 512);
  u8 *P = a.get(m->pkbytes), *C = a.get(m->ctbytes), *K = a.get(m->ssbytes);
  int L = lanes > 1 ? e.lane : 0;
  memcpy(P + L * p.pkbytes(), pk.data(), p.pkbytes());
  Draw d(mod, e, 32);
  int rc = m->enc(C, K, P);
  d.done();
  ct.assign(C + L * p.ctbytes(), C + (L + 1) * p.ctbytes());
  ss.assign(K + L * 32, K + (L + 1) * 32);
  return rc;
}
int HostImpl::dec(Bytes &ss, const Bytes &ct, const Bytes &sk, OpEnv &e) {
  sim_module *m = mod->m;
  Area a(e.seed, m->skbytes + m->ctbytes + m->ssbytes + 512);
  u8 *S = a.get(m->skbytes), *C = a.get(m->ctbytes), *K = a.get(m->ssbytes);
  int L = lanes > 1 ? e.lane : 0;
  memcpy(S + L * p.skbytes(), sk.data(), p.skbytes());
  memcpy(C + L * p.ctbytes(), ct.data(), p.ctbytes());
  Draw d(mod, e, 32);
  int rc = m->dec(K, C, S);
  d.done();
  ss.assign(K + L * 32, K + (L + 1) * 32);
  return rc;
}

std::vector<Impl *> load_impls(bool with_arm, std::string &err) {
  std::vector<Impl *> v;
  auto mods = load_modules("plain", err);
  if (mods.empty()) return v;
  for (auto m : mods) v.push_back(new HostImpl(m));
  if (with_arm) add_arm_impls(v, err);
  return v;
}
