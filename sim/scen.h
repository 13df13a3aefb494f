#pragma once
#include "module.h"
#define SIM_CHECK_RUNS(n) u64 quick_runs() override { return n; }

static inline Bytes seeded(u64 seed, size_t n) { Bytes b(n); Rng r(seed); r.fill(b.data(), n); return b; }
// 32-byte draws of a random generator; some of them have contents that chance alone would never give
Bytes drawn_bytes(u64 seed, size_t n);
// a list of implementations by parameter set
struct Family { Params p; std::vector<Impl *> impls; };
std::vector<Family> families(const std::vector<Impl *> &v);
// One of the ways a stored or transmitted byte string gets damaged. 'other' is an unrelated string of the same kind.
void damage(Bytes &b, i64 kind, i64 x, i64 y, const Bytes &other);
const char *damage_name(i64 kind);
enum { DAMAGE_KINDS = 29 };
void random_damage(Rng &r, size_t n, i64 &kind, i64 &x, i64 &y);

// Turns a key pair into one with so much noise that decryption is just about right or just about wrong, as the rarest
// honest keys would be; returns the 32 random bytes, best of so many tries, with which encapsulation comes closest to the edge.
Bytes marginal(const Model &m, Bytes &pk, Bytes &sk, u64 seed, int tries);

// The quickest implementations of each source tree: histories of more than 65536 operations are affordable there.
static inline bool quickest(const Params &p, int lanes) { return (p.l == 2 && !p.packed) || lanes > 1; }

typedef Scenario *(*ScenarioMaker)();
struct Register { Register(const char *prop, ScenarioMaker f); };
// Alters bytes so that a comparison which takes a short cut may not notice.
void nearly(Bytes &y, int how, u64 other, Rng &r);
void nearly(Bytes &b, size_t off, size_t len, Rng &r);
