#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include "scen.h"

static std::map<std::string, ScenarioMaker> &registry() { static std::map<std::string, ScenarioMaker> r; return r; }
Register::Register(const char *prop, ScenarioMaker f) { registry()[prop] = f; }
Scenario *make_scenario(const std::string &prop) {
  auto it = registry().find(prop);
  return it == registry().end() ? nullptr : it->second();
}

std::vector<Family> families(const std::vector<Impl *> &v) {
  std::vector<Family> f;
  for (Impl *i : v) {
    Family *hit = nullptr;
    for (auto &x : f) if (x.p.l == i->p.l && x.p.uniform == i->p.uniform && x.p.nineties == i->p.nineties && x.p.rev == i->p.rev && x.p.packed == i->p.packed) hit = &x;
    if (!hit) { f.push_back({i->p, {}}); hit = &f.back(); }
    hit->impls.push_back(i);
  }
  return f;
}

static const char *names[DAMAGE_KINDS] = {
    "bit flip", "byte xor", "byte replaced", "same mask on two bytes", "+d and -d on two bytes", "bytes exchanged", "16-byte blocks exchanged",
    "halves rotated", "tail of another message", "head of another message", "middle of another message", "zeroed run", "erased run (0xff)",
    "tail lost (zero)", "tail lost (stale)", "all bits inverted", "arbitrary garbage", "another message entirely", "shifted by one byte",
    "bit 7 of two bytes", "burst of random bytes", "all zero or all ones", "differences that add up to a power of 256", "same mask on every byte",
    "low bits of every coefficient", "same mask on two words", "run of a repeated pattern",
    "same mask on several bytes at equal distances", "differences that cancel at equal distances"};
const char *damage_name(i64 k) { return names[(u64)k % DAMAGE_KINDS]; }

void damage(Bytes &b, i64 kind, i64 x, i64 y, const Bytes &other) {
  size_t n = b.size();
  if (!n) return;
  u64 X = (u64)x, Y = (u64)y;
  size_t i = X % n, j = (X / n + i + 1) % n;
  if (j == i) j = (i + 1) % n;
  u8 d = (u8)(Y % 255 + 1);
  auto from = [&](size_t a, size_t e) { for (size_t k = a; k < e && k < n && k < other.size(); k++) b[k] = other[k]; };
  switch ((u64)kind % DAMAGE_KINDS) {
    case 0: b[(X / 8) % n] ^= (u8)(1 << (X & 7)); break;
    case 1: b[i] ^= d; break;
    case 2: b[i] = (u8)Y == b[i] ? (u8)~b[i] : (u8)Y; break;
    case 3: b[i] ^= d; b[j] ^= d; break;
    case 4: b[i] = (u8)(b[i] + d); b[j] = (u8)(b[j] - d); break;
    case 5: std::swap(b[i], b[j]); break;
    case 6: {
      size_t nb = n / 16;
      if (nb < 2) break;
      size_t p = X % nb, q = (p + 1 + Y % (nb - 1)) % nb;
      for (int k = 0; k < 16; k++) std::swap(b[16 * p + k], b[16 * q + k]);
      break;
    }
    case 7: { Bytes c = b; size_t s = 1 + X % (n - 1 ? n - 1 : 1); for (size_t k = 0; k < n; k++) b[k] = c[(k + s) % n]; break; }
    case 8: from(i, n); break;
    case 9: from(0, i + 1); break;
    case 10: from(i, i + 1 + Y % 64); break;
    case 11: for (size_t k = i; k < n && k < i + 1 + Y % 64; k++) b[k] = 0; break;
    case 12: for (size_t k = i; k < n && k < i + 1 + Y % 512; k++) b[k] = 0xff; break;
    case 13: for (size_t k = i; k < n; k++) b[k] = 0; break;
    case 14: { Rng r(Y); for (size_t k = i; k < n; k++) b[k] = (u8)r.next(); break; }
    case 15: for (auto &c : b) c = (u8)~c; break;
    case 16: { Rng r(X); r.fill(b.data(), n); break; }
    case 17: from(0, n); break;
    case 18: { size_t k = n - 1; u8 t = b[n - 1]; for (; k > 0; k--) b[k] = b[k - 1]; b[0] = t; break; }
    case 19: b[i] ^= 0x80; b[j] ^= 0x80; break;
    case 20: { Rng r(Y); for (size_t k = i; k < n && k < i + 1 + Y % 40; k++) b[k] = (u8)r.next(); break; }
    case 21: for (auto &c : b) c = Y & 1 ? 0xff : 0; break;
    case 22: {
      Rng r(Y);
      unsigned left = r.chance(1, 8) ? 65536 : 256;
      for (size_t k = 0, at = i; k < n && left; k++, at = (at + 1 + r.below(9)) % n) {
        unsigned m = std::min<unsigned>(left, r.chance(1, 2) ? 0x40 : (unsigned)r.range(1, 255));
        if (left == 65536 || left > 2048) m = (unsigned)r.range(200, 255);
        b[at] ^= (u8)m;
        left -= m;
      }
      break;
    }
    case 23: for (auto &c : b) c ^= d; break;
    case 24: {
      Rng r(Y);
      int bits = X & 1 ? 10 : X & 2 ? 13 : 8;
      for (size_t k = 0; k * bits < n * 8; k++) if (r.chance(1, 2)) b[k * bits / 8] ^= (u8)(1 << (k * bits & 7));
      break;
    }
    case 25: {
      size_t w = (size_t)4 << (Y & 3), nw = n / w;
      if (nw < 2) break;
      size_t p = X % nw, q = (p + 1 + (X / nw) % (nw - 1)) % nw;
      Rng r(Y);
      for (size_t k = 0; k < w; k++) { u8 m = (u8)r.next(); if (Y & 4) m = k == Y % w ? d : 0; b[p * w + k] ^= m; b[q * w + k] ^= m; }
      break;
    }
    case 26: {
      Rng r(Y);
      size_t len = 1 + r.below(n - i < 200 ? n - i : 200), per = 1 + r.below(6);
      for (size_t k = 0; k < len; k++) b[i + k] = k < per ? (u8)r.next() : b[i + k - per];
      break;
    }
    case 27: case 28: {
      // positions that a loop over groups, words, polynomials or rows treats alike
      static const size_t dist[] = {5, 13, 3, 8, 4, 5, 13, 3, 1, 2, 10, 16, 20, 26, 32, 40, 64, 128, 256, 320, 416};
      Rng r(Y);
      size_t s = dist[r.below(21)], left = (n - 1 - i) / s, m = left ? std::min<size_t>(left, r.chance(2, 3) ? 1 : r.range(1, 7)) : 0;
      u8 e = r.chance(1, 3) ? (u8)(1 << r.below(8)) : d, sum = 0;
      std::set<size_t> at{i};
      while (at.size() < m + 1) at.insert(i + s * (1 + r.below(left)));
      if (kind % DAMAGE_KINDS == 27) {
        for (size_t k : at) b[k] ^= e;
      } else {
        bool x = r.chance(1, 2);
        size_t last = *at.rbegin();
        for (size_t k : at) if (k != last) { u8 v = r.chance(1, 2) ? e : (u8)r.range(1, 255); if (x) { b[k] ^= v; sum ^= v; } else { b[k] = (u8)(b[k] + v); sum = (u8)(sum - v); } }
        if (x) b[last] ^= sum; else b[last] = (u8)(b[last] + sum);
      }
      break;
    }
  }
}

Bytes drawn_bytes(u64 seed, size_t n) {
  Bytes b = seeded(seed, n);
  Rng r(mix64(seed, 0xd4a3));
  if (r.below(4)) return b;
  for (size_t o = 0; o < n; o += 32) {
    size_t e = std::min(n, o + 32);
    u8 v = (u8)r.next();
    size_t at = o + r.below(e - o), len = 1 + r.below(8);
    switch (r.below(14)) {
      case 0: for (size_t k = o; k < e; k++) b[k] = 0; break;
      case 1: for (size_t k = o; k < e; k++) b[k] = 0xff; break;
      case 2: for (size_t k = o; k < e; k++) b[k] = v; break;
      case 3: for (size_t k = o; k < e; k++) b[k] = 0; b[at] = (u8)(1 << (v & 7)); break;
      case 4: for (size_t k = o; k < e; k++) b[k] = 0xff; b[at] = (u8)~(1 << (v & 7)); break;
      case 5: for (size_t k = o; k < e; k++) b[k] = (u8)(k & 1 ? 0x55 : 0xaa); break;
      case 6: for (size_t k = o; k < e; k++) b[k] = (u8)(v + k); break;
      case 7: for (size_t k = o; k < e && k < o + len; k++) b[k] = r.chance(1, 2) ? 0 : 0xff; break;
      case 8: for (size_t k = 0; k < len && e - 1 - k >= o && e - 1 - k < e; k++) b[e - 1 - k] = v & 1 ? 0 : 0xff; break;
      case 9: for (size_t k = at; k < e; k++) b[k] = v & 1 ? 0 : 0xff; break;
      case 10: for (size_t k = o; k < at; k++) b[k] = v & 1 ? 0 : 0xff; break;
      case 11: for (size_t k = o + 4; k < e; k++) b[k] = b[k - 4]; break;
      case 12: if (o) memcpy(&b[o], &b[o - 32], e - o); break;
      case 13: for (size_t k = o; k < e; k++) b[k] &= (u8)r.next() & (u8)r.next(); break;
    }
  }
  return b;
}

Bytes marginal(const Model &m, Bytes &pk, Bytes &sk, u64 seed, int tries) {
  const Params &p = m.p;
  Rng r(mix64(seed, 0x3a46));
  // the noise that an error e in the public key adds is a sum of 256*l products with small secrets
  double var = p.uniform ? 1.25 : p.mu() / 4.0, room = 256 - 0.6 * (1 << (p.ep() - p.et() - 1));
  double sigma = room / 3.2 / std::sqrt(256.0 * p.l * var) * (0.8 + 0.05 * (double)r.below(9));
  size_t n = (size_t)p.l * 256;
  auto get = [](const Bytes &b, size_t i, int bits) { u32 v = 0; for (int k = 0; k < bits; k++) v |= (u32)((b[(i * bits + k) / 8] >> ((i * bits + k) & 7)) & 1) << k; return v; };
  auto put = [](Bytes &b, size_t i, int bits, u32 v) { for (int k = 0; k < bits; k++) { size_t q = i * bits + k; b[q / 8] = (u8)((b[q / 8] & ~(1 << (q & 7))) | (((v >> k) & 1) << (q & 7))); } };
  for (size_t i = 0; i < n; i++) {
    int g = 0;
    for (int k = 0; k < 12; k++) g += (int)r.below(1000);
    int e = (int)std::lround((g - 5994) / 1000.0 * sigma);
    put(pk, i, p.ep(), get(pk, i, p.ep()) + (u32)e);
  }
  // multiples of p in the stored secret change nothing either
  if (!p.packed && r.chance(1, 2)) for (size_t i = 0; i < n; i++) put(sk, i, p.es(), get(sk, i, p.es()) + ((u32)r.below(8) << p.ep()));
  std::copy(pk.begin(), pk.end(), sk.begin() + p.skvec());
  m.H(pk.data(), pk.size(), &sk[p.skvec() + p.pkbytes()]);
  Bytes best;
  int score = 1 << 30;
  for (int t = 0; t < tries; t++) {
    Bytes rn = seeded(mix64(seed, t), 32), ct;
    u8 msg[32], ss[32];
    int wrong, nearest;
    m.H(rn.data(), 32, msg);
    m.enc(rn.data(), pk.data(), ct, ss);
    m.noise(ct.data(), sk.data(), msg, wrong, nearest);
    int sc = wrong > 1 ? 100000 + wrong : nearest;
    if (sc < score) { score = sc; best = rn; }
  }
  return best;
}

void random_damage(Rng &r, size_t n, i64 &kind, i64 &x, i64 &y) {
  u64 w = r.below(12);
  kind = w < 2 ? 0 : w < 4 ? 27 + (i64)(w & 1) : (i64)r.below(DAMAGE_KINDS);
  x = r.seed63();
  y = r.seed63();
  // ends of the buffer and of its parts deserve attention
  if (kind != 0 && kind != 16 && r.chance(1, 3)) {
    size_t edge[] = {0, n - 1, n > 32 ? n - 32 : 0, n > 33 ? n - 33 : 0, n > 64 ? n - 64 : 0, n > 65 ? n - 65 : 0, n / 2, n - n % 32, n - n % 64, n - n % 8};
    x = (i64)(edge[r.below(10)] % n + n * r.below(n));
  }
  static const i64 masks[] = {0x7f /* d = 0x80 */, 0, 0xfe, 1, 3, 7, 15, 31, 63};
  if ((kind == 1 || kind == 3 || kind == 4 || kind == 23) && r.chance(1, 3)) y = masks[r.below(9)];
}

void nearly(Bytes &y, int how, u64 other, Rng &r) {
  if (how == 0 || how == 1) {  // two bytes, the same difference, at the distance of words
    size_t d = (size_t)1 << r.range(0, 4), i = r.below(y.size() - d);
    u8 e = (u8)r.range(1, 255);
    y[i] ^= e;
    if (how == 0) y[i + d] ^= e; else y[i + d] = (u8)(y[i + d] + (y[i] < (u8)(y[i] ^ e) ? 1 : -1) * (int)e);
  } else if (how == 2) {       // everything behind a zero byte, or behind some byte
    size_t z = std::find(y.begin(), y.end(), 0) - y.begin();
    if (z + 1 >= y.size()) z = r.below(y.size() - 1);
    for (size_t i = z + 1; i < y.size(); i++) y[i] = (u8)r.next();
  } else {
    i64 kd, a, b;
    random_damage(r, y.size(), kd, a, b);
    damage(y, kd, a, b, seeded(other, y.size()));
  }
}
void nearly(Bytes &b, size_t off, size_t len, Rng &r) {
  Bytes y(b.begin() + off, b.begin() + off + len);
  int how = (int)r.below(4);
  nearly(y, how, r.next(), r);
  y.resize(len);
  std::copy(y.begin(), y.end(), b.begin() + off);
}
