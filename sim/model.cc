#include <algorithm>
#include "model.h"

#include <dirent.h>
#include <openssl/evp.h>

#include <fstream>

std::string Params::name() const {
  return std::string(uniform ? "u" : "") + (l == 2 ? "LightSaber" : l == 3 ? "Saber" : "FireSaber") + (nineties ? "-90s" : "") + (rev == 1 ? "-m0" : "") + (packed ? "-4bit" : "");
}

// The library contexts of the model are made once, before any fault is injected.
struct Lib {
  const EVP_MD *s3_256, *s3_512, *sk128, *sk256, *s256, *s512;
  EVP_MD_CTX *md;
  EVP_CIPHER *ecb;
  EVP_CIPHER_CTX *aes;
  Lib() {
    s3_256 = EVP_MD_fetch(nullptr, "SHA3-256", nullptr);
    s3_512 = EVP_MD_fetch(nullptr, "SHA3-512", nullptr);
    sk128 = EVP_MD_fetch(nullptr, "SHAKE128", nullptr);
    sk256 = EVP_MD_fetch(nullptr, "SHAKE256", nullptr);
    s256 = EVP_MD_fetch(nullptr, "SHA256", nullptr);
    s512 = EVP_MD_fetch(nullptr, "SHA512", nullptr);
    md = EVP_MD_CTX_new();
    ecb = EVP_CIPHER_fetch(nullptr, "AES-256-ECB", nullptr);
    aes = EVP_CIPHER_CTX_new();
  }
};
static Lib &lib() { static Lib l; return l; }

static void digest(const EVP_MD *m, const u8 *in, size_t n, u8 *out, size_t xof = 0) {
  EVP_MD_CTX *c = lib().md;
  bool ok = EVP_DigestInit_ex(c, m, nullptr) && EVP_DigestUpdate(c, in, n) &&
            (xof ? EVP_DigestFinalXOF(c, out, xof) : EVP_DigestFinal_ex(c, out, nullptr));
  if (!ok) { fprintf(stderr, "model: digest failed\n"); _Exit(3); }
}
void sha3(int bits, const u8 *in, size_t n, u8 *out) { digest(bits == 256 ? lib().s3_256 : lib().s3_512, in, n, out); }
void shake(int bits, const u8 *in, size_t n, u8 *out, size_t outlen) { if (outlen) digest(bits == 128 ? lib().sk128 : lib().sk256, in, n, out, outlen); }
void aes256_block(const u8 key[32], const u8 in[16], u8 out[16]) {
  EVP_CIPHER_CTX *c = lib().aes;
  int n;
  if (!EVP_EncryptInit_ex(c, lib().ecb, nullptr, key, nullptr) || !EVP_CIPHER_CTX_set_padding(c, 0) || !EVP_EncryptUpdate(c, out, &n, in, 16)) {
    fprintf(stderr, "model: aes failed\n");
    _Exit(3);
  }
}

void Model::H(const u8 *in, size_t n, u8 out[32]) const { digest(p.nineties ? lib().s256 : lib().s3_256, in, n, out); }
void Model::G(const u8 *in, size_t n, u8 out[64]) const { digest(p.nineties ? lib().s512 : lib().s3_512, in, n, out); }
void Model::prf(const u8 seed[32], u8 *out, size_t n) const {
  if (!p.nineties) { shake(128, seed, 32, out, n); return; }
  u8 ctr[16] = {0}, blk[16];  // AES-256-CTR, zero nonce, counter from 0
  EVP_CIPHER_CTX *c = lib().aes;
  int k;
  if (!EVP_EncryptInit_ex(c, lib().ecb, nullptr, seed, nullptr) || !EVP_CIPHER_CTX_set_padding(c, 0)) _Exit(3);
  for (size_t i = 0; i < n; i += 16) {
    u32 b = (u32)(i / 16);
    for (int j = 0; j < 4; j++) ctr[15 - j] = (u8)(b >> (8 * j));
    if (!EVP_EncryptUpdate(c, blk, &k, ctr, 16)) _Exit(3);
    memcpy(out + i, blk, n - i < 16 ? n - i : 16);
  }
}

typedef std::vector<u32> Poly;
static void unpack(const u8 *b, int bits, Poly &o) {
  o.assign(256, 0);
  for (int i = 0; i < 256; i++)
    for (int k = 0; k < bits; k++) {
      int q = i * bits + k;
      o[i] |= (u32)((b[q >> 3] >> (q & 7)) & 1) << k;
    }
}
static void pack(const Poly &d, int bits, u8 *b) {
  memset(b, 0, bits * 32);
  for (int i = 0; i < 256; i++)
    for (int k = 0; k < bits; k++) {
      int q = i * bits + k;
      b[q >> 3] |= (u8)(((d[i] >> k) & 1) << (q & 7));
    }
}
static void mulacc(const Poly &a, const Poly &b, Poly &r) {  // r += a*b mod (x^256+1, 2^32)
  u32 t[512] = {0};
  for (int i = 0; i < 256; i++) {
    u32 x = a[i];
    for (int j = 0; j < 256; j++) t[i + j] += x * b[j];
  }
  for (int i = 0; i < 256; i++) r[i] += t[i] - t[i + 256];
}

static void gen_secret(const Model &m, const u8 seed[32], std::vector<Poly> &s) {
  int l = m.p.l, mu = m.p.mu();
  Bytes buf(l * mu * 32);
  m.prf(seed, buf.data(), buf.size());
  s.assign(l, Poly(256, 0));
  auto bit = [&](size_t q) { return (buf[q >> 3] >> (q & 7)) & 1; };
  size_t q = 0;
  for (int i = 0; i < l; i++)
    for (int j = 0; j < 256; j++) {
      int v = 0;
      if (m.p.uniform) {
        int x = bit(q) | bit(q + 1) << 1;
        v = (x ^ 2) - 2;
      } else {
        for (int k = 0; k < mu / 2; k++) v += bit(q + k);
        for (int k = mu / 2; k < mu; k++) v -= bit(q + k);
      }
      q += mu;
      s[i][j] = (u32)v;
    }
}

static void gen_matrix(const Model &m, const u8 seed[32], std::vector<std::vector<Poly>> &A) {
  int l = m.p.l, pb = m.p.eq() * 32;
  static struct { bool ok; Params p; u8 seed[32]; std::vector<std::vector<Poly>> A; } last;  // the same matrix is often needed several times
  if (last.ok && last.p.l == l && last.p.uniform == m.p.uniform && last.p.nineties == m.p.nineties && !memcmp(last.seed, seed, 32)) { A = last.A; return; }
  Bytes buf(l * l * pb);
  m.prf(seed, buf.data(), buf.size());
  A.assign(l, std::vector<Poly>(l));
  for (int i = 0; i < l; i++)
    for (int j = 0; j < l; j++) unpack(&buf[(i * l + j) * pb], m.p.eq(), A[i][j]);
  last.ok = true;
  last.p = m.p;
  memcpy(last.seed, seed, 32);
  last.A = A;
}

void Model::keygen(const u8 rA[32], const u8 rs[32], const u8 z[32], Bytes &pk, Bytes &sk) const {
  int l = p.l, EQ = p.eq(), EP = p.ep();
  u32 h1 = 1u << (EQ - EP - 1);
  u8 seedA[32];
  prf(rA, seedA, 32);
  std::vector<Poly> s;
  std::vector<std::vector<Poly>> A;
  gen_secret(*this, rs, s);
  gen_matrix(*this, seedA, A);
  pk.assign(p.pkbytes(), 0);
  sk.assign(p.skbytes(), 0);
  for (int j = 0; j < l; j++) {
    Poly b(256, 0);
    for (int i = 0; i < l; i++) mulacc(A[i][j], s[i], b);
    for (auto &x : b) x = ((x + h1) & ((1u << EQ) - 1)) >> (EQ - EP);
    pack(b, EP, &pk[j * 320]);
  }
  memcpy(&pk[l * 320], seedA, 32);
  for (int i = 0; i < l; i++) pack(s[i], p.es(), &sk[i * p.es() * 32]);
  memcpy(&sk[p.skvec()], pk.data(), pk.size());
  H(pk.data(), pk.size(), &sk[p.skvec() + p.pkbytes()]);
  memcpy(&sk[p.skbytes() - 32], z, 32);
}

void Model::cpa_enc(const u8 m[32], const u8 r[32], const u8 *pk, Bytes &ct) const {
  int l = p.l, EQ = p.eq(), EP = p.ep(), ET = p.et();
  u32 h1 = 1u << (EQ - EP - 1);
  std::vector<Poly> s;
  std::vector<std::vector<Poly>> A;
  gen_secret(*this, r, s);
  gen_matrix(*this, pk + l * 320, A);
  ct.assign(p.ctbytes(), 0);
  for (int i = 0; i < l; i++) {
    Poly b(256, 0);
    for (int j = 0; j < l; j++) mulacc(A[i][j], s[j], b);
    for (auto &x : b) x = ((x + h1) & ((1u << EQ) - 1)) >> (EQ - EP);
    pack(b, EP, &ct[i * 320]);
  }
  Poly v(256, 0), b;
  for (int j = 0; j < l; j++) {
    unpack(pk + j * 320, EP, b);
    mulacc(b, s[j], v);
  }
  for (int i = 0; i < 256; i++) {
    u32 bit = (m[i >> 3] >> (i & 7)) & 1;
    v[i] = ((v[i] - (bit << (EP - 1)) + (p.rev == 1 ? 0 : h1)) & ((1u << EP) - 1)) >> (EP - ET);
  }
  pack(v, ET, &ct[l * 320]);
}

void Model::enc(const u8 r[32], const u8 *pk, Bytes &ct, u8 ss[32]) const {
  u8 buf[64], kr[64];
  H(r, 32, buf);
  H(pk, p.pkbytes(), buf + 32);
  G(buf, 64, kr);
  cpa_enc(buf, kr + 32, pk, ct);
  H(ct.data(), ct.size(), kr + 32);
  H(kr, 64, ss);
}

static Poly decrypted(const Params &p, const u8 *ct, const u8 *sk) {  // the message bits are bit EP-1 of the coefficients
  int l = p.l, EQ = p.eq(), EP = p.ep(), ET = p.et();
  u32 h2 = (1u << (EP - 2)) - (1u << (EP - ET - 1)) + (p.rev == 1 ? 0 : (1u << (EQ - EP - 1)));
  Poly v(256, 0), s, b, cm;
  for (int i = 0; i < l; i++) {
    unpack(sk + i * p.es() * 32, p.es(), s);
    if (p.packed) for (auto &x : s) x = (x ^ 8) - 8;
    unpack(ct + i * 320, EP, b);
    mulacc(b, s, v);
  }
  unpack(ct + l * 320, ET, cm);
  for (int i = 0; i < 256; i++) v[i] = (v[i] + h2 - (cm[i] << (EP - ET))) & ((1u << EP) - 1);
  return v;
}

void Model::noise(const u8 *ct, const u8 *sk, const u8 msg[32], int &wrong, int &nearest) const {
  Poly v = decrypted(p, ct, sk);
  wrong = 0;
  nearest = 1 << p.ep();
  for (int i = 0; i < 256; i++) {
    int half = 1 << (p.ep() - 1), x = (int)v[i] & (half - 1);
    wrong += (v[i] >> (p.ep() - 1)) != (u32)((msg[i >> 3] >> (i & 7)) & 1);
    nearest = std::min(nearest, std::min(x + 1, half - x));
  }
}

bool Model::dec(const u8 *ct, const u8 *sk, u8 ss[32]) const {
  Poly v = decrypted(p, ct, sk);
  u8 buf[64] = {0}, kr[64];
  for (int i = 0; i < 256; i++) buf[i >> 3] |= (u8)((v[i] >> (p.ep() - 1)) << (i & 7));
  memcpy(buf + 32, sk + p.skbytes() - 64, 32);
  G(buf, 64, kr);
  Bytes cmp;
  cpa_enc(buf, kr + 32, sk + p.skvec(), cmp);
  bool ok = !memcmp(cmp.data(), ct, cmp.size());
  H(ct, p.ctbytes(), kr + 32);
  if (!ok) memcpy(kr, sk + p.skbytes() - 32, 32);
  H(kr, 64, ss);
  return ok;
}

void Model::reject(const u8 *ct, const u8 *sk, u8 ss[32]) const {
  u8 kr[64];
  memcpy(kr, sk + p.skbytes() - 32, 32);
  H(ct, p.ctbytes(), kr + 32);
  H(kr, 64, ss);
}

void DrbgModel::inc(u8 v[16]) {
  for (int j = 15; j >= 0; j--)
    if (++v[j]) break;
}
void DrbgModel::update(const u8 *data) {
  u8 t[48];
  for (int i = 0; i < 3; i++) { inc(V); aes256_block(K, V, t + 16 * i); }
  if (data) for (int i = 0; i < 48; i++) t[i] ^= data[i];
  memcpy(K, t, 32);
  memcpy(V, t + 32, 16);
}
void DrbgModel::init(const u8 entropy[48], const u8 *pers) {
  u8 sm[48];
  memcpy(sm, entropy, 48);
  if (pers) for (int i = 0; i < 48; i++) sm[i] ^= pers[i];
  memset(K, 0, 32);
  memset(V, 0, 16);
  update(sm);
}
void DrbgModel::gen(u8 *out, size_t n) {
  u8 b[16];
  while (n) {
    inc(V);
    aes256_block(K, V, b);
    size_t k = n < 16 ? n : 16;
    memcpy(out, b, k);
    out += k;
    n -= k;
  }
  update(nullptr);
}

static Bytes unhex(const std::string &s) {
  Bytes b;
  for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((u8)strtoul(s.substr(i, 2).c_str(), nullptr, 16));
  return b;
}

std::string model_selftest(const std::string &katdir, int vectors) {
  for (int l = 2; l <= 4; l++)
    for (int u = 0; u < 2; u++)
      for (int n = 0; n < 2; n++) {
        Params p;
        p.l = l; p.uniform = u; p.nineties = n;
        Model m(p);
        std::string dir = katdir + "/" + p.name(), file;
        DIR *d = opendir(dir.c_str());
        if (!d) continue;
        while (struct dirent *e = readdir(d)) { std::string f = e->d_name; if (f.size() > 4 && f.substr(f.size() - 4) == ".rsp") file = dir + "/" + f; }
        closedir(d);
        std::ifstream in(file);
        std::string line;
        std::map<std::string, Bytes> v;
        int done = 0;
        while (done < vectors && std::getline(in, line)) {
          size_t e = line.find(" = ");
          if (e == std::string::npos) continue;
          v[line.substr(0, e)] = unhex(line.substr(e + 3));
          if (line.substr(0, e) != "ss") continue;
          done++;
          DrbgModel g;
          g.init(v["seed"].data(), nullptr);
          u8 r[4][32], ss[32], ss2[32];
          for (auto &x : r) g.gen(x, 32);
          Bytes pk, sk, ct;
          m.keygen(r[0], r[1], r[2], pk, sk);
          m.enc(r[3], pk.data(), ct, ss);
          bool ok = m.dec(ct.data(), sk.data(), ss2);
          if (pk != v["pk"] || sk != v["sk"] || ct != v["ct"] || memcmp(ss, v["ss"].data(), 32) || !ok || memcmp(ss, ss2, 32))
            return "the model disagrees with test vector " + std::to_string(done - 1) + " of " + p.name();
        }
      }
  return "";
}
