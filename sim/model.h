// Independent executable model of the Saber specification (schoolbook arithmetic, OpenSSL primitives).
#pragma once
#include "core.h"

struct Params {
  int l = 3;          // module rank 2, 3, 4
  bool uniform = false;  // uSaber
  bool nineties = false; // AES/SHA-2 instead of Keccak
  int rev = 3;        // 1: rounding constants of the Cortex-M0 tree (no constant added to v')
  bool packed = false;   // the secret vector stored as 4-bit values (SABER_COMPRESS_SECRETKEY of the Cortex-M4 trees)
  int mu() const { return uniform ? 2 : l == 2 ? 10 : l == 3 ? 8 : 6; }
  int eq() const { return uniform ? 12 : 13; }
  int ep() const { return 10; }
  int et() const { return l == 2 ? 3 : l == 3 ? 4 : 6; }
  size_t pkbytes() const { return l * 320 + 32; }
  int es() const { return packed ? 4 : eq(); }  // bits of a stored secret coefficient
  size_t skvec() const { return (size_t)l * es() * 32; }
  size_t skbytes() const { return skvec() + pkbytes() + 64; }
  size_t ctbytes() const { return l * 320 + et() * 32; }
  std::string name() const;
};

struct Model {
  Params p;
  explicit Model(Params q) : p(q) {}
  void keygen(const u8 rA[32], const u8 rs[32], const u8 z[32], Bytes &pk, Bytes &sk) const;
  void enc(const u8 r[32], const u8 *pk, Bytes &ct, u8 ss[32]) const;
  // returns true if the ciphertext was accepted
  bool dec(const u8 *ct, const u8 *sk, u8 ss[32]) const;
  void reject(const u8 *ct, const u8 *sk, u8 ss[32]) const;  // the secret for a rejected ciphertext
  // How close decryption comes to reading each bit of msg wrongly: the number of bits read wrongly, and the smallest
  // distance of a coefficient from the boundary between 0 and 1.
  void noise(const u8 *ct, const u8 *sk, const u8 msg[32], int &wrong, int &nearest) const;
  void H(const u8 *in, size_t n, u8 out[32]) const;
  void G(const u8 *in, size_t n, u8 out[64]) const;
  void prf(const u8 seed[32], u8 *out, size_t n) const;
  void cpa_enc(const u8 m[32], const u8 r[32], const u8 *pk, Bytes &ct) const;
};

void sha3(int bits, const u8 *in, size_t n, u8 *out);
void shake(int bits, const u8 *in, size_t n, u8 *out, size_t outlen);
void aes256_block(const u8 key[32], const u8 in[16], u8 out[16]);

struct DrbgModel {  // SP 800-90A CTR_DRBG, AES-256, no derivation function
  u8 K[32], V[16];
  void init(const u8 entropy[48], const u8 *pers);
  void update(const u8 *data);
  void gen(u8 *out, size_t n);
  static void inc(u8 V[16]);
};

// Checks the model against the test vectors of the repository; returns an error text or "".
std::string model_selftest(const std::string &katdir, int vectors);
