/* Finds keys whose key schedule/encryption meets a zero S-box input at exactly one chosen place,
   and some that meet several (pairs of places from every eighth of the evaluation).
   Independent of the code under test; only selects inputs (the specification decides about them).
   usage: zeros <lambda> <em> <seed> <per-position> <tries>  ->  lines "<position> <key> <in>" (position -1: valid) */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint8_t S[256], inv[256];
static uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a = (uint8_t)(a << 1) ^ (a >> 7 ? 0x1b : 0); } return r; }
static uint64_t st;
static uint8_t rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (uint8_t)(st >> 31); }
static int pos, zeros, where, before;
static uint8_t sb(uint8_t x) { if (!x) { zeros++; before = where; where = pos; } pos++; return S[x]; }
static uint8_t W[32 * 15 + 64];
static int expand(const uint8_t* k, int nk, int nb, int r, int count) {
  memcpy(W, k, 4 * nk);
  uint8_t rc = 1;
  for (int i = nk; i < nb * (r + 1); ++i) {
    uint8_t t[4];
    memcpy(t, W + 4 * (i - 1), 4);
    if (i % nk == 0) {
      uint8_t a = t[0];
      for (int j = 0; j < 3; ++j) t[j] = count ? sb(t[j + 1]) : S[t[j + 1]];
      t[3] = count ? sb(a) : S[a];
      t[0] ^= rc; rc = mul(rc, 2);
    } else if (nk > 6 && i % nk == 4)
      for (int j = 0; j < 4; ++j) t[j] = count ? sb(t[j]) : S[t[j]];
    for (int j = 0; j < 4; ++j) W[4 * i + j] = W[4 * (i - nk) + j] ^ t[j];
  }
  return 0;
}
static void enc(const uint8_t* in, int nb, int r) {
  uint8_t s[32], t[32];
  int sh[4] = {0, 1, nb == 8 ? 3 : 2, nb == 8 ? 4 : 3};
  for (int i = 0; i < 4 * nb; ++i) s[i] = in[i] ^ W[i];
  for (int k = 1; k <= r; ++k) {
    for (int i = 0; i < 4 * nb; ++i) s[i] = sb(s[i]);
    for (int c = 0; c < nb; ++c) for (int j = 0; j < 4; ++j) t[4 * c + j] = s[4 * ((c + sh[j]) % nb) + j];
    for (int c = 0; c < nb; ++c) {
      uint8_t* a = t + 4 * c;
      uint8_t b[4];
      for (int j = 0; j < 4; ++j) b[j] = k < r ? mul(a[j], 2) ^ mul(a[(j + 1) % 4], 3) ^ a[(j + 2) % 4] ^ a[(j + 3) % 4] : a[j];
      for (int j = 0; j < 4; ++j) s[4 * c + j] = b[j] ^ W[4 * nb * k + 4 * c + j];
    }
  }
}
int main(int argc, char** argv) {
  int lam = atoi(argv[1]), em = atoi(argv[2]), per = atoi(argv[4]);
  long tries = atol(argv[5]);
  st = strtoull(argv[3], 0, 10) * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
  for (int i = 0; i < 64; ++i) rnd();
  for (int a = 1; a < 256; ++a) for (int b = 1; b < 256; ++b) if (mul(a, b) == 1) inv[a] = b;
  for (int a = 0; a < 256; ++a) { uint8_t x = inv[a]; S[a] = x ^ (uint8_t)(x << 1 | x >> 7) ^ (uint8_t)(x << 2 | x >> 6) ^ (uint8_t)(x << 3 | x >> 5) ^ (uint8_t)(x << 4 | x >> 4) ^ 0x63; }
  int nk = lam / 32, nb = em ? nk : 4, r = (nk > nb ? nk : nb) + 6;
  int blocks = em || lam == 128 ? 1 : 2, inl = blocks * 4 * nb;
  static int got[2048], pair[8][8], many;
  int valid = 0;
  for (long t = 0; t < tries; ++t) {
    uint8_t k[32], in[32];
    for (int i = 0; i < lam / 8; ++i) k[i] = rnd();
    for (int i = 0; i < inl; ++i) in[i] = rnd();
    pos = zeros = 0; where = -1;
    if (em) { expand(in, nk, nb, r, 0); enc(k, nb, r); }
    else { expand(k, nk, nb, r, 1); for (int b = 0; b < blocks; ++b) enc(in + 16 * b, nb, r); }
    if (zeros > 2 ? many++ >= 12 * per : zeros == 2 && pair[before * 8 / pos][where * 8 / pos]++ >= 3 * per) continue;
    if (zeros > 1) ; else if (zeros ? got[where]++ >= per : valid++ >= 20 * per) continue;
    printf("%d ", where);
    for (int i = 0; i < lam / 8; ++i) printf("%02x", k[i]);
    printf(" ");
    for (int i = 0; i < inl; ++i) printf("%02x", in[i]);
    printf("\n");
  }
  printf("total %d\n", pos);
  return 0;
}
