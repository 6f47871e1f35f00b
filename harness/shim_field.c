/* Field operations on arrays of elements given as byte strings.
   op: 0 add, 1 mul, 2 mul by a 64-bit element (second operands are 8 bytes each), 3 mul by a bit (1 byte each),
   4 byte_combine_bits (first operands 1 byte each), 5 byte_combine (first operands 8 elements each),
   6 sum_poly (first operands lam elements each), 7 inverse (8-bit only), 8 load and store,
   9 from_bf64 (first operands 8 bytes), 10 from_bf8 (1 byte), 11 from_bit (1 byte), 12 zero, 13 one */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "fields.h"
#define F(B)                                                                                       \
  static int f##B(int op, const uint8_t* a, const uint8_t* b, uint8_t* c, size_t n) {              \
    const size_t L = B / 8;                                                                        \
    bf##B##_t* t = aligned_alloc(32, sizeof(*t) * 256);                                            \
    for (size_t i = 0; i < n; ++i, c += L) {                                                       \
      bf##B##_t r;                                                                                 \
      switch (op) {                                                                                \
      case 0: r = bf##B##_add(bf##B##_load(a), bf##B##_load(b)); a += L; b += L; break;            \
      case 1: r = bf##B##_mul(bf##B##_load(a), bf##B##_load(b)); a += L; b += L; break;            \
      case 2: r = bf##B##_mul_64(bf##B##_load(a), bf64_load(b)); a += L; b += 8; break;            \
      case 3: { bf##B##_t x = bf##B##_load(a); r = bf##B##_mul_bit(x, *b); a += L; b += 1; break; } \
      case 4: r = bf##B##_byte_combine_bits(*a); a += 1; break;                                    \
      case 5:                                                                                      \
        for (int k = 0; k < 8; ++k, a += L) t[k] = bf##B##_load(a);                                \
        r = bf##B##_byte_combine(t);                                                               \
        break;                                                                                     \
      case 6:                                                                                      \
        for (int k = 0; k < B; ++k, a += L) t[k] = bf##B##_load(a);                                \
        r = bf##B##_sum_poly(t);                                                                   \
        break;                                                                                     \
      case 8: r = bf##B##_load(a); a += L; break;                                                  \
      case 9: r = bf##B##_from_bf64(bf64_load(a)); a += 8; break;                                  \
      case 10: r = bf##B##_from_bf8(*a); a += 1; break;                                            \
      case 11: r = bf##B##_from_bit(*a); a += 1; break;                                            \
      case 12: r = bf##B##_zero(); break;                                                          \
      case 13: r = bf##B##_one(); break;                                                           \
      default: free(t); return -1;                                                                 \
      }                                                                                            \
      bf##B##_store(c, r);                                                                         \
    }                                                                                              \
    free(t);                                                                                       \
    return 0;                                                                                      \
  }
F(128) F(192) F(256)
int hx_field(int bits, int op, const uint8_t* a, const uint8_t* b, uint8_t* c, size_t n) {
  switch (bits) {
  case 128: return f128(op, a, b, c, n);
  case 192: return f192(op, a, b, c, n);
  case 256: return f256(op, a, b, c, n);
  case 64:
    for (size_t i = 0; i < n; ++i, c += 8) {
      bf64_t r;
      switch (op) {
      case 0: r = bf64_add(bf64_load(a), bf64_load(b)); a += 8; b += 8; break;
      case 1: r = bf64_mul(bf64_load(a), bf64_load(b)); a += 8; b += 8; break;
      case 8: r = bf64_load(a); a += 8; break;
      case 11: r = bf64_from_bit(*a); a += 1; break;
      case 12: r = bf64_zero(); break;
      case 13: r = bf64_one(); break;
      default: return -1;
      }
      bf64_store(c, r);
    }
    return 0;
  default:
    for (size_t i = 0; i < n; ++i, c += 1) {
      bf8_t r;
      switch (op) {
      case 0: r = bf8_add(bf8_load(a), bf8_load(b)); a += 1; b += 1; break;
      case 1: r = bf8_mul(bf8_load(a), bf8_load(b)); a += 1; b += 1; break;
      case 7: r = bf8_inv(bf8_load(a)); a += 1; break;
      case 8: r = bf8_load(a); a += 1; break;
      case 11: r = bf8_from_bit(*a); a += 1; break;
      case 12: r = bf8_zero(); break;
      case 13: r = bf8_one(); break;
      default: return -1;
      }
      bf8_store(c, r);
    }
    return 0;
  }
}
