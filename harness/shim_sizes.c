/* The sizes exported by the public headers of every parameter set. */
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"
#include "crypto_sizes.h"
static const int sz[12][6] = {
#define X(u, l) {FAEST_##u##_PUBLIC_KEY_SIZE, FAEST_##u##_PRIVATE_KEY_SIZE, FAEST_##u##_SIGNATURE_SIZE, cs_pk_##l, cs_sk_##l, cs_sig_##l},
X(128S, 128s) X(128F, 128f) X(192S, 192s) X(192F, 192f) X(256S, 256s) X(256F, 256f)
X(EM_128S, em_128s) X(EM_128F, em_128f) X(EM_192S, em_192s) X(EM_192F, em_192f) X(EM_256S, em_256s) X(EM_256F, em_256f)
};
void hx_sizes(int i, int* out) { for (int k = 0; k < 6; ++k) out[k] = sz[i][k]; }
