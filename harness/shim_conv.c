#include <stdint.h>
#include <stdlib.h>
#include "vole.h"
void hx_convert(const uint8_t* iv, const uint8_t* sd, int bot, unsigned int lambda, unsigned int depth, unsigned int n,
                uint8_t* u, uint8_t* v) {
  ConvertToVole(iv, sd, bot, lambda, depth, n, u, v);
}
