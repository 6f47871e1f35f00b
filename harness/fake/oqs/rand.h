#include <stdint.h>
#include <stddef.h>
void OQS_randombytes(uint8_t* x, size_t n);
