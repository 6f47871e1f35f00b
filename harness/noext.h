/* As an unknown compiler on an unknown system: no builtins, no host byte order functions. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <limits.h>
#include <errno.h>
#include <assert.h>
#include <endian.h>
#include <malloc.h>
#include "macros.h"
#undef GNUC_CHECK
#define GNUC_CHECK(a, b) 0
#undef __has_builtin
#define __has_builtin(x) 0
#undef htobe16
#undef htobe32
#undef htobe64
#undef htole16
#undef htole32
#undef htole64
#undef be16toh
#undef be32toh
#undef be64toh
#undef le16toh
#undef le32toh
#undef le64toh
#undef _DEFAULT_SOURCE
#undef _GNU_SOURCE
#undef _BSD_SOURCE
#undef __linux__
#undef __GLIBC__
#ifdef BIG
#define FAEST_IS_BIG_ENDIAN
#else
#define FAEST_IS_LITTLE_ENDIAN
#endif
#undef __GNUC__
#undef __clang__
#ifdef HAVE_CONSTTIME_MEMEQUAL
int consttime_memequal(const void*, const void*, size_t);
#endif
