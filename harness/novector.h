/* force the scalar representation of the binary fields */
#include "macros.h"
#undef HAVE_ATTR_VECTOR_SIZE
