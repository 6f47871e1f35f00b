#include <stddef.h>
#define kSecRandomDefault ((void*)0)
#define errSecSuccess 0
int SecRandomCopyBytes(void* r, size_t n, void* x);
