// Reference models of C library functions ("C" locale).  A call of the library function by the code under contract is
// verified against this text, which is trusted to say what the function does.
#include <cstddef>
static inline int nvcm_lower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" {
int nvcm_strcasecmp(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] != 0 && nvcm_lower(a[i]) == nvcm_lower(b[i])) i++;
    return nvcm_lower(a[i]) - nvcm_lower(b[i]);
}
}
