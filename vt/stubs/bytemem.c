/* Byte-loop bodies for memcpy & co (CBMC build only): same contract, cheap for symbolic lengths. */
#ifndef VT_REPLAY
#include <stddef.h>
void *memcpy(void *d, const void *s, size_t n)
{
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
#endif
