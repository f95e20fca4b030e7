#undef fopen
#undef fclose
#undef fread
#undef fwrite
#undef getenv
#undef system
#undef rename
#undef remove
#undef open
#undef close
#undef write
#undef pread
#undef lseek
/* Replay side of vt.h: inputs come from the file named by VT_INPUT (hex, one per line). */
#undef getenv
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include "vt.h"
static FILE *f;
static int   reached;
uint64_t
vt_u64(void)
{
    unsigned long long v;
    if (!f) {
        const char *p = getenv("VT_INPUT");
        f             = p ? fopen(p, "r") : 0;
        if (!f) { fprintf(stderr, "VT no input file\n"); _exit(98); }
    }
    if (fscanf(f, "%llx", &v) != 1) { fprintf(stderr, "VT input exhausted\n"); _exit(78); }
    return v;
}
void
vt_assume_(int c)
{
    if (!c) { fprintf(stderr, "VT assumption false\n"); _exit(77); }
}
void
vt_check_(int c, const char *msg, const char *file, int line)
{
    if (!c) { fprintf(stderr, "VT-VIOLATED %s (%s:%d)\n", msg, file, line); _exit(42); }
}
void
vt_reach_(const char *msg)
{
    reached = 1;
    fprintf(stderr, "VT-REACHED %s\n", msg);
}
int
main(void)
{
    harness();
    if (!reached) { fprintf(stderr, "VT end without reach\n"); return 79; }
    return 0;
}
