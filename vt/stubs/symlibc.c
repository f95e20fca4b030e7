#undef fopen
#undef fclose
#undef fread
#undef fwrite
#undef getenv
#undef system
#undef rename
#undef remove
#undef open
#undef close
#undef write
#undef pread
#undef lseek
/* C library bodies for the path-wise engine (weak: a harness may override).  Same contracts as the C standard. */
#include <stddef.h>
#include <stdint.h>
#define W __attribute__((weak))
W size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
W size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
W int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
W int strncmp(const char *a, const char *b, size_t n) { if (!n) return 0; while (--n && *a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
W char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
W char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
W char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
W char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
W char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
W char *strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return 0; } }
W size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
W size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
static char *st_;
W char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *r = s; s += strcspn(s, d); if (*s) *s++ = 0; *sv = s; return r; }
W char *strtok(char *s, const char *d) { return strtok_r(s, d, &st_); }
void *malloc(size_t);
W char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
W char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
W int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b; int r = 0;
    for (size_t i = n; i-- > 0;) { int d = (int)x[i] - (int)y[i]; int m = -(int)(d != 0); r = (d & m) | (r & ~m); }
    return r;
}
W int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
W void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
W int isdigit(int c) { return c >= '0' && c <= '9'; }
W int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
W int isupper(int c) { return c >= 'A' && c <= 'Z'; }
W int islower(int c) { return c >= 'a' && c <= 'z'; }
W int isalpha(int c) { return isupper(c) || islower(c); }
W int isalnum(int c) { return isalpha(c) || isdigit(c); }
static int hi8_(int c) { return (c >= -128 && c < -1) ? c + 256 : c; } /* glibc's tables */
W int tolower(int c) { return isupper(c) ? c + 32 : hi8_(c); }
W int toupper(int c) { return islower(c) ? c - 32 : hi8_(c); }
static unsigned short cb_[384]; static const unsigned short *cbp_; static int ctl_[384], ctu_[384]; static const int *ctlp_, *ctup_;
W const unsigned short **__ctype_b_loc(void)
{
    if (!cbp_) { for (int c = 0; c < 128; c++) { unsigned short v = 0; /* glibc little-endian bits */
            if (isupper(c)) v |= 1 << 8; if (islower(c)) v |= 1 << 9; if (isalpha(c)) v |= 1 << 10; if (isdigit(c)) v |= 1 << 11;
            if (isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) v |= 1 << 12; if (isspace(c)) v |= 1 << 13; if (c >= 32 && c < 127) v |= 1 << 14; if (c > 32 && c < 127) v |= 1 << 15;
            if (c == ' ' || c == 9) v |= 1; if (c < 32 || c == 127) v |= 2; if (c > 32 && c < 127 && !isalnum(c)) v |= 4; if (isalnum(c)) v |= 8; cb_[128 + c] = v; } cbp_ = cb_ + 128; }
    return &cbp_;
}
W const int **__ctype_tolower_loc(void) { if (!ctlp_) { for (int c = -128; c < 256; c++) ctl_[128 + c] = tolower(c); ctlp_ = ctl_ + 128; } return &ctlp_; }
W const int **__ctype_toupper_loc(void) { if (!ctup_) { for (int c = -128; c < 256; c++) ctu_[128 + c] = toupper(c); ctup_ = ctu_ + 128; } return &ctup_; }
W long strtol(const char *s, char **e, int base)
{
    long v = 0; int neg = 0, any = 0; const char *p = s;
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    if (base == 0) base = 10;
    while (isdigit((unsigned char)*p) && *p - '0' < base) { v = v * base + (*p++ - '0'); any = 1; }
    if (e) *e = (char *)(any ? p : s);
    return neg ? -v : v;
}
W long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
W unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
W unsigned long long strtoull(const char *s, char **e, int b) { return (unsigned long long)strtol(s, e, b); }
W int atoi(const char *s) { return (int)strtol(s, 0, 10); }
W long atol(const char *s) { return strtol(s, 0, 10); }
W int abs(int x) { return x < 0 ? -x : x; }
W void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    char * p   = b;
    size_t gap = 1;
    while (n > 16 && gap < n / 9) gap = 3 * gap + 1;
    for (; gap > 0; gap /= 3)
        for (size_t i = gap; i < n; i++)
            for (size_t j = i; j >= gap && cmp(p + (j - gap) * sz, p + j * sz) > 0; j -= gap) {
                char *x = p + (j - gap) * sz, *y = p + j * sz;
                if (sz % 8 == 0)
                    for (size_t k = 0; k < sz / 8; k++) { unsigned long t = ((unsigned long *)x)[k]; ((unsigned long *)x)[k] = ((unsigned long *)y)[k]; ((unsigned long *)y)[k] = t; }
                else
                    for (size_t k = 0; k < sz; k++) { char t = x[k]; x[k] = y[k]; y[k] = t; }
            }
}
W void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    size_t lo = 0, hi = n;
    while (lo < hi) {
        size_t      mid = (lo + hi) / 2;
        const char *p   = (const char *)b + mid * sz;
        int         c   = cmp(k, p);
        if (c == 0) return (void *)p;
        if (c < 0) hi = mid; else lo = mid + 1;
    }
    return 0;
}
W int gettimeofday(void *tv, void *tz) { long *t = tv; t[0] = 1; t[1] = 0; return 0; }
W long time(long *t) { if (t) *t = 1; return 1; }
W long clock(void) { return 1; }
W int *__errno_location(void) { static int e; return &e; }
W char *getenv(const char *n) { (void)n; return 0; }
