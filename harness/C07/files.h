/* Stdio files in memory. FS_FAIL: the machine may stop at any moment, after which nothing reaches the files any more. */
#ifndef FS_CAP
#define FS_CAP 200000
#endif
#define FS_FILES 4
static struct { char path[256]; int used; size_t len; uint8_t *data; } fs_[FS_FILES];
static struct { int used, f; size_t pos; } fp_[8];
static int fs_down, fs_left = -1; /* stopped; writes until it stops */
static int fs_find(const char *p)
{
    for (int i = 0; i < FS_FILES; i++)
        if (fs_[i].used && strcmp(fs_[i].path, p) == 0)
            return i;
    return -1;
}
FILE *vt_fopen(const char *path, const char *mode)
{
    int i = fs_find(path), k;
    if (mode[0] == 'r' && i < 0)
        return NULL;
    if (fs_left == 0)
        fs_down = 1;
    else if (fs_left > 0)
        fs_left--;
    if (mode[0] != 'r' && !fs_down) {
        if (i < 0) {
            for (i = 0; i < FS_FILES && fs_[i].used; i++)
                ;
            VT_CHECK(i < FS_FILES, "few files are used");
            fs_[i].used = 1;
            strcpy(fs_[i].path, path);
            fs_[i].data = (uint8_t *)calloc(1, FS_CAP);
        }
        fs_[i].len = 0;
    }
    for (k = 0; k < 8 && fp_[k].used; k++)
        ;
    VT_CHECK(k < 8, "few files are open");
    fp_[k].used = 1, fp_[k].f = i, fp_[k].pos = 0;
    return (FILE *)(uintptr_t)(4096 + k);
}
#define FP(f) fp_[(uintptr_t)(f) - 4096]
int vt_fclose(FILE *f)
{
    VT_CHECK(FP(f).used, "only open files are closed");
    FP(f).used = 0;
    return 0;
}
size_t vt_fwrite(const void *b, size_t n, size_t m, FILE *f)
{
    size_t t = n * m;
    VT_CHECK(FP(f).used, "only open files are used");
    if (fs_left == 0)
        fs_down = 1;
    else if (fs_left > 0)
        fs_left--;
    if (fs_down || !t)
        return m;
    VT_CHECK(FP(f).pos + t <= FS_CAP, "the file is not larger than what it holds");
    memcpy(fs_[FP(f).f].data + FP(f).pos, b, t);
    FP(f).pos += t;
    if (fs_[FP(f).f].len < FP(f).pos)
        fs_[FP(f).f].len = FP(f).pos;
    return m;
}
size_t vt_fread(void *b, size_t n, size_t m, FILE *f)
{
    size_t t = n * m, left;
    VT_CHECK(FP(f).used, "only open files are used");
    left = fs_[FP(f).f].len - FP(f).pos;
    if (!t)
        return 0;
    if (t > left) {
        m = left / n;
        t = left;
    }
    memcpy(b, fs_[FP(f).f].data + FP(f).pos, t);
    FP(f).pos += t;
    return m;
}
int vt_rename(const char *a, const char *b)
{
    int i = fs_find(a), j = fs_find(b);
    if (fs_left == 0)
        fs_down = 1;
    else if (fs_left > 0)
        fs_left--;
    if (fs_down)
        return 0;
    if (i < 0)
        return -1;
    if (j >= 0 && j != i) {
        free(fs_[j].data);
        fs_[j].used = 0;
    }
    strcpy(fs_[i].path, b);
    return 0;
}
int vt_remove(const char *a)
{
    int i = fs_find(a);
    if (fs_down)
        return 0;
    if (i < 0)
        return -1;
    free(fs_[i].data);
    fs_[i].used = 0;
    return 0;
}
int vt_fflush(FILE *f) { (void)f; return 0; }
/* shell commands: directories exist; "mv a b" */
int vt_system(const char *c)
{
    char a[256], b[256];
    int  i, j;
    if (strncmp(c, "mv ", 3) == 0) {
        for (i = 3, j = 0; c[i] && c[i] != ' '; i++)
            a[j++] = c[i];
        a[j] = 0;
        for (i++, j = 0; c[i] && c[i] != ' '; i++)
            b[j++] = c[i];
        b[j] = 0;
        return vt_rename(a, b);
    }
    return 0;
}
