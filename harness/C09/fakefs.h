/* Files in memory: open/lseek/write/pread/close of the server are redirected here. */
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/types.h>
#ifndef FS_FILES
#define FS_FILES 2
#endif
#ifndef FS_CAP
#define FS_CAP 64
#endif
static struct { char path[1024]; int used, open; size_t len, pos; uint8_t *data; } fs_[FS_FILES];
int vt_open(const char *path, int flags, ...)
{
    int i;
    for (i = 0; i < FS_FILES; i++)
        if (fs_[i].used && strcmp(fs_[i].path, path) == 0)
            break;
    if (i == FS_FILES) {
        if (!(flags & O_CREAT))
            return -1;
        for (i = 0; i < FS_FILES && fs_[i].used; i++)
            ;
        VT_CHECK(i < FS_FILES, "no more storage files than objects");
        fs_[i].used = 1;
        strcpy(fs_[i].path, path);
        fs_[i].data = (uint8_t *)calloc(1, FS_CAP);
    }
    fs_[i].open = 1;
    fs_[i].pos  = 0;
    return 10 + i;
}
int vt_close(int fd)
{
    VT_CHECK(fd >= 10 && fd < 10 + FS_FILES && fs_[fd - 10].open, "only open files are closed");
    fs_[fd - 10].open = 0;
    return 0;
}
off_t vt_lseek(int fd, off_t o, int whence)
{
    VT_CHECK(fd >= 10 && fd < 10 + FS_FILES && fs_[fd - 10].open, "only open files are used");
    fs_[fd - 10].pos = (whence == SEEK_SET ? 0 : whence == SEEK_END ? fs_[fd - 10].len : fs_[fd - 10].pos) + (size_t)o;
    return (off_t)fs_[fd - 10].pos;
}
ssize_t vt_write(int fd, const void *b, size_t n)
{
    size_t i;
    if (!n)
        return 0;
    VT_CHECK(fd >= 10 && fd < 10 + FS_FILES && fs_[fd - 10].open, "only open files are used");
    VT_CHECK(fs_[fd - 10].pos + n <= FS_CAP, "storage grows by no more than what was written");
    memcpy(fs_[fd - 10].data + fs_[fd - 10].pos, b, n);
    fs_[fd - 10].pos += n;
    if (fs_[fd - 10].pos > fs_[fd - 10].len)
        fs_[fd - 10].len = fs_[fd - 10].pos;
    return (ssize_t)n;
}
ssize_t vt_pread(int fd, void *b, size_t n, off_t o)
{
    VT_CHECK(fd >= 10 && fd < 10 + FS_FILES && fs_[fd - 10].open, "only open files are used");
    if ((size_t)o >= fs_[fd - 10].len)
        return 0;
    if (n > fs_[fd - 10].len - (size_t)o)
        n = fs_[fd - 10].len - (size_t)o;
    memcpy(b, fs_[fd - 10].data + o, n);
    return (ssize_t)n;
}
