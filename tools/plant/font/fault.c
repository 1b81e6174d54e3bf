// Makes single calls of a program fail, or kills it at the output write of number FAULT_KILL: the write of number FAULT_WRITE to an output file, or the FreeType call of number FAULT_RENDER.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <sys/uio.h>
#include <unistd.h>
static int hit(void)
{
    static int n = 0, k = 0;
    const char* d = getenv("FAULT_KILL");
    if (d && k++ == atoi(d)) _exit(137);
    const char* e = getenv("FAULT_WRITE");
    return e && n++ == atoi(e);
}
ssize_t write(int fd, const void* b, size_t n)
{
    static ssize_t (*real)(int, const void*, size_t);
    if (!real) real = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
    if (fd > 2 && hit()) { errno = EIO; return -1; }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    static ssize_t (*real)(int, const struct iovec*, int);
    if (!real) real = (ssize_t (*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
    if (fd > 2 && hit()) { errno = EIO; return -1; }
    return real(fd, v, c);
}
int FT_Render_Glyph(void* g, int m)
{
    static int (*real)(void*, int);
    static int n = 0;
    const char* e = getenv("FAULT_RENDER");
    if (!real) real = (int (*)(void*, int))dlsym(RTLD_NEXT, "FT_Render_Glyph");
    if (e && n++ == atoi(e)) return 0x62;
    return real(g, m);
}
int FT_Load_Char(void* f, unsigned long c, int fl)
{
    static int (*real)(void*, unsigned long, int);
    static int n = 0;
    const char* e = getenv("FAULT_LOAD");
    if (!real) real = (int (*)(void*, unsigned long, int))dlsym(RTLD_NEXT, "FT_Load_Char");
    if (e && n++ == atoi(e)) return 0x40;
    return real(f, c, fl);
}
