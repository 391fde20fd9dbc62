/* makes the n-th file system operation of the code under test fail (replay of counterexamples) */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static long armed = -1, count = 0, kind = 0, done = 0;

void vh_fault_arm(long n, long k) { armed = n; kind = k; count = 0; done = 0; }
long vh_fault_done(void) { armed = -1; return done; }

static int hit(void)
{
    if (armed < 0 || count++ != armed)
        return 0;
    done = 1;
    return 1;
}

#define REAL(f) __typeof__(&f) real = (__typeof__(&f))dlsym(RTLD_NEXT, #f)
#define FAIL() do { errno = kind == 2 ? EINTR : EIO; return -1; } while (0)

int open64(const char *p, int fl, ...)
{
    REAL(open64);
    va_list a;
    va_start(a, fl);
    mode_t m = va_arg(a, mode_t);
    va_end(a);
    if ((fl & (O_ACCMODE | O_CREAT)) && kind != 1 && hit()) FAIL();
    return real(p, fl, m);
}
int open(const char *p, int fl, ...)
{
    REAL(open);
    va_list a;
    va_start(a, fl);
    mode_t m = va_arg(a, mode_t);
    va_end(a);
    if ((fl & (O_ACCMODE | O_CREAT)) && kind != 1 && hit()) FAIL();
    return real(p, fl, m);
}
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
    if (fd > 2 && hit()) {
        if (kind == 1) return real(fd, b, n ? 1 : 0);
        FAIL();
    }
    return real(fd, b, n);
}
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (kind == 0 && hit()) FAIL(); return real(p, m); }
int unlink(const char *p) { REAL(unlink); if (kind == 0 && hit()) FAIL(); return real(p); }
int rmdir(const char *p) { REAL(rmdir); if (kind == 0 && hit()) FAIL(); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); if (kind == 0 && hit()) FAIL(); return real(d, p, f); }

/* directory entries in the order of their names, as in the modelled file system */
#define ND 64
static struct { DIR *d; struct dirent64 *e; int n, k; } dirs[ND];

static int byname(const void *a, const void *b)
{
    return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}
struct dirent64 *readdir64(DIR *d)
{
    REAL(readdir64);
    int i, f = -1;
    for (i = 0; i < ND; i++) {
        if (dirs[i].d == d) break;
        if (!dirs[i].d) f = i;
    }
    if (i == ND) {
        if (f < 0) return real(d);
        i = f;
        dirs[i].d = d;
        dirs[i].n = dirs[i].k = 0;
        for (struct dirent64 *x; (x = real(d)) != NULL; ) {
            dirs[i].e = realloc(dirs[i].e, (dirs[i].n + 1) * sizeof *x);
            memcpy(dirs[i].e + dirs[i].n++, x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
        }
        qsort(dirs[i].e, dirs[i].n, sizeof *dirs[i].e, byname);
    }
    return dirs[i].k < dirs[i].n ? dirs[i].e + dirs[i].k++ : NULL;
}
int closedir(DIR *d)
{
    REAL(closedir);
    for (int i = 0; i < ND; i++)
        if (dirs[i].d == d) dirs[i].d = NULL;
    return real(d);
}
