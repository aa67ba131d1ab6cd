/* Interposed stdio: every file the program opens becomes a stream whose reads, writes and closing are logged and
 * can be made to fail.  VFIO="op:nth:errno:sticky;..." with op in open,fdopen,mkstemp,read,write,close; VFIO_LOG=file. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/syscall.h>

struct ck { int fd, wr, dead_w, dead_r; char name[256]; };
static int cnt[8], logfd = -2;
static const char *ops[] = { "open", "fdopen", "mkstemp", "read", "write", "close" };

static void put(const char *op, const char *name, long n, int failed)
{
    char b[512];
    if (logfd == -2) {
        const char *p = getenv("VFIO_LOG");
        logfd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0644) : -1;
    }
    if (logfd >= 0) {
        int k = snprintf(b, sizeof b, "%s %s %ld %s\n", op, name, n, failed ? "FAIL" : "ok");
        syscall(SYS_write, logfd, b, (size_t) k);
    }
}

static int plan(int op, int *sticky)
{
    const char *p = getenv("VFIO");
    int n = ++cnt[op];
    while (p && *p) {
        char name[16];
        int nth, e, s;
        if (sscanf(p, "%15[^:]:%d:%d:%d", name, &nth, &e, &s) == 4 && !strcmp(name, ops[op]) && n == nth) {
            if (sticky) *sticky = s;
            return e;
        }
        p = strchr(p, ';');
        if (p) ++p;
    }
    return 0;
}

static ssize_t c_read(void *v, char *b, size_t n)
{
    struct ck *c = v;
    int s = 0, e = plan(3, &s);
    if (!e && c->dead_r) e = c->dead_r;
    if (e) { if (s) c->dead_r = e; put("read", c->name, (long) n, 1); errno = e; return -1; }
    ssize_t k = read(c->fd, b, n);
    put("read", c->name, (long) k, 0);
    return k;
}

static ssize_t c_write(void *v, const char *b, size_t n)
{
    struct ck *c = v;
    int s = 0, e = plan(4, &s);
    if (!e && c->dead_w) e = c->dead_w;
    if (e) { if (s) c->dead_w = e; put("write", c->name, (long) n, 1); errno = e; return 0; }
    ssize_t k = write(c->fd, b, n);
    put("write", c->name, (long) k, 0);
    return k < 0 ? 0 : k;
}

static int c_seek(void *v, off64_t *o, int w)
{
    struct ck *c = v;
    off64_t k = lseek64(c->fd, *o, w);
    if (k < 0) return -1;
    *o = k;
    return 0;
}

static int c_close(void *v)
{
    struct ck *c = v;
    int e = plan(5, 0), k = close(c->fd);
    put("close", c->name, c->wr, e != 0);
    free(c);
    if (e) { errno = e; return -1; }
    return k;
}

static FILE *mk(int fd, const char *name, const char *mode)
{
    struct ck *c = calloc(1, sizeof *c);
    cookie_io_functions_t io = { c_read, c_write, c_seek, c_close };
    FILE *f;
    c->fd = fd;
    c->wr = mode[0] == 'w';
    snprintf(c->name, sizeof c->name, "%s", name);
    f = fopencookie(c, mode, io);
    if (f) {
        const char *p = getenv("VFIO_BUF");
        if (p) setvbuf(f, 0, _IOFBF, (size_t) atoi(p));
    }
    return f;
}

FILE *fopen(const char *path, const char *mode)
{
    int w = mode[0] == 'w', e = plan(0, 0), fd;
    char tag[300];
    snprintf(tag, sizeof tag, "%s", path);
    if (e) { put(w ? "openw" : "openr", tag, 0, 1); errno = e; return 0; }
    fd = open(path, w ? O_WRONLY | O_CREAT | O_TRUNC : O_RDONLY, 0666);
    if (fd < 0) { put("noopen", tag, errno, 0); return 0; }
    put(w ? "openw" : "openr", tag, 0, 0);
    return mk(fd, path, mode);
}

FILE *fdopen(int fd, const char *mode)
{
    int e = plan(1, 0);
    if (e) { put("fdopen", "TMP", 0, 1); errno = e; return 0; }
    put("fdopen", "TMP", 0, 0);
    return mk(fd, "TMP", mode);
}

int mkstemp(char *t)
{
    static int (*real)(char *);
    int e = plan(2, 0);
    if (e) { put("mkstemp", "TMP", 0, 1); errno = e; return -1; }
    if (!real) real = (int (*)(char *)) dlsym(RTLD_NEXT, "mkstemp");
    put("mkstemp", "TMP", 0, 0);
    return real(t);
}
