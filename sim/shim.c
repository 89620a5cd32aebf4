/* Preloaded into the command-line tool: its file reads and its output behave as the plan says. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdint.h>

#define MAXF 64
#define MAXS 256
struct file { char path[512]; int errs[8], nerrs, tried; long max, err_at, err, every; int script[MAXS], nscript; };
struct openf { struct file *f; long pos, n, acted; };
static struct file files[MAXF];
static int nfiles;
static struct openf fds[1024];
static long w_max, w_every, w_at = -1, w_err, w_once, w_pos, w_n;
static long st_reads, st_short, st_intr, st_err, st_open, st_wshort, st_wintr, st_werr;

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("FOLIA_SIM_PLAN");
    if (!p) return;
    FILE *f = fopen(p, "r");
    if (!f) return;
    char kind[8];
    while (fscanf(f, "%7s", kind) == 1) {
        if (kind[0] == 'w') { if (fscanf(f, "%ld %ld %ld %ld %ld", &w_max, &w_every, &w_at, &w_err, &w_once) != 5) break; }
        else if (kind[0] == 'f' && nfiles < MAXF) {
            struct file *x = &files[nfiles];
            if (fscanf(f, "%511s %ld %ld %ld %ld %d", x->path, &x->max, &x->every, &x->err_at, &x->err, &x->nerrs) != 6) break;
            for (int i = 0; i < x->nerrs; i++) { int e; if (fscanf(f, "%d", &e) != 1) break; if (i < 8) x->errs[i] = e; }
            if (fscanf(f, "%d", &x->nscript) != 1) break;
            for (int i = 0; i < x->nscript; i++) { int e; if (fscanf(f, "%d", &e) != 1) break; if (i < MAXS) x->script[i] = e; }
            nfiles++;
        }
    }
    fclose(f);
}
__attribute__((destructor)) static void done(void) {
    const char *p = getenv("FOLIA_SIM_STATS");
    if (!p) return;
    FILE *f = fopen(p, "w");
    if (!f) return;
    fprintf(f, "cli_reads %ld\ncli_short_reads %ld\ncli_read_eintr %ld\ncli_read_error %ld\ncli_open_error %ld\ncli_short_writes %ld\ncli_write_eintr %ld\ncli_write_error %ld\n", st_reads, st_short, st_intr, st_err, st_open, st_wshort, st_wintr, st_werr);
    fclose(f);
}
static int do_open(const char *path, int flags, int mode) {
    struct file *x = NULL;
    for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].path, path)) x = &files[i];
    if (x && x->tried < x->nerrs) { int e = x->errs[x->tried++]; st_open++; errno = e; return -1; }
    int fd = syscall(SYS_openat, -100, path, flags, mode);
    if (fd >= 0 && fd < 1024) { memset(&fds[fd], 0, sizeof fds[fd]); fds[fd].f = x; }
    return fd;
}
int open64(const char *path, int flags, int mode) { return do_open(path, flags, mode); }
int open(const char *path, int flags, int mode) { return do_open(path, flags, mode); }
int close(int fd) { if (fd >= 0 && fd < 1024) fds[fd].f = NULL; return syscall(SYS_close, fd); }
ssize_t read(int fd, void *b, size_t n) {
    struct openf *o = fd >= 0 && fd < 1024 && fds[fd].f ? &fds[fd] : NULL;
    if (!o) return syscall(SYS_read, fd, b, n);
    struct file *x = o->f;
    long max = x->max > 0 ? x->max : 1L << 40;
    o->n++; st_reads++;
    if (x->every > 0 && o->n % x->every == 0) { st_intr++; errno = EINTR; return -1; }
    if (o->acted < x->nscript && o->acted < MAXS) { int s = x->script[o->acted++]; if (s == 0) { st_intr++; errno = EINTR; return -1; } if (s < 0) { st_err++; errno = -s; return -1; } max = s; }
    if (x->err_at >= 0) { if (o->pos >= x->err_at) { st_err++; errno = x->err; return -1; } if (max > x->err_at - o->pos) max = x->err_at - o->pos; }
    if ((long)n > max) { n = max; st_short++; }
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (r > 0) o->pos += r;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (fd != 1) return syscall(SYS_write, fd, b, n);
    w_n++;
    if (w_every > 0 && w_n % w_every == 0) { st_wintr++; errno = EINTR; return -1; }
    if (w_at >= 0) { if (w_pos >= w_at) { st_werr++; errno = w_err; if (w_once) w_at = -1; return -1; } if ((long)n > w_at - w_pos) { n = w_at - w_pos; st_wshort++; } }
    if (w_max > 0 && (long)n > w_max) { n = w_max; st_wshort++; }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (r > 0) w_pos += r;
    return r;
}
