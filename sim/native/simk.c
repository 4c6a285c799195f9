/* simk: a simulated kernel boundary for one process.
 *
 * The process under simulation (a forked child) arms this library once.  From
 * then on a seccomp filter turns every file-system call of the whole process
 * (Python, GDAL, libtiff, SQLite, stdio, ...) into a SIGSYS, and the handler
 * below is the only thing that talks to the real kernel.  Calls that concern a
 * path under the simulation root are numbered, logged into memory shared with
 * the simulator, and subjected to the fault plan the simulator drew from its
 * seed.  All other calls pass through untouched.  getrandom() is answered from
 * a counter-based generator, so that temporary names are part of the seed.
 *
 * Off unless armed; nothing here is linked into malstroem.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define MAXPLAN 32
#define MAXLOG 60000
#define MAXPATH 400
#define PATHLEN 256
#define MAXFD 1024

enum { K_OPENR, K_OPENW, K_CLOSER, K_CLOSEW, K_READ, K_WRITE, K_SYNC, K_TRUNC, K_RENAME, K_UNLINK, K_MKDIR, K_RMDIR, K_LOCK, K_NKINDS };
enum { A_NONE, A_FAIL, A_SHORT, A_CRASH_BEFORE, A_CRASH_AFTER, A_CRASH_TORN, A_INTR, A_BAD, A_NACTIONS };

struct plan {
    uint32_t kinds;      /* bit mask of K_* this entry looks at */
    int32_t action;
    int64_t nth;         /* fires at the nth matching operation (0 = first) */
    int64_t count;       /* how many matching operations it hits (-1: from then on) */
    int32_t err;         /* errno for A_FAIL */
    int32_t param;       /* permille of the bytes transferred for A_SHORT / A_CRASH_TORN */
    char pathsub[64];    /* only operations whose path contains this (empty: all) */
    int64_t lo, hi;      /* A_BAD: these bytes of the file can't be read */
    int64_t seen;        /* out: matching operations so far */
    int64_t fired;       /* out: how often it fired */
};

struct logrec { uint16_t kind; uint16_t path; int32_t ret; int64_t off; int64_t len; int32_t action; int32_t err; };

struct ctl {
    char root[PATHLEN];
    uint64_t randstate;
    int64_t budget;          /* bytes the simulated device can still grow by; -1: unlimited */
    int32_t nplan;
    int32_t cwd_tracked;
    struct plan plan[MAXPLAN];
    /* outputs */
    int64_t nops;
    int64_t kindcount[K_NKINDS];
    int64_t actcount[A_NACTIONS];
    int64_t enospc;          /* operations refused because the budget ran out */
    int64_t logged;
    int32_t npaths;
    int32_t crashed;         /* 1 when a crash action ended the process */
    int32_t overflow;
    int32_t phase;           /* written by the simulator's child code: how far it got */
    int64_t oplimit;         /* more operations than this: the process is stopped (no progress) */
    int64_t vtime;           /* nanoseconds of simulated sleep */
    int64_t sleeps;
    int32_t stuck;           /* 1 when oplimit or the sleep limit ended the process */
    int32_t sched;           /* 1: wait for the scheduler before every operation */
    int32_t state;           /* 0 running, 1 waiting at a gate, 2 gone */
    int32_t go;
    int32_t gatekind;        /* what it is about to do */
    int32_t gatepath;
    int64_t opbase;          /* plan positions count from here (set when the process marks a phase) */
    int64_t lineat;          /* 1 + operations before the drawn line of the program was reached */
    int64_t memfail;         /* array allocations that failed (npmem.c) */
    int64_t arrays;          /* array allocations, when they are counted */
    int64_t clock;           /* seconds: what the file system's clock says; it stands still while a process runs. 0: the real one */
    char paths[MAXPATH][PATHLEN];
    struct logrec log[MAXLOG];
};

static struct ctl *C;
static size_t rootlen;
static struct { unsigned char tracked, writable, wrote; unsigned short path; } fdt[MAXFD];

size_t simk_ctl_size(void) { return sizeof(struct ctl); }

/* the only place a trapped call number reaches the kernel */
__asm__(".text\n.globl simk_raw\n.type simk_raw,@function\nsimk_raw:\n"
        "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\n"
        "syscall\n.globl simk_raw_ret\nsimk_raw_ret:\nret\n.size simk_raw,.-simk_raw\n");
extern long simk_raw(long nr, long a, long b, long c, long d, long e, long f);
extern char simk_raw_ret[];

static void fwake(int32_t *a) { simk_raw(SYS_futex, (long)a, FUTEX_WAKE, 64, 0, 0, 0); }

static void gone(void)
{
    __atomic_store_n(&C->state, 2, __ATOMIC_SEQ_CST);
    fwake(&C->state);
}

static void die(void) { if (C->sched) gone(); for (;;) simk_raw(SYS_exit_group, 137, 0, 0, 0, 0, 0); }

/* hand control back to the scheduler and wait for our turn */
static void gate(int kind, int path)
{
    if (!C->sched) return;
    C->gatekind = kind; C->gatepath = path;
    __atomic_store_n(&C->state, 1, __ATOMIC_SEQ_CST);
    fwake(&C->state);
    while (!__atomic_load_n(&C->go, __ATOMIC_SEQ_CST)) simk_raw(SYS_futex, (long)&C->go, FUTEX_WAIT, 0, 0, 0, 0);
    __atomic_store_n(&C->go, 0, __ATOMIC_SEQ_CST);
}

static int path_id(const char *p)
{
    for (int i = 0; i < C->npaths; i++) if (!strncmp(C->paths[i], p, PATHLEN - 1)) return i;
    if (C->npaths >= MAXPATH) return MAXPATH - 1;
    strncpy(C->paths[C->npaths], p, PATHLEN - 1);
    return C->npaths++;
}

/* path relative to the root, or NULL when the path is not ours */
static const char *ours(int dirfd, const char *p)
{
    if (!p) return NULL;
    if (p[0] == '/') {
        if (!strncmp(p, C->root, rootlen) && (p[rootlen] == '/' || p[rootlen] == 0)) return p + rootlen + (p[rootlen] == '/');
        return NULL;
    }
    if (dirfd == AT_FDCWD) return C->cwd_tracked ? p : NULL;
    if (dirfd >= 0 && dirfd < MAXFD && fdt[dirfd].tracked) return p;
    return NULL;
}

static int64_t fsize(int fd)
{
    struct stat st;
    if (simk_raw(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) < 0) return 0;
    return st.st_size;
}
static int64_t psize(const char *p)
{
    struct stat st;
    if (simk_raw(SYS_newfstatat, AT_FDCWD, (long)p, (long)&st, 0, 0, 0) < 0) return 0;
    return S_ISREG(st.st_mode) ? st.st_size : 0;
}

static int interrupted;     /* the operation in progress was hit by an interrupt */

static void record(int kind, int path, int64_t off, int64_t len, int64_t ret, int action, int err)
{
    if (interrupted) { if (!action) action = A_INTR; interrupted = 0; }
    C->nops++;
    C->kindcount[kind]++;
    if (action) C->actcount[action]++;
    if (C->logged < MAXLOG) {
        struct logrec *r = &C->log[C->logged++];
        r->kind = kind; r->path = path; r->off = off; r->len = len; r->ret = (int32_t)ret; r->action = action; r->err = err;
    } else C->overflow = 1;
}

/* which fault, if any, hits this operation */
static struct plan *decide(int kind, int path, int64_t off, int64_t len)
{
    struct plan *hit = NULL;
    gate(kind, path);
    if (C->oplimit && C->nops >= C->oplimit) { C->stuck = 1; die(); }
    for (int i = 0; i < C->nplan; i++) {
        struct plan *p = &C->plan[i];
        if (!(p->kinds >> kind & 1)) continue;
        if (p->pathsub[0] && !strstr(C->paths[path], p->pathsub)) continue;
        if (p->action == A_BAD && (off >= p->hi || off + len <= p->lo)) continue;
        int64_t n = p->seen++;
        if (n >= p->nth && (p->count < 0 || n < p->nth + p->count) && !hit) { hit = p; p->fired++; }
    }
    if (hit && hit->action == A_INTR) {
        interrupted = 1;
        simk_raw(SYS_kill, simk_raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGINT, 0, 0, 0, 0);
        return NULL;
    }
    return hit;
}

/* a plain operation: fail it, crash around it, or do it */
static long simple(int kind, int path, int64_t off, int64_t len, long nr, long a, long b, long c, long d, long e, long f)
{
    struct plan *p = decide(kind, path, off, len);
    if (p && p->action == A_FAIL) {
        /* a failed close still releases the descriptor, as on Linux */
        if (nr == SYS_close) simk_raw(nr, a, b, c, d, e, f);
        record(kind, path, off, len, -p->err, A_FAIL, p->err);
        return -p->err;
    }
    if (p && (p->action == A_CRASH_BEFORE || p->action == A_CRASH_TORN)) { record(kind, path, off, len, 0, A_CRASH_BEFORE, 0); C->crashed = 1; die(); }
    long r = simk_raw(nr, a, b, c, d, e, f);
    int act = 0;
    if (p && p->action == A_CRASH_AFTER) act = A_CRASH_AFTER;
    record(kind, path, off, len, r, act, 0);
    if (act) { C->crashed = 1; die(); }
    return r;
}

/* read/write family on one buffer */
static long xfer(int kind, int path, int fd, long nr, long buf, int64_t len, long offarg, int positional)
{
    int64_t off = positional ? offarg : simk_raw(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
    struct plan *p = decide(kind, path, off, len);
    int act = p ? p->action : 0;
    int64_t want = len;
    if (act == A_FAIL || (act == A_BAD && off >= p->lo)) { record(kind, path, off, len, -p->err, act, p->err); return -p->err; }
    if (act == A_BAD) want = p->lo - off;
    if (act == A_CRASH_BEFORE) { record(kind, path, off, len, 0, act, 0); C->crashed = 1; die(); }
    if (act == A_SHORT || act == A_CRASH_TORN) {
        if (len > 1) { want = len * p->param / 1000; if (want < 1 && act == A_SHORT) want = 1; if (want >= len) want = len - 1; }
        else if (act == A_CRASH_TORN) want = 0;
        else act = 0;
    }
    int64_t grow = 0;
    if (kind == K_WRITE && C->budget >= 0) {
        int64_t sz = fsize(fd);
        if (offarg == -1 && !positional) { int fl = simk_raw(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0); if (fl >= 0 && (fl & O_APPEND)) off = sz; }
        grow = off + want - sz;
        if (grow < 0) grow = 0;
        if (grow > C->budget) {
            int64_t can = want - (grow - C->budget);
            C->enospc++;
            if (can <= 0) { record(kind, path, off, len, -ENOSPC, A_FAIL, ENOSPC); return -ENOSPC; }
            want = can; grow = C->budget; act = act ? act : A_SHORT;
        }
    }
    long r = 0;
    if (want > 0 || len == 0) r = positional ? simk_raw(nr, fd, buf, want, offarg, 0, 0) : simk_raw(nr, fd, buf, want, 0, 0, 0);
    if (r > 0 && kind == K_WRITE && C->budget >= 0) C->budget -= grow;
    record(kind, path, off, len, r, act, 0);
    if (act == A_CRASH_TORN || act == A_CRASH_AFTER) { C->crashed = 1; die(); }
    return r;
}

static long vecxfer(int kind, int path, int fd, const struct iovec *v, int n)
{
    long total = 0;
    for (int i = 0; i < n; i++) {
        if (!v[i].iov_len) continue;
        long r = xfer(kind, path, fd, kind == K_READ ? SYS_read : SYS_write, (long)v[i].iov_base, v[i].iov_len, -1, 0);
        if (r < 0) return total ? total : r;
        total += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return total;
}

static long do_open(int dirfd, const char *p, int flags, int mode)
{
    const char *rel = ours(dirfd, p);
    if (p && !strcmp(p, "/dev/urandom")) p = "/dev/zero";   /* SQLite seeds its generator here */
    if (!rel) {
        long r = simk_raw(SYS_openat, dirfd, (long)p, flags, mode, 0, 0);
        if (r >= 0 && r < MAXFD) fdt[r].tracked = 0;
        return r;
    }
    int id = path_id(rel);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int64_t old = (wr && (flags & O_TRUNC) && C->budget >= 0 && p[0] == '/') ? psize(p) : 0;
    long r = simple(wr ? K_OPENW : K_OPENR, id, 0, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_DIRECTORY), SYS_openat, dirfd, (long)p, flags, mode, 0, 0);
    if (r >= 0) {
        if (C->budget >= 0) C->budget += old;
        if (r < MAXFD) { fdt[r].tracked = 1; fdt[r].writable = wr; fdt[r].wrote = 0; fdt[r].path = id; }
    }
    return r;
}

static long pathop(int kind, int dirfd, const char *p, long nr, long a, long b, long c, long d, long e)
{
    const char *rel = ours(dirfd, p);
    if (!rel) return simk_raw(nr, a, b, c, d, e, 0);
    int64_t old = 0;
    if (C->budget >= 0 && kind == K_UNLINK && p[0] == '/') old = psize(p);
    long r = simple(kind, path_id(rel), 0, 0, nr, a, b, c, d, e, 0);
    if (r >= 0 && C->budget >= 0) C->budget += old;
    return r;
}

static uint64_t splitmix(uint64_t *s)
{
    uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

static long dispatch(int nr, long a, long b, long c, long d, long e, long f)
{
    int fd = (int)a;
    int tr = fd >= 0 && fd < MAXFD && fdt[fd].tracked;
    int id = tr ? fdt[fd].path : 0;
    switch (nr) {
    case SYS_open: return do_open(AT_FDCWD, (const char *)a, (int)b, (int)c);
    case SYS_creat: return do_open(AT_FDCWD, (const char *)a, O_CREAT | O_WRONLY | O_TRUNC, (int)b);
    case SYS_openat: return do_open((int)a, (const char *)b, (int)c, (int)d);
    case SYS_close:
        if (!tr) { return simk_raw(nr, a, 0, 0, 0, 0, 0); }
        fdt[fd].tracked = 0;
        if (fdt[fd].wrote && C->clock) {
            struct timespec ts[2] = { { C->clock, 0 }, { C->clock, 0 } };
            simk_raw(SYS_utimensat, fd, 0, (long)ts, 0, 0, 0);
        }
        return simple(fdt[fd].wrote ? K_CLOSEW : K_CLOSER, id, 0, 0, nr, a, 0, 0, 0, 0, 0);
    case SYS_read: case SYS_pread64:
        if (!tr) return simk_raw(nr, a, b, c, d, 0, 0);
        return xfer(K_READ, id, fd, nr, b, c, nr == SYS_pread64 ? d : -1, nr == SYS_pread64);
    case SYS_write: case SYS_pwrite64:
        if (!tr) return simk_raw(nr, a, b, c, d, 0, 0);
        fdt[fd].wrote = 1;
        return xfer(K_WRITE, id, fd, nr, b, c, nr == SYS_pwrite64 ? d : -1, nr == SYS_pwrite64);
    case SYS_readv: if (!tr) return simk_raw(nr, a, b, c, 0, 0, 0); return vecxfer(K_READ, id, fd, (struct iovec *)b, (int)c);
    case SYS_writev: if (!tr) return simk_raw(nr, a, b, c, 0, 0, 0); fdt[fd].wrote = 1; return vecxfer(K_WRITE, id, fd, (struct iovec *)b, (int)c);
    case SYS_fsync: case SYS_fdatasync: case SYS_sync_file_range:
        if (!tr) return simk_raw(nr, a, b, c, d, 0, 0);
        return simple(K_SYNC, id, 0, 0, nr, a, b, c, d, 0, 0);
    case SYS_ftruncate: case SYS_fallocate:
        if (!tr) return simk_raw(nr, a, b, c, d, 0, 0);
        fdt[fd].wrote = 1;
        if (C->budget >= 0) {
            int64_t end = nr == SYS_ftruncate ? b : c + d, sz = fsize(fd);
            long r;
            if (nr == SYS_fallocate && end - sz > C->budget) { C->enospc++; record(K_TRUNC, id, 0, end, -ENOSPC, A_FAIL, ENOSPC); return -ENOSPC; }
            r = simple(K_TRUNC, id, 0, end, nr, a, b, c, d, 0, 0);
            if (r == 0 && nr == SYS_ftruncate && end < sz) C->budget += sz - end;
            return r;
        }
        return simple(K_TRUNC, id, 0, b, nr, a, b, c, d, 0, 0);
    case SYS_truncate: return pathop(K_TRUNC, AT_FDCWD, (char *)a, nr, a, b, 0, 0, 0);
    case SYS_rename: return pathop(K_RENAME, AT_FDCWD, (char *)a, nr, a, b, 0, 0, 0);
    case SYS_renameat: case SYS_renameat2: return pathop(K_RENAME, (int)a, (char *)b, nr, a, b, c, d, e);
    case SYS_link: return pathop(K_RENAME, AT_FDCWD, (char *)a, nr, a, b, 0, 0, 0);
    case SYS_unlink: return pathop(K_UNLINK, AT_FDCWD, (char *)a, nr, a, 0, 0, 0, 0);
    case SYS_unlinkat: return pathop((c & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK, (int)a, (char *)b, nr, a, b, c, 0, 0);
    case SYS_mkdir: return pathop(K_MKDIR, AT_FDCWD, (char *)a, nr, a, b, 0, 0, 0);
    case SYS_mkdirat: return pathop(K_MKDIR, (int)a, (char *)b, nr, a, b, c, 0, 0);
    case SYS_rmdir: return pathop(K_RMDIR, AT_FDCWD, (char *)a, nr, a, 0, 0, 0, 0);
    case SYS_dup: case SYS_dup2: case SYS_dup3: {
        long r = simk_raw(nr, a, b, c, 0, 0, 0);
        if (r >= 0 && r < MAXFD) { if (tr) fdt[r] = fdt[fd]; else fdt[r].tracked = 0; }
        return r;
    }
    case SYS_fcntl: {
        if (tr && (b == F_SETLK || b == F_OFD_SETLK)) return simple(K_LOCK, id, ((struct flock *)c)->l_type, ((struct flock *)c)->l_start, nr, a, b, c, 0, 0, 0);
        long r = simk_raw(nr, a, b, c, 0, 0, 0);
        if ((b == F_DUPFD || b == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD) { if (tr) fdt[r] = fdt[fd]; else fdt[r].tracked = 0; }
        return r;
    }
    /* let callers fall back to read/write, which we can see */
    case SYS_copy_file_range: case SYS_sendfile: {
        int out = nr == SYS_sendfile ? (int)a : (int)c, in = nr == SYS_sendfile ? (int)b : (int)a;
        if ((out >= 0 && out < MAXFD && fdt[out].tracked) || (in >= 0 && in < MAXFD && fdt[in].tracked)) return nr == SYS_sendfile ? -EINVAL : -EXDEV;
        return simk_raw(nr, a, b, c, d, e, f);
    }
    case SYS_nanosleep: case SYS_clock_nanosleep: {
        /* simulated time: a sleep is a turn given away */
        const struct timespec *t = (const struct timespec *)(nr == SYS_nanosleep ? a : c);
        if (t && !(nr == SYS_clock_nanosleep && (b & TIMER_ABSTIME))) C->vtime += t->tv_sec * 1000000000LL + t->tv_nsec;
        if (++C->sleeps > 20000) { C->stuck = 1; die(); }
        gate(-1, 0);
        return 0;
    }
    case SYS_exit_group: if (C->sched) gone(); break;
    case SYS_getrandom: {
        unsigned char *o = (unsigned char *)a;
        for (long i = 0; i < b; i += 8) { uint64_t z = splitmix(&C->randstate); memcpy(o + i, &z, b - i < 8 ? b - i : 8); }
        return b;
    }
    }
    return simk_raw(nr, a, b, c, d, e, f);
}

static void on_sys(int sig, siginfo_t *si, void *uc)
{
    (void)sig;
    ucontext_t *u = uc;
    greg_t *g = u->uc_mcontext.gregs;
    g[REG_RAX] = dispatch(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
}

static const int trapped[] = {
    SYS_open, SYS_creat, SYS_openat, SYS_close, SYS_read, SYS_pread64, SYS_write, SYS_pwrite64, SYS_readv, SYS_writev,
    SYS_fsync, SYS_fdatasync, SYS_sync_file_range, SYS_ftruncate, SYS_fallocate, SYS_truncate, SYS_rename, SYS_renameat, SYS_renameat2,
    SYS_link, SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_dup, SYS_dup2, SYS_dup3, SYS_fcntl,
    SYS_copy_file_range, SYS_sendfile, SYS_getrandom, SYS_nanosleep, SYS_clock_nanosleep, SYS_exit_group };

int simk_arm(struct ctl *ctl)
{
    C = ctl;
    rootlen = strlen(C->root);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &sa, NULL)) return -1;
    uint64_t ip = (uint64_t)simk_raw_ret;
    enum { N = sizeof trapped / sizeof *trapped };
    struct sock_filter fl[N + 16];
    int k = 0;
    fl[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, arch));
    fl[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
    fl[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    fl[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    fl[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
    fl[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
    fl[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
    fl[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    fl[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < N; i++) fl[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, trapped[i], N - i, 0);
    fl[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    fl[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog pr = { (unsigned short)k, fl };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -2;
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) return -3;
    return 0;
}

/* scheduler side: let the process do one operation (go = 0: only wait for its first); 1 when it waits again, 2 when it is gone */
int simk_step(struct ctl *c, int pid, int go)
{
    if (go && __atomic_load_n(&c->state, __ATOMIC_SEQ_CST) == 1) {
        __atomic_store_n(&c->state, 0, __ATOMIC_SEQ_CST);
        __atomic_store_n(&c->go, 1, __ATOMIC_SEQ_CST);
        fwake(&c->go);
    }
    for (;;) {
        int s = __atomic_load_n(&c->state, __ATOMIC_SEQ_CST);
        if (s) return s;
        struct timespec ts = { 0, 100000000 };
        simk_raw(SYS_futex, (long)&c->state, FUTEX_WAIT, 0, (long)&ts, 0, 0);
        siginfo_t si;
        memset(&si, 0, sizeof si);
        if (__atomic_load_n(&c->state, __ATOMIC_SEQ_CST) == 0 && waitid(P_PID, pid, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid) return 2;
    }
}

void simk_layout(int64_t *o)
{
#define OFF(i, f) o[i] = offsetof(struct ctl, f)
    OFF(0, root); OFF(1, randstate); OFF(2, budget); OFF(3, nplan); OFF(4, cwd_tracked); OFF(5, plan); OFF(6, nops); OFF(7, kindcount);
    OFF(8, actcount); OFF(9, enospc); OFF(10, logged); OFF(11, npaths); OFF(12, crashed); OFF(13, overflow); OFF(14, phase); OFF(15, oplimit);
    OFF(16, vtime); OFF(17, sleeps); OFF(18, stuck); OFF(19, sched); OFF(20, state); OFF(21, go); OFF(22, gatekind); OFF(23, gatepath);
    OFF(24, opbase); OFF(25, paths); OFF(26, log); o[27] = sizeof(struct plan); o[28] = sizeof(struct logrec); o[29] = sizeof(struct ctl);
    OFF(30, memfail); OFF(31, arrays); OFF(32, lineat); OFF(33, clock);
}
