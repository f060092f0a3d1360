/*
 * Preloaded into detox: numbers, records, fails, reorders or interrupts the
 * calls that touch the file system.  Everything is set by the environment:
 *
 *   PBT_LOG=path        append one line per numbered call: "name path [path2]"
 *   PBT_KILL=n          SIGKILL just before numbered call n (from 1)
 *   PBT_FAIL=name:n:errno[,name:n:errno...]
 *                       the n-th call of that name (from 1) fails; "*" counts
 *                       every numbered call
 *   PBT_MALLOC=n        the n-th allocation asked for by the program itself
 *                       (not by the C library) fails
 *   PBT_ROOT=folder     detox's fixed system paths are looked for below folder
 *   PBT_READ=n:inode    reading the file with this inode fails with EIO after n
 *                       bytes, when it is opened with fopen; logged as "badread"
 *   PBT_DIR=seed:flags  deliver directory entries in an order given by seed;
 *                       flags: 1 look again for new names at the end,
 *                       2 no d_type, 4 mix in names that are not there,
 *                       8 report a failure at the end of the first directory
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static long kill_at, calls, malloc_at, mallocs;
static int log_fd = -1, dir_on, dir_flags;
static unsigned long dir_seed;
static const char *fails;
static int ready;
static uintptr_t exe_lo, exe_hi;

static int find_exe(struct dl_phdr_info *info, size_t size, void *data)
{
    int i;

    for (i = 0; i < info->dlpi_phnum; i++) {
        const ElfW(Phdr) *p = &info->dlpi_phdr[i];
        if (p->p_type == PT_LOAD && (p->p_flags & PF_X)) {
            exe_lo = info->dlpi_addr + p->p_vaddr;
            exe_hi = exe_lo + p->p_memsz;
        }
    }
    return 1; /* the program comes first */
}

static void setup(void)
{
    const char *e;

    if (ready) {
        return;
    }
    ready = 1;
    if ((e = getenv("PBT_KILL"))) {
        kill_at = atol(e);
    }
    if ((e = getenv("PBT_MALLOC"))) {
        malloc_at = atol(e);
    }
    dl_iterate_phdr(find_exe, NULL);
    if ((e = getenv("PBT_DIR"))) {
        dir_on = 1;
        dir_seed = strtoul(e, NULL, 10);
        e = strchr(e, ':');
        dir_flags = e ? atoi(e + 1) : 0;
    }
    fails = getenv("PBT_FAIL");
    if ((e = getenv("PBT_LOG"))) {
        int fd = syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        if (fd >= 0) {
            log_fd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 800);
            if (log_fd < 0) {
                log_fd = fd;
            } else {
                syscall(SYS_close, fd);
            }
        }
    }
}

__attribute__((constructor)) static void start(void)
{
    setup();
}

__attribute__((destructor)) static void end(void)
{
    char line[64];

    if (log_fd >= 0) {
        sprintf(line, "end %ld %ld\n", calls, mallocs);
        syscall(SYS_write, log_fd, line, strlen(line));
    }
}

static void put(const char *s)
{
    char buf[3 * 4200];
    size_t n = 0;

    for (; *s && n + 4 < sizeof buf; s++) {
        unsigned char c = *s;
        if (c <= ' ' || c == '%' || c > '~') {
            n += sprintf(buf + n, "%%%02x", c);
        } else {
            buf[n++] = c;
        }
    }
    syscall(SYS_write, log_fd, buf, n);
}

static struct {
    const char *name;
    long n;
} counts[32];

static long count(const char *name)
{
    int i;

    for (i = 0; i < 31 && counts[i].name; i++) {
        if (strcmp(counts[i].name, name) == 0) {
            break;
        }
    }
    counts[i].name = name;
    return ++counts[i].n;
}

/* Numbers a call; returns the errno it has to fail with, or 0. */
static int enter(const char *name, const char *a, const char *b)
{
    long n;
    int err = 0;

    setup();
    calls++;
    if (kill_at && calls == kill_at) {
        kill(getpid(), SIGKILL);
    }
    n = count(name);
    if (fails) {
        const char *p = fails;
        while (p && *p) {
            size_t len = strcspn(p, ":");
            long want = atol(p + len + 1);
            const char *q = strchr(p + len + 1, ':');
            if ((len == strlen(name) && strncmp(p, name, len) == 0 && want == n) || (len == 1 && *p == '*' && want == calls)) {
                err = atoi(q + 1);
            }
            p = strchr(p, ',');
            if (p) {
                p++;
            }
        }
    }
    if (log_fd >= 0) {
        char num[16];
        put(name);
        syscall(SYS_write, log_fd, " ", 1);
        sprintf(num, "%d", err);
        put(num);
        syscall(SYS_write, log_fd, " ", 1);
        put(a ? a : "");
        if (b) {
            syscall(SYS_write, log_fd, " ", 1);
            put(b);
        }
        syscall(SYS_write, log_fd, "\n", 1);
    }
    return err;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) { \
        real = dlsym(RTLD_NEXT, #name); \
    }

#define FAIL(label, a, b) \
    do { \
        int e_ = enter(label, a, b); \
        if (e_) { \
            errno = e_; \
            return -1; \
        } \
    } while (0)

int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    FAIL("rename", a, b);
    return real(a, b);
}

int renameat(int da, const char *a, int db, const char *b)
{
    REAL(int, renameat, int, const char *, int, const char *);
    FAIL("rename", a, b);
    return real(da, a, db, b);
}

int renameat2(int da, const char *a, int db, const char *b, unsigned int f)
{
    REAL(int, renameat2, int, const char *, int, const char *, unsigned int);
    FAIL("rename", a, b);
    return real(da, a, db, b, f);
}

int link(const char *a, const char *b)
{
    REAL(int, link, const char *, const char *);
    FAIL("link", a, b);
    return real(a, b);
}

int linkat(int da, const char *a, int db, const char *b, int f)
{
    REAL(int, linkat, int, const char *, int, const char *, int);
    FAIL("link", a, b);
    return real(da, a, db, b, f);
}

int symlink(const char *a, const char *b)
{
    REAL(int, symlink, const char *, const char *);
    FAIL("symlink", a, b);
    return real(a, b);
}

int unlink(const char *a)
{
    REAL(int, unlink, const char *);
    FAIL("unlink", a, NULL);
    return real(a);
}

int unlinkat(int d, const char *a, int f)
{
    REAL(int, unlinkat, int, const char *, int);
    FAIL("unlink", a, NULL);
    return real(d, a, f);
}

int remove(const char *a)
{
    REAL(int, remove, const char *);
    FAIL("unlink", a, NULL);
    return real(a);
}

int rmdir(const char *a)
{
    REAL(int, rmdir, const char *);
    FAIL("rmdir", a, NULL);
    return real(a);
}

int mkdir(const char *a, mode_t m)
{
    REAL(int, mkdir, const char *, mode_t);
    FAIL("mkdir", a, NULL);
    return real(a, m);
}

/* ------------------------------------------------- system paths that are fixed */

/* The path to use for a: below $PBT_ROOT if it is one of detox's fixed ones. */
static const char *placed(const char *a, char *buf)
{
    static const char *const fixed[] = {"/etc/detoxrc", "/usr/local/etc/detoxrc", "/usr/share/detox/", "/usr/local/share/detox/"};
    const char *root = getenv("PBT_ROOT");
    size_t i;

    if (root == NULL || a == NULL || strlen(root) + strlen(a) >= 4096) {
        return a;
    }
    for (i = 0; i < sizeof fixed / sizeof *fixed; i++) {
        if (strncmp(a, fixed[i], strlen(fixed[i])) == 0) {
            strcat(strcpy(buf, root), a);
            return buf;
        }
    }
    return a;
}

int open(const char *a, int flags, ...)
{
    REAL(int, open, const char *, int, mode_t);
    char buf[4096];
    va_list v;
    mode_t m;

    va_start(v, flags);
    m = flags & (O_CREAT | O_TMPFILE) ? va_arg(v, mode_t) : 0;
    va_end(v);
    return real(placed(a, buf), flags, m);
}

int open64(const char *a, int flags, ...)
{
    REAL(int, open64, const char *, int, mode_t);
    char buf[4096];
    va_list v;
    mode_t m;

    va_start(v, flags);
    m = flags & (O_CREAT | O_TMPFILE) ? va_arg(v, mode_t) : 0;
    va_end(v);
    return real(placed(a, buf), flags, m);
}

int lstat(const char *a, struct stat *s)
{
    REAL(int, lstat, const char *, struct stat *);
    char buf[4096];
    FAIL("lstat", a, NULL);
    return real(placed(a, buf), s);
}

int lstat64(const char *a, struct stat64 *s)
{
    REAL(int, lstat64, const char *, struct stat64 *);
    char buf[4096];
    FAIL("lstat", a, NULL);
    return real(placed(a, buf), s);
}

int stat(const char *a, struct stat *s)
{
    REAL(int, stat, const char *, struct stat *);
    char buf[4096];
    FAIL("stat", a, NULL);
    return real(placed(a, buf), s);
}

int stat64(const char *a, struct stat64 *s)
{
    REAL(int, stat64, const char *, struct stat64 *);
    char buf[4096];
    FAIL("stat", a, NULL);
    return real(placed(a, buf), s);
}

int fstatat(int d, const char *a, struct stat *s, int f)
{
    REAL(int, fstatat, int, const char *, struct stat *, int);
    FAIL("lstat", a, NULL);
    return real(d, a, s, f);
}

int access(const char *a, int m)
{
    REAL(int, access, const char *, int);
    char buf[4096];
    FAIL("access", a, NULL);
    return real(placed(a, buf), m);
}

/* ------------------------------------------------------------- failing reads */

typedef struct {
    FILE *file;
    long left;
    int told;
} bad_file;

static ssize_t bad_read(void *cookie, char *buf, size_t size)
{
    bad_file *b = cookie;

    if (b->left <= 0) {
        if (!b->told && log_fd >= 0) {
            syscall(SYS_write, log_fd, "badread 5 file\n", 15);
        }
        b->told = 1;
        errno = EIO;
        return -1;
    }
    if ((long) size > b->left) {
        size = b->left;
    }
    size = fread(buf, 1, size, b->file);
    b->left -= size;
    return size;
}

static int bad_close(void *cookie)
{
    bad_file *b = cookie;
    int ret = fclose(b->file);

    free(b);
    return ret;
}

static FILE *maybe_bad(FILE *f, const char *mode)
{
    const char *e = getenv("PBT_READ");
    struct stat s;
    bad_file *b;
    FILE *got;

    if (f == NULL || e == NULL || *mode != 'r' || fstat(fileno(f), &s) != 0 || strchr(e, ':') == NULL || s.st_ino != strtoul(strchr(e, ':') + 1, NULL, 10)) {
        return f;
    }
    setup();
    b = malloc(sizeof *b);
    b->file = f;
    b->left = atol(e);
    b->told = 0;
    got = fopencookie(b, "r", (cookie_io_functions_t) { .read = bad_read, .close = bad_close });
    return got ? got : f;
}

FILE *fopen(const char *a, const char *m)
{
    REAL(FILE *, fopen, const char *, const char *);
    char buf[4096];
    return maybe_bad(real(placed(a, buf), m), m);
}

FILE *fopen64(const char *a, const char *m)
{
    REAL(FILE *, fopen64, const char *, const char *);
    char buf[4096];
    return maybe_bad(real(placed(a, buf), m), m);
}

/* --------------------------------------------------------------- directories */

#define MAXDIRS 4200

typedef struct {
    DIR *dir;
    char *path;
    char **names;
    unsigned char *types;
    ino_t *inos;
    int count, max, at, original, rescanned;
    struct dirent ent;
} open_dir;

static open_dir dirs[MAXDIRS];

static open_dir *known(DIR *d)
{
    int i;

    for (i = 0; i < MAXDIRS; i++) {
        if (dirs[i].dir == d) {
            return &dirs[i];
        }
    }
    return NULL;
}

static struct dirent *(*real_readdir)(DIR *);

static void add_name(open_dir *o, const char *name, unsigned char type, ino_t ino)
{
    if (o->count == o->max) {
        o->max = o->max ? o->max * 2 : 64;
        o->names = realloc(o->names, o->max * sizeof *o->names);
        o->types = realloc(o->types, o->max);
        o->inos = realloc(o->inos, o->max * sizeof *o->inos);
    }
    o->names[o->count] = strdup(name);
    o->types[o->count] = type;
    o->inos[o->count] = ino;
    o->count++;
}

static unsigned long next_random(unsigned long *s)
{
    *s = *s * 6364136223846793005ul + 1442695040888963407ul;
    return *s >> 33;
}

static int by_name(const void *a, const void *b)
{
    return strcmp(*(char *const *)a, *(char *const *)b);
}

/* Reads what is there now; names already delivered are left out. */
static void scan(open_dir *o)
{
    struct dirent *e;
    int i, from = o->count;
    unsigned long s = dir_seed;
    char **sorted;

    while ((e = real_readdir(o->dir))) {
        for (i = 0; i < from; i++) {
            if (strcmp(o->names[i], e->d_name) == 0) {
                break;
            }
        }
        if (i == from) {
            add_name(o, e->d_name, e->d_type, e->d_ino);
        }
    }
    if (from == 0 && (dir_flags & 4)) {
        add_name(o, "gone & forgotten", DT_REG, 1);
        add_name(o, "gone (dir)", DT_DIR, 2);
        add_name(o, "gone_", DT_UNKNOWN, 3);
    }
    /* an order that depends on the names and the seed only */
    sorted = o->names + from;
    qsort(sorted, o->count - from, sizeof *sorted, by_name);
    for (i = from; i < o->count; i++) {
        o->types[i] = DT_UNKNOWN;
        o->inos[i] = 1;
    }
    for (i = o->count - 1; i > from; i--) {
        int j = from + next_random(&s) % (i - from + 1);
        char *t = o->names[i];
        o->names[i] = o->names[j];
        o->names[j] = t;
    }
}

static DIR *opened(DIR *d, const char *path)
{
    open_dir *o;

    if (d == NULL) {
        return d;
    }
    o = known(NULL);
    if (o) {
        memset(o, 0, sizeof *o);
        o->dir = d;
        o->path = path ? strdup(path) : strdup("");
        if (dir_on) {
            scan(o);
        }
    }
    return d;
}

DIR *opendir(const char *a)
{
    REAL(DIR *, opendir, const char *);
    int e = enter("opendir", a, NULL);
    if (!real_readdir) {
        real_readdir = dlsym(RTLD_NEXT, "readdir");
    }
    if (e) {
        errno = e;
        return NULL;
    }
    return opened(real(a), a);
}

DIR *fdopendir(int fd)
{
    REAL(DIR *, fdopendir, int);
    if (!real_readdir) {
        real_readdir = dlsym(RTLD_NEXT, "readdir");
    }
    return opened(real(fd), NULL);
}

static struct dirent *next(DIR *d)
{
    open_dir *o = known(d);
    int e, before = errno; /* which only a failure may change */

    if (!real_readdir) {
        real_readdir = dlsym(RTLD_NEXT, "readdir");
    }
    e = enter("readdir", o ? o->path : "", NULL);
    if (e) {
        errno = e;
        return NULL;
    }
    errno = before;
    if (!dir_on || !o) {
        return real_readdir(d);
    }
    if (o->at == o->count && (dir_flags & 1) && o->rescanned < 20) {
        o->rescanned++;
        rewinddir(d);
        scan(o);
        errno = before;
    }
    if (o->at == o->count) {
        return NULL;
    }
    memset(&o->ent, 0, sizeof o->ent);
    strcpy(o->ent.d_name, o->names[o->at]);
    o->ent.d_type = DT_UNKNOWN;
    o->ent.d_ino = 1;
    if (!(dir_flags & 2)) {
        struct stat s;
        if (syscall(SYS_newfstatat, dirfd(d), o->names[o->at], &s, AT_SYMLINK_NOFOLLOW) == 0) {
            o->ent.d_type = IFTODT(s.st_mode);
            o->ent.d_ino = s.st_ino;
        }
    }
    o->ent.d_reclen = sizeof o->ent;
    o->at++;
    errno = before;
    return &o->ent;
}

struct dirent *readdir(DIR *d)
{
    return next(d);
}

struct dirent64 *readdir64(DIR *d)
{
    return (struct dirent64 *)next(d);
}

int closedir(DIR *d)
{
    REAL(int, closedir, DIR *);
    open_dir *o = known(d);
    if (o) {
        int i;
        for (i = 0; i < o->count; i++) {
            free(o->names[i]);
        }
        free(o->names);
        free(o->types);
        free(o->inos);
        free(o->path);
        memset(o, 0, sizeof *o);
    }
    return real(d);
}

/* --------------------------------------------------------------------- memory */

static int starved(void *caller)
{
    uintptr_t pc = (uintptr_t)caller;

    if (pc < exe_lo || pc >= exe_hi) {
        return 0;
    }
    if (++mallocs != malloc_at) {
        return 0;
    }
    if (log_fd >= 0) {
        syscall(SYS_write, log_fd, "nomem 12 -\n", 11);
    }
    errno = ENOMEM;
    return 1;
}

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);

void *malloc(size_t n)
{
    return starved(__builtin_return_address(0)) ? NULL : __libc_malloc(n);
}

void *calloc(size_t n, size_t m)
{
    return starved(__builtin_return_address(0)) ? NULL : __libc_calloc(n, m);
}

void *realloc(void *p, size_t n)
{
    return starved(__builtin_return_address(0)) ? NULL : __libc_realloc(p, n);
}

char *strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p;

    if (starved(__builtin_return_address(0))) {
        return NULL;
    }
    p = __libc_malloc(n);
    return p ? memcpy(p, s, n) : NULL;
}

char *__strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p;

    if (starved(__builtin_return_address(0))) {
        return NULL;
    }
    p = __libc_malloc(n);
    return p ? memcpy(p, s, n) : NULL;
}

char *strndup(const char *s, size_t m)
{
    size_t n = strnlen(s, m);
    char *p;

    if (starved(__builtin_return_address(0))) {
        return NULL;
    }
    p = __libc_malloc(n + 1);
    if (p) {
        memcpy(p, s, n);
        p[n] = 0;
    }
    return p;
}
