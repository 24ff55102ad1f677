/* Native backend of the psym interface: the same harness binary whose IR the engine
 * executes symbolically is run here on the concrete inputs of one engine path.
 *
 * Inputs come from the file named by PSYM_REPLAY (lines "param NAME VALUE",
 * "b NAME HEX", "c NAME VALUE", in order); file-system calls of the code under test are
 * redirected below the directory named by PSYM_ROOT, so nothing outside it is touched.
 * What happened is written to the file named by PSYM_LOG.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <malloc.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

int __real_open64(const char *, int, ...);
int __real_open(const char *, int, ...);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_read(int, void *, size_t);

int __real_mkdir(const char *, mode_t);
int __real_unlink(const char *);
int __real_rename(const char *, const char *);
int __real_fsync(int);
int __real_ftruncate64(int, off64_t);
int __real_stat64(const char *, struct stat64 *);
void __real_abort(void);
void __real_exit(int);
void __real_free(void *);
void *__real_realloc(void *, size_t);
char *__real_getenv(const char *);

struct item { int kind; char *name; unsigned char *data; size_t len; uint64_t val; };
static struct item *items;
static size_t nitems, pos;
static struct item *params;
static size_t nparams;
static int loaded;
static char root[3000];
static FILE *logf_;
static int failed;

static void ev(const char *kind, const char *msg, size_t n) {
    if (!logf_) return;
    fprintf(logf_, "%s %.*s\n", kind, (int)n, msg);
    fflush(logf_);
}
static void finish(int code) {
    if (logf_) fflush(logf_);
    _exit(code);
}
/* The end of a native run. */
void psym_done(void) { finish(0); }
static void load(void) {
    if (loaded) return;
    loaded = 1;
    const char *r = __real_getenv("PSYM_ROOT");
    snprintf(root, sizeof root, "%s", r ? r : "/nonexistent-psym-root");
    const char *lf = __real_getenv("PSYM_LOG");
    logf_ = lf ? fopen(lf, "w") : 0;
    const char *f = __real_getenv("PSYM_REPLAY");
    FILE *fp = f ? fopen(f, "r") : 0;
    if (!fp) return;
    char *line = 0;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, fp)) > 0) {
        while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
        char *sp = strchr(line, ' ');
        if (!sp) continue;
        *sp++ = 0;
        /* the value is the part after the last blank */
        char *v = strrchr(sp, ' ');
        if (!v) continue;
        *v++ = 0;
        struct item it = {0};
        it.name = strdup(sp);
        if (!strcmp(line, "param")) {
            it.val = strtoull(v, 0, 10);
            params = realloc(params, (nparams + 1) * sizeof it);
            params[nparams++] = it;
            continue;
        }
        it.kind = line[0];
        if (line[0] == 'c') it.val = strtoull(v, 0, 10);
        else {
            it.len = strlen(v) / 2;
            it.data = malloc(it.len + 1);
            for (size_t i = 0; i < it.len; i++) {
                unsigned x;
                sscanf(v + 2 * i, "%2x", &x);
                it.data[i] = x;
            }
        }
        items = realloc(items, (nitems + 1) * sizeof it);
        items[nitems++] = it;
    }
    free(line);
    fclose(fp);
}
static struct item *take(int kind, const char *name, size_t nl) {
    load();
    if (pos >= nitems) return 0; /* beyond the recorded inputs: default */
    struct item *it = &items[pos++];
    if (it->kind != kind || strlen(it->name) != nl || memcmp(it->name, name, nl)) {
        char b[300];
        int n = snprintf(b, sizeof b, "%c %.*s, recorded %c %s", kind, (int)nl, name, it->kind, it->name);
        ev("DIVERGED", b, n);
        finish(99);
    }
    return it;
}

uint32_t psym_is_engine(void) { return 0; }
void psym_bytes(unsigned char *p, size_t len, const char *name, size_t nl) {
    if (!len) return;
    struct item *it = take('b', name, nl);
    memset(p, 0, len);
    if (it) {
        if (it->len != len) {
            ev("DIVERGED", "length", 6);
            finish(99);
        }
        memcpy(p, it->data, len);
    }
}
uint32_t psym_choice(uint32_t n, const char *name, size_t nl) {
    struct item *it = take('c', name, nl);
    (void)n;
    return it ? (uint32_t)it->val : 0;
}
static void jump_out(int code);
void psym_assume(uint8_t c) {
    load();
    if (!c) {
        ev("ASSUME-FALSE", "", 0);
        finish(failed ? 1 : 98);
    }
}
void psym_assert(uint8_t c, const char *m, size_t n) {
    load();
    if (!c) {
        ev("ASSERT", m, n);
        failed = 1;
        finish(1);
    }
}
void psym_reach(const char *m, size_t n) {
    load();
    ev("REACH", m, n);
}
uint32_t psym_merge(uint32_t x) { (void)x; return 0; }
uint64_t psym_concretize(uint64_t x) { return x; }
void psym_concretize_bytes(unsigned char *p, size_t n) { (void)p; (void)n; }
uint32_t psym_is_symbolic(const unsigned char *p, size_t n) { (void)p; (void)n; return 0; }
uint64_t psym_param(const char *name, size_t nl, uint64_t d) {
    load();
    for (size_t i = 0; i < nparams; i++)
        if (strlen(params[i].name) == nl && !memcmp(params[i].name, name, nl)) return params[i].val;
    return d;
}
void psym_trace(const unsigned char *p, size_t n) {
    load();
    if (!logf_) return;
    fprintf(logf_, "TRACE ");
    for (size_t i = 0; i < n; i++) fprintf(logf_, "%02x", p[i]);
    fprintf(logf_, "\n");
    fflush(logf_);
}

/* ---- secrets */
static unsigned char *secrets[64];
static size_t secret_len[64];
static int nsecrets, watching;
#define LIVE (1 << 18)
static struct { void *p; size_t n; } live[LIVE];
static size_t nlive;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void psym_mark_secret(const unsigned char *p, size_t n) {
    load();
    if (nsecrets < 64 && n > 0) {
        secrets[nsecrets] = __real_malloc(n);
        memcpy(secrets[nsecrets], p, n);
        secret_len[nsecrets++] = n;
    }
}
uint32_t psym_watch_secrets(uint32_t on) {
    uint32_t old = watching;
    load();
    watching = on;
    return old;
}
uint32_t psym_depends_secret(const unsigned char *p, size_t n) {
    load();
    for (int i = 0; i < nsecrets; i++)
        if (memmem(p, n, secrets[i], secret_len[i])) return 1;
    return 0;
}
static int holds_secret(const void *p, size_t n) {
    for (int i = 0; i < nsecrets; i++) {
        size_t w = secret_len[i] < 8 ? secret_len[i] : 8;
        for (size_t k = 0; k + w <= secret_len[i]; k++)
            if (memmem(p, n, secrets[i] + k, w)) return 1;
    }
    return 0;
}
uint32_t psym_secrets_left(void) {
    load();
    for (size_t i = 0; i < nlive; i++)
        if (holds_secret(live[i].p, live[i].n)) return 1;
    return 0;
}
static void *born(void *p, size_t n) {
    if (watching && p && nlive < LIVE) {
        live[nlive].p = p;
        live[nlive++].n = n;
    }
    return p;
}
static void check_free(void *p) {
    if (!p) return;
    size_t n = malloc_usable_size(p);
    for (size_t i = nlive; i-- > 0;)
        if (live[i].p == p) {
            n = live[i].n;
            live[i] = live[--nlive];
            break;
        }
    if (!watching) return;
    if (holds_secret(p, n)) psym_assert(0, "memory given back holds no secret", 33);
}
/* New memory is cleared: what it held before is not what its owner left in it. */
#define MEMORY 0x7fffffffUL
void *__wrap_malloc(size_t n) { return n > MEMORY ? 0 : born(watching ? __real_calloc(1, n) : __real_malloc(n), n); }
void *__wrap_calloc(size_t n, size_t k) { return n * k > MEMORY || n > MEMORY || k > MEMORY ? 0 : born(__real_calloc(n, k), n * k); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) {
    if (n > MEMORY) return 12;
    int r = __real_posix_memalign(p, a, n);
    if (r == 0) {
        if (watching) memset(*p, 0, n);
        born(*p, n);
    }
    return r;
}
void __wrap_free(void *p) {
    check_free(p);
    __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
    if (n > MEMORY) return 0;
    if (watching) {
        /* never in place: what an allocator may do with the old block */
        void *q = born(__real_calloc(1, n), n);
        if (!p) return q;
        size_t o = malloc_usable_size(p);
        memcpy(q, p, o < n ? o : n);
        check_free(p);
        __real_free(p);
        return q;
    }
    for (size_t i = nlive; p && i-- > 0;)
        if (live[i].p == p) {
            live[i] = live[--nlive];
            break;
        }
    return __real_realloc(p, n);
}

/* ---- psym_try */
static jmp_buf *tries[16];
static int ntries;
static void jump_out(int code) {
    if (ntries > 0) longjmp(*tries[ntries - 1], code + 1);
    if (code == 1) {
        ev("PANIC", "", 0);
        finish(1);
    }
    finish(code >= 100 ? code - 100 : 1);
}
int psym_try(void (*f)(unsigned char *), unsigned char *arg) {
    load();
    jmp_buf jb;
    int depth = ntries;
    int r = setjmp(jb);
    if (r != 0) {
        ntries = depth;
        return r - 1;
    }
    tries[ntries++] = &jb;
    f(arg);
    ntries = depth;
    return 0;
}
void __wrap_abort(void) { load(); jump_out(1); __real_abort(); }
void __wrap_exit(int c) {
    load();
    if (ntries > 0) jump_out(100 + (c & 0xff));
    __real_exit(c);
}

/* ---- file system */
static uint32_t budget, kinds;
void psym_faults(uint32_t b, uint32_t k) { budget = b; kinds = k; }
void psym_reset_globals(void) {}
enum { NO, ERR, SHORT, BEFORE, MID };
static int fault(const char *op, int is_write) {
    if (budget == 0) return NO;
    int opts[5], n = 0;
    opts[n++] = NO;
    if (kinds & 1) opts[n++] = ERR;
    if ((kinds & 2) && is_write) opts[n++] = SHORT;
    if (kinds & 4) {
        opts[n++] = BEFORE;
        if (is_write) opts[n++] = MID;
    }
    char nm[64];
    snprintf(nm, sizeof nm, "fault:%s", op);
    uint32_t k = psym_choice(n, nm, strlen(nm));
    int f = opts[k < (uint32_t)n ? k : 0];
    if (f != NO) budget--;
    if (f == BEFORE) {
        budget = 0;
        jump_out(2);
    }
    return f;
}
static const char *mapp(const char *p, char *buf) {
    load();
    if (p[0] == '/')
        snprintf(buf, 4096, "%s%s", root, p);
    else
        snprintf(buf, 4096, "%s/scratch/%s", root, p);
    return buf;
}
static int outside(const char *p) {
    return !strcmp(p, "/dev/tty") || !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5);
}
static char *cap[3];
static size_t capn[3];
static unsigned char *in;
static size_t inn, inpos, inends;

int __wrap_open64(const char *p, int fl, ...) {
    char b[4096];
    struct stat64 sb;
    if (outside(p)) {
        errno = ENOENT;
        return -1;
    }
    mapp(p, b);
    int wr = (fl & 3) != 0, creat_ = (fl & O_CREAT) != 0;
    if (wr || creat_) {
        int ex = __real_stat64(b, &sb) == 0, ok = 1;
        if (!ex && !creat_) ok = 0;
        if (ex && S_ISDIR(sb.st_mode)) ok = 0;
        if (ex && creat_ && (fl & O_EXCL)) ok = 0;
        if (!ex) {
            char par[4096];
            snprintf(par, sizeof par, "%s", b);
            char *s = strrchr(par, '/');
            if (s) *s = 0;
            if (__real_stat64(par, &sb) != 0 || !S_ISDIR(sb.st_mode)) ok = 0;
            if (b[strlen(b) - 1] == '/') ok = 0;
        }
        if (ok && fault("open", 0) == ERR) {
            errno = EIO;
            return -1;
        }
    }
    return __real_open64(b, fl | O_CLOEXEC, 0600);
}
int __wrap_open(const char *p, int fl, ...) { return __wrap_open64(p, fl, 0600); }
ssize_t __wrap_write(int fd, const void *d, size_t n) {
    load();
    if (fd == 1 || fd == 2) {
        cap[fd] = __real_realloc(cap[fd], capn[fd] + n + 1);
        memcpy(cap[fd] + capn[fd], d, n);
        capn[fd] += n;
        return n;
    }
    int f = n ? fault("write", 1) : NO;
    if (f == ERR) {
        errno = EIO;
        return -1;
    }
    if (f == SHORT || f == MID) n /= 2;
    ssize_t r = __real_write(fd, d, n);
    if (f == MID) {
        budget = 0;
        jump_out(2);
    }
    return r;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
    size_t t = 0;
    for (int i = 0; i < n; i++) t += v[i].iov_len;
    char *b = __real_malloc(t + 1), *q = b;
    for (int i = 0; i < n; i++) {
        memcpy(q, v[i].iov_base, v[i].iov_len);
        q += v[i].iov_len;
    }
    ssize_t r = __wrap_write(fd, b, t);
    __real_free(b);
    return r;
}
ssize_t __wrap_read(int fd, void *d, size_t n) {
    load();
    if (fd == 0) {
        size_t k = inn - inpos < n ? inn - inpos : n;
        unsigned char *nl = k ? memchr(in + inpos, '\n', k) : 0;
        if (nl) k = nl + 1 - (in + inpos);
        memcpy(d, in + inpos, k);
        inpos += k;
        if (k == 0 && n > 0 && ++inends > 50) psym_assert(0, "the end of input is noticed", 27);
        return k;
    }
    return __real_read(fd, d, n);
}
int __wrap_mkdir(const char *p, mode_t m) {
    char b[4096];
    struct stat64 sb;
    mapp(p, b);
    int ex = __real_stat64(b, &sb) == 0;
    char par[4096];
    snprintf(par, sizeof par, "%s", b);
    char *s = strrchr(par, '/');
    if (s && !s[1]) {
        *s = 0;
        s = strrchr(par, '/');
    }
    if (s) *s = 0;
    int pk = __real_stat64(par, &sb) == 0 && S_ISDIR(sb.st_mode);
    if (!ex && pk && fault("mkdir", 0) == ERR) {
        errno = EIO;
        return -1;
    }
    return __real_mkdir(b, m);
}
int __wrap_unlink(const char *p) {
    char b[4096];
    struct stat64 sb;
    mapp(p, b);
    if (__real_stat64(b, &sb) == 0 && fault("unlink", 0) == ERR) {
        errno = EIO;
        return -1;
    }
    return __real_unlink(b);
}
int __wrap_rename(const char *p, const char *q) {
    char b[4096], c[4096];
    struct stat64 sb;
    mapp(p, b);
    mapp(q, c);
    if (__real_stat64(b, &sb) == 0 && fault("rename", 0) == ERR) {
        errno = EIO;
        return -1;
    }
    return __real_rename(b, c);
}
int __wrap_fsync(int fd) {
    (void)fd;
    if (fault("fsync", 0) == ERR) {
        errno = EIO;
        return -1;
    }
    return 0;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate64(int fd, off64_t n) {
    if (fault("truncate", 0) == ERR) {
        errno = EIO;
        return -1;
    }
    return __real_ftruncate64(fd, n);
}
int __wrap_stat64(const char *p, struct stat64 *s) {
    char b[4096];
    return __real_stat64(mapp(p, b), s);
}
int __wrap_lstat64(const char *p, struct stat64 *s) { return __wrap_stat64(p, s); }
int __wrap_statx(int d, const char *p, int f, unsigned m, void *s) {
    (void)d; (void)p; (void)f; (void)m; (void)s;
    errno = ENOSYS;
    return -1;
}
/* Paths in the file system seen by the code under test (no links there). */
char *__wrap_realpath(const char *p, char *out) {
    char b[4096];
    struct stat64 sb;
    if (__real_stat64(mapp(p, b), &sb) != 0) {
        errno = ENOENT;
        return 0;
    }
    char full[4096], *q = out ? out : malloc(4096);
    snprintf(full, sizeof full, p[0] == '/' ? "%s" : "/scratch/%s", p);
    size_t n = 0;
    for (char *c = full; *c;) {
        while (*c == '/') c++;
        size_t l = strcspn(c, "/");
        if (l == 2 && c[0] == '.' && c[1] == '.') {
            while (n && q[--n] != '/') {}
        } else if (l && !(l == 1 && c[0] == '.')) {
            q[n++] = '/';
            memcpy(q + n, c, l);
            n += l;
        }
        c += l;
    }
    if (!n) q[n++] = '/';
    q[n] = 0;
    return q;
}
int __wrap_isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }
char *__wrap_getenv(const char *n) {
    if (!strcmp(n, "HOME")) return "/home/u";
    return 0;
}
char *__wrap_getcwd(char *b, size_t n) {
    snprintf(b, n, "/scratch");
    return b;
}

size_t psym_fs_read(const char *p, size_t pl, unsigned char *buf, size_t cap_) {
    char z[4096], b[4096];
    snprintf(z, sizeof z, "%.*s", (int)pl, p);
    mapp(z, b);
    struct stat64 sb;
    if (__real_stat64(b, &sb) != 0) return (size_t)-1;
    if (S_ISDIR(sb.st_mode)) return (size_t)-2;
    int fd = __real_open64(b, O_RDONLY, 0);
    size_t n = 0;
    while (n < cap_) {
        ssize_t r = __real_read(fd, buf + n, cap_ - n);
        if (r <= 0) break;
        n += r;
    }
    close(fd);
    return sb.st_size;
}
void psym_fs_write(const char *p, size_t pl, const unsigned char *d, size_t n) {
    char z[4096], b[4096];
    snprintf(z, sizeof z, "%.*s", (int)pl, p);
    mapp(z, b);
    int fd = __real_open64(b, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    while (n) {
        ssize_t r = __real_write(fd, d, n);
        if (r <= 0) break;
        d += r;
        n -= r;
    }
    close(fd);
}
/* The paths of all files, and of folders with a slash at the end, one per line. */
static char **found;
static size_t nfound;
static int note(const char *p, const struct stat *s, int type, struct FTW *f) {
    (void)s;
    (void)f;
    if (type == FTW_F || type == FTW_D) {
        found = realloc(found, (nfound + 1) * sizeof *found);
        const char *q = p + strlen(root);
        char *r = malloc(strlen(q) + 2);
        strcpy(r, q);
        if (type == FTW_D) strcat(r, "/");
        found[nfound++] = r;
    }
    return 0;
}
static int by_name(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
size_t psym_fs_list(char *buf, size_t cap_) {
    load();
    size_t n = 0;
    nfound = 0;
    nftw(root, note, 10, FTW_PHYS);
    qsort(found, nfound, sizeof *found, by_name);
    for (size_t i = 0; i < nfound; i++) {
        size_t l = strlen(found[i]);
        for (size_t k = 0; k <= l; k++, n++)
            if (n < cap_) buf[n] = k < l ? found[i][k] : '\n';
        free(found[i]);
    }
    return n;
}
static void rmtree(const char *b) {
    /* only ever below PSYM_ROOT */
    char cmd[8300];
    if (strncmp(b, root, strlen(root)) || strlen(root) < 6 || strstr(b, "..") || strchr(b, '\'')) return;
    if (__real_unlink(b) == 0) return;
    snprintf(cmd, sizeof cmd, "rm -rf -- '%s'", b);
    if (system(cmd)) {}
}
void psym_fs_remove(const char *p, size_t pl) {
    char z[4096], b[4096];
    snprintf(z, sizeof z, "%.*s", (int)pl, p);
    rmtree(mapp(z, b));
}
void psym_fs_mkdir(const char *p, size_t pl) {
    char z[4096], b[4096];
    snprintf(z, sizeof z, "%.*s", (int)pl, p);
    __real_mkdir(mapp(z, b), 0700);
}
/* Command line arguments: the process has to be started with as many or more. */
static int argc_;
static char **argv_;
__attribute__((constructor)) static void keep_args(int c, char **v) {
    argc_ = c;
    argv_ = v;
}
void psym_args(int c, char **v) {
    if (c > argc_) {
        fprintf(stderr, "too many arguments\n");
        _exit(96);
    }
    for (int i = 0; i < c; i++) argv_[i] = v[i];
    argv_[c] = 0;
}
void psym_stdin(const unsigned char *d, size_t n) {
    in = malloc(n + 1);
    memcpy(in, d, n);
    inn = n;
    inpos = 0;
    inends = 0;
}
size_t psym_stdout(uint32_t which, unsigned char *buf, size_t c) {
    size_t n = capn[which], k = n < c ? n : c;
    memcpy(buf, cap[which], k);
    capn[which] = 0;
    return n;
}
