// Native implementation of the sym_* interface: replays one recorded set of inputs against the real build.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <stdbool.h>
#include <stdarg.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <semaphore.h>
#include <dlfcn.h>

#define ROOT "/tmp/vhfs"
static FILE *in; static uint64_t f_mask, f_budget; static int reading;
// shared with the child that runs a guarded call
static struct { uint64_t count; int finished; size_t sol; char so[1 << 20]; } *sh; static int guarded;
__attribute__((constructor)) static void shared(void) { if (!sh) sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
#define f_count (sh->count)
static void die(const char *m) { fprintf(stderr, "REPLAY-ERROR %s\n", m); _exit(65); }
static void open_in(void) { if (in) return; const char *p = getenv("VH_INPUTS"); if (!p) die("VH_INPUTS unset"); in = fopen(p, "r"); if (!in) die("cannot open inputs"); setvbuf(in, NULL, _IONBF, 0); }
static char name[512]; static char kind;
static uint64_t val; static unsigned char *data; static size_t dlen;
static int next_line(void) {
    open_in();
    reading = 1;
    char *line = NULL; size_t cap = 0; ssize_t n = getline(&line, &cap, in);
    if (n < 0) { reading = 0; return 0; }
    char k; char *sp = strrchr(line, '#'); if (sp) sp = strchr(sp, ' '); if (!sp) die("bad line"); *sp = 0; snprintf(name, sizeof name, "%s", line); k = sp[1]; kind = k;
    char *rest = sp + 3;
    if (k == 'u') val = strtoull(rest, NULL, 10);
    else { char *e; dlen = strtoull(rest, &e, 10); data = realloc(data, dlen + 1); while (*e == ' ') e++; for (size_t i = 0; i < dlen; i++) { unsigned b; sscanf(e + 2 * i, "%2x", &b); data[i] = b; } }
    free(line); reading = 0;
    return 1;
}
static void expect(const char *n, size_t nl, char k) {
    if (!next_line()) die("inputs exhausted");
    if (strncmp(name, n, nl) || name[nl] != '#') { fprintf(stderr, "REPLAY-ERROR expected %.*s got %s\n", (int)nl, n, name); _exit(65); }
    if (kind == k) return;
    if (k == 'b' && kind == 'u') { data = realloc(data, 1); data[0] = val; dlen = 1; return; }
    if (k == 'u' && kind == 'b' && dlen == 1) { val = data[0]; return; }
    die("kind mismatch");
}
void sym_bytes(uint8_t *p, size_t n, const char *nm, size_t nl) { expect(nm, nl, 'b'); if (dlen != n) die("length mismatch"); memcpy(p, data, n); }
uint64_t sym_u64(uint64_t lo, uint64_t hi, const char *nm, size_t nl) { expect(nm, nl, 'u'); if (val < lo || val > hi) die("range"); return val; }
uint64_t sym_choice(uint64_t n, const char *nm, size_t nl) { expect(nm, nl, 'u'); if (val >= n) die("choice range"); return val; }
uint64_t sym_conc(uint64_t v) { return v; }
void sym_assume(bool b) { if (!b) { fprintf(stderr, "REPLAY-ERROR assumption violated\n"); _exit(66); } }
void sym_assert(bool b, const char *m, size_t l) { if (!b) { fprintf(stderr, "ASSERTION-FAILED %.*s\n", (int)l, m); _exit(101); } }
void sym_reach(const char *m, size_t l) { (void)m; (void)l; }
uint64_t sym_tier(void) { const char *p = getenv("VH_TIER"); return p ? strtoull(p, 0, 10) : 0; }
uint64_t sym_is_symbolic_run(void) { return 0; }
void sym_allow_panic(uint64_t b) { (void)b; }
void sym_heap_reuse(uint64_t b) { (void)b; }
void sym_hash_const(uint64_t b) { (void)b; }
void sym_faults(uint64_t m, uint64_t b) { f_mask = m; f_budget = b; }
uint64_t sym_fault_count(void) { return f_count; }
static uint64_t p_bound, p_count; void sym_threads(uint64_t b) { p_bound = b; }
void sym_dbg(const char *p, size_t l) { fprintf(stderr, "[dbg] %.*s\n", (int)l, p); }
void sym_dbg_u64(uint64_t v) { fprintf(stderr, "[dbg] %#lx\n", v); }
static void mkparents(const char *p) { char b[1024]; snprintf(b, sizeof b, "%s", p); for (char *q = b + 1; *q; q++) if (*q == '/') { *q = 0; syscall(SYS_mkdir, b, 0755); *q = '/'; } }
static char *cp(const char *p, size_t l) { char *b = malloc(l + 1); memcpy(b, p, l); b[l] = 0; if (strncmp(b, ROOT, strlen(ROOT))) die("path outside scratch root"); return b; }
void sym_fs_file(const char *p, size_t pl, const char *d, size_t dl) { char *b = cp(p, pl); mkparents(b); int fd = syscall(SYS_open, b, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) die("fs_file"); size_t o = 0; while (o < dl) { ssize_t k = syscall(SYS_write, fd, d + o, dl - o); if (k <= 0) die("fs write"); o += k; } close(fd); free(b); }
void sym_fs_dir(const char *p, size_t pl) { char *b = cp(p, pl); mkparents(b); syscall(SYS_mkdir, b, 0755); free(b); }
uint64_t sym_fs_size(const char *p, size_t pl) { char *b = cp(p, pl); struct stat s; int r = stat(b, &s); free(b); return r < 0 || S_ISDIR(s.st_mode) ? UINT64_MAX : (uint64_t)s.st_size; }
void sym_fs_read(const char *p, size_t pl, char *out) { char *b = cp(p, pl); FILE *f = fopen(b, "r"); free(b); if (!f) return; size_t n = 0, k; while ((k = fread(out + n, 1, 4096, f)) > 0) n += k; fclose(f); }
static char *list[4096]; static int nlist;
static void walk(const char *d) { DIR *x = opendir(d); if (!x) return; struct dirent *e; while ((e = readdir(x))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char b[1024]; snprintf(b, sizeof b, "%s/%s", d, e->d_name); struct stat s; if (lstat(b, &s)) continue; if (S_ISDIR(s.st_mode)) walk(b); else if (nlist < 4096) list[nlist++] = strdup(b); } closedir(x); }
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
uint64_t sym_fs_list(uint64_t i, char *out, uint64_t cap) { nlist = 0; walk(ROOT); qsort(list, nlist, sizeof *list, cmp); if (i >= (uint64_t)nlist) return UINT64_MAX; size_t l = strlen(list[i]); if (l > cap) return UINT64_MAX; memcpy(out, list[i], l); return l; }
#define so (sh->so)
#define sol (sh->sol)
uint64_t sym_stdout(char *out, uint64_t cap) { if (sol > cap) die("stdout cap"); memcpy(out, so, sol); return sol; }
void sym_setenv(const char *k, size_t kl, const char *v, size_t vl) { char *a = strndup(k, kl), *b = strndup(v, vl); setenv(a, b, 1); }

static int fault(uint64_t k, const char *nm) {
    if (reading || !(f_mask & k) || f_count >= f_budget) return 0;
    char b[64]; snprintf(b, sizeof b, "fault:%s", nm);
    expect(b, strlen(b), 'u');
    if (val) { f_count++; return 1; }
    return 0;
}
// a guarded call runs in a child process; when it returns, the child goes on, when it dies, this process does
uint64_t sym_guarded(uint64_t (*f)(void *), void *d) {
    open_in(); fflush(NULL); pid_t c = fork(); if (c < 0) die("fork");
    if (c == 0) { guarded = 1; uint64_t r = f(d); guarded = 0; sh->finished = 1; return r; }
    int st; while (waitpid(c, &st, 0) < 0) ;
    if (!sh->finished && ((WIFEXITED(st) && WEXITSTATUS(st) == 77) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT))) return 1;
    if (!sh->finished && WIFEXITED(st) && WEXITSTATUS(st) != 65 && WEXITSTATUS(st) != 66 && WEXITSTATUS(st) != 101) return 2 + WEXITSTATUS(st);
    if (WIFEXITED(st)) _exit(WEXITSTATUS(st)); signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); _exit(65);
}
void sym_unguard(void) {}
extern void (*__init_array_start[])(int, char **, char **) __attribute__((visibility("hidden"))), (*__init_array_end[])(int, char **, char **) __attribute__((visibility("hidden")));
extern char **environ;
// the arguments of the program, as std takes them
void sym_args(uint64_t n, char **v) { for (void (**f)(int, char **, char **) = __init_array_start; f < __init_array_end; f++) (*f)(n, v, environ); }
static void crash(void) { if (guarded && fault(64, "crash")) _exit(77); }
// interposed libc entry points (faults are injected only when a harness enabled them)
static int in_root(const char *p) { // lexically below the scratch root?
    char b[8192], o[8192]; size_t n = 0; if (*p != '/') snprintf(b, sizeof b, "%s/%s", ROOT, p); else snprintf(b, sizeof b, "%s", p);
    o[0] = 0; char *sv = NULL;
    for (char *c = strtok_r(b, "/", &sv); c; c = strtok_r(NULL, "/", &sv)) {
        if (!strcmp(c, ".")) continue;
        if (!strcmp(c, "..")) { while (n > 0 && o[--n] != '/') ; o[n] = 0; continue; }
        n += snprintf(o + n, sizeof o - n, "/%s", c);
    }
    return !strncmp(o, ROOT, strlen(ROOT)) && (o[strlen(ROOT)] == 0 || o[strlen(ROOT)] == '/');
}
static void guard(const char *p) { if (!in_root(p)) { fprintf(stderr, "ASSERTION-FAILED %s lies outside the scratch directory\n", p); _exit(101); } }
ssize_t write(int fd, const void *p, size_t n) {
    if ((fd == 1 || fd > 2) && n > 0) {
        if (fd > 2) crash();
        if (fault(1, "write")) { errno = ENOSPC; return -1; }
        if (n > 1 && fault(2, "short")) { n /= 2; }
    }
    if (fd == 1) { if (sol + n <= sizeof so) { memcpy(so + sol, p, n); sol += n; } return n; }
    return syscall(SYS_write, fd, p, n);
}
ssize_t read(int fd, void *p, size_t n) {
    if (fd > 2 && fault(16, "read")) { errno = EIO; return -1; }
    return syscall(SYS_read, fd, p, n);
}
int open64(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if ((fl & 3) != 0 || (fl & (O_CREAT | O_TRUNC))) { if (strncmp(p, "/dev/", 5)) guard(p); if (!reading) crash(); if (!reading && fault(4, "open")) { errno = EACCES; return -1; } }
    return syscall(SYS_open, p, fl, mode);
}
int mkdir(const char *p, mode_t m) {
    guard(p); struct stat s; if (!stat(p, &s)) { errno = EEXIST; return -1; }
    char b[4096]; snprintf(b, sizeof b, "%s", p); char *q = strrchr(b, '/'); if (q && q > b) { *q = 0; if (stat(b, &s)) { errno = ENOENT; return -1; } }
    crash(); if (fault(8, "mkdir")) { errno = EACCES; return -1; }
    return syscall(SYS_mkdir, p, m);
}
int rename(const char *a, const char *b) { guard(a); guard(b); crash(); if (fault(32, "rename")) { errno = EACCES; return -1; } return syscall(SYS_rename, a, b); }
int unlink(const char *p) { guard(p); crash(); return syscall(SYS_unlink, p); }
int fsync(int fd) { if (fault(1, "fsync")) { errno = EIO; return -1; } return syscall(SYS_fsync, fd); }

// ---- threads: one runs at a time, and the recorded choices say which (mirrors engine/src/sched.rs) ----
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
enum { RUN, DONE, FUTEX, JOIN };
#define NT 64
static struct T { int st; long on; pthread_t th; sem_t sem; void *(*f)(void *); void *arg; } T[NT];
static int nt = 1; static __thread int me; static __thread int over;
static int can(int t) { return T[t].st == RUN || (T[t].st == JOIN && T[T[t].on].st == DONE); }
static int others(int *r) { int n = 0; for (int t = 0; t < nt; t++) if (t != me && can(t)) r[n++] = t; return n; }
static void switch_to(int t, int wait) { if (T[t].st != DONE) T[t].st = RUN; sem_post(&T[t].sem); if (wait) while (sem_wait(&T[me].sem)) ; }
static void next(int st, long on) {
    T[me].st = st; T[me].on = on; int r[NT], n = others(r);
    if (!n) { fprintf(stderr, "HANG no thread can go on\n"); _exit(42); }
    int i = 0; if (n > 1) { expect("next", 4, 'u'); i = val; if (i >= n) die("schedule"); }
    switch_to(r[i], st != DONE);
}
void vh_sched(void) {
    if (over || nt < 2 || p_count >= p_bound) return;
    int r[NT], n = others(r); if (!n) return;
    expect("sched", 5, 'u'); if (val == 0) return;
    if ((int)val > n) die("schedule"); p_count++; switch_to(r[val - 1], 1);
}
int sched_yield(void) { int r[NT], n = others(r); if (over || !n) return 0; int t = r[0]; for (int i = n - 1; i >= 0; i--) if (r[i] > me) t = r[i]; switch_to(t, 1); return 0; }
static void *start(void *p) { struct T *t = p; me = t - T; while (sem_wait(&t->sem)) ; void *r = t->f(t->arg); over = 1; next(DONE, 0); return r; }
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
    int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = dlsym(RTLD_NEXT, "pthread_create");
    if (nt >= NT) die("threads"); if (nt == 1) sem_init(&T[0].sem, 0, 0);
    struct T *t = &T[nt]; t->f = f; t->arg = arg; t->st = RUN; sem_init(&t->sem, 0, 0);
    int r = real(&t->th, at, start, t); if (r) return r; *th = t->th; nt++; return 0;
}
int pthread_join(pthread_t th, void **rv) {
    int (*real)(pthread_t, void **) = dlsym(RTLD_NEXT, "pthread_join");
    for (int t = 1; t < nt; t++) if (pthread_equal(T[t].th, th)) { if (T[t].st != DONE) next(JOIN, t); break; }
    return real(th, rv);
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n != SYS_futex || over) return raw(n, a, b, c, d, e, f);
    int op = b & 0x7f;
    if (op == 0 || op == 9) { if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; } if (d) die("futex timeout"); next(FUTEX, a); return 0; }
    if (op == 1 || op == 10) { int k = 0; for (int t = 0; t < nt && k < (int)c; t++) if (t != me && T[t].st == FUTEX && T[t].on == a) { T[t].st = RUN; k++; } return k; }
    return raw(n, a, b, c, d, e, f);
}
