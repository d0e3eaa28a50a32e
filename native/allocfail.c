/* Fault enumeration for the compiler's allocator. The driver's main() runs once on the given arguments; at every single
 * allocation the process forks, the child sees that allocation fail and runs to its end, and the parent goes on.
 * usage: allocfail MODE FROM TO args...   MODE 0: only the undisturbed run; 1: with faults at allocations FROM..TO-1;
 * 2: one run in which allocation FROM fails, with its own output (for debugging); 3: abort there
 * Report (fd 1): lines "R <n> <kind> <status> <address>" and finally "END <allocations> <live blocks> <exit status> <children>". */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include "kefir/core/mem.h"

int kefir_cli_main(int, char *const *);

struct hdr {
    size_t size;
    uint64_t magic;
};
#define LIVE 0x4c49564542414c4cULL
#define DEAD 0x4445414442414c4cULL
static long nalloc, live, from, to, children;
static int mode, child, outfd, errfd, report;
static struct shared {
    int done, errors;
    long live;
} *sh;
static void say(const char *kind, int st, void *addr) {
    char b[200];
    int n = snprintf(b, sizeof b, "R %ld %s %d %p\n", nalloc, kind, st, addr);
    if (write(report, b, n) != n)
        _exit(99);
}
static char *get(int fd, size_t *n) {
    struct stat st;
    fstat(fd, &st);
    char *b = malloc(st.st_size + 1);
    *n = (size_t) pread(fd, b, st.st_size, 0);
    return b;
}
static struct {
    char *out;
    size_t len;
    long n;
    void *addr;
} ok[4096];
static int nok;

static int fail_here(void *addr) {
    nalloc++;
    if (mode == 3 && nalloc == from)
        abort();
    if (mode == 2 && nalloc == from)
        return 1;
    if (mode >= 2)
        return 0;
    if (child || !mode || nalloc < from || nalloc >= to)
        return 0;
    off_t off[32];
    for (int i = 0; i < 32; i++)
        off[i] = i == report ? -1 : lseek(i, 0, SEEK_CUR);
    int cout = memfd_create("out", 0), cerr = memfd_create("err", 0);
    memset(sh, 0, sizeof *sh);
    pid_t pid = fork();
    if (pid == 0) {
        child = 1;
        size_t n;
        char *b = get(outfd, &n);
        if (write(cout, b, n) != (ssize_t) n)
            _exit(99);
        b = get(errfd, &n);
        if (write(cerr, b, n) != (ssize_t) n)
            _exit(99);
        dup2(cout, 1);
        dup2(cerr, 2);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        struct itimerval it = {{0, 0}, {5, 0}};
        signal(SIGPROF, SIG_DFL);
        setitimer(ITIMER_PROF, &it, NULL);
        return 1;
    }
    children++;
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    for (int i = 0; i < 32; i++)
        if (off[i] != -1)
            lseek(i, off[i], SEEK_SET);
    size_t on, en;
    char *o = get(cout, &on), *e = get(cerr, &en);
    if (WIFSIGNALED(st))
        say(WTERMSIG(st) == SIGPROF ? "hang" : "crash", WTERMSIG(st), addr);
    else if (memmem(e, en, "Sanitizer", 9) || memmem(e, en, "runtime error", 13))
        say("sanitizer", WEXITSTATUS(st), addr);
    else if (!sh->done)
        say("exit", WEXITSTATUS(st), addr);
    else if (sh->errors)
        say("badfree", WEXITSTATUS(st), addr);
    else if (WEXITSTATUS(st) == 0) {
        if (nok < 4096) {
            ok[nok].out = o;
            ok[nok].len = on;
            ok[nok].n = nalloc;
            ok[nok++].addr = addr;
            o = NULL;
        }
    } else if (en == 0)
        say("silent", WEXITSTATUS(st), addr);
    free(o);
    free(e);
    close(cout);
    close(cerr);
    return 0;
}
static void *raw_alloc(size_t n) {
    struct hdr *h = malloc(sizeof *h + n);
    if (h == NULL)
        return NULL;
    h->size = n;
    h->magic = LIVE;
    memset(h + 1, 0xcd, n);
    live++;
    return h + 1;
}
static void *m_malloc(struct kefir_mem *m, kefir_size_t n) {
    return fail_here(__builtin_return_address(0)) ? NULL : raw_alloc(n);
}
static void *m_calloc(struct kefir_mem *m, kefir_size_t a, kefir_size_t b) {
    if (fail_here(__builtin_return_address(0)))
        return NULL;
    void *p = raw_alloc(a * b);
    return p ? memset(p, 0, a * b) : NULL;
}
static void m_free(struct kefir_mem *m, void *p) {
    if (p == NULL)
        return;
    struct hdr *h = (struct hdr *) p - 1;
    if (h->magic != LIVE) {
        sh->errors++;
        if (mode == 2)
            abort();
        return;
    }
    h->magic = DEAD;
    live--;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    free(h);
    return;
#endif
#endif
    memset(p, 0xdd, h->size); /* never reused: stale pointers meet this pattern */
}
static void *m_realloc(struct kefir_mem *m, void *p, kefir_size_t n) {
    if (fail_here(__builtin_return_address(0)))
        return NULL;
    void *q = raw_alloc(n);
    if (p != NULL) {
        struct hdr *h = (struct hdr *) p - 1;
        if (h->magic != LIVE) {
            sh->errors++;
            return q;
        }
        memcpy(q, p, h->size < n ? h->size : n);
        m_free(m, p);
    }
    return q;
}
static struct kefir_mem MEM = {m_malloc, m_calloc, m_realloc, m_free, NULL};
struct kefir_mem *__wrap_kefir_system_memalloc(void) {
    return &MEM;
}

int main(int argc, char **argv) {
    mode = atoi(argv[1]);
    from = atol(argv[2]);
    to = atol(argv[3]);
    argv[3] = "kefir";
    report = fcntl(1, F_DUPFD, 40);
    outfd = memfd_create("out", 0);
    errfd = memfd_create("err", 0);
    outfd = fcntl(outfd, F_DUPFD, 50);
    errfd = fcntl(errfd, F_DUPFD, 50);
    if (mode < 2) {
        dup2(outfd, 1);
        dup2(errfd, 2);
    }
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int rc = kefir_cli_main(argc - 3, argv + 3);
    fflush(NULL);
    if (child) {
        sh->done = 1;
        sh->live = live;
        _exit(rc & 255);
    }
    size_t n, en;
    char *o = get(outfd, &n), *e = get(errfd, &en);
    for (int i = 0; i < nok; i++)
        if (rc != 0 || ok[i].len != n || memcmp(ok[i].out, o, n)) {
            nalloc = ok[i].n;
            say("success", 0, ok[i].addr);
        }
    char b[200];
    int k = snprintf(b, sizeof b, "END %ld %ld %d %ld %d\n", nalloc, live, rc, children, sh->errors);
    if (write(report, b, k) != k)
        _exit(99);
    _exit(0);
}
