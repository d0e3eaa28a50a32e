/* Fork server around the real kefir command line driver.
 * The driver's main() is compiled with -Dmain=kefir_cli_main and linked in unchanged.
 * Request  (stdin):  u32 nargs, { u32 len, bytes }*, u32 cpu_ms, u32 srclen, bytes
 * Response (stdout): u32 wait status, u32 outlen, u32 errlen, bytes, bytes
 * Each request runs in a fresh child: stdin/stdout/stderr are memfds.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>

int kefir_cli_main(int, char *const *);

static void rd(void *p, size_t n) {
    char *c = p;
    while (n) {
        ssize_t r = read(0, c, n);
        if (r <= 0) _exit(0);
        c += r; n -= (size_t) r;
    }
}
static void wr(const void *p, size_t n) {
    const char *c = p;
    while (n) {
        ssize_t r = write(1, c, n);
        if (r <= 0) _exit(0);
        c += r; n -= (size_t) r;
    }
}
static uint32_t r32(void) { uint32_t v; rd(&v, 4); return v; }

static char *slurp(int fd, uint32_t *len) {
    struct stat st;
    fstat(fd, &st);
    size_t n = (size_t) st.st_size;
    char *b = malloc(n + 1);
    size_t got = 0;
    while (got < n) {
        ssize_t r = pread(fd, b + got, n - got, (off_t) got);
        if (r <= 0) break;
        got += (size_t) r;
    }
    *len = (uint32_t) got;
    return b;
}

int main(void) {
    signal(SIGPIPE, SIG_IGN);
    for (;;) {
        uint32_t n = r32();
        char **argv = calloc(n + 2, sizeof(char *));
        argv[0] = "kefir";
        for (uint32_t i = 0; i < n; i++) {
            uint32_t l = r32();
            argv[i + 1] = malloc(l + 1);
            rd(argv[i + 1], l);
            argv[i + 1][l] = 0;
        }
        uint32_t ms = r32();
        uint32_t sl = r32();
        char *src = malloc(sl + 1);
        rd(src, sl);
        int in = memfd_create("in", 0), out = memfd_create("out", 0), err = memfd_create("err", 0);
        size_t w = 0;
        while (w < sl) {
            ssize_t r = write(in, src + w, sl - w);
            if (r <= 0) break;
            w += (size_t) r;
        }
        lseek(in, 0, SEEK_SET);
        pid_t pid = fork();
        if (pid == 0) {
            dup2(in, 0); dup2(out, 1); dup2(err, 2);
            close(in); close(out); close(err);
            struct rlimit core = {0, 0};
            setrlimit(RLIMIT_CORE, &core);
#ifdef KSERVE_AS_LIMIT
            struct rlimit as = {(rlim_t) 4 << 30, (rlim_t) 4 << 30};
            setrlimit(RLIMIT_AS, &as);
#endif
            struct rlimit fs = {(rlim_t) 1 << 30, (rlim_t) 1 << 30};
            setrlimit(RLIMIT_FSIZE, &fs);
            struct itimerval it = {{0, 0}, {ms / 1000, (ms % 1000) * 1000}};
            signal(SIGPROF, SIG_DFL);
            setitimer(ITIMER_PROF, &it, NULL);
            exit(kefir_cli_main((int) n + 1, argv));
        }
        int status = 0;
        if (pid < 0) status = 0x7f00;
        else while (waitpid(pid, &status, 0) < 0) {}
        uint32_t ol, el, st = (uint32_t) status;
        char *ob = slurp(out, &ol), *eb = slurp(err, &el);
        wr(&st, 4); wr(&ol, 4); wr(&el, 4); wr(ob, ol); wr(eb, el);
        close(in); close(out); close(err);
        free(ob); free(eb); free(src);
        for (uint32_t i = 0; i < n; i++) free(argv[i + 1]);
        free(argv);
    }
}
