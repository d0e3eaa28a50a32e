/* Runs the real driver on many inputs in one process. stdin: u32 nargs, {u32 len, bytes}, u32 cpu_ms, u32 n, n x {u32 len, bytes}.
 * stdout: n x {u32 wait status or exit code, u32 flags, u64 hash of output and diagnostics}; flags: 1 = died, 2 = wrote a diagnostic, 4 = produced output. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <getopt.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

int kefir_cli_main(int, char *const *);
void kefir_clear_error(void);
static void rd(void *p, size_t n) {
    for (size_t k = 0; k < n;) {
        ssize_t r = read(0, (char *) p + k, n - k);
        if (r <= 0)
            exit(0);
        k += (size_t) r;
    }
}
static uint32_t u32(void) {
    uint32_t v;
    rd(&v, 4);
    return v;
}
static uint64_t hash(uint64_t h, int fd) {
    unsigned char b[65536];
    ssize_t r;
    for (off_t o = 0; (r = pread(fd, b, sizeof b, o)) > 0; o += r)
        for (ssize_t k = 0; k < r; k++)
            h = (h ^ b[k]) * 1099511628211ull;
    return (h ^ 0xff) * 1099511628211ull;
}
int main(void) {
    int report = dup(1), nul = open("/dev/null", O_RDWR);
    dup2(nul, 1);
    for (;;) {
        uint32_t na = u32();
        char **argv = calloc(na + 6, sizeof *argv);
        argv[0] = "kefir";
        for (uint32_t i = 0; i < na; i++) {
            uint32_t l = u32();
            argv[i + 1] = calloc(1, l + 1);
            rd(argv[i + 1], l);
        }
        uint32_t cpu = u32(), n = u32();
        uint32_t *st = mmap(NULL, (n * 4 + 2) * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        uint32_t *len = calloc(n + 1, 4);
        char **in = calloc(n + 1, sizeof *in);
        for (uint32_t i = 0; i < n; i++) {
            len[i] = u32();
            in[i] = malloc(len[i] + 1);
            rd(in[i], len[i]);
        }
        volatile uint32_t *cur = &st[4 * n];
        *cur = 0;
        while (*cur < n) {
            pid_t pid = fork();
            if (pid == 0) {
                struct rlimit core = {0, 0};
                setrlimit(RLIMIT_CORE, &core);
                int ifd = memfd_create("in", 0), ofd = memfd_create("out", 0), efd = memfd_create("err", 0);
                char path[64];
                snprintf(path, sizeof path, "/proc/self/fd/%d", ifd);
                char opath[64];
                snprintf(opath, sizeof opath, "/proc/self/fd/%d", ofd);
                argv[na + 1] = "-o";
                argv[na + 2] = opath;
                argv[na + 3] = path;
                dup2(nul, 0);
                dup2(nul, 1);
                dup2(efd, 2);
                for (; *cur < n; (*cur)++) {
                    uint32_t i = *cur;
                    struct itimerval it = {{0, 0}, {cpu / 1000, (cpu % 1000) * 1000}};
                    setitimer(ITIMER_PROF, &it, NULL);
                    if (ftruncate(ifd, 0) || ftruncate(ofd, 0) || ftruncate(2, 0) || pwrite(ifd, in[i], len[i], 0) != (ssize_t) len[i])
                        _exit(97);
                    lseek(2, 0, SEEK_SET);
                    optind = 0;
                    kefir_clear_error();
                    int rc = kefir_cli_main((int) na + 4, argv);
                    fflush(NULL);
                    struct stat so, se;
                    fstat(ofd, &so);
                    fstat(2, &se);
                    uint64_t h = hash(hash(14695981039346656037ull, ofd), efd);
                    memcpy(&st[4 * i + 2], &h, 8);
                    st[4 * i] = (uint32_t) rc & 255;
                    st[4 * i + 1] = (se.st_size ? 2 : 0) | (so.st_size ? 4 : 0);
                }
                _exit(0);
            }
            int ws = 0;
            while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {
            }
            if (*cur < n) {
                st[4 * *cur] = (uint32_t) ws;
                st[4 * *cur + 1] = 1;
                (*cur)++;
            }
        }
        for (size_t k = 0, m = n * 16; k < m;) {
            ssize_t r = write(report, (char *) st + k, m - k);
            if (r <= 0)
                exit(1);
            k += (size_t) r;
        }
        munmap(st, (n * 4 + 2) * 4);
        for (uint32_t i = 0; i < n; i++)
            free(in[i]);
        for (uint32_t i = 0; i < na; i++)
            free(argv[i + 1]);
        free(in);
        free(len);
        free(argv);
    }
}
