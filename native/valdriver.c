/* Evaluates pairs of functions (compiled by kefir / by the reference compiler) on every valuation of their arguments
 * drawn from finite value sets. Valuations on which the reference (built with trapping undefined-behaviour checks)
 * traps have no defined meaning and are skipped and counted. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>

typedef void (*vfn)(const unsigned long long *, unsigned long long *);
struct vset { int n; const unsigned long long (*v)[2]; };
struct vtest { vfn k, g; int nargs; const struct vset *sets[4]; char kind; };
extern const struct vtest vtests[];
extern const int vntests;

static sigjmp_buf jb;
static volatile int sig;
static void onsig(int s) { sig = s; siglongjmp(jb, 1); }

static void norm(char kind, unsigned long long *o) {
    if (kind == 'd') { double d; memcpy(&d, o, 8); if (d != d) { o[0] = 0x7ff8000000000000ull; } }
    if (kind == 'f') { float d; memcpy(&d, o, 4); if (d != d) { o[0] = 0x7fc00000; } }
    if (kind == 'm') { o[1] &= 0xffff; o[3] &= 0xffff; }
    if (kind == 'l') { long double d; memcpy(&d, o, 10); if (d != d) { o[0] = 1; o[1] = 0x7fff; } o[1] &= 0xffff; }
}

int main(void) {
    stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
    sigaltstack(&ss, NULL);
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGTRAP, SIGABRT};
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) {
        struct sigaction sa = {.sa_handler = onsig, .sa_flags = SA_ONSTACK | SA_NODEFER};
        sigaction(sigs[i], &sa, NULL);
    }
    unsigned long total = 0, undef = 0;
    for (volatile int i = 0; i < vntests; i++) {
        const struct vtest *t = &vtests[i];
        volatile int idx[4] = {0};
        volatile int bad = 0;
        struct itimerval it = {{0, 0}, {60, 0}};
        setitimer(ITIMER_PROF, &it, NULL);
        for (;;) {
            unsigned long long in[8] = {0}, in2[8];
            static unsigned long long ok[8], og[8];
            for (int j = 0; j < t->nargs; j++) memcpy(&in[2 * j], t->sets[j]->v[idx[j]], 16);
            memcpy(in2, in, sizeof in);
            memset(og, 0, sizeof og);
            memset(ok, 0, sizeof ok);
            int defined = 1;
            if (sigsetjmp(jb, 0) == 0) t->g(in, og); else { if (sig == SIGPROF || sig == SIGSEGV) { printf("REFCRASH %d signal %d\n", i, sig); fflush(stdout); _exit(3); } defined = 0; __asm__ volatile("fninit"); }
            if (!defined) undef++;
            else {
                total++;
                if (sigsetjmp(jb, 0) == 0) { t->k(in2, ok); }
                else {
                    printf("DIFF %d at", i);
                    for (int j = 0; j < t->nargs; j++) printf(" %016llx%s%04llx", in[2 * j], in[2 * j + 1] ? ":" : ":", in[2 * j + 1] & 0xffff);
                    printf(" died with signal %d\n", sig);
                    bad = 1;
                    __asm__ volatile("cld; fninit");
                }
                if (!bad) {
                    norm(t->kind, ok);
                    norm(t->kind, og);
                    if (memcmp(ok, og, sizeof ok)) {
                        printf("DIFF %d at", i);
                        for (int j = 0; j < t->nargs; j++) printf(" %016llx:%04llx", in[2 * j], in[2 * j + 1] & 0xffff);
                        printf(" got");
                        for (int q = 0; q < 8; q++) printf(" %llx", ok[q]);
                        printf(" expected");
                        for (int q = 0; q < 8; q++) printf(" %llx", og[q]);
                        printf("\n");
                        bad = 1;
                    }
                }
            }
            if (bad) break;
            int j = t->nargs - 1;
            while (j >= 0 && ++idx[j] == t->sets[j]->n) idx[j--] = 0;
            if (j < 0) break;
        }
    }
    printf("DONE %d %lu %lu\n", vntests, total, undef);
    fflush(stdout);
    _exit(0);
}
