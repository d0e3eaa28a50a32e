/* Runs pairs of test functions (compiled by kefir / by the reference compiler) and compares what they observe.
 * Output: one line per disagreeing pair: "DIFF <index> <position> <what>". */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <pthread.h>

struct vtest { void (*k)(void); void (*g)(void); };
extern const struct vtest vtests[];
extern const int vntests;

#define MAXOBS (1 << 18)
struct ob { unsigned kind; unsigned len; unsigned char b[16]; };
static struct ob *bufs[2];
static unsigned cnt[2];
static int cur;
static unsigned long total;

static void put(unsigned kind, const void *p, unsigned len) {
    struct ob o;
    memset(&o, 0, sizeof o);
    o.kind = kind;
    o.len = len;
    memcpy(o.b, p, len > 16 ? 16 : len);
    if (cnt[cur] < MAXOBS) bufs[cur][cnt[cur]] = o;
    cnt[cur]++;
}
void obs_i(long long v) { put('i', &v, 8); }
void obs_u(unsigned long long v) { put('u', &v, 8); }
void obs_d(double v) { if (v != v) { put('n', "", 0); return; } put('d', &v, 8); }
void obs_f(float v) { if (v != v) { put('n', "", 0); return; } put('f', &v, 4); }
void obs_ld(long double v) { if (v != v) { put('n', "", 0); return; } put('l', &v, 10); }
void obs_p(const void *p) { put('p', &p, 8); }
void obs_b(const void *p, unsigned long n) {
    const unsigned char *c = p;
    put('#', &n, 8);
    while (n) { unsigned k = n > 16 ? 16 : (unsigned) n; put('b', c, k); c += k; n -= k; }
}
void obs_s(const char *s) { obs_b(s, strlen(s) + 1); }
/* environment answers for the code under test: value number i of the current valuation */
unsigned long vin[16];
/* the identity function the optimiser of the reference compiler cannot see through */
long long id_i(long long v) { return v; }
double id_d(double v) { return v; }
static sigjmp_buf jb;
static volatile int sig;
static void onsig(int s) { sig = s; siglongjmp(jb, 1); }
/* traced side effect; each test has a fuel of traces per script, after which it is abandoned (on both sides alike) */
static jmp_buf fuel_jb;
static int fuel_set, fuel;
int trace(int id, int v) {
    put('t', &id, 4);
    if (fuel_set && fuel-- <= 0) longjmp(fuel_jb, 1);
    return v;
}
/* condition outcomes: bits of a script, then zeros */
static unsigned long script;
static int script_len;
int nx(void) { if (script_len <= 0) return 0; script_len--; int b = script & 1; script >>= 1; return b; }
int nx2(void) { int a = nx(); return a * 2 + nx(); }
/* runs f under script m of n bits with the given fuel */
void with_script(void (*f)(void), unsigned long m, int n, int fl) {
    put('m', &m, 8);
    script = m; script_len = n; fuel = fl; fuel_set = 1;
    if (setjmp(fuel_jb) == 0) { f(); put('e', "", 0); } else put('x', "", 0);
    fuel_set = 0;
}
/* the stack depth at one place of the program must not drift: records the difference to the first visit of id */
static char *sp_base[64];
int sp_probe(int id) {
    char *sp = __builtin_frame_address(0);
    id &= 63;
    if (!sp_base[id]) sp_base[id] = sp;
    long d = sp - sp_base[id];
    put('S', &d, 8);
    return 0;
}

/* runs f in a fresh thread, to its end */
static void *thr(void *f) { ((void (*)(void)) f)(); return NULL; }
void in_thread(void (*f)(void)) { pthread_t t; if (pthread_create(&t, NULL, thr, (void *) f)) abort(); pthread_join(t, NULL); }

/* calls f and reports which callee-saved state was not preserved (bit mask) */
unsigned long vcall_checked(void (*f)(void));
__asm__(
    ".globl vcall_checked\n vcall_checked:\n"
    "push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
    "sub $40, %rsp\n"
    "stmxcsr 0(%rsp)\n fnstcw 8(%rsp)\n"
    "mov %rsp, vsaved_rsp(%rip)\n"
    "mov $0x1111111111111111, %rbx\n mov $0x2222222222222222, %rbp\n mov $0x3333333333333333, %r12\n"
    "mov $0x4444444444444444, %r13\n mov $0x5555555555555555, %r14\n mov $0x6666666666666666, %r15\n"
    "call *%rdi\n"
    "xor %eax, %eax\n"
    "mov $0x1111111111111111, %rcx\n cmp %rcx, %rbx\n je 1f\n or $1, %eax\n 1:\n"
    "mov $0x2222222222222222, %rcx\n cmp %rcx, %rbp\n je 1f\n or $2, %eax\n 1:\n"
    "mov $0x3333333333333333, %rcx\n cmp %rcx, %r12\n je 1f\n or $4, %eax\n 1:\n"
    "mov $0x4444444444444444, %rcx\n cmp %rcx, %r13\n je 1f\n or $8, %eax\n 1:\n"
    "mov $0x5555555555555555, %rcx\n cmp %rcx, %r14\n je 1f\n or $16, %eax\n 1:\n"
    "mov $0x6666666666666666, %rcx\n cmp %rcx, %r15\n je 1f\n or $32, %eax\n 1:\n"
    "cmp vsaved_rsp(%rip), %rsp\n je 1f\n or $64, %eax\n mov vsaved_rsp(%rip), %rsp\n 1:\n"
    "stmxcsr 16(%rsp)\n fnstcw 24(%rsp)\n"
    "mov 0(%rsp), %ecx\n and $0xffffffc0, %ecx\n mov 16(%rsp), %edx\n and $0xffffffc0, %edx\n"
    "cmp %ecx, %edx\n je 1f\n or $128, %eax\n ldmxcsr 0(%rsp)\n 1:\n"
    "mov 8(%rsp), %cx\n cmp %cx, 24(%rsp)\n je 1f\n or $256, %eax\n fldcw 8(%rsp)\n 1:\n"
    "pushfq\n pop %rcx\n test $0x400, %ecx\n je 1f\n or $512, %eax\n cld\n 1:\n"
    "add $40, %rsp\n"
    "pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
    ".local vsaved_rsp\n .comm vsaved_rsp, 8, 8\n");

/* machine state a callee may rely on: aligned frame, empty x87 stack, direction flag clear */
static unsigned x87_tag(void) { unsigned short env[14]; __asm__ volatile("fnstenv %0; fldenv %0" : "=m"(env)); return env[4]; }
int abi_state(void *frame) {
    unsigned long fl;
    __asm__ volatile("pushfq; pop %0" : "=r"(fl));
    unsigned v[3] = {(unsigned long) frame & 15, x87_tag() != 0xffff, (fl >> 10) & 1};
    put('A', v, 12);
    return 0;
}

static unsigned long run(int side, void (*f)(void), int *how) {
    cur = side;
    cnt[side] = 0;
    sig = 0;
    fuel_set = 0;
    memset(sp_base, 0, sizeof sp_base);
    unsigned long st = 0;
    *how = 0;
    if (sigsetjmp(jb, 1) == 0) {
        struct itimerval it = {{0, 0}, {5, 0}};
        setitimer(ITIMER_PROF, &it, NULL);
        st = vcall_checked(f);
        if (x87_tag() != 0xffff) { st |= 1024; __asm__ volatile("fninit"); }
    } else {
        *how = sig;
        __asm__ volatile("cld; fninit");
    }
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &off, NULL);
    return st;
}

static void show(struct ob *o) {
    printf("%c:", o->kind);
    if (o->kind == 'i') { long long v; memcpy(&v, o->b, 8); printf("%lld", v); }
    else if (o->kind == 'd') { double v; memcpy(&v, o->b, 8); printf("%a", v); }
    else if (o->kind == 'f') { float v; memcpy(&v, o->b, 4); printf("%a", (double) v); }
    else if (o->kind == 'l') { long double v = 0; memcpy(&v, o->b, 10); printf("%La", v); }
    else if (o->kind == 't') { int v; memcpy(&v, o->b, 4); printf("%d", v); }
    else for (unsigned i = 0; i < o->len && i < 16; i++) printf("%02x", o->b[i]);
}

int main(void) {
    stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
    sigaltstack(&ss, NULL);
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGTRAP, SIGABRT};
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) {
        struct sigaction sa = {.sa_handler = onsig, .sa_flags = SA_ONSTACK | SA_NODEFER};
        sigaction(sigs[i], &sa, NULL);
    }
    for (int i = 0; i < 2; i++) bufs[i] = calloc(MAXOBS, sizeof(struct ob));
    for (int i = 0; i < vntests; i++) {
        int hk, hg;
        run(1, vtests[i].g, &hg);
        if (hg) { printf("REFCRASH %d signal %d\n", i, hg); continue; }
        unsigned long st = run(0, vtests[i].k, &hk);
        if (hk) { printf("DIFF %d %u the compiled code died with signal %d%s\n", i, cnt[0], hk, hk == SIGPROF ? " (no termination)" : ""); continue; }
        if (st) { printf("DIFF %d %u callee-saved state not preserved: mask %lx\n", i, cnt[0], st); continue; }
        unsigned n = cnt[0] < cnt[1] ? cnt[0] : cnt[1], j;
        if (n > MAXOBS) n = MAXOBS;
        total += cnt[1];
        for (j = 0; j < n; j++)
            if (memcmp(&bufs[0][j], &bufs[1][j], sizeof(struct ob))) break;
        if (j < n) {
            printf("DIFF %d %u got ", i, j); show(&bufs[0][j]); printf(" expected "); show(&bufs[1][j]); printf("\n");
        } else if (cnt[0] != cnt[1]) {
            printf("DIFF %d %u got %u observations expected %u\n", i, n, cnt[0], cnt[1]);
        }
    }
    printf("DONE %d %lu\n", vntests, total);
    fflush(stdout);
    _exit(0);
}
