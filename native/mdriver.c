/* Observation functions for programs built of several translation units: everything is printed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
void obs_i(long long v) { printf("i%lld\n", v); }
void obs_u(unsigned long long v) { printf("u%llu\n", v); }
void obs_d(double v) { printf("d%a\n", v); }
void obs_s(const char *s) { printf("s%s\n", s); }
long long id_i(long long v) { return v; }
static void *thr(void *f) { ((void (*)(void)) f)(); return NULL; }
void in_thread(void (*f)(void)) { pthread_t t; if (pthread_create(&t, NULL, thr, (void *) f)) abort(); pthread_join(t, NULL); }
extern void (*const mtests[])(void);
extern const int mntests;
int main(int argc, char **argv) {
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    for (int i = 0; i < mntests; i++) { printf("T%d\n", i); fflush(stdout); mtests[i](); }
    printf("DONE\n");
    fflush(stdout);
    _Exit(0);
}
