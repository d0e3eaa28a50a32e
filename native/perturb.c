/* The real driver under a chosen allocator: KPERT="<order><fill><reuse>": order u(p), d(own), l(anes); fill two hex digits
 * (fresh and released memory, and the unused stack, hold this byte); reuse n(ever), y(last released block of the size first).
 * Without KPERT the compiler's own allocator is used. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <alloca.h>
#include <sys/mman.h>
#include "kefir/core/mem.h"

int kefir_cli_main(int, char *const *);
struct kefir_mem *__real_kefir_system_memalloc(void);

#define ARENA (1ull << 32)
#define LANES 64
static unsigned char *base;
static uint64_t up, down, lane[LANES], count;
static char order;
static int fill, reuse;
struct hdr {
    size_t size;
    struct hdr *next;
};
static struct hdr *freed[4096];

static void *get(size_t n) {
    size_t size = (n + 15) / 16 * 16 + sizeof(struct hdr);
    struct hdr *h = NULL;
    if (reuse && size / 16 < 4096 && freed[size / 16]) {
        h = freed[size / 16];
        freed[size / 16] = h->next;
    } else if (order == 'u') {
        h = (void *) (base + up);
        up += size;
    } else if (order == 'd') {
        down += size;
        h = (void *) (base + ARENA - down);
    } else {
        unsigned l = (unsigned) (count++ * 37 + 11) % LANES;
        l = l % 2 ? LANES - 1 - l / 2 : l / 2;
        h = (void *) (base + ARENA / LANES * l + lane[l]);
        lane[l] += size;
    }
    h->size = size;
    memset(h + 1, fill, size - sizeof *h);
    return h + 1;
}
static void *m_malloc(struct kefir_mem *m, kefir_size_t n) {
    return get(n);
}
static void *m_calloc(struct kefir_mem *m, kefir_size_t a, kefir_size_t b) {
    void *p = get(a * b);
    memset(p, 0, a * b);
    return p;
}
static void m_free(struct kefir_mem *m, void *p) {
    if (!p)
        return;
    struct hdr *h = (struct hdr *) p - 1;
    memset(p, fill, h->size - sizeof *h);
    if (reuse && h->size / 16 < 4096) {
        h->next = freed[h->size / 16];
        freed[h->size / 16] = h;
    }
}
static void *m_realloc(struct kefir_mem *m, void *p, kefir_size_t n) {
    void *q = get(n);
    if (p) {
        struct hdr *h = (struct hdr *) p - 1;
        size_t o = h->size - sizeof *h;
        memcpy(q, p, o < n ? o : n);
        m_free(m, p);
    }
    return q;
}
static struct kefir_mem MEM = {m_malloc, m_calloc, m_realloc, m_free, NULL};
struct kefir_mem *__wrap_kefir_system_memalloc(void) {
    return base ? &MEM : __real_kefir_system_memalloc();
}
static __attribute__((noinline)) void dirty(void) {
    volatile unsigned char *s = alloca(1 << 20);
    for (size_t i = 0; i < 1 << 20; i++)
        s[i] = (unsigned char) fill;
}
int main(int argc, char **argv) {
    const char *k = getenv("KPERT");
    if (k && strlen(k) == 4) {
        base = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED)
            return 97;
        order = k[0];
        char f[3] = {k[1], k[2], 0};
        fill = (int) strtol(f, NULL, 16);
        reuse = k[3] == 'y';
        dirty();
    }
    return kefir_cli_main(argc, argv);
}
