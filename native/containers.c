/* Explicit-state exploration of the core containers: a state is the complete memory of the container (an arena the
   harness's allocator hands out) plus the reference model; every operation, with and without an injected allocation
   failure, is applied to every reachable state, and after each one the container's observable behaviour is compared
   with the model and then released in a copy. Only the public interface is used. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <locale.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <uchar.h>
#include <wchar.h>
#include <sys/time.h>
#include "kefir/core/base.h"
#include "kefir/core/error.h"
#include "kefir/core/mem.h"
#include "kefir/core/hashtree.h"
#include "kefir/core/block_tree.h"
#include "kefir/core/list.h"
#include "kefir/core/linked_stack.h"
#include "kefir/core/tree.h"
#include "kefir/core/trie.h"
#include "kefir/core/vector.h"
#include "kefir/core/string_buffer.h"
#include "kefir/core/symbol_table.h"

#define SLOTS 24
#define SLOT 256
#define FIXED 768
static struct world {
    unsigned size[SLOTS]; /* 0: free */
    _Alignas(16) unsigned char model[256];
    _Alignas(16) unsigned char fixed[FIXED];
    _Alignas(16) unsigned char slot[SLOTS][SLOT];
} W;
static int nslots = SLOTS;
static size_t wsize(void) {
    return sizeof W - (size_t) (SLOTS - nslots) * SLOT;
}

/* --- allocator with fault injection and overwrite detection --- */
static long nalloc, fail_at;
static int injected;
static char fault[300];
static void bad(const char *fmt, long a, long b, long c) {
    if (!fault[0])
        snprintf(fault, sizeof fault, fmt, a, b, c);
}
static void *a_malloc(struct kefir_mem *m, kefir_size_t n) {
    (void) m;
    if (++nalloc == fail_at) {
        injected = 1;
        return NULL;
    }
    if (n == 0)
        n = 1;
    if (n > SLOT - 8) {
        fprintf(stderr, "allocation of %lu bytes does not fit the arena\n", (unsigned long) n);
        exit(3);
    }
    for (int i = 0; i < nslots; i++)
        if (W.size[i] == 0) {
            W.size[i] = (unsigned) n;
            memset(W.slot[i], 0xcd, n);
            memset(W.slot[i] + n, 0xab, SLOT - n);
            return W.slot[i];
        }
    fprintf(stderr, "arena exhausted\n");
    exit(3);
}
static int slot_of(void *p) {
    for (int i = 0; i < nslots; i++)
        if (p == W.slot[i])
            return i;
    return -1;
}
static void a_free(struct kefir_mem *m, void *p) {
    (void) m;
    if (p == NULL)
        return;
    int i = slot_of(p);
    if (i < 0 || W.size[i] == 0) {
        bad("invalid or double free", 0, 0, 0);
        return;
    }
    W.size[i] = 0;
    memset(W.slot[i], 0xdd, SLOT);
}
static void *a_calloc(struct kefir_mem *m, kefir_size_t a, kefir_size_t b) {
    void *p = a_malloc(m, a * b);
    if (p)
        memset(p, 0, a * b);
    return p;
}
static void *a_realloc(struct kefir_mem *m, void *p, kefir_size_t n) {
    if (p == NULL)
        return a_malloc(m, n);
    int i = slot_of(p);
    if (i < 0 || W.size[i] == 0) {
        bad("realloc of an invalid pointer", 0, 0, 0);
        return NULL;
    }
    unsigned old = W.size[i];
    void *q = a_malloc(m, n);
    if (q) {
        memcpy(q, p, old < n ? old : n);
        a_free(m, p);
    }
    return q;
}
static struct kefir_mem MEM = {a_malloc, a_calloc, a_realloc, a_free, NULL};
static void arena_check(void) {
    for (int i = 0; i < nslots; i++)
        for (unsigned k = W.size[i]; k < SLOT; k++)
            if (W.slot[i][k] != (W.size[i] ? 0xab : 0xdd)) {
                bad(W.size[i] ? "write beyond an allocated block" : "write into released memory", 0, 0, 0);
                return;
            }
}
static int arena_used(void) {
    int n = 0;
    for (int i = 0; i < nslots; i++)
        n += W.size[i] != 0;
    return n;
}

/* --- removal log --- */
static long removed[64];
static int nremoved;
static void log_removed(long v) {
    if (nremoved < 64)
        removed[nremoved++] = v;
}
static int removed_is(const long *v, int n) { /* as multisets */
    if (n != nremoved)
        return 0;
    char used[64] = {0};
    for (int i = 0; i < n; i++) {
        int k = 0;
        while (k < n && (used[k] || removed[k] != v[i]))
            k++;
        if (k == n)
            return 0;
        used[k] = 1;
    }
    return 1;
}

struct sys {
    const char *name;
    void (*init)(void);
    int nops;
    int (*enabled)(int);
    void (*apply)(int);   /* performs the operation and updates the model; checks results */
    void (*observe)(void);
    void (*destroy)(void); /* frees; checks removal log */
    void (*opname)(int, char *);
    int fallible;
};

static const struct sys *S;
static int P1; /* parameter of the system */
#define CHECK(c, ...) \
    do {              \
        if (!(c))     \
            bad(__VA_ARGS__); \
    } while (0)
#define OK_OR_INJECTED(r) ((r) == KEFIR_OK || injected)

/* ===== hash tree ===== */
#define HK 8
static int hk, hv = 2;
struct hmodel {
    unsigned char val[HK]; /* 0: absent */
};
#define HM ((struct hmodel *) W.model)
#define HT ((struct kefir_hashtree *) W.fixed)
static kefir_hashtree_hash_t h_hash(kefir_hashtree_key_t k, void *d) {
    (void) d;
    switch (P1) {
        case 1: return 0;
        case 2: return k / 2;
        case 3: return k % 2;
        case 4: return ~(kefir_hashtree_hash_t) 0 - k;
        case 5: return k % 3;
    }
    return k;
}
static bool h_cmp(kefir_hashtree_key_t a, kefir_hashtree_key_t b, void *d) {
    (void) d;
    return a == b;
}
static const struct kefir_hashtree_ops h_ops = {h_hash, h_cmp, NULL};
static const char *SKEYS[HK] = {"", "a", "Aa", "BB", "AaBB", "BBAa", "b", "AaAa"};
static kefir_hashtree_key_t hkey(int k) {
    if (P1 == 6) { /* equal strings at another address */
        static char buf[HK][8];
        strcpy(buf[k], SKEYS[k]);
        return (kefir_hashtree_key_t) buf[k];
    }
    return (kefir_hashtree_key_t) k;
}
static int hkey_index(kefir_hashtree_key_t key) {
    if (P1 != 6)
        return (int) key;
    for (int i = 0; i < HK; i++)
        if (!strcmp(SKEYS[i], (const char *) key))
            return i;
    return -1;
}
static kefir_hashtree_hash_t hkey_hash(kefir_hashtree_key_t key) {
    return P1 == 6 ? kefir_hashtree_str_ops.hash(key, kefir_hashtree_str_ops.data) : P1 == 0 ? kefir_hashtree_uint_ops.hash(key, NULL) : h_hash(key, NULL);
}
static kefir_result_t h_removed(struct kefir_mem *m, struct kefir_hashtree *t, kefir_hashtree_key_t k, kefir_hashtree_value_t v, void *d) {
    CHECK(m == &MEM && t == HT && d == (void *) 0x77, "removal callback got wrong arguments", 0, 0, 0);
    log_removed((long) (hkey_index(k) * 1000 + v));
    return KEFIR_OK;
}
static void h_init(void) {
    kefir_hashtree_init(HT, P1 == 0 ? &kefir_hashtree_uint_ops : P1 == 6 ? &kefir_hashtree_str_ops : &h_ops);
    kefir_hashtree_on_removal(HT, h_removed, (void *) 0x77);
}
static void h_apply(int op) {
    long want[HK];
    int n = 0;
    if (op < hv * hk) {
        int k = op % hk, v = 1 + op / hk;
        kefir_result_t r = kefir_hashtree_insert(&MEM, HT, P1 == 6 ? (kefir_hashtree_key_t) SKEYS[k] : hkey(k), (kefir_hashtree_value_t) v);
        if (HM->val[k])
            CHECK(r == KEFIR_ALREADY_EXISTS, "insert of a present key returns %ld", r, 0, 0);
        else if (injected)
            CHECK(r != KEFIR_OK, "insert reports success although its allocation failed", 0, 0, 0);
        else {
            CHECK(r == KEFIR_OK, "insert of an absent key returns %ld", r, 0, 0);
            HM->val[k] = v;
        }
    } else if (op < (hv + 1) * hk) {
        int k = op - hv * hk;
        kefir_result_t r = kefir_hashtree_delete(&MEM, HT, hkey(k));
        if (HM->val[k]) {
            CHECK(r == KEFIR_OK, "delete of a present key returns %ld", r, 0, 0);
            want[n++] = k * 1000 + HM->val[k];
            HM->val[k] = 0;
        } else
            CHECK(r == KEFIR_NOT_FOUND, "delete of an absent key returns %ld", r, 0, 0);
    } else {
        CHECK(kefir_hashtree_clean(&MEM, HT) == KEFIR_OK, "clean fails", 0, 0, 0);
        for (int k = 0; k < hk; k++)
            if (HM->val[k]) {
                want[n++] = k * 1000 + HM->val[k];
                HM->val[k] = 0;
            }
    }
    CHECK(removed_is(want, n), "removal callback: %ld calls instead of %ld, or wrong elements", nremoved, n, 0);
}
static void h_observe(void) {
    int n = 0, seen[HK] = {0};
    for (int k = 0; k < hk; k++) {
        struct kefir_hashtree_node *node = NULL;
        kefir_result_t r = kefir_hashtree_at(HT, hkey(k), &node);
        kefir_clear_error();
        n += HM->val[k] != 0;
        CHECK(r == (HM->val[k] ? KEFIR_OK : KEFIR_NOT_FOUND), "lookup of key %ld returns %ld", k, r, 0);
        if (r == KEFIR_OK && node)
            CHECK(hkey_index(node->key) == k && node->value == HM->val[k], "lookup of key %ld finds value %ld instead of %ld", k, (long) node->value, HM->val[k]);
        CHECK(kefir_hashtree_has(HT, hkey(k)) == (HM->val[k] != 0), "has(%ld) is wrong", k, 0, 0);
    }
    CHECK(kefir_hashtree_empty(HT) == (n == 0), "empty() is wrong", 0, 0, 0);
    struct kefir_hashtree_node_iterator it;
    kefir_hashtree_hash_t last = 0;
    int c = 0;
    for (const struct kefir_hashtree_node *x = kefir_hashtree_iter(HT, &it); x != NULL; x = kefir_hashtree_next(&it)) {
        int k = hkey_index(x->key);
        if (++c > n || k < 0 || k >= hk || seen[k]++ || !HM->val[k] || x->value != HM->val[k]) {
            bad("iteration visits a wrong element or one twice (key %ld)", k, 0, 0);
            return;
        }
        kefir_hashtree_hash_t h = hkey_hash(x->key);
        CHECK(c == 1 || h >= last, "iteration is not in hash order at key %ld", k, 0, 0);
        last = h;
    }
    CHECK(c == n, "iteration visits %ld of %ld elements", c, n, 0);
}
static void h_destroy(void) {
    long want[HK];
    int n = 0;
    for (int k = 0; k < hk; k++)
        if (HM->val[k])
            want[n++] = k * 1000 + HM->val[k];
    CHECK(kefir_hashtree_free(&MEM, HT) == KEFIR_OK, "free fails", 0, 0, 0);
    CHECK(removed_is(want, n), "free: removal callback %ld calls instead of %ld, or wrong elements", nremoved, n, 0);
}
static void h_name(int op, char *b) {
    if (op < hv * hk)
        sprintf(b, "insert(%d,%d)", op % hk, 1 + op / hk);
    else if (op < (hv + 1) * hk)
        sprintf(b, "delete(%d)", op - hv * hk);
    else
        strcpy(b, "clean");
}

/* ===== list (two lists, move between them) and linked stack ===== */
static int lcap, ltotal;
struct lmodel {
    unsigned char len[2], v[2][8];
};
#define LM ((struct lmodel *) W.model)
#define L(i) ((struct kefir_list *) W.fixed + (i))
static kefir_result_t l_removed(struct kefir_mem *m, struct kefir_list *l, struct kefir_list_entry *e, void *d) {
    CHECK(m == &MEM && (l == L(0) || l == L(1)) && d == (void *) 0x55, "removal callback got wrong arguments", 0, 0, 0);
    log_removed((long) (kefir_uptr_t) e->value);
    return KEFIR_OK;
}
static void l_init(void) {
    for (int i = 0; i < 2; i++) {
        kefir_list_init(L(i));
        kefir_list_on_remove(L(i), l_removed, (void *) 0x55);
    }
}
/* ops per list: insert at position 0..lcap with value 1 or 2, pop at 0..lcap-1, clear, move to the other, push, stack pop */
static int l_per(void) {
    return 2 * (lcap + 1) + lcap + 5;
}
static struct kefir_list_entry *l_entry(int i, int pos) {
    struct kefir_list_entry *e = kefir_list_head(L(i));
    while (pos-- && e)
        e = e->next;
    return e;
}
static int l_enabled(int op) {
    int i = op / l_per(), o = op % l_per(), n = LM->len[i];
    if (o < 2 * (lcap + 1))
        return n < lcap && o / 2 <= n && n + LM->len[1 - i] < ltotal;
    o -= 2 * (lcap + 1);
    if (o < lcap)
        return o < n;
    o -= lcap;
    if (o == 1)
        return n + LM->len[1 - i] <= lcap;
    if (o == 2)
        return n < lcap && n + LM->len[1 - i] < ltotal;
    return 1;
}
static void l_ins(int i, int pos, int v) {
    for (int k = LM->len[i]; k > pos; k--)
        LM->v[i][k] = LM->v[i][k - 1];
    LM->v[i][pos] = v;
    LM->len[i]++;
}
static void l_del(int i, int pos) {
    for (int k = pos; k + 1 < LM->len[i]; k++)
        LM->v[i][k] = LM->v[i][k + 1];
    LM->len[i]--;
    LM->v[i][LM->len[i]] = 0;
}
static void l_apply(int op) {
    int i = op / l_per(), o = op % l_per(), n = LM->len[i];
    long want[8];
    int w = 0;
    if (o < 2 * (lcap + 1)) {
        int pos = o / 2, v = 1 + o % 2;
        kefir_result_t r = kefir_list_insert_after(&MEM, L(i), pos ? l_entry(i, pos - 1) : NULL, (void *) (kefir_uptr_t) v);
        CHECK(injected ? r != KEFIR_OK : r == KEFIR_OK, "insert_after returns %ld", r, 0, 0);
        if (!injected)
            l_ins(i, pos, v);
    } else if ((o -= 2 * (lcap + 1)) < lcap) {
        want[w++] = LM->v[i][o];
        CHECK(kefir_list_pop(&MEM, L(i), l_entry(i, o)) == KEFIR_OK, "pop fails", 0, 0, 0);
        l_del(i, o);
    } else if ((o -= lcap) == 0) {
        for (; LM->len[i];) {
            want[w++] = LM->v[i][0];
            l_del(i, 0);
        }
        CHECK(kefir_list_clear(&MEM, L(i)) == KEFIR_OK, "clear fails", 0, 0, 0);
    } else if (o == 1) {
        CHECK(kefir_list_move_all(L(1 - i), L(i)) == KEFIR_OK, "move_all fails", 0, 0, 0);
        while (LM->len[i]) {
            l_ins(1 - i, LM->len[1 - i], LM->v[i][0]);
            l_del(i, 0);
        }
    } else if (o == 2) {
        kefir_result_t r = kefir_linked_stack_push(&MEM, L(i), (void *) (kefir_uptr_t) 3);
        CHECK(injected ? r != KEFIR_OK : r == KEFIR_OK, "push returns %ld", r, 0, 0);
        if (!injected)
            l_ins(i, n, 3);
    } else {
        void *v = (void *) 99;
        CHECK(kefir_linked_stack_pop(&MEM, L(i), o == 3 ? &v : NULL) == KEFIR_OK, "stack pop fails", 0, 0, 0);
        if (o == 3)
            CHECK((long) (kefir_uptr_t) v == (n ? LM->v[i][n - 1] : 0), "stack pop yields %ld", (long) (kefir_uptr_t) v, 0, 0);
        if (n) {
            want[w++] = LM->v[i][n - 1];
            l_del(i, n - 1);
        }
    }
    CHECK(removed_is(want, w), "removal callback: %ld calls instead of %ld, or wrong elements", nremoved, w, 0);
}
static void l_observe(void) {
    for (int i = 0; i < 2; i++) {
        int n = LM->len[i], c = 0;
        CHECK(kefir_list_length(L(i)) == (kefir_size_t) n, "length is %ld instead of %ld", (long) kefir_list_length(L(i)), n, 0);
        const struct kefir_list_entry *it = kefir_list_head(L(i)), *prev = NULL;
        while (it != NULL) {
            const struct kefir_list_entry *cur = it;
            if (c >= n || cur->prev != prev) {
                bad("forward traversal: wrong length or back link at %ld", c, 0, 0);
                return;
            }
            long v = (long) (kefir_uptr_t) kefir_list_next(&it);
            CHECK(v == LM->v[i][c], "element %ld is %ld instead of %ld", c, v, LM->v[i][c]);
            CHECK(kefir_list_at(L(i), c) == cur, "at(%ld) is wrong", c, 0, 0);
            prev = cur;
            c++;
        }
        CHECK(c == n, "traversal visits %ld of %ld elements", c, n, 0);
        CHECK(kefir_list_tail(L(i)) == prev, "tail is wrong", 0, 0, 0);
        CHECK(kefir_list_at(L(i), n) == NULL && kefir_list_at(L(i), n + 3) == NULL, "at() beyond the end is not NULL", 0, 0, 0);
        void *v = (void *) 99;
        CHECK(kefir_linked_stack_peek(L(i), &v) == KEFIR_OK && (long) (kefir_uptr_t) v == (n ? LM->v[i][n - 1] : 0), "peek yields %ld", (long) (kefir_uptr_t) v, 0, 0);
    }
}
static void l_destroy(void) {
    long want[16];
    int n = 0;
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < LM->len[i]; k++)
            want[n++] = LM->v[i][k];
    for (int i = 0; i < 2; i++)
        CHECK(kefir_list_free(&MEM, L(i)) == KEFIR_OK, "free fails", 0, 0, 0);
    CHECK(removed_is(want, n), "free: removal callback %ld calls instead of %ld", nremoved, n, 0);
}
static void l_name(int op, char *b) {
    int i = op / l_per(), o = op % l_per();
    char c = 'A' + i;
    if (o < 2 * (lcap + 1))
        sprintf(b, "%c.insert(%d,%d)", c, o / 2, 1 + o % 2);
    else if ((o -= 2 * (lcap + 1)) < lcap)
        sprintf(b, "%c.pop(%d)", c, o);
    else
        sprintf(b, "%c.%s", c, (const char *[]){"clear", "move_all", "push", "stack_pop", "stack_pop(NULL)"}[o - lcap]);
}

/* ===== tree ===== */
static int tcap;
struct tmodel {
    unsigned char n, parent[8];
};
#define TM ((struct tmodel *) W.model)
#define TROOT ((struct kefir_tree_node *) W.fixed)
#define TNODE ((struct kefir_tree_node **) (W.fixed + 512))
static kefir_result_t t_removed(struct kefir_mem *m, void *v, void *d) {
    CHECK(m == &MEM && d == (void *) 0x33, "removal callback got wrong arguments", 0, 0, 0);
    log_removed((long) (kefir_uptr_t) v);
    return KEFIR_OK;
}
static void t_init(void) {
    kefir_tree_init(TROOT, (void *) 100);
    kefir_tree_on_removal(TROOT, t_removed, (void *) 0x33);
    TNODE[0] = TROOT;
    TM->n = 1;
}
static int t_enabled(int op) {
    return op / 2 < TM->n && TM->n < tcap;
}
static void t_apply(int op) {
    struct kefir_tree_node *sub = NULL;
    kefir_result_t r = kefir_tree_insert_child(&MEM, TNODE[op / 2], (void *) (kefir_uptr_t) (100 + TM->n), op % 2 ? NULL : &sub);
    CHECK(injected ? r != KEFIR_OK : r == KEFIR_OK, "insert_child returns %ld", r, 0, 0);
    if (injected)
        return;
    if (op % 2) {
        sub = kefir_tree_first_child(TNODE[op / 2]);
        while (sub && kefir_tree_next_sibling(sub))
            sub = kefir_tree_next_sibling(sub);
    }
    CHECK(sub != NULL, "insert_child yields no node", 0, 0, 0);
    TNODE[TM->n] = sub;
    TM->parent[TM->n++] = op / 2;
}
static void t_observe(void) {
    for (int i = 0; i < TM->n; i++) {
        if (TNODE[i] == NULL)
            return;
        CHECK((long) (kefir_uptr_t) TNODE[i]->value == 100 + i, "node %ld has value %ld", i, (long) (kefir_uptr_t) TNODE[i]->value, 0);
        struct kefir_tree_node *c = kefir_tree_first_child(TNODE[i]), *prev = NULL;
        for (int k = i + 1; k < TM->n; k++)
            if (TM->parent[k] == i) {
                CHECK(c == TNODE[k], "child %ld of node %ld is wrong", k, i, 0);
                if (c != TNODE[k])
                    return;
                CHECK(kefir_tree_prev_sibling(c) == prev, "previous sibling of node %ld is wrong", k, 0, 0);
                CHECK(c->parent == TNODE[i], "parent of node %ld is wrong", k, 0, 0);
                prev = c;
                c = kefir_tree_next_sibling(c);
            }
        CHECK(c == NULL, "node %ld has too many children", i, 0, 0);
    }
    long f = fail_at;
    fail_at = 0;
    struct kefir_tree_node_iterator it;
    int seen = 0, count = 0;
    kefir_tree_iter(TROOT, &it);
    for (; it.current != NULL && count <= TM->n; kefir_tree_iter_next(&MEM, &it), count++) {
        int k = (int) (long) (kefir_uptr_t) it.current->value - 100;
        CHECK(k >= 0 && k < TM->n && !(seen >> k & 1) && (k == 0 || seen >> TM->parent[k] & 1), "iteration visits node %ld at a wrong time", k, 0, 0);
        seen |= 1 << (k & 15);
    }
    CHECK(count == TM->n, "iteration visits %ld of %ld nodes", count, TM->n, 0);
    kefir_tree_iter_free(&MEM, &it);
    fail_at = f;
}
static void t_destroy(void) {
    long want[16];
    for (int k = 0; k < TM->n; k++)
        want[k] = 100 + k;
    CHECK(kefir_tree_free(&MEM, TROOT) == KEFIR_OK, "free fails", 0, 0, 0);
    CHECK(removed_is(want, TM->n), "free: removal callback %ld calls instead of %ld", nremoved, TM->n, 0);
}
static void t_name(int op, char *b) {
    sprintf(b, "insert_child(%d%s)", op / 2, op % 2 ? ",NULL" : "");
}

/* ===== trie ===== */
struct rmodel {
    unsigned char n, parent[8], key[8];
};
#define RM ((struct rmodel *) W.model)
#define RROOT ((struct kefir_trie *) W.fixed)
#define RNODE ((struct kefir_trie **) (W.fixed + 512))
static const kefir_trie_key_t RKEY[3] = {0, -1, 0x7fffffffffffffffLL};
static void r_init(void) {
    kefir_trie_init(RROOT, 500);
    RNODE[0] = RROOT;
    RM->n = 1;
}
static int r_enabled(int op) {
    return op / 3 < RM->n && RM->n < tcap;
}
static int r_find(int p, int key) {
    for (int k = 1; k < RM->n; k++)
        if (RM->parent[k] == p && RM->key[k] == key)
            return k;
    return 0;
}
static void r_apply(int op) {
    struct kefir_trie_vertex *v = NULL;
    int p = op / 3, key = op % 3;
    kefir_result_t r = kefir_trie_insert_vertex(&MEM, RNODE[p], RKEY[key], 500 + RM->n, &v);
    if (r_find(p, key)) {
        CHECK(r == KEFIR_ALREADY_EXISTS, "insert of a present vertex returns %ld", r, 0, 0);
        return;
    }
    CHECK(injected ? r != KEFIR_OK : r == KEFIR_OK, "insert_vertex returns %ld", r, 0, 0);
    if (injected)
        return;
    RNODE[RM->n] = v ? &v->node : NULL;
    RM->parent[RM->n] = p;
    RM->key[RM->n++] = key;
}
static void r_observe(void) {
    for (int p = 0; p < RM->n; p++) {
        if (RNODE[p] == NULL) {
            bad("insert_vertex yields no vertex", 0, 0, 0);
            return;
        }
        CHECK((long) RNODE[p]->value == 500 + p, "vertex %ld has value %ld", p, (long) RNODE[p]->value, 0);
        for (int key = 0; key < 3; key++) {
            struct kefir_trie_vertex *v = NULL;
            kefir_result_t r = kefir_trie_at(RNODE[p], RKEY[key], &v);
            kefir_clear_error();
            int k = r_find(p, key);
            CHECK(r == (k ? KEFIR_OK : KEFIR_NOT_FOUND), "trie_at returns %ld", r, 0, 0);
            if (k)
                CHECK(v != NULL && &v->node == RNODE[k] && v->key == RKEY[key], "trie_at finds the wrong vertex", 0, 0, 0);
        }
    }
}
static void r_destroy(void) {
    CHECK(kefir_trie_free(&MEM, RROOT) == KEFIR_OK, "free fails", 0, 0, 0);
}
static void r_name(int op, char *b) {
    sprintf(b, "insert_vertex(%d,key%d)", op / 3, op % 3);
}

/* ===== vector ===== */
struct vmodel {
    unsigned char len, cap, v[8];
};
#define VM ((struct vmodel *) W.model)
#define VV ((struct kefir_vector *) W.fixed)
static void v_init(void) {
    kefir_vector_alloc(&MEM, 3, P1, VV);
    VM->cap = P1;
}
/* append a/b, copy 0..2, extend 0..2, realloc 0..5 */
static int v_enabled(int op) {
    if (op >= 8)
        return op - 8 > 0; /* a capacity of zero is not meaningful to realloc */
    return 1;
}
static void v_apply(int op) {
    unsigned char src[6] = {7, 7, 7, 8, 8, 8};
    kefir_result_t r;
    if (op < 2) {
        memset(src, 1 + op, 3);
        r = kefir_vector_append(VV, src);
        CHECK(r == (VM->len < VM->cap ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "append returns %ld", r, 0, 0);
        if (VM->len < VM->cap)
            VM->v[VM->len++] = 1 + op;
    } else if (op < 5) {
        int n = op - 2, fits = VM->len + n <= VM->cap;
        r = kefir_vector_copy(VV, n ? src : NULL, n);
        CHECK(r == (fits ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "copy returns %ld", r, 0, 0);
        for (int k = 0; fits && k < n; k++)
            VM->v[VM->len++] = 7 + k;
    } else if (op < 8) {
        int n = op - 5, fits = VM->len + n <= VM->cap;
        r = kefir_vector_extend(VV, n);
        CHECK(r == (fits ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "extend returns %ld", r, 0, 0);
        for (int k = 0; fits && k < n; k++) {
            unsigned char *p = kefir_vector_at(VV, VM->len);
            CHECK(p != NULL, "at() yields NULL after extend", 0, 0, 0);
            if (p)
                memset(p, 9, 3);
            VM->v[VM->len++] = 9;
        }
    } else {
        int n = op - 8;
        r = kefir_vector_realloc(&MEM, n, VV);
        if (injected) {
            CHECK(r != KEFIR_OK, "realloc reports success although the allocation failed", 0, 0, 0);
        } else {
            CHECK(r == (n >= VM->len ? KEFIR_OK : KEFIR_OUT_OF_BOUNDS), "realloc(%ld) returns %ld", n, r, 0);
            if (n >= VM->len)
                VM->cap = n;
        }
    }
}
static void v_observe(void) {
    CHECK(kefir_vector_length(VV) == VM->len, "length is %ld instead of %ld", (long) kefir_vector_length(VV), VM->len, 0);
    CHECK(kefir_vector_available(VV) == (kefir_size_t) VM->cap - VM->len, "available is %ld instead of %ld", (long) kefir_vector_available(VV), VM->cap - VM->len, 0);
    for (int k = 0; k < VM->len; k++) {
        unsigned char *p = kefir_vector_at(VV, k);
        if (p == NULL || p[0] != VM->v[k] || p[1] != VM->v[k] || p[2] != VM->v[k]) {
            bad("element %ld is wrong", k, 0, 0);
            return;
        }
    }
    CHECK(kefir_vector_at(VV, VM->len) == NULL && kefir_vector_at(VV, (kefir_size_t) -1) == NULL, "at() beyond the end is not NULL", 0, 0, 0);
}
static void v_destroy(void) {
    CHECK(kefir_vector_free(&MEM, VV) == KEFIR_OK, "free fails", 0, 0, 0);
}
static void v_name(int op, char *b) {
    if (op < 2)
        sprintf(b, "append(%d)", 1 + op);
    else if (op < 5)
        sprintf(b, "copy(%d)", op - 2);
    else if (op < 8)
        sprintf(b, "extend(%d)", op - 5);
    else
        sprintf(b, "realloc(%d)", op - 8);
}

/* ===== block tree ===== */
#define BIDS 5
static const kefir_size_t BID[BIDS] = {0, 1, 2, 7, 1000000};
struct bmodel {
    unsigned char present[BIDS];
};
#define BM ((struct bmodel *) W.model)
#define BT ((struct kefir_block_tree *) W.fixed)
#define BPTR ((void **) (W.fixed + 512))
static int binits;
static kefir_result_t b_init_cb(struct kefir_mem *m, struct kefir_block_tree *t, kefir_size_t id, void *b, void *d) {
    CHECK(m == &MEM && t == BT && d == (void *) 0x11, "init callback got wrong arguments", 0, 0, 0);
    if (b == NULL) {
        bad("init callback got no block", 0, 0, 0);
        return KEFIR_OK;
    }
    memset(b, 0x40 + (int) (id % 16), 8);
    binits++;
    return KEFIR_OK;
}
static kefir_result_t b_rem_cb(struct kefir_mem *m, struct kefir_block_tree *t, kefir_size_t id, void *b, void *d) {
    CHECK(m == &MEM && t == BT && d == (void *) 0x22, "removal callback got wrong arguments", 0, 0, 0);
    CHECK(b != NULL && *(unsigned char *) b == 0x40 + (int) (id % 16), "removal callback got a wrong block", 0, 0, 0);
    log_removed((long) id);
    return KEFIR_OK;
}
static void b_init(void) {
    kefir_block_tree_init(BT, 8);
    kefir_block_tree_on_block_init(BT, b_init_cb, (void *) 0x11);
    kefir_block_tree_on_block_removal(BT, b_rem_cb, (void *) 0x22);
}
static void b_apply(int op) {
    void *p = (void *) 0x99;
    binits = 0;
    kefir_result_t r = kefir_block_tree_block(&MEM, BT, BID[op], &p);
    int news = !BM->present[op];
    CHECK(injected ? r != KEFIR_OK : r == KEFIR_OK, "block returns %ld", r, 0, 0);
    if (injected) {
        CHECK(binits == nremoved, "after a failure a block was initialised but not removed", 0, 0, 0);
        return;
    }
    CHECK(binits == news && nremoved == 0, "init callback called %ld times", binits, 0, 0);
    if (news)
        BPTR[op] = p;
    CHECK(p == BPTR[op], "the block moved", 0, 0, 0);
    BM->present[op] = 1;
}
static void b_observe(void) {
    int n = 0;
    for (int k = 0; k < BIDS; k++) {
        void *p = NULL;
        kefir_result_t r = kefir_block_tree_get_block(BT, BID[k], &p);
        kefir_clear_error();
        n += BM->present[k];
        CHECK(r == (BM->present[k] ? KEFIR_OK : KEFIR_NOT_FOUND), "get_block returns %ld", r, 0, 0);
        if (BM->present[k])
            CHECK(p == BPTR[k], "get_block yields a wrong block", 0, 0, 0);
        kefir_size_t b = 99, o = 99;
        CHECK(kefir_block_tree_get_block_offset(BT, BID[k] * 8 + 5, &b, &o) == KEFIR_OK && b == BID[k] && o == 5, "block offset is wrong", 0, 0, 0);
    }
    struct kefir_block_tree_iterator it;
    int k = -1, c = 0;
    for (kefir_block_tree_iter(BT, &it); it.block != NULL && c <= n; kefir_block_tree_next(&it), c++) {
        do
            k++;
        while (k < BIDS && !BM->present[k]);
        if (k >= BIDS || it.block_id != BID[k] || it.block != BPTR[k]) {
            bad("iteration visits a wrong block", 0, 0, 0);
            return;
        }
    }
    CHECK(c == n, "iteration visits %ld of %ld blocks", c, n, 0);
    for (int s = 0; s < BIDS; s++) /* skip to every position of interest from the start */
        for (int d = -1; d <= 8; d++) {
            if (s == 0 && d < 0)
                continue;
            kefir_size_t pos = BID[s] * 8 + d;
            kefir_block_tree_iter(BT, &it);
            CHECK(kefir_block_tree_iter_skip_to(BT, &it, pos) == KEFIR_OK, "skip_to fails", 0, 0, 0);
            int w = 0;
            while (w < BIDS && !(BM->present[w] && (BID[w] + 1) * 8 > pos))
                w++;
            CHECK(w == BIDS ? it.block == NULL : it.block == BPTR[w] && it.block_id == BID[w], "skip_to(%ld) stops at a wrong block", (long) pos, 0, 0);
        }
}
static void b_destroy(void) {
    long want[BIDS];
    int n = 0;
    for (int k = 0; k < BIDS; k++)
        if (BM->present[k])
            want[n++] = (long) BID[k];
    CHECK(kefir_block_tree_free(&MEM, BT) == KEFIR_OK, "free fails", 0, 0, 0);
    CHECK(removed_is(want, n), "free: removal callback %ld calls instead of %ld", nremoved, n, 0);
}
static void b_name(int op, char *b) {
    sprintf(b, "block(%ld)", (long) BID[op]);
}

/* ===== symbol table ===== */
struct ymodel {
    unsigned char id[HK], n; /* id + 1 */
};
#define YM ((struct ymodel *) W.model)
#define YT ((struct kefir_symbol_table *) W.fixed)
#define YPTR ((const char **) (W.fixed + 512))
static void y_init(void) {
    kefir_symbol_table_init(YT);
}
static void y_apply(int op) {
    char buf[16];
    kefir_id_t id = 999;
    int k = op / 2;
    strcpy(buf, SKEYS[k]);
    const char *p = kefir_symbol_table_insert(&MEM, YT, buf, op % 2 ? NULL : &id);
    CHECK((p == NULL) == (injected != 0), "insert yields %ld", (long) (p != NULL), 0, 0);
    if (injected || p == NULL)
        return;
    CHECK(p != buf && !strcmp(p, SKEYS[k]), "insert yields another string", 0, 0, 0);
    memset(buf, 'z', 15);
    CHECK(!strcmp(p, SKEYS[k]), "the table refers to the caller's string", 0, 0, 0);
    if (!YM->id[k]) {
        YM->id[k] = ++YM->n;
        YPTR[k] = p;
        if (op % 2 == 0)
            for (int j = 0; j < HK; j++)
                CHECK(j == k || !YM->id[j] || strcmp(kefir_symbol_table_get(YT, id), SKEYS[j]), "identifier reused", 0, 0, 0);
    }
    CHECK(p == YPTR[k], "insert of a present symbol yields another pointer", 0, 0, 0);
    if (op % 2 == 0)
        CHECK(kefir_symbol_table_get(YT, id) == p, "the identifier does not lead back to the symbol", 0, 0, 0);
}
static void y_observe(void) {
    int found = 0;
    for (int id = 0; id < HK + 2; id++) {
        const char *p = kefir_symbol_table_get(YT, id);
        kefir_clear_error();
        if (p == NULL)
            continue;
        int k = 0;
        while (k < HK && !(YM->id[k] && YPTR[k] == p))
            k++;
        CHECK(k < HK, "get(%ld) yields an unknown symbol", id, 0, 0);
        if (k < HK)
            CHECK(YM->id[k] == id + 1, "symbol %ld has identifier %ld", k, id, 0);
        found++;
    }
    CHECK(found == YM->n, "%ld of %ld identifiers are found", found, YM->n, 0);
}
static void y_destroy(void) {
    CHECK(kefir_symbol_table_free(&MEM, YT) == KEFIR_OK, "free fails", 0, 0, 0);
}
static void y_name(int op, char *b) {
    sprintf(b, "insert(\"%s\"%s)", SKEYS[op / 2], op % 2 ? ",NULL" : "");
}

/* ===== string buffer ===== */
struct smodel {
    unsigned char mode, n, c[16]; /* indices into SC; +16: raw */
};
#define SM ((struct smodel *) W.model)
#define SB ((struct kefir_string_buffer *) W.fixed)
#define SRC ((struct kefir_string_buffer *) (W.fixed + 256))
static int scap;
static const char32_t SC[5] = {'a', 0xe9, 0x20ac, 0x1f600, 0};
static const char *SU8[5] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", ""};
static const int SU8L[5] = {1, 2, 3, 4, 1};
static int s_units(unsigned mode, const struct smodel *m, unsigned char *out) { /* bytes, including the terminator */
    int n = 0;
    for (int i = 0; i <= m->n; i++) {
        char32_t c = i == m->n ? 0 : m->c[i] >= 16 ? 0x80 : SC[m->c[i]];
        if (mode == KEFIR_STRING_BUFFER_MULTIBYTE || mode == KEFIR_STRING_BUFFER_UNICODE8) {
            if (i == m->n || c == 0)
                out[n++] = 0;
            else if (m->c[i] >= 16)
                out[n++] = 0x80;
            else {
                memcpy(out + n, SU8[m->c[i]], SU8L[m->c[i]]);
                n += SU8L[m->c[i]];
            }
        } else if (mode == KEFIR_STRING_BUFFER_UNICODE16) {
            char16_t u[2] = {(char16_t) c, 0};
            int k = 1;
            if (c > 0xffff) {
                u[0] = 0xd800 + ((c - 0x10000) >> 10);
                u[1] = 0xdc00 + ((c - 0x10000) & 0x3ff);
                k = 2;
            }
            memcpy(out + n, u, 2 * k);
            n += 2 * k;
        } else {
            memcpy(out + n, &c, 4);
            n += 4;
        }
    }
    return n;
}
static int s_width(unsigned mode) {
    return mode == KEFIR_STRING_BUFFER_UNICODE16 ? 2 : mode == KEFIR_STRING_BUFFER_UNICODE32 || mode == KEFIR_STRING_BUFFER_WIDE ? 4 : 1;
}
static int s_prefix; /* characters already there, to reach the points where the buffer grows */
static void s_init(void) {
    SM->mode = P1;
    kefir_string_buffer_init(&MEM, SB, P1);
    for (int i = 0; i < s_prefix; i++) {
        kefir_string_buffer_insert(&MEM, SB, 'a');
        SM->c[SM->n++] = 0;
    }
}
/* ops: insert char 0..4, insert_raw 0x80, insert_raw too big, convert to mode 0..4, merge from mode 0..4 holding SC[1] SC[3] */
static int s_enabled(int op) {
    if (op < 6)
        return SM->n < scap;
    if (op >= 7 && op < 12) {
        for (int i = 0; i < SM->n; i++)
            if (SM->c[i] >= 16)
                return 0;
        return 1;
    }
    return op < 12 || SM->n + 2 <= scap;
}
static int s_basic; /* after an injected failure only release is checked */
static void s_apply(int op) {
    kefir_result_t r;
    s_basic = 0;
    if (op < 5) {
        r = kefir_string_buffer_insert(&MEM, SB, SC[op]);
        CHECK(injected ? r != KEFIR_OK : r == KEFIR_OK, "insert returns %ld", r, 0, 0);
        if (!injected)
            SM->c[SM->n++] = op;
        else
            s_basic = 1; /* a pair of surrogates may have been inserted in part */
    } else if (op == 5) {
        r = kefir_string_buffer_insert_raw(&MEM, SB, 0x80);
        CHECK(injected ? r != KEFIR_OK : r == KEFIR_OK, "insert_raw returns %ld", r, 0, 0);
        if (!injected)
            SM->c[SM->n++] = 16;
    } else if (op == 6) {
        r = kefir_string_buffer_insert_raw(&MEM, SB, (kefir_int64_t) 1 << (8 * s_width(SM->mode)));
        CHECK(r == KEFIR_OUT_OF_BOUNDS, "insert_raw beyond the element range returns %ld", r, 0, 0);
    } else if (op < 12) {
        r = kefir_string_buffer_convert(&MEM, SB, op - 7);
        if (SM->mode != KEFIR_STRING_BUFFER_MULTIBYTE)
            CHECK(r == KEFIR_INVALID_PARAMETER, "convert of a converted buffer returns %ld", r, 0, 0);
        else if (injected) {
            CHECK(r != KEFIR_OK, "convert reports success although an allocation failed", 0, 0, 0);
            s_basic = 1;
        } else {
            CHECK(r == KEFIR_OK, "convert returns %ld", r, 0, 0);
            SM->mode = op - 7;
        }
    } else {
        long f = fail_at, na = nalloc;
        fail_at = 0;
        kefir_string_buffer_init(&MEM, SRC, op - 12);
        kefir_string_buffer_insert(&MEM, SRC, SC[1]);
        kefir_string_buffer_insert(&MEM, SRC, SC[3]);
        fail_at = f;
        nalloc = na;
        r = kefir_string_buffer_merge(&MEM, SB, SRC);
        CHECK(injected ? r != KEFIR_OK : r == KEFIR_OK, "merge returns %ld", r, 0, 0);
        if (injected)
            s_basic = 1;
        else {
            SM->c[SM->n++] = 1;
            SM->c[SM->n++] = 3;
        }
        kefir_string_buffer_free(&MEM, SRC);
        memset(SRC, 0, sizeof *SRC);
    }
}
static void s_observe(void) {
    unsigned char want[256];
    if (s_basic)
        return;
    int n = s_units(SM->mode, SM, want);
    kefir_size_t len = 999;
    const void *p = kefir_string_buffer_value(SB, &len);
    CHECK(len * s_width(SM->mode) == (kefir_size_t) n, "value has %ld elements instead of %ld", (long) len, n / s_width(SM->mode), 0);
    if (len * s_width(SM->mode) == (kefir_size_t) n) {
        int i = slot_of((void *) p);
        CHECK(i >= 0 && W.size[i] >= (unsigned) n, "value is longer than its memory", 0, 0, 0);
        CHECK(p != NULL && !memcmp(p, want, n), "value is wrong", 0, 0, 0);
    }
}
static void s_destroy(void) {
    if (s_basic && SB->buffer == NULL)
        return;
    CHECK(kefir_string_buffer_free(&MEM, SB) == KEFIR_OK, "free fails", 0, 0, 0);
}
static void s_name(int op, char *b) {
    if (op < 5)
        sprintf(b, "insert(U+%x)", (unsigned) SC[op]);
    else if (op < 7)
        sprintf(b, "insert_raw(%s)", op == 5 ? "0x80" : "too big");
    else
        sprintf(b, "%s(mode %d)", op < 12 ? "convert" : "merge", op < 12 ? op - 7 : op - 12);
}

/* --- explorer --- */
struct node {
    unsigned parent;
    int op, fail;
};
static struct node *nodes;
static unsigned char *snaps;
static unsigned nnodes, cap, maxstates;
static unsigned *table;
static unsigned tsize;
static unsigned cur;
static int cur_op, cur_fail;
static char phase[20];
static unsigned long hashw(const void *p, size_t n) {
    const unsigned long *q = p;
    unsigned long h = 0x9e3779b97f4a7c15UL;
    for (size_t i = 0; i < n / 8; i++) {
        h = (h ^ q[i]) * 0xff51afd7ed558ccdUL;
        h ^= h >> 32;
    }
    return h;
}
static int intern(int op, int fail) {
    size_t n = wsize();
    unsigned long h = hashw(&W, n);
    unsigned i = (unsigned) (h & (tsize - 1));
    while (table[i]) {
        if (!memcmp(snaps + (size_t) (table[i] - 1) * n, &W, n))
            return 0;
        i = (i + 1) & (tsize - 1);
    }
    if (nnodes >= maxstates) {
        fprintf(stderr, "state limit reached\n");
        exit(3);
    }
    memcpy(snaps + (size_t) nnodes * n, &W, n);
    nodes[nnodes] = (struct node){cur, op, fail};
    table[i] = ++nnodes;
    return 1;
}
static int nviol;
static void report(const char *what) {
    char trace[2000] = "", tmp[2000], b[80];
    unsigned s = cur;
    if (cur_op >= 0) {
        S->opname(cur_op, b);
        sprintf(trace, "%s%s", b, cur_fail ? " [allocation fails]" : "");
    }
    while (s != 0) {
        S->opname(nodes[s].op, b);
        snprintf(tmp, sizeof tmp, "%s%s; %s", b, nodes[s].fail ? " [allocation fails]" : "", trace);
        memcpy(trace, tmp, sizeof trace);
        s = nodes[s].parent;
    }
    printf("VIOL\t%s/%d\t%s\t%s%s\n", S->name, P1, trace, phase, what);
    fflush(stdout);
    if (++nviol >= 3) {
        printf("END\t%s/%d\t%u\t0\n", S->name, P1, nnodes);
        exit(0);
    }
}
static void on_signal(int sig) {
    report(sig == SIGVTALRM || sig == SIGALRM ? "does not terminate" : "crashes");
    printf("END\t%s/%d\t%u\t0\n", S->name, P1, nnodes);
    fflush(stdout);
    _exit(0);
}
static void arm(int s) {
    struct itimerval t = {{0, 0}, {s, 0}};
    setitimer(ITIMER_VIRTUAL, &t, NULL);
}
static void reset_log(void) {
    nremoved = 0;
    nalloc = 0;
    injected = 0;
    fault[0] = 0;
}
static void explore(const struct sys *s, int p1, int slots, unsigned max) {
    S = s;
    P1 = p1;
    nslots = slots;
    maxstates = max;
    memset(&W, 0, sizeof W);
    memset(W.slot, 0xdd, sizeof W.slot);
    nnodes = 0;
    size_t n = wsize();
    nodes = malloc(sizeof *nodes * max);
    snaps = malloc(n * max);
    for (tsize = 1; tsize < 2 * max; tsize *= 2)
        ;
    table = calloc(tsize, sizeof *table);
    fail_at = 0;
    reset_log();
    cur = 0;
    cur_op = -1;
    s->init();
    intern(-1, 0);
    unsigned long trans = 0, faults = 0;
    for (cur = 0; cur < nnodes; cur++) {
        memcpy(&W, snaps + (size_t) cur * n, n);
        if (cur % 1024 == 0)
            arm(20);
        /* release in a copy */
        cur_op = -1;
        strcpy(phase, "release: ");
        fail_at = 0;
        reset_log();
        s->destroy();
        arena_check();
        CHECK(arena_used() == 0, "%ld blocks are not released", arena_used(), 0, 0);
        if (fault[0])
            report(fault);
        for (int op = 0; op < s->nops; op++) {
            memcpy(&W, snaps + (size_t) cur * n, n);
            if (s->enabled && !s->enabled(op))
                continue;
            for (int f = 0; f < 12; f++) {
                memcpy(&W, snaps + (size_t) cur * n, n);
                cur_op = op;
                cur_fail = f;
                reset_log();
                fail_at = f;
                phase[0] = 0;
                s_basic = 0;
                s->apply(op);
                kefir_clear_error();
                if (f && !injected)
                    break;
                trans++;
                faults += f != 0;
                arena_check();
                fail_at = 0;
                if (!fault[0])
                    s->observe();
                if (!fault[0] && f) { /* after a failure: still releasable without a leak */
                    static struct world keep;
                    memcpy(&keep, &W, n);
                    nremoved = 0;
                    s->destroy();
                    CHECK(arena_used() == 0, "%ld blocks are lost", arena_used(), 0, 0);
                    memcpy(&W, &keep, n);
                }
                kefir_clear_error();
                if (fault[0]) {
                    report(fault);
                    continue;
                }
                if (!f)
                    intern(op, f);
                if (f == 0 && !s->fallible)
                    break;
            }
        }
    }
    arm(0);
    printf("END\t%s/%d\t%u\t%lu\t%lu\n", s->name, p1, nnodes, trans, faults);
    fflush(stdout);
}

int main(int argc, char **argv) {
    static char stack[65536];
    setlocale(LC_ALL, "C.UTF-8");
    stack_t ss = {.ss_sp = stack, .ss_size = sizeof stack};
    sigaltstack(&ss, NULL);
    struct sigaction sa = {.sa_handler = on_signal, .sa_flags = SA_ONSTACK};
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL);
    sigaction(SIGVTALRM, &sa, NULL);
    const char *what = argv[1];
    int p = atoi(argv[2]), k = atoi(argv[3]);
    if (!strcmp(what, "hashtree")) {
        hk = k;
        hv = atoi(argv[4]);
        struct sys s = {"hash tree", h_init, (hv + 1) * k + 1, NULL, h_apply, h_observe, h_destroy, h_name, 1};
        explore(&s, p, k, 12000000);
    } else if (!strcmp(what, "list")) {
        lcap = k;
        ltotal = p;
        struct sys s = {"list", l_init, 2 * l_per(), l_enabled, l_apply, l_observe, l_destroy, l_name, 1};
        explore(&s, p, ltotal, 12000000);
    } else if (!strcmp(what, "tree")) {
        tcap = k;
        struct sys s = {"tree", t_init, 2 * k, t_enabled, t_apply, t_observe, t_destroy, t_name, 1};
        explore(&s, p, 24, 400000);
    } else if (!strcmp(what, "trie")) {
        tcap = k;
        struct sys s = {"trie", r_init, 3 * k, r_enabled, r_apply, r_observe, r_destroy, r_name, 1};
        explore(&s, p, 20, 400000);
    } else if (!strcmp(what, "vector")) {
        struct sys s = {"vector", v_init, 8 + k + 1, v_enabled, v_apply, v_observe, v_destroy, v_name, 1};
        explore(&s, p, 3, 1000000);
    } else if (!strcmp(what, "blocktree")) {
        struct sys s = {"block tree", b_init, BIDS, NULL, b_apply, b_observe, b_destroy, b_name, 1};
        explore(&s, p, 12, 100000);
    } else if (!strcmp(what, "symtab")) {
        struct sys s = {"symbol table", y_init, 2 * k, NULL, y_apply, y_observe, y_destroy, y_name, 1};
        explore(&s, p, 3 * k, 500000);
    } else if (!strcmp(what, "string")) {
        s_prefix = k;
        scap = k + atoi(argv[4]);
        struct sys s = {"string buffer", s_init, 17, s_enabled, s_apply, s_observe, s_destroy, s_name, 1};
        explore(&s, p, 4, 400000);
    }
    return 0;
}
