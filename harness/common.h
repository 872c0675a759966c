/* Shared pieces of the conformance drivers: tracked/faultable allocator, key=value parsing, JSON output. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <malloc.h>

/* ---- allocator interposed with -Wl,--wrap (only calls made while `in_lib` count) ---- */
extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void* __real_realloc(void*, size_t);
extern void __real_free(void*);

static int in_lib = 0;                 /* >0 while control is inside the library */
static long fa_count = 0, fa_at = -1;  /* allocation counter, index to fail (1-based; -1 never) */
static int fa_sticky = 0, fa_hit = 0;
static int fa_fill = 0xA5;
static size_t fa_limit = 0;            /* largest block that can be had (0: no limit) */
#define LIVE_CAP (1u << 17)
static void* live_tab[LIVE_CAP];
static long live_n = 0;                /* library blocks alive */
static long live_id[LIVE_CAP], blk_next = 0;
/* resource events of one call: [code, id]; 1 alloc 2 alloc-fail 3 free(0: not a library block) 4 open 5 provider ok 6 provider fail 7 close(0: not open) 8 misuse 9 return 10 released */
static int al_on = 0; static int* al_buf = NULL; static size_t al_n = 0, al_cap = 0;
static void al(int c, long id) {
	if (!al_on) return;
	if (al_n + 2 > al_cap) { al_cap = al_cap * 2 + 4096; al_buf = __real_realloc(al_buf, al_cap * sizeof(int)); }
	al_buf[al_n++] = c; al_buf[al_n++] = (int) id;
}
static unsigned live_h(void* p) { return (unsigned) ((((uintptr_t) p) >> 4) * 2654435761u) & (LIVE_CAP - 1); }
static void live_add(void* p) {
	unsigned i = live_h(p);
	while (live_tab[i] != NULL && live_tab[i] != (void*) 1) i = (i + 1) & (LIVE_CAP - 1);
	live_tab[i] = p; ++live_n; live_id[i] = ++blk_next; al(1, blk_next);
}
static int live_del(void* p) {
	unsigned i = live_h(p);
	for (unsigned c = 0; live_tab[i] != NULL && c < LIVE_CAP; i = (i + 1) & (LIVE_CAP - 1), ++c)
		if (live_tab[i] == p) { live_tab[i] = (void*) 1; --live_n; al(3, live_id[i]); return 1; }
	if (in_lib) al(3, 0);
	return 0;
}
/* what fresh memory and dead stack hold: 0..255 that byte; 256+v / 512+v / 768+v: 8- / 4- / 2-byte words of value v; 1024+seed: small pseudo-random 4-byte words */
static void fill_mem(void* p, size_t s) {
	unsigned char* c = p;
	if (fa_fill < 256) { memset(p, fa_fill, s); return; }
	if (fa_fill >= 1024) {
		uint32_t x = (uint32_t) fa_fill * 2654435761u;
		for (size_t i = 0; i + 4 <= s; i += 4) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; uint32_t w = (x >> 8) % 7u; memcpy(c + i, &w, 4); }
		if (s % 4) memset(c + s - s % 4, 1, s % 4);
		return;
	}
	size_t w = fa_fill < 512 ? 8 : fa_fill < 768 ? 4 : 2; uint64_t v = (uint64_t) (fa_fill & 255);
	for (size_t i = 0; i < s; i += w) memcpy(c + i, &v, s - i < w ? s - i : w);
}
static int fa_should_fail(size_t s) {
	++fa_count;
	if (fa_limit > 0 && s > fa_limit) { fa_hit = 1; al(2, 0); return 1; }
	if (fa_at >= 0 && (fa_count == fa_at || (fa_sticky && fa_count > fa_at))) { fa_hit = 1; al(2, 0); return 1; }
	return 0;
}
void* __wrap_malloc(size_t s) {
	if (!in_lib) return __real_malloc(s);
	if (fa_should_fail(s)) return NULL;
	void* p = __real_malloc(s);
	if (p != NULL) { fill_mem(p, s); live_add(p); }
	return p;
}
void* __wrap_calloc(size_t a, size_t b) {
	if (!in_lib) return __real_calloc(a, b);
	if (fa_should_fail(a * b)) return NULL;
	void* p = __real_calloc(a, b);
	if (p != NULL) live_add(p);
	return p;
}
void* __wrap_realloc(void* q, size_t s) {
	if (!in_lib) { int was = (q != NULL) && live_del(q); void* p = __real_realloc(q, s); if (was && p) live_add(p); return p; }
	if (fa_should_fail(s)) return NULL;
	size_t old = 0;
	if (q != NULL) { old = malloc_usable_size(q); live_del(q); }
	void* p = __real_realloc(q, s);
	if (p != NULL) { if (s > old) fill_mem((char*) p + old, s - old); live_add(p); }
	return p;
}
void __wrap_free(void* p) {
	if (p != NULL) live_del(p);
	__real_free(p);
}
static __attribute__((noinline)) void dirty_stack(void) {
	unsigned char a[16384];
	fill_mem(a, sizeof a);
	__asm__ volatile("" : : "r"(a) : "memory");
}
static int other_fill(int f) { return f < 256 ? 0xFF ^ f : f >= 1024 ? f + 1 : (f & ~255) | ((f + 1) & 255); }
static int line_fill(const char* l) { /* an arbitrary but reproducible choice per command */
	static const int t[] = { 0xA5, 0, 0xFF, 0x7F, 256, 257, 258, 513, 514, 515, 769, 1024, 1025, 1026, 1027, 1 };
	uint32_t h = 2166136261u; for (; *l && *l != '\n'; ++l) h = (h ^ (unsigned char) *l) * 16777619u;
	return t[(h >> 13) % (sizeof t / sizeof t[0])];
}
#ifdef WITH_ANN
int use_ann(void);      /* installs the search of examples/ann */
#endif
#define LIB(stmt) do { dirty_stack(); in_lib = 1; stmt; in_lib = 0; } while (0)

/* ---- key=value lines ---- */
#define MAXKV 128
static char* kv_k[MAXKV]; static char* kv_v[MAXKV]; static int kv_n;
static char* parse_line(char* line) {
	kv_n = 0;
	char* save = NULL;
	char* cmd = strtok_r(line, " \n", &save);
	for (char* t; cmd && (t = strtok_r(NULL, " \n", &save)) && kv_n < MAXKV; ) {
		char* e = strchr(t, '=');
		if (!e) continue;
		*e = 0; kv_k[kv_n] = t; kv_v[kv_n] = e + 1; ++kv_n;
	}
	return cmd;
}
static const char* S(const char* k, const char* d) { for (int i = 0; i < kv_n; ++i) if (!strcmp(kv_k[i], k)) return kv_v[i]; return d; }
static long long I(const char* k, long long d) { const char* s = S(k, NULL); return s ? strtoll(s, NULL, 10) : d; }
static unsigned long long U(const char* k, unsigned long long d) { const char* s = S(k, NULL); return s ? strtoull(s, NULL, 10) : d; }
static double F(const char* k, double d) { const char* s = S(k, NULL); return s ? strtod(s, NULL) : d; }
static size_t list_len(const char* s) { if (!s || !*s || !strcmp(s, "null") || !strcmp(s, "empty")) return 0; size_t n = 1; for (; *s; ++s) n += (*s == ','); return n; }
static long long* list_ll(const char* s, size_t* n) {
	*n = list_len(s);
	long long* a = malloc((*n + 1) * sizeof(long long));
	char* e; for (size_t i = 0; i < *n; ++i) { a[i] = strtoll(s, &e, 10); s = e + 1; }
	return a;
}
static double* list_d(const char* s, size_t* n) {
	*n = list_len(s);
	double* a = malloc((*n + 1) * sizeof(double));
	char* e; for (size_t i = 0; i < *n; ++i) { a[i] = strtod(s, &e); s = e + 1; }
	return a;
}
static uint64_t fnv(const void* p, size_t n, uint64_t h) { const unsigned char* c = p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }

/* large counts: the limits of the integer types get codes of their own */
static long long bigcode(unsigned long long v) {
	if (v <= 1000000000ULL) return (long long) v;
	if (v == 4294967295ULL) return 1000000001LL;
	if (v == 2147483647ULL) return 1000000002LL;
	if (v == 18446744073709551615ULL) return 1000000003LL;
	if (v == 18446744073709551614ULL) return 1000000004LL;
	return 1000000000LL;
}
static long long clamp(long long v) { return v > 1000000000LL ? 1000000000LL : (v < -1000000000LL ? -1000000000LL : v); }
#endif
