/* Conformance driver over the public API. One command per input line, one JSON object per output line. */
#include "scclust.h"
#include "scclust_spi.h"
#include "common.h"

/* ======================= data sets known to the harness ======================= */
typedef struct Geo {
	size_t n; int kind; /* 0 mat 1 line/l1 2 squared-euclid coordinates */
	uint32_t dims; double* x; double* m; long long* prio; double scale;
	scc_DataSet* ds;          /* built-in object, if any */
	double* data;             /* the doubles handed to the library */
	uint64_t datahash;
} Geo;
#define NGEO 8
static Geo* geos[NGEO];
static Geo* cur_geo = NULL;

static double geo_dist(const Geo* g, size_t a, size_t b) {
	if (a == b) return 0.0;
	if (g->kind == 0) { size_t i = a > b ? a : b, j = a > b ? b : a; return g->m[i * (i - 1) / 2 + j] * g->scale; }
	double s = 0;
	for (uint32_t d = 0; d < g->dims; ++d) {
		double v = g->x[a * g->dims + d] - g->x[b * g->dims + d];
		if (g->kind == 1) s += fabs(v); else s += v * v;
	}
	return (g->kind == 1 ? s : sqrt(s)) * g->scale;
}
static void geo_free(Geo* g) {
	if (!g) return;
	if (g->ds) scc_free_data_set(&g->ds);
	free(g->x); free(g->m); free(g->prio); free(g->data); free(g);
}
static Geo* geo_make(void) {
	Geo* g = calloc(1, sizeof *g);
	size_t l;
	g->n = (size_t) I("n", 0);
	const char* k = S("geo", "line");
	g->kind = !strcmp(k, "mat") ? 0 : !strcmp(k, "sq") ? 2 : 1;
	g->dims = (uint32_t) I("dims", 1);
	g->scale = F("sc", 1.0);
	if (g->kind == 0) g->m = list_d(S("m", ""), &l); else g->x = list_d(S("x", ""), &l);
	g->prio = list_ll(S("prio", ""), &l);
	if (l == 0) { free(g->prio); g->prio = malloc(sizeof(long long) * (g->n + 1)); for (size_t i = 0; i < g->n; ++i) g->prio[i] = (long long) i; }
	if (g->kind != 0) {
		g->data = malloc(sizeof(double) * (g->n * g->dims + 1));
		for (size_t i = 0; i < g->n * g->dims; ++i) g->data[i] = g->x[i] * g->scale;
		g->datahash = fnv(g->data, sizeof(double) * g->n * g->dims, 14695981039346656037ull);
	}
	return g;
}

/* ======================= harness distance provider ======================= */
enum { SL_CHECK, SL_NUM, SL_MATRIX, SL_ROWS, SL_IMAX, SL_GMAX, SL_CMAX, SL_INN, SL_SNN, SL_CNN, SL_COUNT };
static const char* slot_name[SL_COUNT] = {"check","num","matrix","rows","imax","gmax","cmax","inn","snn","cnn"};
struct iscc_MaxDistObject { int magic; long id; Geo* g; size_t len; const scc_PointIndex* idx; scc_PointIndex* copy; };
struct iscc_NNSearchObject { int magic; long id; Geo* g; size_t len; const scc_PointIndex* idx; scc_PointIndex* copy; };
#define MG_OPEN 0x5CC1
static long cb_count = 0, cb_fail_at = -1; static int cb_hit = 0; static int cb_close_counts = 0;
static long obj_next = 0; static long obj_open = 0;
static int log_on = 0; static char* log_buf = NULL; static size_t log_len = 0, log_cap = 0;
static long used[SL_COUNT][3]; /* slot x tag(1,2) */
static void lg(const char* s) {
	size_t l = strlen(s);
	if (log_len + l + 2 > log_cap) { log_cap = (log_len + l + 2) * 2 + 1024; log_buf = realloc(log_buf, log_cap); }
	memcpy(log_buf + log_len, s, l + 1); log_len += l;
}
static Geo* geo_of(void* d) { for (int i = 0; i < NGEO; ++i) if (geos[i] && (geos[i] == d || (geos[i]->ds != NULL && (void*) geos[i]->ds == d))) return geos[i]; return NULL; }
/* 0: null pointer means identity 0..len-1 ; returns 1 if in range */
static void rng(const scc_PointIndex* a, size_t len, long long* lo, long long* hi, int* asc) {
	*lo = 0; *hi = (long long) len - 1; *asc = 1;
	if (a) { *lo = 1LL << 40; *hi = -(1LL << 40);
		for (size_t i = 0; i < len; ++i) { long long v = (long long) a[i]; if (v < *lo) *lo = v; if (v > *hi) *hi = v; if (i && !((long long) a[i-1] < v)) *asc = 0; } }
}
static int in_range(const Geo* g, const scc_PointIndex* a, size_t len) { long long lo, hi; int asc; if (len == 0) return 1; rng(a, len, &lo, &hi, &asc); return lo >= 0 && hi < (long long) g->n; }
static void ev(int slot, long id, int known, const Geo* g, size_t sl, const scc_PointIndex* s, size_t ql, const scc_PointIndex* q, long long k, int rad, double r, int outq, int chg, int ok) {
	if (!log_on) return;
	long long slo, shi, qlo, qhi; int sa, qa;
	rng(s, sl, &slo, &shi, &sa); rng(q, ql, &qlo, &qhi, &qa);
	char b[512];
	snprintf(b, sizeof b, "%s{\"e\":\"%s\",\"o\":%ld,\"known\":%d,\"n\":%lld,\"sl\":%lld,\"slo\":%lld,\"shi\":%lld,\"ql\":%lld,\"qlo\":%lld,\"qhi\":%lld,\"k\":%lld,\"rad\":%d,\"rpos\":%d,\"outq\":%d,\"chg\":%d,\"ok\":%d}",
	         log_len ? "," : "", slot_name[slot], id, known, g ? (long long) g->n : -1LL, clamp((long long) sl), clamp(slo), clamp(shi), clamp((long long) ql), clamp(qlo), clamp(qhi), clamp(k), rad, r > 0.0, outq, chg, ok);
	lg(b);
}
static int cb_fail(void) { ++cb_count; if (cb_fail_at >= 0 && cb_count == cb_fail_at) { cb_hit = 1; return 1; } return 0; }
#define OUT int sv = in_lib; in_lib = 0
static volatile long touch_sink;
/* read the whole extent of an output buffer, so that a short buffer is caught by the sanitizer */
static void touch(const void* p, size_t bytes) { const volatile unsigned char* c = p; long s = 0; if (p) for (size_t i = 0; i < bytes; ++i) s += c[i]; touch_sink += s; }
#define BACK(x) do { bool r_ = (x); in_lib = sv; return r_; } while (0)

static bool h_check(void* d) { OUT; BACK(geo_of(d) != NULL); }
static size_t h_num(void* d) { int sv = in_lib; in_lib = 0; Geo* g = geo_of(d); size_t r = g ? g->n : 0; in_lib = sv; return r; }
static bool h_matrix(void* d, size_t len, const scc_PointIndex* idx, double* out) {
	OUT; Geo* g = geo_of(d); int f = cb_fail();
	int ok = g && in_range(g, idx, len);
	ev(SL_MATRIX, 0, g != NULL, g, len, idx, 0, NULL, 0, 0, 0, 0, 0, !f); al(!ok ? 8 : f ? 6 : 5, 0);
	if (ok && len > 1) touch(out, sizeof(double) * (len * (len - 1) / 2));
	if (f || !ok) BACK(false);
	for (size_t a = 0; a < len; ++a) for (size_t b = a + 1; b < len; ++b) *out++ = geo_dist(g, idx ? (size_t) idx[a] : a, idx ? (size_t) idx[b] : b);
	BACK(true);
}
static bool h_rows(void* d, size_t ql, const scc_PointIndex* q, size_t cl, const scc_PointIndex* c, double* out) {
	OUT; Geo* g = geo_of(d); int f = cb_fail();
	int ok = g && in_range(g, q, ql) && in_range(g, c, cl);
	ev(SL_ROWS, 0, g != NULL, g, cl, c, ql, q, 0, 0, 0, 0, 0, !f); al(!ok ? 8 : f ? 6 : 5, 0);
	if (ok) touch(out, sizeof(double) * ql * cl);
	if (f || !ok) BACK(false);
	for (size_t a = 0; a < ql; ++a) for (size_t b = 0; b < cl; ++b) *out++ = geo_dist(g, q ? (size_t) q[a] : a, c ? (size_t) c[b] : b);
	BACK(true);
}
static scc_PointIndex* cpy(const scc_PointIndex* idx, size_t len) { if (!idx) return NULL; scc_PointIndex* p = malloc(sizeof(scc_PointIndex) * (len + 1)); memcpy(p, idx, sizeof(scc_PointIndex) * len); return p; }
static bool h_imax(void* d, size_t len, const scc_PointIndex* idx, iscc_MaxDistObject** out) {
	OUT; Geo* g = geo_of(d); int f = cb_fail();
	if (f || !g || !in_range(g, idx, len)) { al(f ? 6 : 8, 0); ev(SL_IMAX, 0, g != NULL, g, len, idx, 0, NULL, 0, 0, 0, 0, 0, 0); BACK(false); }
	iscc_MaxDistObject* o = malloc(sizeof *o);
	*o = (iscc_MaxDistObject) { MG_OPEN, ++obj_next, g, len, idx, cpy(idx, len) };
	++obj_open; *out = o;
	al(4, o->id);
	ev(SL_IMAX, o->id, 1, g, len, idx, 0, NULL, 0, 0, 0, 0, 0, 1);
	BACK(true);
}
static bool h_gmax(iscc_MaxDistObject* o, size_t ql, const scc_PointIndex* q, scc_PointIndex* oi, double* od) {
	OUT; int f = cb_fail();
	int known = o != NULL && o->magic == MG_OPEN;
	if (!known) { al(8, 0); ev(SL_GMAX, 0, 0, NULL, 0, NULL, ql, NULL, 0, 0, 0, 0, 0, 0); BACK(false); }
	Geo* g = o->g;
	int chg = o->idx && memcmp(o->idx, o->copy, o->len * sizeof(scc_PointIndex)) != 0;
	int ok = in_range(g, q, ql);
	ev(SL_GMAX, o->id, 1, g, o->len, o->copy, ql, q, 0, 0, 0, 0, chg, !f); al(!ok ? 8 : f ? 6 : 5, o->id);
	if (ok) { touch(oi, sizeof *oi * ql); touch(od, sizeof *od * ql); }
	if (f || !ok) BACK(false);
	for (size_t a = 0; a < ql; ++a) {
		size_t qa = q ? (size_t) q[a] : a; double best = -1; size_t bi = 0; long long bp = 0;
		for (size_t s = 0; s < o->len; ++s) { size_t p = o->copy ? (size_t) o->copy[s] : s; double dd = geo_dist(g, qa, p);
			if (dd > best || (dd == best && g->prio[p] < bp)) { best = dd; bi = p; bp = g->prio[p]; } }
		oi[a] = (scc_PointIndex) bi; od[a] = best;
	}
	BACK(true);
}
static bool h_cmax(iscc_MaxDistObject** po) {
	OUT; iscc_MaxDistObject* o = po ? *po : NULL;
	int known = o != NULL && o->magic == MG_OPEN;
	al(7, known ? o->id : 0);
	if (!known) { ev(SL_CMAX, 0, 0, NULL, 0, NULL, 0, NULL, 0, 0, 0, 0, 0, 1); BACK(true); }
	ev(SL_CMAX, o->id, 1, o->g, o->len, o->copy, 0, NULL, 0, 0, 0, 0, 0, 1);
	o->magic = 0; --obj_open; free(o->copy); free(o); *po = NULL;
	BACK(true);
}
static bool h_inn(void* d, size_t len, const scc_PointIndex* idx, iscc_NNSearchObject** out) {
	OUT; Geo* g = geo_of(d); int f = cb_fail();
	if (f || !g || !in_range(g, idx, len)) { al(f ? 6 : 8, 0); ev(SL_INN, 0, g != NULL, g, len, idx, 0, NULL, 0, 0, 0, 0, 0, 0); BACK(false); }
	iscc_NNSearchObject* o = malloc(sizeof *o);
	*o = (iscc_NNSearchObject) { MG_OPEN, ++obj_next, g, len, idx, cpy(idx, len) };
	++obj_open; *out = o;
	al(4, o->id);
	ev(SL_INN, o->id, 1, g, len, idx, 0, NULL, 0, 0, 0, 0, 0, 1);
	BACK(true);
}
typedef struct { double d; long long p; size_t i; } Cand;
static int cand_lt(const Cand* a, const Cand* b) { return a->d < b->d || (a->d == b->d && a->p < b->p); }
static bool h_snn(iscc_NNSearchObject* o, size_t ql, const scc_PointIndex* q, uint32_t k, bool rad, double r, size_t* nok, scc_PointIndex* oq, scc_PointIndex* onn) {
	OUT; int f = cb_fail();
	int known = o != NULL && o->magic == MG_OPEN;
	if (!known) { al(8, 0); ev(SL_SNN, 0, 0, NULL, 0, NULL, ql, NULL, k, rad, r, oq != NULL, 0, 0); BACK(false); }
	Geo* g = o->g;
	int chg = o->idx && memcmp(o->idx, o->copy, o->len * sizeof(scc_PointIndex)) != 0;
	int ok = in_range(g, q, ql) && k >= 1 && k <= o->len && (!rad || (r > 0.0 && oq != NULL));
	ev(SL_SNN, o->id, 1, g, o->len, o->copy, ql, q, k, rad, r, oq != NULL, chg, !f); al(!ok ? 8 : f ? 6 : 5, o->id);
	if (ok) { touch(onn, sizeof *onn * ql * k); if (oq) touch(oq, sizeof *oq * ql); }
	if (f || !ok) BACK(false);
	Cand* best = malloc(sizeof(Cand) * (k + 1));
	size_t w = 0;
	for (size_t a = 0; a < ql; ++a) {
		size_t qa = q ? (size_t) q[a] : a; size_t cnt = 0;
		for (size_t s = 0; s < o->len; ++s) {
			size_t p = o->copy ? (size_t) o->copy[s] : s;
			Cand c = { geo_dist(g, qa, p), g->prio[p], p };
			if (rad && c.d > r) continue;
			if (cnt == k && !cand_lt(&c, &best[k - 1])) continue;
			size_t j = cnt < k ? cnt : k - 1;
			for (; j > 0 && cand_lt(&c, &best[j - 1]); --j) best[j] = best[j - 1];
			best[j] = c; if (cnt < k) ++cnt;
		}
		if (cnt == k) {
			for (uint32_t j = 0; j < k; ++j) onn[w * k + j] = (scc_PointIndex) best[j].i;
			if (oq) oq[w] = (scc_PointIndex) qa;
			++w;
		}
	}
	free(best);
	*nok = w;
	BACK(true);
}
static bool h_cnn(iscc_NNSearchObject** po) {
	OUT; iscc_NNSearchObject* o = po ? *po : NULL;
	int known = o != NULL && o->magic == MG_OPEN;
	al(7, known ? o->id : 0);
	if (!known) { ev(SL_CNN, 0, 0, NULL, 0, NULL, 0, NULL, 0, 0, 0, 0, 0, 1); BACK(true); }
	ev(SL_CNN, o->id, 1, o->g, o->len, o->copy, 0, NULL, 0, 0, 0, 0, 0, 1);
	o->magic = 0; --obj_open; free(o->copy); free(o); *po = NULL;
	BACK(true);
}
/* two tagged families, for the registration checks */
#define TAG(T) \
static bool t##T##_check(void* d) { ++used[SL_CHECK][T]; return h_check(d); } \
static size_t t##T##_num(void* d) { ++used[SL_NUM][T]; return h_num(d); } \
static bool t##T##_matrix(void* d, size_t a, const scc_PointIndex* b, double* c) { ++used[SL_MATRIX][T]; return h_matrix(d, a, b, c); } \
static bool t##T##_rows(void* d, size_t a, const scc_PointIndex* b, size_t e, const scc_PointIndex* f, double* c) { ++used[SL_ROWS][T]; return h_rows(d, a, b, e, f, c); } \
static bool t##T##_imax(void* d, size_t a, const scc_PointIndex* b, iscc_MaxDistObject** o) { ++used[SL_IMAX][T]; return h_imax(d, a, b, o); } \
static bool t##T##_gmax(iscc_MaxDistObject* o, size_t a, const scc_PointIndex* b, scc_PointIndex* c, double* e) { ++used[SL_GMAX][T]; return h_gmax(o, a, b, c, e); } \
static bool t##T##_cmax(iscc_MaxDistObject** o) { ++used[SL_CMAX][T]; return h_cmax(o); } \
static bool t##T##_inn(void* d, size_t a, const scc_PointIndex* b, iscc_NNSearchObject** o) { ++used[SL_INN][T]; return h_inn(d, a, b, o); } \
static bool t##T##_snn(iscc_NNSearchObject* o, size_t a, const scc_PointIndex* b, uint32_t k, bool r, double rr, size_t* x, scc_PointIndex* y, scc_PointIndex* z) { ++used[SL_SNN][T]; return h_snn(o, a, b, k, r, rr, x, y, z); } \
static bool t##T##_cnn(iscc_NNSearchObject** o) { ++used[SL_CNN][T]; return h_cnn(o); }
TAG(1)
TAG(2)
static void install_spi(void) { LIB(scc_set_dist_functions(h_check, h_num, h_matrix, h_rows, h_imax, h_gmax, h_cmax, h_inn, h_snn, h_cnn)); }
static void install_imp(void) { LIB(scc_reset_dist_functions()); }

/* ======================= options ======================= */
static scc_ClusterOptions opt; static uint32_t* o_tc; static scc_TypeLabel* o_tl; static scc_PointIndex* o_pp;
static size_t o_ntc, o_ntl, o_npp;
static int opts_null;
static uint64_t opts_hash(void) {
	uint64_t h = 14695981039346656037ull;
	h = fnv(&opt.options_version, sizeof opt.options_version, h); h = fnv(&opt.size_constraint, 4, h); h = fnv(&opt.num_types, 4, h);
	h = fnv(&opt.type_constraints, sizeof(void*), h); h = fnv(&opt.len_type_labels, sizeof(size_t), h); h = fnv(&opt.type_labels, sizeof(void*), h);
	h = fnv(&opt.seed_method, sizeof opt.seed_method, h); h = fnv(&opt.len_primary_data_points, sizeof(size_t), h); h = fnv(&opt.primary_data_points, sizeof(void*), h);
	h = fnv(&opt.primary_unassigned_method, sizeof(opt.primary_unassigned_method), h); h = fnv(&opt.secondary_unassigned_method, sizeof(opt.secondary_unassigned_method), h);
	h = fnv(&opt.seed_radius, sizeof opt.seed_radius, h); h = fnv(&opt.seed_supplied_radius, sizeof(double), h);
	h = fnv(&opt.primary_radius, sizeof opt.primary_radius, h); h = fnv(&opt.primary_supplied_radius, sizeof(double), h);
	h = fnv(&opt.secondary_radius, sizeof opt.secondary_radius, h); h = fnv(&opt.secondary_supplied_radius, sizeof(double), h); h = fnv(&opt.batch_size, 4, h);
	if (o_tc) h = fnv(o_tc, sizeof(uint32_t) * o_ntc, h);
	if (o_tl) h = fnv(o_tl, sizeof(scc_TypeLabel) * o_ntl, h);
	if (o_pp) h = fnv(o_pp, sizeof(scc_PointIndex) * o_npp, h);
	return h;
}
static void opts_free(void) { free(o_tc); free(o_tl); free(o_pp); o_tc = NULL; o_tl = NULL; o_pp = NULL; o_ntc = o_ntl = o_npp = 0; }
static void opts_parse(void) {
	opts_free();
	opts_null = (int) I("optnull", 0);
	LIB(opt = scc_get_default_options());
	if (S("ver", NULL)) opt.options_version = (int32_t) I("ver", 0);
	opt.size_constraint = (uint32_t) U("size", 2);
	if (I("defo", 0)) return; /* default options with only the size constraint set */
	opt.num_types = (uint32_t) U("nt", 0);
	const char* s = S("tc", "null"); size_t l; long long* a;
	if (strcmp(s, "null")) { a = list_ll(s, &l); o_ntc = l; o_tc = malloc(sizeof(uint32_t) * (l ? l : 1)); for (size_t i = 0; i < l; ++i) o_tc[i] = (uint32_t) a[i]; free(a); }
	s = S("tl", "null");
	if (strcmp(s, "null")) { a = list_ll(s, &l); o_ntl = l; o_tl = malloc(sizeof(scc_TypeLabel) * (l ? l : 1)); for (size_t i = 0; i < l; ++i) o_tl[i] = (scc_TypeLabel) a[i]; free(a); }
	s = S("pp", "null");
	if (strcmp(s, "null")) { a = list_ll(s, &l); o_npp = l; o_pp = malloc(sizeof(scc_PointIndex) * (l ? l : 1)); for (size_t i = 0; i < l; ++i) o_pp[i] = (scc_PointIndex) a[i]; free(a); }
	opt.type_constraints = o_tc; opt.type_labels = o_tl; opt.primary_data_points = o_pp;
	opt.len_type_labels = (size_t) U("ltl", o_ntl);
	opt.len_primary_data_points = (size_t) U("lpp", o_npp);
	opt.seed_method = (scc_SeedMethod) I("sm", 0);
	opt.primary_unassigned_method = (scc_UnassignedMethod) I("pum", 0);
	opt.secondary_unassigned_method = (scc_UnassignedMethod) I("sum", 0);
	opt.seed_radius = (scc_RadiusMethod) I("sr", 0); opt.seed_supplied_radius = F("srv", 0.0);
	opt.primary_radius = (scc_RadiusMethod) I("pr", 2); opt.primary_supplied_radius = F("prv", 0.0);
	opt.secondary_radius = (scc_RadiusMethod) I("secr", 2); opt.secondary_supplied_radius = F("secrv", 0.0);
	opt.batch_size = (uint32_t) U("batch", 0);
}

/* ======================= projection of clusterings ======================= */
static long long lab_ll(scc_Clabel c) { return c == SCC_CLABEL_NA ? -1 : (sizeof(c) == 8 && (uint64_t) c > 1000000000ull ? 1000000000LL : ((long long) c > 1000000000LL ? 1000000000LL : ((long long) c < -1000000000LL ? -1000000000LL : ((long long) c == -1 ? -2 : (long long) c)))); }
static scc_Clabel ll_lab(long long v) { return v == -1 ? SCC_CLABEL_NA : (scc_Clabel) (v <= -2 ? v + 1 : v); } /* -2 encodes the raw value -1 when that is not NA */
static void print_labels(const scc_Clabel* l, size_t n) { putchar('['); for (size_t i = 0; i < n; ++i) printf(i ? ",%lld" : "%lld", lab_ll(l[i])); putchar(']'); }
/* projected state through the public interface: {"init":0/1,"n":..,"k":..,"lab":[...]} */
static void print_cl(const scc_Clustering* cl) {
	bool ini; uint64_t n = 0, k = 0; scc_ErrorCode ec = SCC_ER_OK;
	LIB(ini = scc_is_initialized_clustering(cl));
	if (!ini) { printf("{\"init\":0,\"n\":0,\"k\":0,\"lab\":[]}"); return; }
	LIB(ec = scc_get_clustering_info(cl, &n, &k));
	printf("{\"init\":1,\"n\":%lld,\"k\":%lld,\"lab\":", bigcode(n), bigcode(k));
	if (ec == SCC_ER_OK && k > 0 && n < 1000000) {
		scc_Clabel* b = malloc(sizeof(scc_Clabel) * (size_t) n);
		LIB(ec = scc_get_cluster_labels(cl, (size_t) n, b));
		if (ec == SCC_ER_OK) print_labels(b, (size_t) n); else printf("[]");
		free(b);
	} else printf("[]");
	putchar('}');
}

/* ======================= one operation on fresh objects ======================= */
typedef struct { scc_Clustering* cl; scc_Clabel* buf; size_t n; } Obj;
static const char* cur_cmd;
static Obj obj_make(Geo* g) {
	Obj o = { NULL, NULL, g->n };
	size_t l; const char* in = S("in", NULL);
	if (in != NULL) {
		long long* a = list_ll(in, &l);
		o.buf = malloc(sizeof(scc_Clabel) * (l + 1));
		for (size_t i = 0; i < l; ++i) o.buf[i] = ll_lab(a[i]);
		free(a);
		LIB(scc_init_existing_clustering(g->n, U("k0", 1), o.buf, I("deep", 1) != 0, &o.cl));
	} else {
		if (I("ext", 0)) { o.buf = malloc(sizeof(scc_Clabel) * (g->n + 1)); for (size_t i = 0; i < g->n; ++i) o.buf[i] = (scc_Clabel) 77; }
		LIB(scc_init_empty_clustering(g->n, o.buf, &o.cl));
	}
	return o;
}
static void obj_free(Obj* o) { LIB(scc_free_clustering(&o->cl)); free(o->buf); o->buf = NULL; }
static bool chk_ok; static scc_ClusteringStats stats_out;
static scc_Clustering* mk_cl = NULL; static scc_DataSet* mk_ds = NULL; /* what copy/mkempty/mkexist/mkds produced */
static void mk_free(void) { if (mk_cl != (scc_Clustering*) 1) { LIB(scc_free_clustering(&mk_cl)); } mk_cl = NULL; if (mk_ds != (scc_DataSet*) 1) { LIB(scc_free_data_set(&mk_ds)); } mk_ds = NULL; }
static scc_ErrorCode do_op(Geo* g, Obj* o, int be) {
	void* d = be ? (void*) g : (void*) g->ds;
	scc_ErrorCode ec = SCC_ER_OK;
	if (!strcmp(cur_cmd, "nng")) { LIB(ec = scc_sc_clustering(d, &opt, o->cl)); }
	else if (!strcmp(cur_cmd, "hier")) { LIB(ec = scc_hierarchical_clustering(d, (uint32_t) U("size", 2), I("ba", 0) != 0, o->cl)); }
	else if (!strcmp(cur_cmd, "check")) { chk_ok = true; LIB(ec = scc_check_clustering(o->cl, &opt, &chk_ok)); }
	else if (!strcmp(cur_cmd, "stats")) { LIB(ec = scc_get_clustering_stats(d, o->cl, &stats_out)); }
	else if (!strcmp(cur_cmd, "copy")) { mk_cl = (scc_Clustering*) 1; LIB(ec = scc_copy_clustering(o->cl, &mk_cl)); }
	else if (!strcmp(cur_cmd, "mkempty")) { mk_cl = (scc_Clustering*) 1; LIB(ec = scc_init_empty_clustering(g->n, NULL, &mk_cl)); }
	else if (!strcmp(cur_cmd, "mkexist")) { mk_cl = (scc_Clustering*) 1; LIB(ec = scc_init_existing_clustering(g->n, U("k0", 1), o->buf, true, &mk_cl)); }
	else if (!strcmp(cur_cmd, "mkds")) { mk_ds = (scc_DataSet*) 1; LIB(ec = scc_init_data_set(g->n, g->dims, g->n * g->dims, g->data, &mk_ds)); }
	return ec;
}
static void print_extra(void) {
	if (!strcmp(cur_cmd, "copy") || !strcmp(cur_cmd, "mkempty") || !strcmp(cur_cmd, "mkexist")) { printf(",\"made\":"); if (mk_cl == (scc_Clustering*) 1) printf("{\"init\":-1}"); else print_cl(mk_cl); }
	if (!strcmp(cur_cmd, "mkds")) { bool r = false; if (mk_ds != (scc_DataSet*) 1) { LIB(r = scc_is_initialized_data_set(mk_ds)); } printf(",\"made\":{\"init\":%d}", mk_ds == (scc_DataSet*) 1 ? -1 : r); }
	mk_free();
	if (!strcmp(cur_cmd, "check")) printf(",\"ok\":%d", chk_ok ? 1 : 0);
	if (!strcmp(cur_cmd, "stats")) {
		const scc_ClusteringStats* s = &stats_out;
		printf(",\"st\":{\"n\":%llu,\"as\":%llu,\"k\":%llu,\"pop\":%llu,\"min\":%.0f,\"max\":%llu,\"avg\":%.17g,\"sum\":%.17g,\"mind\":%.17g,\"maxd\":%.17g,\"amin\":%.17g,\"amax\":%.17g,\"aw\":%.17g,\"au\":%.17g}",
		       (unsigned long long) s->num_data_points, (unsigned long long) s->num_assigned, (unsigned long long) s->num_clusters, (unsigned long long) s->num_populated_clusters,
		       (double) s->min_cluster_size, (unsigned long long) s->max_cluster_size, s->avg_cluster_size, s->sum_dists, s->min_dist, s->max_dist, s->avg_min_dist, s->avg_max_dist, s->avg_dist_weighted, s->avg_dist_unweighted);
	}
}
static void cmd_op(void) {
	int be = !strcmp(S("be", "imp"), "spi");
	fa_fill = (int) I("fill", fa_fill);
	Geo* g = geo_make();
	geos[0] = g; cur_geo = g;
	install_imp();
	if (be) install_spi();
	else if (g->data) { scc_ErrorCode e; LIB(e = scc_init_data_set(g->n, g->dims, g->n * g->dims, g->data, &g->ds)); (void) e; }
#ifdef WITH_ANN
	if (!be) LIB(use_ann());
#endif
	opts_parse();
	uint64_t oh = opts_hash();
	const char* fk = S("fk", NULL); /* fault kind: alloc | allocs | cb ; enumerated from fi0 */
	printf("{\"id\":\"%s\"", S("id", ""));
	Obj o = obj_make(g);
	printf(",\"before\":"); print_cl(o.cl);
	int bufro = o.buf != NULL && S("in", NULL) != NULL && (I("deep", 1) != 0 || !strcmp(cur_cmd, "check") || !strcmp(cur_cmd, "stats") || !strcmp(cur_cmd, "copy"));
	uint64_t bh = bufro ? fnv(o.buf, sizeof(scc_Clabel) * o.n, 14695981039346656037ull) : 0;
	log_on = (int) I("log", 0); log_len = 0;
	long live0 = live_n; fa_count = 0; cb_count = 0; fa_at = -1; cb_fail_at = (long) I("cbf", -1); obj_open = 0;
	scc_ErrorCode ec = do_op(g, &o, be);
	cb_fail_at = -1;
	log_on = 0;
	long na = fa_count, nc = cb_count;
	long own = live_n - live0; /* blocks kept after the call */
	printf(",\"ec\":%d,\"na\":%ld,\"nc\":%ld,\"open\":%ld,\"after\":", (int) ec, na, nc, obj_open); print_cl(o.cl); print_extra();
	if (o.buf && I("showbuf", 0)) { printf(",\"buf\":"); print_labels(o.buf, o.n); }
	printf(",\"bufsame\":%d", !bufro || bh == fnv(o.buf, sizeof(scc_Clabel) * o.n, 14695981039346656037ull));
	printf(",\"optsame\":%d,\"datasame\":%d", opts_hash() == oh, g->data == NULL || g->datahash == fnv(g->data, sizeof(double) * g->n * g->dims, 14695981039346656037ull));
	if (S("log", NULL) && I("log", 0)) printf(",\"log\":[%s]", log_len ? log_buf : "");
	(void) own;
	obj_free(&o);
	printf(",\"leak\":%ld", live_n - (live0 - 0 > 0 ? 0 : 0) - (g->ds ? 1 : 0));
	if (I("rep", 0)) { /* repeat on a fresh object with other memory contents */
		int keep = fa_fill; fa_fill = other_fill(fa_fill);
		Obj o2 = obj_make(g); ec = do_op(g, &o2, be);
		printf(",\"rep\":{\"ec\":%d,\"after\":", (int) ec); print_cl(o2.cl); print_extra(); printf("}");
		obj_free(&o2); fa_fill = keep;
	}
	if (fk) {
		int iscb = !strcmp(fk, "cb"); fa_sticky = !strcmp(fk, "allocs");
		long total = iscb ? nc : na, step = (long) I("fstep", 1);
		printf(",\"faults\":[");
		int first = 1;
		for (long i = (long) I("fi0", 1); i <= total; i += step) {
			fprintf(stderr, "#F %ld\n", i);
			al_n = 0; al_on = (int) I("flog", 0);
			Obj of = obj_make(g);
			long l0 = live_n; fa_count = 0; cb_count = 0; fa_hit = cb_hit = 0; obj_open = 0;
			if (iscb) cb_fail_at = i; else fa_at = i;
			scc_ErrorCode e1 = do_op(g, &of, be);
			al(9, (long) e1);
			fa_at = -1; cb_fail_at = -1;
			int hit = fa_hit || cb_hit;
			long kept = live_n - l0, op = obj_open;
			printf("%s{\"i\":%ld,\"hit\":%d,\"ec\":%d,\"open\":%ld,\"kept\":%ld,\"after\":", first ? "" : ",", i, hit, (int) e1, op, kept); first = 0;
			print_cl(of.cl); print_extra();
			if (e1 != SCC_ER_OK) {
				obj_open = 0;
				scc_ErrorCode e2 = do_op(g, &of, be);
				al(9, (long) e2);
				printf(",\"ec2\":%d,\"after2\":", (int) e2); print_cl(of.cl); printf(",\"x2\":{\"z\":0"); print_extra(); printf("}");
			}
			obj_free(&of);
			al(10, 0); al_on = 0;
			if (I("flog", 0)) { printf(",\"ev\":["); for (size_t q = 0; q < al_n; q += 2) printf("%s[%d,%d]", q ? "," : "", al_buf[q], al_buf[q + 1]); printf("]"); }
			printf(",\"leak\":%ld}", live_n - (g->ds ? 1 : 0));
			if (live_n != (g->ds ? 1 : 0)) { memset(live_tab, 0, sizeof live_tab); live_n = 0; if (g->ds) live_add(g->ds); }
		}
		printf("]");
		fa_sticky = 0;
	}
	printf("}\n");
	opts_free();
	geos[0] = NULL; geo_free(g);
	memset(live_tab, 0, sizeof live_tab); live_n = 0;
	install_imp();
}

/* ======================= sessions: several objects, shared buffers, any call order ======================= */
#define NS 4
static scc_Clustering* sc_cl[NS]; static scc_DataSet* sc_ds[NS]; static scc_Clabel* sc_buf[NS]; static size_t sc_bufn[NS];
static double* sc_data[NS];
/* z=1: where the call would get no object (NULL) it gets a zero-filled one instead, which is not an initialised object */
static long long zeroed[64];
#define CLP(p) ((p) == NULL && I("z", 0) ? (scc_Clustering*) zeroed : (p))
#define DSP(p) ((p) == NULL && I("z", 0) ? (scc_DataSet*) zeroed : (p))
static void sess_state(void) {
	printf(",\"cl\":["); for (int i = 0; i < NS; ++i) { if (i) putchar(','); print_cl(sc_cl[i]); } printf("]");
	printf(",\"null\":["); for (int i = 0; i < NS; ++i) printf(i ? ",%d" : "%d", sc_cl[i] == NULL); printf("]");
	printf(",\"buf\":["); for (int i = 0; i < NS; ++i) { if (i) putchar(','); if (sc_buf[i]) print_labels(sc_buf[i], sc_bufn[i]); else printf("[]"); } printf("]");
	printf(",\"live\":%ld", live_n);
}
static void sess_reset(void) {
	for (int i = 0; i < NS; ++i) { if (sc_cl[i]) { LIB(scc_free_clustering(&sc_cl[i])); } if (sc_ds[i]) { LIB(scc_free_data_set(&sc_ds[i])); } }
	for (int i = 0; i < NS; ++i) { free(sc_buf[i]); sc_buf[i] = NULL; sc_bufn[i] = 0; free(sc_data[i]); sc_data[i] = NULL; if (geos[i]) { geos[i]->ds = NULL; geo_free(geos[i]); geos[i] = NULL; } }
	install_imp();
}
static void json_str(const char* s) { putchar('"'); for (; *s; ++s) { unsigned char c = (unsigned char) *s; if (c == '"' || c == '\\') { putchar('\\'); putchar(c); } else if (c < 32 || c > 126) printf("?"); else putchar(c); } putchar('"'); }
static void cmd_sess(const char* cmd) {
	int s = (int) I("s", 0), d = (int) I("d", 0), b = (int) I("b", -1);
	scc_ErrorCode ec = SCC_ER_OK; int haveec = 1;
	memset(used, 0, sizeof used);
	printf("{\"c\":\"%s\"", cmd);
	fa_count = 0; fa_hit = 0; fa_at = (long) I("fa", -1); fa_sticky = (int) I("fs", 0);
	if (!strcmp(cmd, "s_reset")) { sess_reset(); haveec = 0; printf(",\"live0\":%ld", live_n); memset(live_tab, 0, sizeof live_tab); live_n = 0; }
	else if (!strcmp(cmd, "s_buf")) { size_t l; long long* a = list_ll(S("v", ""), &l); free(sc_buf[b]); sc_buf[b] = malloc(sizeof(scc_Clabel) * (l + 1)); sc_bufn[b] = l; for (size_t i = 0; i < l; ++i) sc_buf[b][i] = ll_lab(a[i]); free(a); haveec = 0; }
	else if (!strcmp(cmd, "s_poke")) { const long m = I("m", 1); for (long j = 0; j < m; ++j) sc_buf[b][I("i", 0) * m + j] = ll_lab(I("v", 0)); haveec = 0; }
	else if (!strcmp(cmd, "s_ds")) {
		Geo* g = geo_make(); /* n, dims, x: what is in memory; an/adims/alen/anull: arguments */
		if (geos[d]) { geos[d]->ds = NULL; geo_free(geos[d]); geos[d] = NULL; }
		scc_DataSet* out = (scc_DataSet*) 1; /* poisoned */
		int onull = (int) I("onull", 0);
		LIB(ec = scc_init_data_set(U("an", g->n), (uint32_t) U("adims", g->dims), (size_t) U("alen", g->n * g->dims), I("anull", 0) ? NULL : g->data, onull ? NULL : &out));
		printf(",\"outnull\":%d", onull ? 1 : out == NULL);
		if (!onull) { if (sc_ds[d]) { LIB(scc_free_data_set(&sc_ds[d])); } sc_ds[d] = out == (scc_DataSet*) 1 ? NULL : out; g->ds = sc_ds[d]; geos[d] = g; } else { geo_free(g); }
	}
	else if (!strcmp(cmd, "s_freeds")) { if (I("pnull", 0)) { LIB(scc_free_data_set(NULL)); } else { LIB(scc_free_data_set(&sc_ds[d])); if (geos[d]) { geos[d]->ds = NULL; geo_free(geos[d]); geos[d] = NULL; } } haveec = 0; printf(",\"isnull\":%d", sc_ds[d] == NULL); }
	else if (!strcmp(cmd, "s_isds")) { bool r; LIB(r = scc_is_initialized_data_set(DSP(sc_ds[d]))); haveec = 0; printf(",\"r\":%d", r); }
	else if (!strcmp(cmd, "s_empty")) {
		scc_Clustering* out = (scc_Clustering*) 1; int onull = (int) I("onull", 0);
		LIB(ec = scc_init_empty_clustering(U("n", 0), b >= 0 ? sc_buf[b] : NULL, onull ? NULL : &out));
		printf(",\"outnull\":%d", onull ? 1 : out == NULL);
		if (!onull) sc_cl[s] = out == (scc_Clustering*) 1 ? NULL : out;
	}
	else if (!strcmp(cmd, "s_exist")) {
		scc_Clustering* out = (scc_Clustering*) 1; int onull = (int) I("onull", 0);
		LIB(ec = scc_init_existing_clustering(U("n", 0), U("k", 0), b >= 0 ? sc_buf[b] : NULL, I("deep", 1) != 0, onull ? NULL : &out));
		printf(",\"outnull\":%d", onull ? 1 : out == NULL);
		if (!onull) sc_cl[s] = out == (scc_Clustering*) 1 ? NULL : out;
	}
	else if (!strcmp(cmd, "s_copy")) {
		scc_Clustering* out = (scc_Clustering*) 1; int onull = (int) I("onull", 0); int t = (int) I("t", 1);
		LIB(ec = scc_copy_clustering(CLP(sc_cl[s]), onull ? NULL : &out));
		printf(",\"outnull\":%d", onull ? 1 : out == NULL);
		if (!onull) sc_cl[t] = out == (scc_Clustering*) 1 ? NULL : out;
	}
	else if (!strcmp(cmd, "s_free")) { if (I("pnull", 0)) { LIB(scc_free_clustering(NULL)); } else { LIB(scc_free_clustering(&sc_cl[s])); } haveec = 0; }
	else if (!strcmp(cmd, "s_info")) { uint64_t n = 990, k = 991; int nn = (int) I("nnull", 0), kn = (int) I("knull", 0); LIB(ec = scc_get_clustering_info(CLP(sc_cl[s]), nn ? NULL : &n, kn ? NULL : &k)); printf(",\"n\":%lld,\"k\":%lld", bigcode(n), bigcode(k)); }
	else if (!strcmp(cmd, "s_labels")) {
		size_t len = (size_t) U("len", 0); int onull = (int) I("onull", 0);
		scc_Clabel* buf = malloc(sizeof(scc_Clabel) * (len ? len : 1)); /* exact size: overruns hit the redzone */
		for (size_t i = 0; i < (len ? len : 1); ++i) buf[i] = (scc_Clabel) 55;
		LIB(ec = scc_get_cluster_labels(CLP(sc_cl[s]), len, onull ? NULL : buf));
		printf(",\"out\":"); print_labels(buf, len); free(buf);
	}
	else if (!strcmp(cmd, "s_sc") || !strcmp(cmd, "s_hier") || !strcmp(cmd, "s_check") || !strcmp(cmd, "s_stats")) {
		opts_parse(); uint64_t oh = opts_hash();
		scc_Clustering* cl = I("clnull", 0) ? NULL : sc_cl[s]; void* ds = I("dsnull", 0) ? NULL : (void*) sc_ds[d];
		cl = CLP(cl); ds = DSP(ds);
		int onull = (int) I("onull", 0);
		if (I("dsspi", 0)) ds = (void*) geos[d];
		log_on = (int) I("log", 0); log_len = 0;
		if (!strcmp(cmd, "s_sc")) { LIB(ec = scc_sc_clustering(ds, opts_null ? NULL : &opt, cl)); }
		else if (!strcmp(cmd, "s_hier")) { LIB(ec = scc_hierarchical_clustering(ds, (uint32_t) U("size", 2), I("ba", 0) != 0, cl)); }
		else if (!strcmp(cmd, "s_check")) { bool ok = true; LIB(ec = scc_check_clustering(cl, opts_null ? NULL : &opt, onull ? NULL : &ok)); printf(",\"ok\":%d", ok); }
		else { scc_ClusteringStats st; memset(&st, 0x5A, sizeof st); LIB(ec = scc_get_clustering_stats(ds, cl, onull ? NULL : &st));
			int z = st.num_data_points == 0 && st.num_assigned == 0 && st.num_clusters == 0 && st.num_populated_clusters == 0 && st.min_cluster_size == 0 && st.max_cluster_size == 0 && st.avg_cluster_size == 0 && st.sum_dists == 0 && st.min_dist == 0 && st.max_dist == 0 && st.avg_min_dist == 0 && st.avg_max_dist == 0 && st.avg_dist_weighted == 0 && st.avg_dist_unweighted == 0;
			printf(",\"zero\":%d,\"sn\":%lld,\"sk\":%lld", onull ? 1 : z, clamp((long long) st.num_data_points), clamp((long long) st.num_clusters)); }
		log_on = 0;
		printf(",\"optsame\":%d", oh == opts_hash());
		opts_free();
	}
	else if (!strcmp(cmd, "s_err")) {
		size_t len = (size_t) U("len", 0); int onull = (int) I("onull", 0); bool r;
		char* e = malloc(len + 64); memset(e, 0x7E, len + 64);
		LIB(r = scc_get_latest_error(len, onull ? NULL : e));
		int over = 0; for (size_t i = len; i < len + 64; ++i) if (e[i] != 0x7E) over = 1;
		int term = 0; for (size_t i = 0; i < len; ++i) if (e[i] == 0) term = 1;
		haveec = 0; printf(",\"r\":%d,\"over\":%d,\"term\":%d", r, over, term);
		char* full = malloc(4096); bool r2; memset(full, 0x7E, 4096);
		LIB(r2 = scc_get_latest_error(4096, full)); full[4095] = 0;
		size_t fl = strlen(full), want = len == 0 ? 0 : (fl < len - 1 ? fl : len - 1);
		printf(",\"r2\":%d,\"pre\":%d", r2, r && term && strlen(e) == want && !memcmp(e, full, want));
		printf(",\"fullmsg\":"); json_str(full); free(full);
		e[len] = 0; printf(",\"short\":"); json_str(r && term ? e : ""); free(e);
	}
	else if (!strcmp(cmd, "s_setfn")) {
		size_t l; long long* t = list_ll(S("t", ""), &l); bool r; /* ten tags 0(null),1,2 */
		#define P(i, f) (t[i] == 1 ? t1_##f : t[i] == 2 ? t2_##f : NULL)
		LIB(r = scc_set_dist_functions(P(0, check), P(1, num), P(2, matrix), P(3, rows), P(4, imax), P(5, gmax), P(6, cmax), P(7, inn), P(8, snn), P(9, cnn)));
		free(t); haveec = 0; printf(",\"r\":%d", r);
	}
	else if (!strcmp(cmd, "s_resetfn")) { bool r; LIB(r = scc_reset_dist_functions()); haveec = 0; printf(",\"r\":%d", r); }
	else if (!strcmp(cmd, "s_defopt")) {
		scc_ClusterOptions o; LIB(o = scc_get_default_options()); haveec = 0;
		printf(",\"def\":[%d,%u,%u,%d,%d,%d,%d,%d,%d,%d,%d,%d,%u]", o.options_version, o.size_constraint, o.num_types, o.type_constraints == NULL && o.type_labels == NULL && o.primary_data_points == NULL, o.len_type_labels == 0 && o.len_primary_data_points == 0, (int) o.seed_method, (int) o.primary_unassigned_method, (int) o.secondary_unassigned_method, (int) o.seed_radius, (int) o.primary_radius, (int) o.secondary_radius, o.seed_supplied_radius == 0 && o.primary_supplied_radius == 0 && o.secondary_supplied_radius == 0, o.batch_size);
	}
	else if (!strcmp(cmd, "s_version")) { /* each part can be asked for on its own */
		uint32_t q[3] = { 9999, 9999, 9999 }; const int ask = (int) I("ask", 7); haveec = 0;
		LIB(scc_get_compiled_version(ask & 1 ? &q[0] : NULL, ask & 2 ? &q[1] : NULL, ask & 4 ? &q[2] : NULL));
		const uint32_t w[3] = { SCC_SCCLUST_MAJOR_VERSION, SCC_SCCLUST_MINOR_VERSION, SCC_SCCLUST_PATCH_VERSION };
		bool r = true; for (int i = 0; i < 3; ++i) r = r && q[i] == (ask >> i & 1 ? w[i] : 9999);
		printf(",\"r\":%d", r);
	}
	fa_at = -1; fa_sticky = 0;
	printf(",\"haveec\":%d,\"ec\":%d,\"hit\":%d", haveec, (int) ec, fa_hit);
	int any = 0; for (int i = 0; i < SL_COUNT; ++i) any |= used[i][1] || used[i][2];
	printf(",\"used\":["); for (int i = 0; i < SL_COUNT; ++i) printf("%s%d", i ? "," : "", (used[i][1] ? 1 : 0) + (used[i][2] ? 2 : 0)); printf("]");
	for (size_t i = 0; i < sizeof zeroed / sizeof zeroed[0]; ++i) if (zeroed[i]) abort();
	sess_state();
	printf("}\n");
}

int main(void) {
	char* line = NULL; size_t cap = 0;
	while (getline(&line, &cap, stdin) > 0) {
		fa_fill = line_fill(line);
		char* cmd = parse_line(line);
		if (!cmd) continue;
		cur_cmd = cmd;
		if (!strncmp(cmd, "s_", 2)) cmd_sess(cmd);
		else cmd_op();
		fflush(stdout);
	}
	return 0;
}
