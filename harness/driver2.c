/* Conformance driver over the parts of the library below the public interface: graph operations, seed search,
 * built-in distance functions. One command per input line, one JSON object per output line. */
#include "scclust.h"
#include "scclust_spi.h"
#include "scclust_types.h"
#include "digraph_core.h"
#include "digraph_operations.h"
#include "nng_findseeds.h"
#include "dist_search.h"
#include "common.h"

static scc_PointIndex* list_pi(const char* k, size_t* n) {   /* NULL for a missing or "null" list */
	const char* s = S(k, "null");
	*n = 0;
	if (!strcmp(s, "null")) return NULL;
	long long* a = list_ll(s, n);
	scc_PointIndex* p = malloc(sizeof(scc_PointIndex) * (*n ? *n : 1));   /* exact size: reads past the end are seen */
	for (size_t i = 0; i < *n; ++i) p[i] = (scc_PointIndex) a[i];
	free(a);
	return p;
}

/* ======================= graphs ======================= */
#define NREG 4
static iscc_Digraph reg[NREG];
static int reg_on[NREG];
static uint64_t g_hash(const iscc_Digraph* g) {
	uint64_t h = fnv(&g->vertices, sizeof g->vertices, 14695981039346656037ull);
	h = fnv(&g->max_arcs, sizeof g->max_arcs, h);
	h = fnv(g->tail_ptr, sizeof(iscc_ArcIndex) * (g->vertices + 1), h);
	if (g->head) h = fnv(g->head, sizeof(scc_PointIndex) * (size_t) g->tail_ptr[g->vertices], h);
	return h;
}
static void g_drop(int r) { if (reg_on[r]) { LIB(iscc_free_digraph(&reg[r])); reg_on[r] = 0; } reg[r] = ISCC_NULL_DIGRAPH; }
static void g_set(int r, size_t v, const char* adj, size_t slack) {
	size_t arcs = 0;
	for (const char* c = adj; *c; ++c) if (*c >= '0' && *c <= '9' && (c[1] < '0' || c[1] > '9')) ++arcs;
	g_drop(r);
	LIB(iscc_init_digraph(v, arcs + slack, &reg[r]));
	reg_on[r] = 1;
	size_t a = 0, i = 0;
	reg[r].tail_ptr[0] = 0;
	const char* c = adj;
	for (i = 0; i < v; ++i) {
		while (*c && *c != ';') {
			if (*c == ',') { ++c; continue; }
			char* e; reg[r].head[a++] = (scc_PointIndex) strtoll(c, &e, 10); c = e;
		}
		if (*c == ';') ++c;
		reg[r].tail_ptr[i + 1] = (iscc_ArcIndex) a;
	}
}
/* wf: the structure is a well-formed representation */
static void g_out(const char* name, const iscc_Digraph* g) {
	int wf = g->tail_ptr != NULL && g->tail_ptr[0] == 0 && g->tail_ptr[g->vertices] <= g->max_arcs && (g->max_arcs > 0) == (g->head != NULL);
	if (wf) for (size_t i = 0; i < g->vertices; ++i) if (g->tail_ptr[i] > g->tail_ptr[i + 1]) wf = 0;
	printf("\"%s\":{\"wf\":%d,\"v\":%zu,\"cap\":%lld,\"valid\":%d,\"empty\":%d,\"adj\":[", name, wf, g->vertices, clamp((long long) g->max_arcs),
	       wf && iscc_digraph_is_valid(g), wf && iscc_digraph_is_empty(g));
	if (wf) for (size_t i = 0; i < g->vertices; ++i) {
		printf("%s[", i ? "," : "");
		for (size_t a = g->tail_ptr[i]; a < g->tail_ptr[i + 1]; ++a) printf("%s%lld", a > g->tail_ptr[i] ? "," : "", clamp((long long) g->head[a] + 1));
		printf("]");
	}
	printf("]}");
}
static void cmd_g(const char* cmd) {
	scc_ErrorCode ec = SCC_ER_OK;
	if (!strcmp(cmd, "gset")) {
		int r = (int) I("r", 0);
		g_set(r, (size_t) I("v", 1), S("adj", ""), (size_t) I("slack", 0));
		printf("{\"ec\":0,\"same\":1,\"fa\":0,\"leak\":0,"); g_out("g", &reg[r]); printf("}\n");
		return;
	}
	int a = (int) I("a", 0), b = (int) I("b", -1), o = (int) I("o", -1);
	uint64_t h[NREG]; long live0 = live_n;
	for (int i = 0; i < NREG; ++i) h[i] = reg_on[i] ? g_hash(&reg[i]) : 0;
	size_t nk; scc_PointIndex* keep = list_pi("keep", &nk);
	size_t nrs; long long* rs = list_ll(S("rs", ""), &nrs);
	int bad = 0;
	if (strcmp(cmd, "gempty")) {
		if (!strcmp(cmd, "gunion")) { for (size_t i = 0; i < nrs; ++i) if (!reg_on[rs[i]]) bad = 1; if (nrs) a = (int) rs[0]; }
		else if (!reg_on[a] || (b >= 0 && !reg_on[b])) bad = 1;
		if (!bad && !strcmp(cmd, "gprod") && (reg[a].tail_ptr[reg[a].vertices] == 0 || reg[b].tail_ptr[reg[b].vertices] == 0)) bad = 1;
		if (!bad && !strcmp(cmd, "gsize") && reg[a].tail_ptr[reg[a].vertices] > U("cap", 0)) bad = 1;
	}
	if (bad) {
		printf("{\"ec\":-9,\"same\":1,\"fa\":0,\"leak\":0,\"g\":{\"wf\":1,\"v\":0,\"cap\":0,\"valid\":1,\"empty\":1,\"adj\":[]}}\n");
		free(keep); free(rs); return;
	}
	iscc_Digraph out = ISCC_NULL_DIGRAPH;
	iscc_Digraph in[16];
	for (size_t i = 0; i < nrs && i < 16; ++i) in[i] = reg[rs[i]];
	fa_count = 0; fa_hit = 0; fa_at = I("fa", -1); fa_sticky = (int) I("fs", 0);
	/* memory budget: the largest single block a run with exact counts needs (the result's size from a run without limit) */
	if (I("lim", 0)) {
		iscc_Digraph t = ISCC_NULL_DIGRAPH; int e2;
		if (!strcmp(cmd, "gunion")) LIB(e2 = iscc_digraph_union_and_delete((uint_fast16_t) nrs, in, nk, keep, I("kl", 0) != 0, &t));
		else LIB(e2 = iscc_adjacency_product(&reg[a], &reg[b], I("fl", 0) != 0, &t));
		size_t v = reg[a].vertices, ex = e2 == SCC_ER_OK ? (size_t) t.tail_ptr[v] : 0, m = sizeof(iscc_ArcIndex) * (v + 1);
		LIB(iscc_free_digraph(&t));
		fa_count = 0;
		if (sizeof(scc_PointIndex) * v > m) m = sizeof(scc_PointIndex) * v;
		if (sizeof(scc_PointIndex) * ex > m) m = sizeof(scc_PointIndex) * ex;
		fa_limit = m;
	}
	int inplace = -1; const int hd0 = reg_on[a] && reg[a].head != NULL;
	if (!strcmp(cmd, "gloops")) { inplace = a; LIB(ec = iscc_delete_loops(&reg[a])); }
	else if (!strcmp(cmd, "gunion")) LIB(ec = iscc_digraph_union_and_delete((uint_fast16_t) nrs, in, nk, keep, I("kl", 0) != 0, &out));
	else if (!strcmp(cmd, "gdiff")) { inplace = a; LIB(ec = iscc_digraph_difference(&reg[a], &reg[b], (uint32_t) U("max", 1))); }
	else if (!strcmp(cmd, "gtrans")) LIB(ec = iscc_digraph_transpose(&reg[a], &out));
	else if (!strcmp(cmd, "gprod")) LIB(ec = iscc_adjacency_product(&reg[a], &reg[b], I("fl", 0) != 0, &out));
	else if (!strcmp(cmd, "gsize")) { inplace = a; LIB(ec = iscc_change_arc_storage(&reg[a], (uintmax_t) U("cap", 0))); }
	else if (!strcmp(cmd, "gempty")) LIB(ec = iscc_empty_digraph((size_t) I("v", 1), (uintmax_t) U("cap", 0), &out));
	long cnt = fa_count; int hit = fa_hit;
	fa_at = -1; fa_sticky = 0; fa_limit = 0;
	int same = 1;
	for (int i = 0; i < NREG; ++i) if (reg_on[i] && i != inplace && g_hash(&reg[i]) != h[i]) same = 0;
	printf("{\"ec\":%d,\"same\":%d,\"fa\":%d,\"allocs\":%ld,", (int) ec, same, hit, cnt);
	if (inplace >= 0) {
		printf("\"leak\":%d,", (int) (live_n - live0 != (reg[a].head != NULL) - hd0));
		g_out("g", &reg[a]);
		if (ec != SCC_ER_OK) g_drop(a);
	} else if (ec == SCC_ER_OK) {
		printf("\"leak\":%d,", (int) (live_n - live0 != 1 + (out.head != NULL)));
		g_out("g", &out);
		g_drop(o); reg[o] = out; reg_on[o] = 1;
	} else {
		printf("\"leak\":%d,\"g\":{\"wf\":1,\"v\":0,\"cap\":0,\"valid\":1,\"empty\":1,\"adj\":[]}", (int) (live_n != live0));
	}
	printf("}\n");
	free(keep); free(rs);
}
/* seed search on an arbitrary graph */
static void cmd_seeds(void) {
	g_set(0, (size_t) I("v", 2), S("adj", ""), (size_t) I("slack", 0));
	uint64_t h = g_hash(&reg[0]); long live0 = live_n;
	iscc_SeedResult r = { .capacity = (size_t) I("cap", 16), .count = 0, .seeds = NULL };
	scc_ErrorCode ec;
	LIB(ec = iscc_find_seeds(&reg[0], (scc_SeedMethod) I("sm", 0), &r));
	printf("{\"ec\":%d,\"same\":%d,\"leak\":%ld,\"seeds\":[", (int) ec, g_hash(&reg[0]) == h, live_n - live0 - (r.seeds != NULL));
	if (ec == SCC_ER_OK) for (size_t i = 0; i < r.count; ++i) printf("%s%lld", i ? "," : "", clamp((long long) r.seeds[i] + 1));
	printf("]}\n");
	free(r.seeds);
	g_drop(0);
}

/* ======================= built-in distance functions ======================= */
static double* dm = NULL; static scc_DataSet* ds = NULL; static size_t dn; static uint32_t dd; static double dsc = 1.0; static uint64_t dh;
#define NOBJ 6
static iscc_NNSearchObject* nno[NOBJ]; static iscc_MaxDistObject* mxo[NOBJ]; static scc_PointIndex* oidx[NOBJ];
static long long sqd(double d) {       /* the squared distance in units of the scale, -1 when it is no Euclidean distance of integer points */
	double t = d / dsc, q = t * t;
	if (!(d >= 0.0) || q > 2000000000.0) return -1;
	long long v = llround(q);
	double w = sqrt((double) v);
	return fabs(t - w) <= 1e-9 * (w > 1 ? w : 1) ? v : -1;
}
static void close_all(void) {
	bool b;
	for (int i = 0; i < NOBJ; ++i) {
		if (nno[i]) LIB(b = iscc_close_nn_search_object(&nno[i]));
		if (mxo[i]) LIB(b = iscc_close_max_dist_object(&mxo[i]));
		nno[i] = NULL; mxo[i] = NULL; free(oidx[i]); oidx[i] = NULL;
	}
}
static void out_sq(const char* name, const double* d, size_t n) {
	printf("\"%s\":[", name); for (size_t i = 0; i < n; ++i) printf("%s%lld", i ? "," : "", sqd(d[i])); printf("]");
}
static void out_pi(const char* name, const scc_PointIndex* p, size_t n) {
	printf("\"%s\":[", name); for (size_t i = 0; i < n; ++i) printf("%s%lld", i ? "," : "", clamp((long long) p[i] + 1)); printf("]");
}
static void cmd_d(const char* cmd) {
	bool ok = false;
	if (!strcmp(cmd, "dset")) {
		close_all();
		if (ds) scc_free_data_set(&ds);
		free(dm);
		size_t l; dn = (size_t) I("n", 0); dd = (uint32_t) I("dims", 1); dsc = F("sc", 1.0);
		double off = F("off", 0.0);
		dm = list_d(S("x", ""), &l);
		double* ex = malloc(sizeof(double) * (l ? l : 1));
		for (size_t i = 0; i < l; ++i) ex[i] = (dm[i] + off) * dsc;
		free(dm); dm = ex;
		dh = fnv(dm, sizeof(double) * l, 14695981039346656037ull);
		scc_ErrorCode ec; LIB(ec = scc_init_data_set(dn, dd, l, dm, &ds));
#ifdef WITH_ANN
		LIB(if (!use_ann()) ec = SCC_ER_UNKNOWN_ERROR);
#endif
		printf("{\"ok\":%d,\"same\":1,\"live\":%ld,\"chk\":%d,\"num\":%lld}\n", ec == SCC_ER_OK, live_n, iscc_check_data_set(ds), clamp((long long) iscc_num_data_points(ds)));
		return;
	}
	size_t nq, nc; scc_PointIndex* q = list_pi("q", &nq); scc_PointIndex* c = list_pi("c", &nc);
	int id = (int) I("id", 0);
	if (!q) nq = (size_t) I("nq", 0);
	if (!c) nc = (size_t) I("nc", 0);
	uint64_t hq = q ? fnv(q, sizeof(*q) * nq, 1) : 0, hc = c ? fnv(c, sizeof(*c) * nc, 1) : 0;
	printf("{");
	if (!strcmp(cmd, "dmat")) {
		size_t m = nq * (nq - 1) / 2; double* o = malloc(sizeof(double) * (m ? m : 1)); for (size_t i = 0; i < m; ++i) o[i] = -7;
		LIB(ok = iscc_get_dist_matrix(ds, nq, q, o));
		out_sq("d", o, m); free(o);
	} else if (!strcmp(cmd, "drows")) {
		size_t m = nq * nc; double* o = malloc(sizeof(double) * (m ? m : 1)); for (size_t i = 0; i < m; ++i) o[i] = -7;
		LIB(ok = iscc_get_dist_rows(ds, nq, q, nc, c, o));
		out_sq("d", o, m); free(o);
	} else if (!strcmp(cmd, "dinn")) {
		long l0 = live_n, lost = 0; fa_count = 0; fa_hit = 0; fa_at = I("fa", -1);
		LIB(ok = iscc_init_nn_search_object(ds, nc, c, &nno[id]));
		fa_at = -1;
		if (!ok && fa_hit) { lost = live_n - l0; LIB(ok = iscc_init_nn_search_object(ds, nc, c, &nno[id])); }   /* once more, with memory */
		oidx[id] = c; c = NULL; printf("\"lost\":%ld,\"d\":[]", lost);
	} else if (!strcmp(cmd, "dimax")) {
		LIB(ok = iscc_init_max_dist_object(ds, nc, c, &mxo[id])); oidx[id] = c; c = NULL; printf("\"d\":[]");
	} else if (!strcmp(cmd, "dsnn")) {
		uint32_t k = (uint32_t) U("k", 1); long long rr = I("rr", -1);
		size_t num = 987654; int wq = (int) I("wq", 1);
		scc_PointIndex* oq = malloc(sizeof(scc_PointIndex) * nq); scc_PointIndex* oi = malloc(sizeof(scc_PointIndex) * nq * k);
		for (size_t i = 0; i < nq; ++i) oq[i] = (scc_PointIndex) 77777;
		for (size_t i = 0; i < nq * k; ++i) oi[i] = (scc_PointIndex) 77777;
		fa_count = 0; fa_hit = 0; fa_at = I("fa", -1); fa_sticky = (int) I("fs", 0);
		LIB(ok = iscc_nearest_neighbor_search(nno[id], nq, q, k, rr >= 0, rr >= 0 ? sqrt((double) rr / 2.0) * dsc : F("junk", 0.0), &num, wq ? oq : NULL, oi));
		fa_at = -1; fa_sticky = 0;
		printf("\"hit\":%d,", fa_hit);
		if (!ok) printf("\"d\":[]");
		else if (num > nq) printf("\"num\":%lld,\"oq\":[],\"nn\":[]", clamp((long long) num));
		else { printf("\"num\":%zu,", num); out_pi("oq", oq, wq ? num : 0); printf(","); out_pi("nn", oi, num * k); }
		free(oq); free(oi);
	} else if (!strcmp(cmd, "dgmax")) {
		scc_PointIndex* oi = malloc(sizeof(scc_PointIndex) * nq); double* od = malloc(sizeof(double) * nq);
		for (size_t i = 0; i < nq; ++i) { oi[i] = (scc_PointIndex) 77777; od[i] = -7; }
		LIB(ok = iscc_get_max_dist(mxo[id], nq, q, oi, od));
		out_pi("mi", oi, nq); printf(","); out_sq("d", od, nq); free(oi); free(od);
	} else if (!strcmp(cmd, "dcnn")) { LIB(ok = iscc_close_nn_search_object(&nno[id])); printf("\"d\":[]"); ok = ok && nno[id] == NULL; nno[id] = NULL; free(oidx[id]); oidx[id] = NULL; }
	else if (!strcmp(cmd, "dcmax")) { LIB(ok = iscc_close_max_dist_object(&mxo[id])); printf("\"d\":[]"); ok = ok && mxo[id] == NULL; mxo[id] = NULL; free(oidx[id]); oidx[id] = NULL; }
	else printf("\"d\":[]");
	int same = dh == fnv(dm, sizeof(double) * dn * dd, 14695981039346656037ull) && (!q || hq == fnv(q, sizeof(*q) * nq, 1)) && (!c || hc == fnv(c, sizeof(*c) * nc, 1));
	printf(",\"ok\":%d,\"same\":%d,\"live\":%ld}\n", (int) ok, same, live_n);
	free(q); free(c);
}

int main(void) {
	static char* line = NULL; static size_t cap = 0;
	setvbuf(stdout, NULL, _IOLBF, 0);
	while (getline(&line, &cap, stdin) > 0) {
		fa_fill = line_fill(line);
		char* cmd = parse_line(line);
		if (!cmd) continue;
		fa_fill = (int) I("fill", fa_fill);
		if (cmd[0] == 'g') cmd_g(cmd);
		else if (!strcmp(cmd, "seeds")) cmd_seeds();
		else if (cmd[0] == 'd') cmd_d(cmd);
		else printf("{\"unknown\":1}\n");
		fflush(stdout);
	}
	return 0;
}
