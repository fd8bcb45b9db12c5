#include "zoo.hpp"
#include <gsl/gsl_rng.h>
const char *zname[] = {"rng", "distribution", "parameter", "expression", "configuration_space", "objective_space", "features_space", "configuration", "features", "evaluation", "features_evaluation",
	"tuner_random", "tuner_user", "features_tuner_random", "features_tuner_user", "tree", "static_tree_space", "dynamic_tree_space", "tree_configuration", "tree_evaluation", "tree_tuner_random", "tree_tuner_user", "map"};

// ---------------------------------------------------------------- user-defined callbacks
static thread_local std::vector<std::unique_ptr<UD>> g_uds;
UD *ud_new(int kind, uint64_t seed) { g_uds.emplace_back(new UD); UD *u = g_uds.back().get(); u->kind = kind; u->seed = seed; u->gen_child = ud_default_child; return u; }
void ud_reset() { g_uds.clear(); }

static UD *data_of(int kind, ccs_object_t t) {
	void *d = NULL;
	ccs_result_t e = kind == 0 ? ccs_user_defined_tuner_get_tuner_data((ccs_tuner_t)t, &d) : kind == 1 ? ccs_user_defined_features_tuner_get_tuner_data((ccs_features_tuner_t)t, &d)
		: kind == 2 ? ccs_user_defined_tree_tuner_get_tuner_data((ccs_tree_tuner_t)t, &d) : ccs_dynamic_tree_space_get_tree_space_data((ccs_tree_space_t)t, &d);
	// a damaged stream can make the library call one kind of vector for another kind of object
	if (e != CCS_RESULT_SUCCESS || !d || ((UD *)d)->kind != kind) { if (e) ccs_clear_thread_error(); return NULL; }
	return (UD *)d;
}
struct Rec { // one delivery
	UD *u; size_t k; bool logged;
	Rec(UD *u_, const char *op, ccs_object_t self) : u(u_), k(u_->log.size()), logged(!u_->silent.count(op)) {
		if (u->dels) u->after_del = true;
		u->log.emplace_back(); u->log.back().op = op; u->log.back().self = self;
	}
	UCall &c() { return u->log[k]; }
	ccs_result_t done(ccs_result_t e) { u->log[k].ret = e; if (!logged && k + 1 == u->log.size()) u->log.pop_back(); return e; }
	bool inject(ccs_result_t &e) { auto it = u->fail.find(u->log[k].op); if (it == u->fail.end()) return false; e = it->second; return true; }
};
static ccs_result_t sample1(int kind, ccs_object_t t, ccs_object_t *o) {
	if (kind == 2) { ccs_tree_space_t s; ccs_result_t e = ccs_tree_tuner_get_tree_space((ccs_tree_tuner_t)t, &s); return e ? e : ccs_tree_space_sample(s, (ccs_tree_configuration_t *)o); }
	ccs_configuration_space_t s;
	ccs_result_t e = kind == 0 ? ccs_tuner_get_configuration_space((ccs_tuner_t)t, &s) : ccs_features_tuner_get_configuration_space((ccs_features_tuner_t)t, &s);
	return e ? e : ccs_configuration_space_sample(s, (ccs_configuration_t *)o);
}
static ccs_result_t cmp1(int kind, ccs_object_t a, ccs_object_t b, ccs_comparison_t *c) {
	return kind == 0 ? ccs_evaluation_compare((ccs_evaluation_t)a, (ccs_evaluation_t)b, c) : kind == 1 ? ccs_features_evaluation_compare((ccs_features_evaluation_t)a, (ccs_features_evaluation_t)b, c)
		: ccs_tree_evaluation_compare((ccs_tree_evaluation_t)a, (ccs_tree_evaluation_t)b, c);
}
static ccs_object_t conf1(int kind, ccs_object_t e) {
	ccs_object_t c = NULL;
	if (kind == 0) ccs_evaluation_get_configuration((ccs_evaluation_t)e, (ccs_configuration_t *)&c);
	else if (kind == 1) ccs_features_evaluation_get_configuration((ccs_features_evaluation_t)e, (ccs_configuration_t *)&c);
	else ccs_tree_evaluation_get_configuration((ccs_tree_evaluation_t)e, (ccs_tree_configuration_t *)&c);
	return c;
}
static int result1(int kind, ccs_object_t e) {
	ccs_evaluation_result_t r = 0;
	if (kind == 0) ccs_evaluation_get_result((ccs_evaluation_t)e, &r);
	else if (kind == 1) ccs_features_evaluation_get_result((ccs_features_evaluation_t)e, &r);
	else ccs_tree_evaluation_get_result((ccs_tree_evaluation_t)e, &r);
	return (int)r;
}
static bool feat1(int kind, ccs_object_t e, ccs_object_t f) {
	if (kind != 1 || !f) return true;
	ccs_features_t g = NULL; int c = 1;
	if (ccs_features_evaluation_get_features((ccs_features_evaluation_t)e, &g)) return false;
	if (ccs_features_cmp(g, (ccs_features_t)f, &c)) return false;
	return c == 0;
}
static ccs_result_t u_del(int kind, ccs_object_t t) {
	UD *u = data_of(kind, t); if (!u) return CCS_RESULT_SUCCESS; Rec rc(u, "del", t);
	// the object is still whole: what it was created from can be read
	{ size_t n = 0; const char *nm = NULL; int bad = 0; ccs_configuration_space_t cs = NULL; ccs_objective_space_t os = NULL; ccs_features_space_t fs = NULL; ccs_tree_space_t ts = NULL; ccs_tree_t tr = NULL; ccs_rng_t g = NULL; ccs_datum_t d; unsigned long mx;
	  switch (kind) {
	  case 0: bad = ccs_tuner_get_name((ccs_tuner_t)t, &nm) || ccs_tuner_get_configuration_space((ccs_tuner_t)t, &cs) || ccs_tuner_get_objective_space((ccs_tuner_t)t, &os) || ccs_configuration_space_get_num_parameters(cs, &n) || ccs_objective_space_get_num_parameters(os, &n); break;
	  case 1: bad = ccs_features_tuner_get_name((ccs_features_tuner_t)t, &nm) || ccs_features_tuner_get_configuration_space((ccs_features_tuner_t)t, &cs) || ccs_features_tuner_get_objective_space((ccs_features_tuner_t)t, &os) || ccs_features_tuner_get_features_space((ccs_features_tuner_t)t, &fs) || ccs_configuration_space_get_num_parameters(cs, &n) || ccs_objective_space_get_num_parameters(os, &n) || ccs_features_space_get_num_parameters(fs, &n); break;
	  case 2: bad = ccs_tree_tuner_get_name((ccs_tree_tuner_t)t, &nm) || ccs_tree_tuner_get_tree_space((ccs_tree_tuner_t)t, &ts) || ccs_tree_tuner_get_objective_space((ccs_tree_tuner_t)t, &os) || ccs_tree_space_get_tree(ts, &tr) || ccs_tree_get_value(tr, &d) || ccs_objective_space_get_num_parameters(os, &n); break;
	  case 3: bad = ccs_tree_space_get_name((ccs_tree_space_t)t, &nm) || ccs_tree_space_get_tree((ccs_tree_space_t)t, &tr) || ccs_tree_get_value(tr, &d) || ccs_tree_space_get_rng((ccs_tree_space_t)t, &g) || ccs_rng_max(g, &mx); break;
	  }
	  if (bad) { u->problems.push_back("the object could not be read in its deletion callback"); ccs_clear_thread_error(); }
	  else if (nm && !*nm) ev("del.unnamed"); else ev("del.readable"); }
	u->dels++; u->drop();
	return rc.done(CCS_RESULT_SUCCESS);
}
static ccs_result_t u_ask(int kind, ccs_object_t t, ccs_object_t f, size_t n, ccs_object_t *v, size_t *nr) {
	UD *u = data_of(kind, t); if (!u) return CCS_RESULT_ERROR_INVALID_OBJECT; Rec rc(u, "ask", t); rc.c().feat = f; rc.c().n = n; rc.c().arr = v; rc.c().nret = nr;
	ccs_result_t e; if (rc.inject(e)) return rc.done(e);
	if (!v) { if (nr) *nr = 1; return rc.done(CCS_RESULT_SUCCESS); }
	for (size_t i = 0; i < n; i++) if ((e = sample1(kind, t, v + i))) {
		for (size_t j = 0; j < i; j++) ccs_release_object(v[j]);
		for (size_t j = 0; j < n; j++) v[j] = NULL;
		return rc.done(e);
	}
	if (u->short_ask && n) { ccs_release_object(v[n - 1]); v[n - 1] = NULL; }
	rc.c().elems.assign(v, v + n); rc.c().m = n && u->short_ask ? n - 1 : n;
	if (nr) *nr = rc.c().m;
	return rc.done(CCS_RESULT_SUCCESS);
}
static ccs_result_t u_tell(int kind, ccs_object_t t, size_t n, ccs_object_t *v) {
	UD *u = data_of(kind, t); if (!u) return CCS_RESULT_ERROR_INVALID_OBJECT; Rec rc(u, "tell", t); rc.c().n = n; rc.c().arr = v; if (v) rc.c().elems.assign(v, v + n);
	ccs_result_t e; if (rc.inject(e)) return rc.done(e);
	for (size_t i = 0; i < n; i++) { ccs_object_type_t ty; if (!v[i] || ccs_object_get_type(v[i], &ty) || ty != (kind == 0 ? CCS_OBJECT_TYPE_EVALUATION : kind == 1 ? CCS_OBJECT_TYPE_FEATURES_EVALUATION : CCS_OBJECT_TYPE_TREE_EVALUATION)) return rc.done(CCS_RESULT_ERROR_INVALID_VALUE); }
	for (size_t i = 0; i < n; i++) {
		ccs_retain_object(v[i]); u->hist.push_back(v[i]);
		if (result1(kind, v[i])) continue;
		bool keep = true; std::vector<ccs_object_t> out, gone;
		for (auto o : u->opt) {
			ccs_comparison_t c = CCS_COMPARISON_NOT_COMPARABLE;
			if (cmp1(kind, v[i], o, &c)) { keep = false; ccs_clear_thread_error(); }
			if (c == CCS_COMPARISON_EQUIVALENT || c == CCS_COMPARISON_WORSE) keep = false;
			if (c == CCS_COMPARISON_BETTER) gone.push_back(o); else out.push_back(o);
		}
		if (keep) { for (auto o : gone) ccs_release_object(o); u->opt = out; ccs_retain_object(v[i]); u->opt.push_back(v[i]); }
	}
	return rc.done(CCS_RESULT_SUCCESS);
}
static ccs_result_t u_list(int kind, const char *op, const std::vector<ccs_object_t> UD::*which, ccs_object_t t, ccs_object_t f, size_t n, ccs_object_t *v, size_t *nr) {
	UD *u = data_of(kind, t); if (!u) return CCS_RESULT_ERROR_INVALID_OBJECT; Rec rc(u, op, t); rc.c().feat = f; rc.c().n = n; rc.c().arr = v; rc.c().nret = nr;
	ccs_result_t e; if (rc.inject(e)) return rc.done(e);
	std::vector<ccs_object_t> l; for (auto o : u->*which) if (feat1(kind, o, f)) l.push_back(o);
	if (v) {
		if (n < l.size()) return rc.done(CCS_RESULT_ERROR_INVALID_VALUE);
		for (size_t i = 0; i < n; i++) v[i] = i < l.size() ? l[i] : NULL;
		rc.c().elems.assign(v, v + n);
	}
	if (nr) *nr = l.size();
	return rc.done(CCS_RESULT_SUCCESS);
}
static ccs_result_t u_suggest(int kind, ccs_object_t t, ccs_object_t f, ccs_object_t *o) {
	UD *u = data_of(kind, t); if (!u) return CCS_RESULT_ERROR_INVALID_OBJECT; Rec rc(u, "suggest", t); rc.c().feat = f; rc.c().arr = o;
	ccs_result_t e; if (rc.inject(e)) return rc.done(e);
	for (auto x : u->opt) if (feat1(kind, x, f)) { *o = conf1(kind, x); ccs_retain_object(*o); rc.c().elems.push_back(*o); return rc.done(CCS_RESULT_SUCCESS); }
	e = sample1(kind, t, o); if (!e) rc.c().elems.push_back(*o);
	return rc.done(e);
}
static ccs_result_t u_ser(int kind, ccs_object_t t, size_t n, void *st, size_t *nr) {
	UD *u = data_of(kind, t); if (!u) return CCS_RESULT_ERROR_INVALID_OBJECT; Rec rc(u, st ? "serialize" : "serialize_size", t); rc.c().n = n; rc.c().arr = st; rc.c().nret = nr;
	ccs_result_t e; if (rc.inject(e)) return rc.done(e);
	if (st) { if (n < u->state.size()) return rc.done(CCS_RESULT_ERROR_INVALID_VALUE); memcpy(st, u->state.data(), u->state.size()); }
	if (nr) *nr = u->state.size();
	return rc.done(CCS_RESULT_SUCCESS);
}
static ccs_result_t u_deser(int kind, ccs_object_t t, size_t nh, ccs_object_t *h, size_t no, ccs_object_t *o, size_t n, const void *st) {
	UD *u = data_of(kind, t); if (!u) return CCS_RESULT_ERROR_INVALID_OBJECT; Rec rc(u, "deserialize", t);
	rc.c().n = nh; rc.c().m = no; if (h) rc.c().elems.assign(h, h + nh); if (o) rc.c().elems2.assign(o, o + no); if (st) rc.c().bytes.assign((const char *)st, n); else if (n) u->problems.push_back("state size without state");
	ccs_result_t e; if (rc.inject(e)) return rc.done(e);
	for (size_t i = 0; i < nh; i++) { ccs_retain_object(h[i]); u->hist.push_back(h[i]); }
	for (size_t i = 0; i < no; i++) { ccs_retain_object(o[i]); u->opt.push_back(o[i]); }
	u->state = rc.c().bytes;
	return rc.done(CCS_RESULT_SUCCESS);
}
#define SHIMS(K, NAME, T, C, EV)                                                                                                                            \
	static ccs_result_t NAME##_del(T t) { return u_del(K, t); }                                                                                            \
	static ccs_result_t NAME##_tell(T t, size_t n, EV *v) { return u_tell(K, t, n, (ccs_object_t *)v); }                                                   \
	static ccs_result_t NAME##_ser(T t, size_t n, void *s, size_t *r) { return u_ser(K, t, n, s, r); }                                                     \
	static ccs_result_t NAME##_deser(T t, size_t nh, EV *h, size_t no, EV *o, size_t n, const void *s) { return u_deser(K, t, nh, (ccs_object_t *)h, no, (ccs_object_t *)o, n, s); }
#define SHIMS_PLAIN(K, NAME, T, C, EV)                                                                                                                      \
	static ccs_result_t NAME##_ask(T t, size_t n, C *v, size_t *r) { return u_ask(K, t, NULL, n, (ccs_object_t *)v, r); }                                  \
	static ccs_result_t NAME##_opt(T t, size_t n, EV *v, size_t *r) { return u_list(K, "get_optima", &UD::opt, t, NULL, n, (ccs_object_t *)v, r); }        \
	static ccs_result_t NAME##_hist(T t, size_t n, EV *v, size_t *r) { return u_list(K, "get_history", &UD::hist, t, NULL, n, (ccs_object_t *)v, r); }     \
	static ccs_result_t NAME##_sug(T t, C *c) { return u_suggest(K, t, NULL, (ccs_object_t *)c); }
SHIMS(0, pt, ccs_tuner_t, ccs_configuration_t, ccs_evaluation_t)
SHIMS_PLAIN(0, pt, ccs_tuner_t, ccs_configuration_t, ccs_evaluation_t)
SHIMS(1, ft, ccs_features_tuner_t, ccs_configuration_t, ccs_features_evaluation_t)
static ccs_result_t ft_ask(ccs_features_tuner_t t, ccs_features_t f, size_t n, ccs_configuration_t *v, size_t *r) { return u_ask(1, t, f, n, (ccs_object_t *)v, r); }
static ccs_result_t ft_opt(ccs_features_tuner_t t, ccs_features_t f, size_t n, ccs_features_evaluation_t *v, size_t *r) { return u_list(1, "get_optima", &UD::opt, t, f, n, (ccs_object_t *)v, r); }
static ccs_result_t ft_hist(ccs_features_tuner_t t, ccs_features_t f, size_t n, ccs_features_evaluation_t *v, size_t *r) { return u_list(1, "get_history", &UD::hist, t, f, n, (ccs_object_t *)v, r); }
static ccs_result_t ft_sug(ccs_features_tuner_t t, ccs_features_t f, ccs_configuration_t *c) { return u_suggest(1, t, f, (ccs_object_t *)c); }
SHIMS(2, tt, ccs_tree_tuner_t, ccs_tree_configuration_t, ccs_tree_evaluation_t)
SHIMS_PLAIN(2, tt, ccs_tree_tuner_t, ccs_tree_configuration_t, ccs_tree_evaluation_t)
static ccs_result_t ds_del(ccs_tree_space_t t) { return u_del(3, t); }
static ccs_result_t ds_ser(ccs_tree_space_t t, size_t n, void *s, size_t *r) { return u_ser(3, t, n, s, r); }
static ccs_result_t ds_deser(ccs_tree_space_t t, size_t n, const void *s) { return u_deser(3, t, 0, NULL, 0, NULL, n, s); }
static ccs_result_t ds_child(ccs_tree_space_t t, ccs_tree_t parent, size_t idx, ccs_tree_t *out) {
	UD *u = data_of(3, t); if (!u) return CCS_RESULT_ERROR_INVALID_OBJECT; Rec rc(u, "get_child", t); rc.c().feat = parent; rc.c().n = idx; rc.c().arr = out;
	ccs_result_t e; if (rc.inject(e)) return rc.done(e);
	e = u->gen_child(u, parent, idx, out);
	if (!e) { u->children++; rc.c().elems.push_back(*out); }
	return rc.done(e);
}
ccs_result_t ud_default_child(UD *u, ccs_tree_t parent, size_t idx, ccs_tree_t *out) {
	size_t pos[64], n = 0; ccs_result_t e;
	if ((e = ccs_tree_get_position(parent, 0, NULL, &n))) return e;
	if (n >= 64) return CCS_RESULT_ERROR_INVALID_TREE;
	if (n && (e = ccs_tree_get_position(parent, n, pos, NULL))) return e;
	uint64_t h = u->seed; for (size_t i = 0; i < n; i++) h = mix64(h, pos[i] + 1);
	h = mix64(h, idx + 1);
	size_t arity = (int)n + 1 < u->maxdepth ? h % (u->maxarity + 1) : 0;
	ccs_tree_t t = NULL;
	if ((e = ccs_create_tree(arity, ccs_int((int64_t)((h >> 8) % 1000)), &t))) return e;
	static const double W[] = {1, 1, 0.5, 3, 0};
	if ((e = ccs_tree_set_weight(t, W[(h >> 20) % 4])) || (e = ccs_tree_set_bias(t, W[(h >> 30) % 5]))) { ccs_release_object(t); return e; }
	*out = t;
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t refuse(void) { return CCS_RESULT_ERROR_INVALID_OBJECT; }
void *ud_vector(int kind, int o) {
	static ccs_user_defined_tuner_vector_t P[8]; static ccs_user_defined_features_tuner_vector_t F[8]; static ccs_user_defined_tree_tuner_vector_t T[8]; static struct { ccs_dynamic_tree_space_vector_t v; ccs_result_t (*pad[8])(void); } D[8];
	static bool init = false;
	if (!init) {
		init = true;
		for (int i = 0; i < 8; i++) {
			P[i] = {pt_del, pt_ask, pt_tell, pt_opt, pt_hist, i & UV_SUGGEST ? pt_sug : NULL, i & UV_SER ? pt_ser : NULL, i & UV_DESER ? pt_deser : NULL};
			F[i] = {ft_del, ft_ask, ft_tell, ft_opt, ft_hist, i & UV_SUGGEST ? ft_sug : NULL, i & UV_SER ? ft_ser : NULL, i & UV_DESER ? ft_deser : NULL};
			T[i] = {tt_del, tt_ask, tt_tell, tt_opt, tt_hist, i & UV_SUGGEST ? tt_sug : NULL, i & UV_SER ? tt_ser : NULL, i & UV_DESER ? tt_deser : NULL};
			D[i].v = {ds_del, ds_child, i & UV_SER ? ds_ser : NULL, i & UV_DESER ? ds_deser : NULL}; for (auto &f : D[i].pad) f = refuse;
		}
	}
	return kind == 0 ? (void *)&P[o] : kind == 1 ? (void *)&F[o] : kind == 2 ? (void *)&T[o] : (void *)&D[o];
}

// ---------------------------------------------------------------- builders
ccs_evaluation_t mk_eval(const OSModel &os, ccs_configuration_t c, int res, const DV &v, Bag &bag) {
	std::vector<std::unique_ptr<char[]>> st; DV w; for (auto &d : v) w.push_back(transient_copy(d, st));
	ccs_evaluation_t e = NULL; OK(ccs_create_evaluation(os.os, c, (ccs_evaluation_result_t)res, w.size(), w.data(), &e)); return bag.own(e);
}
ccs_features_evaluation_t mk_feval(const OSModel &os, ccs_configuration_t c, ccs_features_t f, int res, const DV &v, Bag &bag) {
	std::vector<std::unique_ptr<char[]>> st; DV w; for (auto &d : v) w.push_back(transient_copy(d, st));
	ccs_features_evaluation_t e = NULL; OK(ccs_create_features_evaluation(os.os, c, f, (ccs_evaluation_result_t)res, w.size(), w.data(), &e)); return bag.own(e);
}
ccs_tree_evaluation_t mk_teval(const OSModel &os, ccs_tree_configuration_t c, int res, const DV &v, Bag &bag) {
	std::vector<std::unique_ptr<char[]>> st; DV w; for (auto &d : v) w.push_back(transient_copy(d, st));
	ccs_tree_evaluation_t e = NULL; OK(ccs_create_tree_evaluation(os.os, c, (ccs_evaluation_result_t)res, w.size(), w.data(), &e)); return bag.own(e);
}
ccs_rng_t mk_rng(Rng &r, Bag &bag) {
	ccs_rng_t g = NULL;
	if (r.below(2)) OK(ccs_create_rng(&g));
	else {
		const gsl_rng_type *ty[] = {gsl_rng_mt19937, gsl_rng_taus, gsl_rng_ranlux, gsl_rng_minstd, gsl_rng_gfsr4, gsl_rng_ranlxd1, gsl_rng_cmrg, gsl_rng_rand48};
		OK(ccs_create_rng_with_type(ty[r.below(8)], &g));
	}
	bag.own(g);
	OK(ccs_rng_set_seed(g, r.below(1000)));
	int k = r.below(20); unsigned long x; for (int i = 0; i < k; i++) OK(ccs_rng_get(g, &x));
	return g;
}
static CSModel z_cs(Rng &r, Bag &bag, const ZOpt &o) {
	CSOpt co; co.maxp = o.small ? 3 : 6; if (r.chance(1, 30)) co.minp = co.maxp = 0; else if (!o.small && !o.lean && r.chance(1, 30)) { co.minp = 20; co.maxp = r.pick({30, 70, 140}); } CSModel m = gen_cs(r, r.chance(1, 8) ? "" : "space", bag, co);
	if (!o.small || r.below(2)) OK(ccs_configuration_space_set_rng(m.cs, mk_rng(r, bag)));
	// shared and multidimensional distributions
	size_t n = m.ps.size();
	if (n >= 2 && r.chance(1, 3)) {
		std::vector<size_t> idx(n); for (size_t i = 0; i < n; i++) idx[i] = i; r.shuffle(idx);
		size_t k = r.range(2, n); idx.resize(k);
		std::vector<DModel> sub; std::vector<ccs_distribution_t> ds;
		for (size_t i = 0; i < k; i++) { sub.push_back(gen_dist_for(r, m.ps[idx[i]])); ds.push_back(sub[i].d); }
		ccs_distribution_t d = NULL; OK(ccs_create_multivariate_distribution(k, ds.data(), &d)); bag.own(d);
		OK(ccs_configuration_space_set_distribution(m.cs, d, idx.data()));
		for (auto &s : sub) release(s);
	}
	if (n >= 2 && r.chance(1, 4)) { // one distribution object for two parameters
		for (size_t i = 0; i + 1 < n; i++) if (m.ps[i].listlike() && m.ps[i + 1].listlike()) {
			DModel d; size_t mn = std::min(m.ps[i].values.size(), m.ps[i + 1].values.size());
			ccs_distribution_t x = NULL; OK(ccs_create_uniform_int_distribution(0, mn, CCS_SCALE_TYPE_LINEAR, 0, &x)); bag.own(x);
			OK(ccs_configuration_space_set_distribution(m.cs, x, &i)); size_t j = i + 1; OK(ccs_configuration_space_set_distribution(m.cs, x, &j));
			break;
		}
	}
	// a condition object shared by two parameters, a clause added twice
	if (!m.forb_o.empty() && r.chance(1, 4)) { OK(ccs_configuration_space_add_forbidden_clause(m.cs, m.forb_o[0])); m.forb.push_back(m.forb[0]); m.forb_o.push_back(m.forb_o[0]); }
	for (size_t i = 0; i < n && r.chance(1, 3); i++) if (m.cond_o[i]) {
		std::set<int> vs; vars_of(*m.cond[i], vs);
		for (size_t j = 0; j < n; j++) if (!m.cond[j] && !vs.count(j)) {
			if (ccs_configuration_space_set_condition(m.cs, j, m.cond_o[i]) == CCS_RESULT_SUCCESS) { m.cond[j] = m.cond[i]; m.cond_o[j] = m.cond_o[i]; }
			else ccs_clear_thread_error();
			break;
		}
		break;
	}
	// keep the space samplable: drop nothing, callers handle unsuccessful sampling
	return m;
}
static OSModel z_os(Rng &r, Bag &bag, const ZOpt &o, bool simple) {
	OSModel m = gen_os(r, "objectives", bag, simple, o.small ? 2 : 3);
	if (r.chance(1, 5)) {
		ccs_expression_t e = NULL; ccs_objective_type_t t; OK(ccs_objective_space_get_objective(m.os, 0, &e, &t));
		ccs_objective_type_t d = r.below(2) ? CCS_OBJECTIVE_TYPE_MINIMIZE : CCS_OBJECTIVE_TYPE_MAXIMIZE;
		OK(ccs_objective_space_add_objective(m.os, e, d)); m.obj.push_back(m.obj[0]); m.dir.push_back(d);
	}
	return m;
}
static ccs_configuration_t z_conf(Rng &r, const CSModel &m, Bag &bag) {
	ccs_configuration_t c = NULL;
	if (r.below(3)) {
		ccs_result_t e = ccs_configuration_space_sample(m.cs, &c);
		if (e == CCS_RESULT_SUCCESS) return bag.own(c);
		ccs_clear_thread_error();
	}
	if (r.below(2)) { OK(ccs_configuration_space_get_default_configuration(m.cs, &c)); return bag.own(c); }
	std::vector<std::unique_ptr<char[]>> st; DV v; for (auto &p : m.ps) v.push_back(transient_copy(r.chance(1, 6) ? ccs_inactive : p.in(r), st));
	OK(ccs_create_configuration(m.cs, v.size(), v.data(), &c)); return bag.own(c);
}
static ccs_configuration_t z_valid_conf(Rng &r, const CSModel &m, Bag &bag) {
	ccs_configuration_t c = NULL;
	if (ccs_configuration_space_sample(m.cs, &c) == CCS_RESULT_SUCCESS) return bag.own(c);
	ccs_clear_thread_error();
	OK(ccs_configuration_space_get_default_configuration(m.cs, &c)); return bag.own(c);
}
static ccs_features_t z_feat(Rng &r, const FSModel &m, Bag &bag) {
	std::vector<std::unique_ptr<char[]>> st; DV v; for (auto &d : m.rand_values(r)) v.push_back(transient_copy(d, st));
	ccs_features_t f = NULL; OK(ccs_create_features(m.fs, v.size(), v.data(), &f)); return bag.own(f);
}
static ccs_tree_configuration_t z_tconf(ccs_tree_space_t s, Bag &bag) {
	ccs_tree_configuration_t c = NULL; ccs_result_t e = ccs_tree_space_sample(s, &c);
	if (e == CCS_RESULT_ERROR_INVALID_DISTRIBUTION) { ccs_clear_thread_error(); OK(ccs_create_tree_configuration(s, 0, NULL, &c)); } // nothing selectable
	else OK(e);
	return bag.own(c);
}
static ccs_tree_space_t z_sts(Rng &r, Bag &bag, const ZOpt &o, TP *tp = nullptr) {
	TP t = gen_tree(r, bag, o.small ? 2 : 4, 3, true); ccs_tree_space_t s = NULL;
	OK(ccs_create_static_tree_space("tree space", t->t, &s)); bag.own(s); if (tp) *tp = t;
	if (r.below(2)) OK(ccs_tree_space_set_rng(s, mk_rng(r, bag)));
	return s;
}
static std::string z_state(Rng &r) { std::string s; int n = r.chance(1, 4) ? 0 : r.chance(1, 20) ? r.range(200, 9000) : r.range(1, 40); for (int i = 0; i < n; i++) s += (char)r.below(256); return s; }
static ccs_tree_space_t z_dts(Rng &r, Bag &bag, ZObj &z, const ZOpt &o) {
	z.ud = ud_new(3, r.next()); z.vopts = r.below(8) & (UV_SER | UV_DESER); z.vec = ud_vector(3, z.vopts); z.ud->state = z_state(r); z.ud->maxdepth = o.small ? 2 : 4;
	ccs_tree_t root = NULL; OK(ccs_create_tree(r.range(0, 3), gen_scalar(r), &root)); bag.own(root);
	ccs_tree_space_t s = NULL; OK(ccs_create_dynamic_tree_space("dynamic", root, (ccs_dynamic_tree_space_vector_t *)z.vec, z.ud, &s)); bag.own(s);
	if (r.below(2)) OK(ccs_tree_space_set_rng(s, mk_rng(r, bag)));
	int k = r.below(5); for (int i = 0; i < k; i++) z_tconf(s, bag);
	return s;
}
static int z_res(Rng &r) { return r.chance(1, 4) ? (int)r.range(-3, 5) : 0; }

ZObj zoo(Rng &r, int kind, Bag &bag, const ZOpt &o) {
	ZObj z; z.kind = kind; bool big = !o.small && !o.lean && r.chance(1, 16);
	switch (kind) {
	case Z_RNG: z.o = mk_rng(r, bag); break;
	case Z_DIST: { DModel d = gen_dist(r, o.small ? 1 : 3); z.info = d.str(); z.o = d.d; ccs_retain_object(z.o); bag.own(z.o); release(d); break; }
	case Z_PARAM: { POpt po; po.string = true; po.extreme = true; po.maxvals = o.small ? 3 : r.pick({3, 8, 40}); PModel p = gen_param(r, r.chance(1, 6) ? "" : "param", po); z.info = p.str(); z.o = bag.own(p.p); break; }
	case Z_EXPR: {
		std::vector<PModel> ps; std::vector<int> vars; int n = r.range(0, 3); POpt po; po.string = true;
		for (int i = 0; i < n; i++) { ps.push_back(gen_param(r, "p" + std::to_string(i), po)); bag.own(ps[i].p); vars.push_back(i); }
		EP e = gen_wild(r, ps, vars, o.small ? 2 : big ? 6 : 4); z.info = e->str(); z.o = bag.own(build_expr(&r, *e, ps));
		std::set<int> vs; vars_of(*e, vs); for (int v : vs) z.deps.push_back(ps[v].p); break;
	}
	case Z_CS: { CSModel m = z_cs(r, bag, o); z.info = m.str(); z.o = m.cs; break; }
	case Z_OS: { OSModel m = z_os(r, bag, o, r.below(2)); z.o = m.os; break; }
	case Z_FS: { FSModel m = gen_fs(r, "features", bag, o.small ? 2 : big ? 60 : 5, true); z.o = m.fs; break; }
	case Z_CONF: { CSModel m = z_cs(r, bag, o); z.info = m.str(); z.o = z_conf(r, m, bag); z.deps = {m.cs}; break; }
	case Z_FEAT: { FSModel m = gen_fs(r, "features", bag, big ? 60 : 4, true); z.o = z_feat(r, m, bag); z.deps = {m.fs}; break; }
	case Z_EVAL: { ZOpt q = o; q.small = true; CSModel c = z_cs(r, bag, q); OSModel m = z_os(r, bag, o, false); z.o = mk_eval(m, z_conf(r, c, bag), z_res(r), m.rand_values(r), bag); z.deps = {c.cs, m.os}; break; }
	case Z_FEVAL: { ZOpt q = o; q.small = true; CSModel c = z_cs(r, bag, q); OSModel m = z_os(r, bag, o, false); FSModel f = gen_fs(r, "f", bag, 3, true); z.o = mk_feval(m, z_conf(r, c, bag), z_feat(r, f, bag), z_res(r), m.rand_values(r), bag); z.deps = {c.cs, m.os, f.fs}; break; }
	case Z_TUNER: case Z_UTUNER: {
		ZOpt q = o; q.small = true; CSModel c = z_cs(r, bag, q); OSModel m = z_os(r, bag, o, r.chance(2, 3)); ccs_tuner_t t = NULL;
		if (kind == Z_TUNER) OK(ccs_create_random_tuner("tuner", c.cs, m.os, &t));
		else { z.ud = ud_new(0, r.next()); z.vopts = r.below(8); z.vec = ud_vector(0, z.vopts); z.ud->state = z_state(r); OK(ccs_create_user_defined_tuner("user tuner", c.cs, m.os, (ccs_user_defined_tuner_vector_t *)z.vec, z.ud, &t)); }
		bag.own(t);
		std::vector<ccs_evaluation_t> ev; int n = r.range(0, o.small ? 4 : big ? r.pick({20, 40, 150}) : 10);
		for (int i = 0; i < n; i++) ev.push_back(!ev.empty() && r.chance(1, 5) ? r.pick(ev) : mk_eval(m, z_valid_conf(r, c, bag), z_res(r), m.rand_values(r), bag));
		for (size_t i = 0; i < ev.size();) { size_t k = std::min<size_t>(ev.size() - i, r.range(1, 3)); OK(ccs_tuner_tell(t, k, ev.data() + i)); i += k; }
		z.o = t; break;
	}
	case Z_FTUNER: case Z_UFTUNER: {
		ZOpt q = o; q.small = true; CSModel c = z_cs(r, bag, q); OSModel m = z_os(r, bag, o, r.chance(2, 3)); FSModel f = gen_fs(r, "f", bag, 2, true); ccs_features_tuner_t t = NULL;
		if (kind == Z_FTUNER) OK(ccs_create_random_features_tuner("ftuner", c.cs, f.fs, m.os, &t));
		else { z.ud = ud_new(1, r.next()); z.vopts = r.below(8); z.vec = ud_vector(1, z.vopts); z.ud->state = z_state(r); OK(ccs_create_user_defined_features_tuner("user ftuner", c.cs, f.fs, m.os, (ccs_user_defined_features_tuner_vector_t *)z.vec, z.ud, &t)); }
		bag.own(t);
		std::vector<ccs_features_evaluation_t> ev; std::vector<ccs_features_t> fv; int n = r.range(0, o.small ? 4 : big ? r.pick({20, 40, 150}) : 10);
		for (int i = 0; i < 3; i++) fv.push_back(z_feat(r, f, bag));
		for (int i = 0; i < n; i++) ev.push_back(!ev.empty() && r.chance(1, 5) ? r.pick(ev) : mk_feval(m, z_valid_conf(r, c, bag), r.pick(fv), z_res(r), m.rand_values(r), bag));
		for (size_t i = 0; i < ev.size();) { size_t k = std::min<size_t>(ev.size() - i, r.range(1, 3)); OK(ccs_features_tuner_tell(t, k, ev.data() + i)); i += k; }
		z.o = t; break;
	}
	case Z_TREE: { TP t = gen_tree(r, bag, o.small ? 2 : 4, 4, true); z.o = t->t; break; }
	case Z_STS: z.o = z_sts(r, bag, o); break;
	case Z_DTS: z.o = z_dts(r, bag, z, o); break;
	case Z_TCONF: { ccs_tree_space_t s = r.below(3) ? z_sts(r, bag, o) : z_dts(r, bag, z, o); z.ud = nullptr; z.vec = nullptr; z.o = z_tconf(s, bag); z.deps = {s}; break; }
	case Z_TEVAL: { ccs_tree_space_t s = z_sts(r, bag, o); OSModel m = z_os(r, bag, o, false); z.o = mk_teval(m, z_tconf(s, bag), z_res(r), m.rand_values(r), bag); z.deps = {s, m.os}; break; }
	case Z_TTUNER: case Z_UTTUNER: {
		OSModel m = z_os(r, bag, o, r.chance(2, 3)); ccs_tree_space_t s; ccs_tree_tuner_t t = NULL;
		if (kind == Z_TTUNER && r.chance(1, 3)) s = z_dts(r, bag, z, o); else s = z_sts(r, bag, o);
		if (kind == Z_TTUNER) OK(ccs_create_random_tree_tuner("ttuner", s, m.os, &t));
		else { z.ud = ud_new(2, r.next()); z.vopts = r.below(8); z.vec = ud_vector(2, z.vopts); z.ud->state = z_state(r); OK(ccs_create_user_defined_tree_tuner("user ttuner", s, m.os, (ccs_user_defined_tree_tuner_vector_t *)z.vec, z.ud, &t)); }
		bag.own(t);
		std::vector<ccs_tree_evaluation_t> ev; int n = r.range(0, o.small ? 4 : big ? r.pick({20, 40, 150}) : 10);
		for (int i = 0; i < n; i++) ev.push_back(!ev.empty() && r.chance(1, 5) ? r.pick(ev) : mk_teval(m, z_tconf(s, bag), z_res(r), m.rand_values(r), bag));
		for (size_t i = 0; i < ev.size();) { size_t k = std::min<size_t>(ev.size() - i, r.range(1, 3)); OK(ccs_tree_tuner_tell(t, k, ev.data() + i)); i += k; }
		z.o = t; break;
	}
	default: {
		ccs_map_t m = NULL; OK(ccs_create_map(&m)); bag.own(m); int n = r.range(0, o.small ? 4 : big ? r.pick({40, 300}) : 12);
		for (int i = 0; i < n; i++) { std::vector<std::unique_ptr<char[]>> st; OK(ccs_map_set(m, transient_copy(gen_scalar(r), st), transient_copy(gen_scalar(r), st))); }
		z.o = m; break;
	}
	}
	return z;
}
ccs_map_t zoo_map(const ZObj &z) {
	ccs_map_t m = NULL; OK(ccs_create_map(&m));
	for (auto d : z.deps) { ccs_datum_t k = ccs_object(d); k.flags |= CCS_DATUM_FLAG_ID; OK(ccs_map_set(m, k, ccs_object(d))); }
	return m;
}
ccs_result_t zoo_reload(const ZObj &z, const char *b, size_t n, ccs_map_t map, ccs_object_t *out, UD **ud) {
	*out = NULL;
	if (z.vec) {
		UD *u = ud_new(z.ud->kind, z.ud->seed); u->maxdepth = z.ud->maxdepth; u->maxarity = z.ud->maxarity; u->gen_child = z.ud->gen_child; if (ud) *ud = u;
		return ccs_object_deserialize(out, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map,
			CCS_DESERIALIZE_OPTION_VECTOR, z.vec, CCS_DESERIALIZE_OPTION_DATA, u, CCS_DESERIALIZE_OPTION_END);
	}
	return ccs_object_deserialize(out, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_END);
}
ccs_object_t zoo_reload_ok(const ZObj &z, const std::vector<char> &b, Bag &bag, UD **ud) {
	ccs_map_t m = bag.own(zoo_map(z)); ccs_object_t o = NULL;
	ccs_result_t e = zoo_reload(z, b.data(), b.size(), m, &o, ud);
	CHECK(e == CCS_RESULT_SUCCESS, std::string("reload-refused:") + zname[z.kind], "deserializing a %s gives %s; %s", zname[z.kind], rname(e), z.info.c_str());
	return bag.own(o);
}
