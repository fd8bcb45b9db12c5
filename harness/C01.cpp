// C01: any sequence of calls with live objects, valid or rejected arguments,
// runs without undefined behaviour.  Random programs over the whole interface:
// the calls come from api.inc (generated from the headers by tools/mkapi.py),
// arguments from a pool of live objects and from extreme values.
#include "draw.hpp"
#include <cfloat>
const char *PROP = "C01";
uint64_t num_cases(bool t) { return t ? 600000 : 60000; }
bool ledger_check() { return true; }
void prop_init() { ud_vector(0, 0); }

template <class T> struct htype { static constexpr int v = -2; };
#define HT(t, k) template <> struct htype<t> { static constexpr int v = k; };
HT(ccs_rng_t, CCS_OBJECT_TYPE_RNG) HT(ccs_distribution_t, CCS_OBJECT_TYPE_DISTRIBUTION) HT(ccs_parameter_t, CCS_OBJECT_TYPE_PARAMETER) HT(ccs_expression_t, CCS_OBJECT_TYPE_EXPRESSION)
HT(ccs_configuration_space_t, CCS_OBJECT_TYPE_CONFIGURATION_SPACE) HT(ccs_configuration_t, CCS_OBJECT_TYPE_CONFIGURATION) HT(ccs_features_space_t, CCS_OBJECT_TYPE_FEATURES_SPACE) HT(ccs_features_t, CCS_OBJECT_TYPE_FEATURES)
HT(ccs_objective_space_t, CCS_OBJECT_TYPE_OBJECTIVE_SPACE) HT(ccs_evaluation_t, CCS_OBJECT_TYPE_EVALUATION) HT(ccs_features_evaluation_t, CCS_OBJECT_TYPE_FEATURES_EVALUATION) HT(ccs_tuner_t, CCS_OBJECT_TYPE_TUNER)
HT(ccs_features_tuner_t, CCS_OBJECT_TYPE_FEATURES_TUNER) HT(ccs_map_t, CCS_OBJECT_TYPE_MAP) HT(ccs_error_stack_t, CCS_OBJECT_TYPE_ERROR_STACK) HT(ccs_tree_t, CCS_OBJECT_TYPE_TREE) HT(ccs_tree_space_t, CCS_OBJECT_TYPE_TREE_SPACE)
HT(ccs_tree_configuration_t, CCS_OBJECT_TYPE_TREE_CONFIGURATION) HT(ccs_tree_evaluation_t, CCS_OBJECT_TYPE_TREE_EVALUATION) HT(ccs_tree_tuner_t, CCS_OBJECT_TYPE_TREE_TUNER)
HT(ccs_object_t, -1) HT(ccs_context_t, 100) HT(ccs_binding_t, 101)
static const size_t MAXT = CCS_OBJECT_TYPE_MAX + 1;
static int type_of(ccs_object_t o) { ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); return (int)t; }
static bool is_ctx(int t) { return t == CCS_OBJECT_TYPE_CONFIGURATION_SPACE || t == CCS_OBJECT_TYPE_FEATURES_SPACE || t == CCS_OBJECT_TYPE_OBJECTIVE_SPACE; }
static bool is_bind(int t) { return t == CCS_OBJECT_TYPE_CONFIGURATION || t == CCS_OBJECT_TYPE_FEATURES || t == CCS_OBJECT_TYPE_EVALUATION || t == CCS_OBJECT_TYPE_FEATURES_EVALUATION || t == CCS_OBJECT_TYPE_TREE_EVALUATION; }

static const double FX[] = {0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-300, -1e-300, DBL_MIN, DBL_TRUE_MIN, DBL_MAX, -DBL_MAX, 1e18, -1e18, 9.3e18, -9.3e18, 1e19, 4503599627370496.5, 9007199254740993.0, 0.1, 3.7, 1e-9, 100.0, DBL_EPSILON};
static const int64_t IX[] = {0, 1, -1, 2, -2, 3, 5, 7, 10, 100, -100, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, 1LL << 52, (1LL << 53) + 1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1};

struct W {
	Rng &r; std::vector<ccs_object_t> pool[MAXT]; size_t count = 0; int wild; // wild: per mille of deliberately wrong arguments
	ccs_object_t last = NULL; size_t n = 0; std::vector<std::function<void()>> post, done /* done: on success only */; std::vector<std::shared_ptr<void>> hold; bool honest = true;
	std::vector<std::unique_ptr<char[]>> tstore; std::vector<ccs_object_t> keep; // pending adoption
	W(Rng &rr) : r(rr) { static const int ws[] = {0, 5, 20, 80}; wild = ws[r.below(4)]; }
	bool odd() { return (int)r.below(1000) < wild; }
	void adopt(ccs_object_t o) { // takes over one reference
		auto &v = pool[type_of(o)]; if (v.size() >= 12 || r.below(20) == 0) { if (!v.empty()) { size_t k = r.below(v.size()); ccs_object_t x = v[k]; v[k] = o; ccs_release_object(x); count++; ev("dropped"); return; } } v.push_back(o); }
	void borrow(ccs_object_t o) { if (r.below(4) == 0) { ccs_retain_object(o); keep.push_back(o); ev("borrowed"); } /* adopted after the call: adopting may drop the owner of others */ }
	~W() { for (;;) { std::vector<int> ne; for (size_t t = 0; t < MAXT; t++) if (!pool[t].empty()) ne.push_back(t); if (ne.empty()) break; auto &v = pool[r.pick(ne)]; size_t k = r.below(v.size()); ccs_object_t o = v[k]; v.erase(v.begin() + k); ccs_release_object(o); } }
	ccs_object_t any() { for (int i = 0; i < 30; i++) { auto &v = pool[r.below(MAXT)]; if (!v.empty()) return r.pick(v); } return NULL; }
	ccs_object_t of(int t) {
		if (t == -1) return any();
		if (t == 100 || t == 101) { std::vector<ccs_object_t> c; for (size_t k = 0; k < MAXT; k++) if (t == 100 ? is_ctx(k) : is_bind(k)) for (auto o : pool[k]) c.push_back(o); return c.empty() ? NULL : r.pick(c); }
		return pool[t].empty() ? NULL : r.pick(pool[t]);
	}
	ccs_context_t ctx_of(ccs_object_t o) { if (!o) return NULL; int t = type_of(o); if (is_ctx(t)) return (ccs_context_t)o; ccs_context_t c = NULL; if (is_bind(t)) OK(ccs_binding_get_context((ccs_binding_t)o, &c)); return c; }
	std::vector<ccs_parameter_t> params(ccs_object_t o) { ccs_context_t c = ctx_of(o); std::vector<ccs_parameter_t> v; if (!c) return v; size_t k = 0; OK(ccs_context_get_num_parameters(c, &k)); for (size_t i = 0; i < k; i++) { ccs_parameter_t p; OK(ccs_context_get_parameter(c, i, &p)); v.push_back(p); } return v; }
	ccs_object_t handle(int t) {
		ccs_object_t o;
		if (odd()) { o = r.chance(1, 2) ? NULL : any(); honest = false; }
		else {
			o = of(t);
			if (last && t == CCS_OBJECT_TYPE_PARAMETER && r.below(3)) { auto p = params(last); if (!p.empty()) o = r.pick(p); }
			if (last && r.below(3)) { // a related object rather than any
				int lt = type_of(last);
				if (t == CCS_OBJECT_TYPE_CONFIGURATION && lt == CCS_OBJECT_TYPE_CONFIGURATION_SPACE) for (auto c : pool[t]) if (ctx_of(c) == (ccs_context_t)last) o = c;
				if (t == CCS_OBJECT_TYPE_DISTRIBUTION && lt == CCS_OBJECT_TYPE_PARAMETER) { ccs_distribution_t d; if (ccs_parameter_get_default_distribution((ccs_parameter_t)last, &d) == 0) { o = d; adopt_later(d); } else ccs_clear_thread_error(); }
			}
			if (last && r.below(2) && is_bind(type_of(last)) && (t == 101 || is_bind(t))) { std::vector<ccs_object_t> c; for (size_t k = 0; k < MAXT; k++) if (t == 101 ? is_bind(k) : (int)k == t) for (auto b : pool[k]) if (ctx_of(b) == ctx_of(last)) c.push_back(b); if (!c.empty()) o = r.pick(c); }
			if (t == CCS_OBJECT_TYPE_DISTRIBUTION && last && is_ctx(type_of(last)) && r.below(2)) o = NULL; // optional
		}
		if (o) last = o; return o;
	}
	void adopt_later(ccs_object_t o) { keep.push_back(o); }
	double flt() { switch (r.below(8)) { case 0: return (double)r.range(-20, 20); case 1: return r.unit(); case 2: return odd() ? r.pick({INFINITY, -INFINITY, NAN}) : r.real(-1e6, 1e6); default: return FX[r.below(sizeof FX / sizeof *FX)]; } }
	int64_t integer() { return r.below(3) ? r.range(-20, 20) : IX[r.below(sizeof IX / sizeof *IX)]; }
	size_t index() { return r.below(12) ? r.below(5) : r.below(2) ? r.below(40) : (size_t)(0 - (uint64_t)(1 + r.below(3))) >> (r.below(3) * 31); }
	const char *name() {
		if (odd()) return NULL; auto p = params(last); if (!p.empty() && r.below(3)) { const char *s; OK(ccs_parameter_get_name(r.pick(p), &s)); return s; }
		static const char *nm[] = {"", "a", "b", "x", "param", "%s%n%d", "\xc3\xa9\xf0\x9f", "a b\t\"'\\\n"}; if (r.below(40) == 0) return intern(std::string(3000, 'z')); return r.below(2) ? intern(sfmt("n%u", (unsigned)r.below(30))) : nm[r.below(8)]; }
	ccs_datum_t fit(ccs_parameter_t p) { ccs_datum_t d = ccs_none; if (r.below(3) == 0) { if (ccs_parameter_get_default_value(p, &d)) ccs_clear_thread_error(); if (d.type == CCS_DATA_TYPE_STRING) d = ccs_string(intern(d.value.s)); return d; } ccs_distribution_t ds; if (ccs_parameter_get_default_distribution(p, &ds)) { ccs_clear_thread_error(); return ccs_string(name0()); } ccs_rng_t g; OK(ccs_create_rng(&g)); OK(ccs_rng_set_seed(g, r.below(1 << 30))); if (ccs_parameter_sample(p, ds, g, &d)) { ccs_clear_thread_error(); d = ccs_none; } ccs_release_object(g); ccs_release_object(ds); if (d.type == CCS_DATA_TYPE_STRING) d = ccs_string(intern(d.value.s)); return d; }
	const char *name0() { const char *s = name(); return s ? intern(s) : ""; } // stored by pointer: outlives the case
	ccs_datum_t datum(ccs_parameter_t p = NULL) {
		if (!p && last && type_of(last) == CCS_OBJECT_TYPE_PARAMETER) p = (ccs_parameter_t)last;
		if (!p && last) { auto v = params(last); if (!v.empty()) p = r.pick(v); }
		if (p && r.below(5)) return fit(p);
		switch (r.below(10)) { case 0: return ccs_none; case 1: return ccs_inactive; case 2: return r.chance(1, 2) ? ccs_true : ccs_false; case 3: return ccs_int(integer()); case 4: return ccs_float(flt()); case 5: return ccs_string(name0());
		case 6: case 7: { ccs_object_t o = r.chance(1, 2) ? of(CCS_OBJECT_TYPE_EXPRESSION) : of(CCS_OBJECT_TYPE_PARAMETER); if (!o) return ccs_int(1); return ccs_object(o); }
		case 8: return transient_copy(ccs_string(name0()), tstore); default: return gen_scalar(r); }
	}
	ccs_datum_t node() { // operand of an expression
		ccs_object_t o = NULL; if (r.below(3)) o = r.chance(1, 2) ? of(CCS_OBJECT_TYPE_EXPRESSION) : of(CCS_OBJECT_TYPE_PARAMETER); if (o) return ccs_object(o); switch (r.below(4)) { case 0: return ccs_int(integer()); case 1: return ccs_float(flt()); case 2: return r.chance(1, 2) ? ccs_true : ccs_false; default: return datum(); } }
};
static bool g_nodes; // datums are expression operands
template <class T> static T value(W &w) {
	if constexpr (std::is_same_v<T, ccs_datum_t>) return g_nodes ? w.node() : w.datum();
	else if constexpr (std::is_same_v<T, ccs_numeric_t>) { ccs_numeric_t x; if (w.r.chance(1, 2)) x.f = w.flt(); else x.i = w.integer(); return x; }
	else if constexpr (std::is_floating_point_v<T>) return w.flt();
	else if constexpr (std::is_same_v<T, ccs_numeric_type_t>) return w.odd() ? (T)CCS_DATA_TYPE_STRING : w.r.chance(1, 2) ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
	else if constexpr (std::is_same_v<T, ccs_scale_type_t>) return w.odd() ? (T)(CCS_SCALE_TYPE_MAX + w.r.below(3)) : (T)w.r.below(CCS_SCALE_TYPE_MAX);
	else if constexpr (std::is_same_v<T, ccs_expression_type_t>) return w.odd() ? (T)(CCS_EXPRESSION_TYPE_MAX + w.r.below(3)) : (T)w.r.below(CCS_EXPRESSION_TYPE_MAX);
	else if constexpr (std::is_same_v<T, ccs_objective_type_t>) return w.odd() ? (T)(CCS_OBJECTIVE_TYPE_MAX + w.r.below(3)) : (T)w.r.below(CCS_OBJECTIVE_TYPE_MAX);
	else if constexpr (std::is_same_v<T, ccs_bool_t>) return (T)w.r.chance(1, 2); // includes evaluation results: any small integer
	else if constexpr (std::is_same_v<T, size_t>) return w.index();
	else if constexpr (std::is_class_v<T>) return T{};
	else return (T)w.integer();
}
template <class T> static void fresh(T *p, size_t n) { memset((void *)p, 0xA5, n * sizeof(T)); }
template <class P> static P make(W &w, char c, const char *fn) {
	if constexpr (std::is_same_v<P, const char *>) return w.name();
	else if constexpr (std::is_pointer_v<P> && htype<P>::v != -2) { return (P)w.handle(htype<P>::v); }
	else if constexpr (std::is_pointer_v<P>) {
		typedef std::remove_const_t<std::remove_pointer_t<P>> T;
		size_t n = c == 'R' || c == 'C' ? 1 : w.n; if (n == 0 || w.odd()) { if (n || w.r.chance(1, 2)) return NULL; }
		T *a = new T[n]; w.hold.push_back(std::shared_ptr<void>((void *)a, [](void *p) { delete[] (T *)p; })); fresh(a, n); // exact size: the ends are guarded by ASan
		if (c == 'a') {
			ccs_object_t ctx = w.last; auto ps = w.params(ctx);
			for (size_t i = 0; i < n; i++) {
				if constexpr (std::is_pointer_v<T> && htype<T>::v != -2) { a[i] = (T)(w.odd() ? w.any() : htype<T>::v == CCS_OBJECT_TYPE_PARAMETER && !ps.empty() && w.r.below(3) ? (ccs_object_t)w.r.pick(ps) : w.of(htype<T>::v)); }
				else if constexpr (std::is_same_v<T, ccs_datum_t>) a[i] = g_nodes ? w.node() : i < ps.size() ? w.datum(ps[i]) : w.datum();
				else a[i] = value<T>(w);
			}
		}
		if constexpr (std::is_pointer_v<T> && htype<T>::v != -2) {
			if (c != 'a') for (size_t i = 0; i < n; i++) a[i] = NULL;
			if (c == 'O') w.post.push_back([&w, a, n] { for (size_t i = 0; i < n; i++) if (a[i]) { w.adopt(a[i]); ev("new.array"); } });
			if (c == 'C') w.done.push_back([&w, a] { if (a[0]) { w.adopt(a[0]); ev("new"); } });
			if (c == 'R' || c == 'b') w.done.push_back([&w, a, n] { for (size_t i = 0; i < n; i++) if (a[i]) w.borrow(a[i]); });
		}
		if constexpr (std::is_same_v<T, ccs_datum_t>) if (c == 'R' || c == 'b') { for (size_t i = 0; i < n; i++) a[i] = ccs_none; w.done.push_back([a, n] { for (size_t i = 0; i < n; i++) use_datum(a[i]); }); }
		if constexpr (std::is_same_v<T, const char *>) { a[0] = NULL; w.done.push_back([a] { volatile size_t z = a[0] ? strlen(a[0]) : 0; (void)z; }); }
		return a;
	}
	else if constexpr (std::is_same_v<P, size_t>) {
		if (c == 'i') return w.index();
		auto k = w.params(w.last).size(); w.n = k && w.r.below(4) ? k : w.r.below(6) ? w.r.below(5) : w.r.below(40); return w.n; }
	else { (void)fn; return value<P>(w); }
}
struct Fn { const char *name; std::function<ccs_result_t(W &)> call; int weight; std::vector<int> needs; };
template <class... P> static Fn entry(const char *name, ccs_result_t (*fn)(P...), const char *spec) {
	bool nodes = strstr(name, "ccs_create_") && strstr(name, "expression"), creates = strchr(spec, 'C') || strchr(spec, 'O');
	return {name, [=](W &w) { const char *s = spec; g_nodes = nodes;  std::tuple<P...> a{make<P>(w, *s++, name)...}; return std::apply(fn, a); }, creates ? 3 : strstr(name, "_add_") || strstr(name, "_set_") || strstr(name, "_tell") ? 3 : 1, {htype<P>::v...}};
}
static size_t dimof(ccs_object_t d) { size_t n = 1; if (d && type_of(d) == CCS_OBJECT_TYPE_DISTRIBUTION) OK(ccs_distribution_get_dimension((ccs_distribution_t)d, &n)); return n; }
static std::vector<Fn> &table() {
	static std::vector<Fn> t;
	if (!t.empty()) return t;
#define API(f, s) t.push_back(entry(#f, f, s));
#include "api.inc"
#undef API
	auto add = [&](const char *n, std::function<ccs_result_t(W &)> f, int wt = 1) { int need = strstr(n, "distribution") ? CCS_OBJECT_TYPE_DISTRIBUTION : strstr(n, "expression") ? CCS_OBJECT_TYPE_EXPRESSION : -2; t.push_back({n, f, wt, {need}}); };
	auto D = [](W &w) { return (ccs_distribution_t)w.handle(CCS_OBJECT_TYPE_DISTRIBUTION); };
	auto G = [](W &w) { w.last = NULL; return (ccs_rng_t)w.handle(CCS_OBJECT_TYPE_RNG); };
	add("ccs_create_tree", [](W &w) { ccs_tree_t o = NULL; size_t ar = w.r.below(50) == 0 ? w.r.pick({SIZE_MAX, SIZE_MAX / 24, SIZE_MAX / 24 + 1, SIZE_MAX / 8, SIZE_MAX / 16 + 2, (size_t)1 << 61, (size_t)1 << 63, (size_t)1 << 45}) : w.r.below(4); ccs_result_t e = ccs_create_tree(ar, w.datum(), &o); if (!e) w.adopt(o); return e; }, 4);
	add("ccs_create_rng_with_type", [](W &w) { static const gsl_rng_type **ty = gsl_rng_types_setup(); size_t n = 0; while (ty[n]) n++; ccs_rng_t o = NULL; ccs_result_t e = ccs_create_rng_with_type(w.odd() ? NULL : ty[w.r.below(n)], &o); if (!e) w.adopt(o); return e; });
	add("ccs_rng_set_seed", [](W &w) { return ccs_rng_set_seed((ccs_rng_t)w.handle(CCS_OBJECT_TYPE_RNG), (unsigned long)w.r.below(1u << 31)); });
	add("ccs_configuration_space_set_distribution", [=](W &w) { auto c = (ccs_configuration_space_t)w.handle(CCS_OBJECT_TYPE_CONFIGURATION_SPACE); w.last = NULL; auto d = D(w); size_t n = dimof(d); std::vector<size_t> ix(n); for (auto &x : ix) x = w.index(); if (w.r.below(3)) for (size_t i = 0; i < n; i++) ix[i] = i; return ccs_configuration_space_set_distribution(c, d, w.odd() ? NULL : ix.data()); }, 3);
	add("ccs_configuration_space_add_parameters", [](W &w) { auto c = (ccs_configuration_space_t)w.handle(CCS_OBJECT_TYPE_CONFIGURATION_SPACE); size_t n = w.r.below(4); std::vector<ccs_parameter_t> p; std::vector<ccs_distribution_t> d; for (size_t i = 0; i < n; i++) { p.push_back((ccs_parameter_t)w.of(CCS_OBJECT_TYPE_PARAMETER)); d.push_back(w.r.chance(1, 2) ? NULL : (ccs_distribution_t)w.of(CCS_OBJECT_TYPE_DISTRIBUTION)); } return ccs_configuration_space_add_parameters(c, n, p.data(), w.r.chance(1, 2) ? NULL : d.data()); }, 2);
	add("ccs_distribution_get_data_types", [=](W &w) { auto d = D(w); std::vector<ccs_numeric_type_t> v(dimof(d)); return ccs_distribution_get_data_types(d, v.data()); });
	add("ccs_distribution_get_bounds", [=](W &w) { auto d = D(w); std::vector<ccs_interval_t> v(dimof(d)); return ccs_distribution_get_bounds(d, v.data()); });
	add("ccs_distribution_check_oversampling", [=](W &w) { auto d = D(w); size_t n = dimof(d); std::vector<ccs_interval_t> v(n); std::vector<ccs_numeric_type_t> ty(n); if (ccs_distribution_get_data_types(d, ty.data())) ccs_clear_thread_error(); for (size_t i = 0; i < n; i++) { v[i].type = ty[i]; v[i].lower = value<ccs_numeric_t>(w); v[i].upper = value<ccs_numeric_t>(w); v[i].lower_included = v[i].upper_included = CCS_TRUE; } std::vector<ccs_bool_t> b(n); return ccs_distribution_check_oversampling(d, v.data(), b.data()); });
	add("ccs_distribution_sample", [=](W &w) { auto d = D(w); auto g = G(w); std::vector<ccs_numeric_t> v(dimof(d)); return ccs_distribution_sample(d, g, v.data()); }, 2);
	add("ccs_distribution_samples", [=](W &w) { auto d = D(w); auto g = G(w); size_t n = w.r.below(6); std::vector<ccs_numeric_t> v(dimof(d) * n); return ccs_distribution_samples(d, g, n, v.data()); }, 2);
	add("ccs_distribution_strided_samples", [=](W &w) { auto d = D(w); auto g = G(w); size_t n = w.r.below(6), k = dimof(d) + w.r.below(3); std::vector<ccs_numeric_t> v(n ? (n - 1) * k + dimof(d) : 0); return ccs_distribution_strided_samples(d, g, n, k, v.data()); }, 2);
	add("ccs_distribution_soa_samples", [=](W &w) { auto d = D(w); auto g = G(w); size_t n = w.r.below(6), k = dimof(d); std::vector<std::vector<ccs_numeric_t>> v(k, std::vector<ccs_numeric_t>(n)); std::vector<ccs_numeric_t *> q; for (auto &x : v) q.push_back(w.r.below(5) ? x.data() : NULL); return ccs_distribution_soa_samples(d, g, n, q.data()); }, 2);
	add("ccs_distribution_parameters_samples", [=](W &w) { auto d = D(w); auto g = G(w); size_t n = w.r.below(6), k = dimof(d); std::vector<ccs_parameter_t> p; for (size_t i = 0; i < k; i++) p.push_back((ccs_parameter_t)w.of(CCS_OBJECT_TYPE_PARAMETER)); DV v(n * k, ccs_none); return n == 1 ? ccs_distribution_parameters_sample(d, g, p.data(), v.data()) : ccs_distribution_parameters_samples(d, g, p.data(), n, v.data()); }, 2);
	auto eval = [](W &w, bool list) { auto e = (ccs_expression_t)w.handle(CCS_OBJECT_TYPE_EXPRESSION); w.last = NULL; ccs_context_t c = w.r.below(3) ? (ccs_context_t)w.handle(100) : NULL; auto ps = w.params(c && is_ctx(type_of(c)) ? c : NULL); DV v; for (auto p : ps) v.push_back(w.datum(p)); ccs_datum_t d = ccs_none; ccs_datum_t *vp = w.r.below(10) ? v.data() : NULL; ccs_result_t x = list ? ccs_expression_list_eval_node(e, c, vp, w.index(), &d) : ccs_expression_eval(e, c, vp, &d); if (!x) use_datum(d); return x; };
	add("ccs_expression_eval", [=](W &w) { return eval(w, false); }, 5); add("ccs_expression_list_eval_node", [=](W &w) { return eval(w, true); }, 2);
	add("ccs_create_error_stack", [](W &w) { ccs_error_stack_t o = NULL; ccs_result_t e = ccs_create_error_stack(&o, (ccs_result_t)-(int)w.r.below(40), w.r.chance(1, 2) ? NULL : "problem %s %d", w.name0(), (int)w.r.below(100)); if (!e) w.adopt(o); return e; });
	add("ccs_error_stack_push", [](W &w) { return ccs_error_stack_push((ccs_error_stack_t)w.handle(CCS_OBJECT_TYPE_ERROR_STACK), "file.c", (int)w.r.below(1000), "function"); }, 2);
	add("ccs_error_stack_get", [](W &w) { auto s = (ccs_error_stack_t)w.handle(CCS_OBJECT_TYPE_ERROR_STACK); const char *m = NULL; ccs_result_t c, e = ccs_error_stack_get_message(s, &m); if (!e && m) use_datum(ccs_string(m)); ccs_error_stack_get_code(s, &c); size_t n; ccs_error_stack_elem_t *el; e = ccs_error_stack_get_elems(s, &n, &el); if (!e) for (size_t i = 0; i < n; i++) { use_datum(ccs_string(el[i].file)); use_datum(ccs_string(el[i].func)); } return e; });
	add("ccs_set_thread_error", [](W &w) { auto s = (ccs_error_stack_t)w.of(CCS_OBJECT_TYPE_ERROR_STACK); if (s && w.r.chance(1, 2)) { ccs_retain_object(s); ccs_result_t e = ccs_set_thread_error(s); return e; } ccs_error_stack_t g = ccs_get_thread_error(); if (g) w.adopt(g); return CCS_RESULT_SUCCESS; });
	add("ccs_get_result_name", [](W &w) { const char *s = NULL; ccs_result_t e = ccs_get_result_name((ccs_result_t)w.r.range(-60, 60), &s); if (!e && s) use_datum(ccs_string(s)); return e; });
	auto iv = [](W &w) { ccs_interval_t i; memset(&i, 0, sizeof i); i.type = w.r.chance(1, 2) ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT; if (i.type == CCS_NUMERIC_TYPE_INT) { i.lower.i = w.integer(); i.upper.i = w.integer(); } else { i.lower.f = w.flt(); i.upper.f = w.flt(); } i.lower_included = (ccs_bool_t)w.r.chance(1, 2); i.upper_included = (ccs_bool_t)w.r.chance(1, 2); return i; };
	add("ccs_interval", [=](W &w) { auto a = iv(w), b = iv(w), o = a; ccs_bool_t t; ccs_interval_empty(&a, &t); ccs_interval_equal(&a, &b, &t); ccs_interval_include(&a, value<ccs_numeric_t>(w)); ccs_clear_thread_error(); ccs_result_t e = ccs_interval_union(&a, &b, &o); if (e) ccs_clear_thread_error(); return ccs_interval_intersect(&a, &b, &o); });
	add("ccs_parameter_convert_samples", [](W &w) { // without oversampling the samples must lie in the sampling interval
		auto p = (ccs_parameter_t)w.handle(CCS_OBJECT_TYPE_PARAMETER); size_t n = w.r.below(6); std::vector<ccs_numeric_t> v(n); DV o(n, ccs_none); ccs_interval_t iv; bool over = true;
		if (p && w.r.chance(1, 2) && ccs_parameter_sampling_interval(p, &iv) == 0) { ccs_numeric_t lo = iv.lower; if (iv.type == CCS_NUMERIC_TYPE_INT ? iv.lower_included : iv.lower_included) { over = false; for (auto &x : v) x = lo; } } else for (auto &x : v) x = value<ccs_numeric_t>(w);
		if (over) for (auto &x : v) x = value<ccs_numeric_t>(w);
		ccs_clear_thread_error(); ccs_result_t e = ccs_parameter_convert_samples(p, over ? CCS_TRUE : CCS_FALSE, n, v.data(), o.data()); if (!e) for (auto &d : o) use_datum(d); return e; }, 2);
	add("exercise", [](W &w) { auto o = w.any(); if (o) { Rng q = Rng(w.r.next()); exercise(q, o); } return CCS_RESULT_SUCCESS; }, 3);
	add("save and load", [](W &w) {
		auto o = w.any(); size_t n = 0; if (!o) return CCS_RESULT_SUCCESS; ccs_result_t e = ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END); if (e) return e;
		std::unique_ptr<char[]> b(new char[n]); e = ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b.get(), CCS_SERIALIZE_OPTION_END); if (e) return e; ev("saved");
		ccs_map_t m = NULL; OK(ccs_create_map(&m)); for (size_t t = 0; t < MAXT; t++) for (auto x : w.pool[t]) if (x != o && t != CCS_OBJECT_TYPE_MAP && w.r.below(4)) { ccs_datum_t k = ccs_object(x); k.flags = CCS_DATUM_FLAG_ID; OK(ccs_map_set(m, k, ccs_object(x))); }
		ccs_object_t c = NULL; int ut = type_of(o); if (ut == CCS_OBJECT_TYPE_TUNER || ut == CCS_OBJECT_TYPE_FEATURES_TUNER || ut == CCS_OBJECT_TYPE_TREE_TUNER || ut == CCS_OBJECT_TYPE_TREE_SPACE) { ccs_release_object(m); return CCS_RESULT_SUCCESS; } // may need a callback vector
		e = ccs_object_deserialize(&c, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b.get(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END); if (!e) { ev("loaded"); w.adopt(c); } ccs_release_object(m); return e; }, 4);
	add("many parameters", [](W &w) { // arrays and tables beyond their first capacities
		if (w.r.below(4)) return CCS_RESULT_SUCCESS; ccs_object_t sp = w.of(100); if (!sp) return CCS_RESULT_SUCCESS; size_t n = w.r.range(5, 140); std::vector<ccs_parameter_t> ps; Bag bag; static uint64_t serial;
		for (size_t i = 0; i < n; i++) { ccs_parameter_t q = NULL; const char *nm = intern(sfmt("bulk%llu", (unsigned long long)(serial++ % 100000))); if (w.r.chance(1, 2) ? ccs_create_int_numerical_parameter(nm, -5, (int)w.r.below(50) + 1, 0, 0, &q) : ccs_create_string_parameter(nm, &q)) { ccs_clear_thread_error(); continue; } bag.own(q); ps.push_back(q); }
		ev("bulk.parameters", ps.size()); ccs_result_t e = CCS_RESULT_SUCCESS; int t = type_of(sp);
		if (t == CCS_OBJECT_TYPE_CONFIGURATION_SPACE) { e = ccs_configuration_space_add_parameters((ccs_configuration_space_t)sp, ps.size(), ps.data(), NULL); if (!e) { ccs_configuration_t c = NULL; e = ccs_configuration_space_get_default_configuration((ccs_configuration_space_t)sp, &c); if (!e) w.adopt(c); } }
		else if (t == CCS_OBJECT_TYPE_FEATURES_SPACE) e = ccs_features_space_add_parameters((ccs_features_space_t)sp, ps.size(), ps.data()); else e = ccs_objective_space_add_parameters((ccs_objective_space_t)sp, ps.size(), ps.data());
		return e; });
	add("deep tree", [](W &w) {
		if (w.r.below(4)) return CCS_RESULT_SUCCESS; size_t depth = w.r.range(5, 60), ar = w.r.below(8) ? w.r.range(1, 4) : w.r.range(50, 300); ccs_tree_t root = NULL, cur; Bag bag; if (ccs_create_tree(ar, w.datum(), &root)) return CCS_RESULT_ERROR_INVALID_VALUE; bag.own(root); cur = root; std::vector<size_t> pos;
		for (size_t i = 0; i < depth; i++) { ccs_tree_t c = NULL; OK(ccs_create_tree(1 + w.r.below(ar), ccs_int((int64_t)i), &c)); bag.own(c); size_t a; OK(ccs_tree_get_arity(cur, &a)); size_t k = w.r.below(a); OK(ccs_tree_set_child(cur, k, c)); pos.push_back(k); cur = c; }
		ev("deep.tree"); DV v(depth + 1, ccs_none); OK(ccs_tree_get_values_at_position(root, depth, pos.data(), depth + 1, v.data())); ccs_tree_space_t ts = NULL; ccs_result_t e = ccs_create_static_tree_space(w.name0(), root, &ts); if (!e) { w.adopt(ts); ccs_tree_configuration_t c = NULL; if (ccs_tree_space_sample(ts, &c)) ccs_clear_thread_error(); else w.adopt(c); if (!ccs_create_tree_configuration(ts, depth, pos.data(), &c)) w.adopt(c); }
		ccs_retain_object(root); w.adopt(root); return e; });
	add("large map", [](W &w) { if (w.r.below(4)) return CCS_RESULT_SUCCESS; auto m = (ccs_map_t)w.of(CCS_OBJECT_TYPE_MAP); if (!m) return CCS_RESULT_SUCCESS; size_t n = w.r.range(10, 400); for (size_t i = 0; i < n; i++) { ccs_datum_t k = w.r.chance(1, 2) ? ccs_int((int64_t)w.r.below(n)) : ccs_string(intern(sfmt("k%u", (unsigned)w.r.below(n)))); if (w.r.below(3)) OK(ccs_map_set(m, k, w.datum())); else if (ccs_map_del(m, k)) ccs_clear_thread_error(); } ev("large.map"); return CCS_RESULT_SUCCESS; });
	add("large distribution", [](W &w) { if (w.r.below(4)) return CCS_RESULT_SUCCESS; size_t n = w.r.range(20, 1200); std::vector<double> a; for (size_t i = 0; i < n; i++) a.push_back(w.r.below(5) ? w.r.unit() : 0); ccs_distribution_t d = NULL; ccs_result_t e = ccs_create_roulette_distribution(n, a.data(), &d); if (e) return e; w.adopt(d); std::vector<ccs_distribution_t> v(w.r.range(1, 30)); for (auto &x : v) x = (ccs_distribution_t)w.of(CCS_OBJECT_TYPE_DISTRIBUTION); ccs_distribution_t m = NULL; e = ccs_create_multivariate_distribution(v.size(), v.data(), &m); if (!e) { if (dimof(m) < 200) w.adopt(m); else ccs_release_object(m); } ev("large.distribution"); return e; });
	add("retain and release", [](W &w) { auto o = w.any(); if (!o) return CCS_RESULT_SUCCESS; if (w.r.chance(1, 2)) { OK(ccs_retain_object(o)); w.adopt(o); return CCS_RESULT_SUCCESS; } auto &v = w.pool[type_of(o)]; v.erase(std::find(v.begin(), v.end(), o)); ev("dropped"); return ccs_release_object(o); }, 4);
	return t;
}
void run_case(Rng &r, uint64_t) {
	auto &t = table(); static std::vector<int> order; if (order.empty()) for (size_t i = 0; i < t.size(); i++) for (int k = 0; k < t[i].weight; k++) order.push_back(i);
	{
		W w(r); std::string kinds;
		{ Bag bag; int nz = 1 + r.below(4); for (int i = 0; i < nz; i++) { int k = r.below(Z_COUNT); kinds += std::string(zname[k]) + " "; Rng q = Rng(r.next()); zoo(q, k, bag); } for (auto o : bag.v) { ccs_retain_object(o); w.adopt(o); } bag.clear(); }
		int steps = r.range(20, tier.thorough ? 400 : 120); std::string trace; desc(sfmt("%d calls on %s", steps, kinds.c_str()));
		int focus = r.below(4) ? -1 : (int)r.below(MAXT); (void)focus;
		for (int i = 0; i < steps; i++) {
			size_t fi = r.pick(order); for (int k = 0; k < 40 && !w.odd(); k++) { bool ok = true; for (int t0 : t[fi].needs) if (t0 != -2 && !w.of(t0)) ok = false; if (ok) break; fi = r.pick(order); } auto &f = t[fi]; w.last = NULL; w.honest = true; w.n = 0;
			note("%d: %s", i, f.name);
			ccs_result_t e = f.call(w); ev("calls"); if (e < 0) { ev("refused"); if (strcmp(f.name, "ccs_set_thread_error")) { if (w.r.below(4) == 0) { ccs_error_stack_t es = ccs_get_thread_error(); if (es) w.adopt(es); } else ccs_clear_thread_error(); } }
			else ev("accepted");
			for (auto &p : w.post) p(); if (e >= 0) for (auto &p : w.done) p(); w.post.clear(); w.done.clear(); w.hold.clear(); w.tstore.clear(); for (auto o : w.keep) w.adopt(o); w.keep.clear();
		}
		size_t live = 0; for (auto &v : w.pool) live += v.size(); ev("live.at.end", live); sig(r.next());
	}
	ud_reset(); ccs_clear_thread_error();
}
