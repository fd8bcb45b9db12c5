// C24: array queries follow the size protocol and agree with indexed queries.
#include "zoo.hpp"
const char *PROP = "C24";
uint64_t num_cases(bool th) { return th ? 300000 : 46000; }
bool ledger_check() { return true; }
void prop_init() {}

template <class T> struct Tr;
static const unsigned char CAN = 0xA7;
static bool neutral(const ccs_datum_t &d) { return d.type == CCS_DATA_TYPE_NONE; }
static bool neutral(double d) { return d == 0.0; }
static bool neutral(size_t d) { return d == 0; }
static bool neutral(void *d) { return d == NULL; }
template <class P> static bool neutral(P *d) { return d == NULL; }
static bool same(const ccs_datum_t &a, const ccs_datum_t &b) { return deq(a, b); }
static bool same(double a, double b) { return !memcmp(&a, &b, 8); }
template <class T> static bool same(const T &a, const T &b) { return a == b; }
template <class T> static bool canary(const T &v) { for (size_t i = 0; i < sizeof(T); i++) if (((const unsigned char *)&v)[i] != CAN) return false; return true; }

// q(num, array, ret); returns the elements
template <class T, class Q> static std::vector<T> protocol(Rng &r, const char *name, Q q, bool surplus = true) {
	size_t n = 0x7777; OK(q((size_t)0, (T *)NULL, &n)); CHECK(n != 0x7777, "no-count", "%s: count not reported without a buffer", name);
	CHECK(n < 100000, "count", "%s: %zu elements announced", name, n);
	std::vector<T> exact; auto filled = [](size_t k) { std::vector<T> v(k); memset((void *)v.data(), CAN, k * sizeof(T)); return v; };
	// exact buffer: its end is guarded by the sanitizer
	if (n) {
		exact = filled(n); size_t m = 0x7777; bool ask = r.below(2); OK(q(n, exact.data(), ask ? &m : (size_t *)NULL)); if (ask) CHECK(m == n, "count-filled", "%s: filling %zu entries reports %zu", name, n, m);
		ev("filled.exact");
	}
	// larger buffers
	for (int t = 0; t < 2; t++) {
		size_t ex = t ? r.range(1, 40) : 1, m = 0x7777; auto v = filled(n + ex + 2); OK(q(n + ex, v.data(), r.below(2) ? &m : (size_t *)NULL)); if (m != 0x7777) CHECK(m == n, "count-larger", "%s: a larger buffer reports %zu instead of %zu", name, m, n);
		for (size_t i = 0; i < n; i++) CHECK(same(v[i], exact[i]), "larger-differs", "%s: entry %zu differs between an exact and a larger buffer", name, i);
		if (surplus) for (size_t i = n; i < n + ex; i++) CHECK(neutral(v[i]), "surplus", "%s: surplus entry %zu (of %zu, %zu given) not neutral", name, i, n, n + ex);
		CHECK(canary(v[n + ex]) && canary(v[n + ex + 1]), "overrun", "%s: wrote beyond %zu entries", name, n + ex); ev("filled.larger");
	}
	// smaller buffers
	if (n > 1) {
		size_t k = r.range(1, n - 1), m = 0x7777; auto v = filled(k); ccs_result_t e = q(k, v.data(), r.below(2) ? &m : (size_t *)NULL); ccs_clear_thread_error();
		CHECK(e == CCS_RESULT_ERROR_INVALID_VALUE, "small-accepted", "%s: buffer of %zu for %zu gave %s", name, k, n, rname(e)); for (auto &x : v) CHECK(canary(x), "small-written", "%s: refused buffer was written", name); ev("small.refused");
	}
	// no buffer
	size_t m = 0x7777; ccs_result_t e = q((size_t)r.range(1, 5), (T *)NULL, r.below(2) ? &m : (size_t *)NULL); ccs_clear_thread_error(); CHECK(e == CCS_RESULT_ERROR_INVALID_VALUE, "null-sized", "%s: missing buffer with a size gave %s", name, rname(e));
	e = q((size_t)0, (T *)NULL, (size_t *)NULL); ccs_clear_thread_error(); CHECK(e == CCS_RESULT_ERROR_INVALID_VALUE, "null-all", "%s: neither buffer nor count gave %s", name, rname(e));
	ev(n ? "protocol" : "protocol.empty"); sig(mix64(hash_str(name), n));
	return exact;
}
#define P(T, call) protocol<T>(r, #call, [&](size_t k, T *v, size_t *m) { return call; })
template <class T, class G> static void indexed(const char *name, const std::vector<T> &v, G get) {
	for (size_t i = 0; i < v.size(); i++) { T x; memset((void *)&x, CAN, sizeof(T)); OK(get(i, &x)); CHECK(same(x, v[i]), "indexed", "%s: entry %zu differs from the indexed query", name, i); ev("indexed"); }
	T x; memset((void *)&x, CAN, sizeof(T)); ccs_result_t e = get(v.size(), &x); ccs_clear_thread_error(); CHECK(e == CCS_RESULT_ERROR_OUT_OF_BOUNDS, "indexed-bounds", "%s: index beyond the last gave %s", name, rname(e)); CHECK(canary(x), "indexed-written", "%s: refused index wrote its output", name);
	e = get(SIZE_MAX - 1, &x); ccs_clear_thread_error(); CHECK(e == CCS_RESULT_ERROR_OUT_OF_BOUNDS, "indexed-bounds", "%s: huge index gave %s", name, rname(e));
}
static void contexts(Rng &r, ccs_context_t c) {
	auto v = P(ccs_parameter_t, ccs_context_get_parameters(c, k, v, m)); indexed<ccs_parameter_t>("ccs_context_get_parameter", v, [&](size_t i, ccs_parameter_t *p) { return ccs_context_get_parameter(c, i, p); });
	size_t n = 0; OK(ccs_context_get_num_parameters(c, &n)); CHECK(n == v.size(), "num-parameters", "%zu parameters announced, %zu listed", n, v.size());
	for (size_t i = 0; i < n; i++) { // every lookup leads back to the same index
		const char *nm; size_t ix = 99; ccs_parameter_t p = NULL; OK(ccs_parameter_get_name(v[i], &nm)); OK(ccs_context_get_parameter_index(c, v[i], &ix)); CHECK(ix == i, "index", "parameter %zu found at %zu", i, ix);
		ix = 99; OK(ccs_context_get_parameter_index_by_name(c, nm, &ix)); CHECK(ix == i, "index-by-name", "'%s' found at %zu instead of %zu", nm, ix, i); OK(ccs_context_get_parameter_by_name(c, nm, &p)); CHECK(p == v[i], "by-name", "'%s' found as another parameter", nm); ev("lookup");
	}
	if (n) { std::vector<size_t> ix(n, 99); OK(ccs_context_get_parameter_indexes(c, n, v.data(), ix.data())); for (size_t i = 0; i < n; i++) CHECK(ix[i] == i, "indexes", "bulk index %zu is %zu", i, ix[i]); }
	if (n) { std::vector<size_t> ix; std::vector<ccs_parameter_t> s; for (int i = 0; i < 5; i++) { ix.push_back(r.below(n)); s.push_back(v[ix.back()]); } std::vector<size_t> g(6, 99); OK(ccs_context_get_parameter_indexes(c, 5, s.data(), g.data())); for (int i = 0; i < 5; i++) CHECK(g[i] == ix[i], "indexes-order", "bulk index query %d gave %zu instead of %zu", i, g[i], ix[i]); CHECK(g[5] == 99, "indexes-overrun", "bulk index query wrote beyond its buffer"); ev("bulk-indexes"); }
}
static void bindings(Rng &r, ccs_binding_t b) {
	auto v = P(ccs_datum_t, ccs_binding_get_values(b, k, v, m)); indexed<ccs_datum_t>("ccs_binding_get_value", v, [&](size_t i, ccs_datum_t *d) { return ccs_binding_get_value(b, i, d); });
	ccs_context_t c; OK(ccs_binding_get_context(b, &c));
	for (size_t i = 0; i < v.size(); i++) { ccs_parameter_t p; const char *nm; ccs_datum_t d; OK(ccs_context_get_parameter(c, i, &p)); OK(ccs_parameter_get_name(p, &nm)); OK(ccs_binding_get_value_by_name(b, nm, &d)); CHECK(same(d, v[i]), "by-name", "value of '%s'", nm); d = ccs_int(-9); OK(ccs_binding_get_value_by_parameter(b, p, &d)); CHECK(same(d, v[i]), "by-parameter", "value of '%s' by parameter", nm); ev("binding.lookup"); }
	contexts(r, c);
}
template <class E, class GV, class GO, class GI> static void evals(Rng &r, const char *nm, E e, ccs_objective_space_t os, GV gv, GO go, GI gi) {
	bindings(r, (ccs_binding_t)e); auto v = protocol<ccs_datum_t>(r, nm, [&](size_t k, ccs_datum_t *v, size_t *m) { return gv(e, k, v, m); }); (void)v;
	size_t n = 0; OK(go(e, 0, NULL, &n)); bool ok = true; DV w(n); for (size_t i = 0; i < n; i++) if (gi(e, i, &w[i])) { ccs_clear_thread_error(); ok = false; }
	if (!ok) return;
	auto o = protocol<ccs_datum_t>(r, "objective values", [&](size_t k, ccs_datum_t *v, size_t *m) { return go(e, k, v, m); });
	indexed<ccs_datum_t>("objective value", o, [&](size_t i, ccs_datum_t *d) { return gi(e, i, d); }); ev("objective.values");
}
static void tree(Rng &r, ccs_tree_t t) {
	auto c = P(ccs_tree_t, ccs_tree_get_children(t, k, v, m)); indexed<ccs_tree_t>("ccs_tree_get_child", c, [&](size_t i, ccs_tree_t *x) { return ccs_tree_get_child(t, i, x); });
	size_t a = 99; OK(ccs_tree_get_arity(t, &a)); CHECK(a == c.size(), "arity", "arity %zu, %zu children listed", a, c.size());
	auto p = P(size_t, ccs_tree_get_position(t, k, v, m)); auto v = P(ccs_datum_t, ccs_tree_get_values(t, k, v, m)); CHECK(v.size() == p.size() + 1, "path", "%zu values for a position of %zu", v.size(), p.size());
	for (auto x : c) if (x) tree(r, x);
}
static void expr(Rng &r, ccs_expression_t e) {
	auto n = P(ccs_expression_t, ccs_expression_get_nodes(e, k, v, m)); size_t c = 99; OK(ccs_expression_get_num_nodes(e, &c)); CHECK(c == n.size(), "num-nodes", "%zu nodes announced, %zu listed", c, n.size());
	P(ccs_parameter_t, ccs_expression_get_parameters(e, k, v, m)); for (auto x : n) expr(r, x);
}
static void dist(Rng &r, ccs_distribution_t d) {
	ccs_distribution_type_t t; OK(ccs_distribution_get_type(d, &t)); size_t c = 99;
	if (t == CCS_DISTRIBUTION_TYPE_ROULETTE) { auto a = P(ccs_float_t, ccs_roulette_distribution_get_areas(d, k, v, m)); OK(ccs_roulette_distribution_get_num_areas(d, &c)); CHECK(c == a.size(), "num-areas", "%zu areas announced, %zu listed", c, a.size()); }
	else if (t == CCS_DISTRIBUTION_TYPE_MIXTURE) {
		auto a = P(ccs_distribution_t, ccs_mixture_distribution_get_distributions(d, k, v, m)); auto w = P(ccs_float_t, ccs_mixture_distribution_get_weights(d, k, v, m)); OK(ccs_mixture_distribution_get_num_distributions(d, &c)); CHECK(c == a.size() && c == w.size(), "num-components", "%zu components announced, %zu listed, %zu weights", c, a.size(), w.size());
		for (auto x : a) dist(r, x);
	} else if (t == CCS_DISTRIBUTION_TYPE_MULTIVARIATE) { auto a = P(ccs_distribution_t, ccs_multivariate_distribution_get_distributions(d, k, v, m)); OK(ccs_multivariate_distribution_get_num_distributions(d, &c)); CHECK(c == a.size(), "num-components", "%zu components announced, %zu listed", c, a.size()); for (auto x : a) dist(r, x); }
	// bounds and types per dimension fill exactly the dimension
	size_t dim = 0; OK(ccs_distribution_get_dimension(d, &dim)); std::vector<ccs_interval_t> b(dim); std::vector<ccs_numeric_type_t> ty(dim); OK(ccs_distribution_get_bounds(d, b.data())); OK(ccs_distribution_get_data_types(d, ty.data()));
	for (size_t i = 0; i < dim; i++) CHECK(b[i].type == ty[i], "dimension-type", "dimension %zu: bounds and data types disagree", i);
}
template <class E, class H, class O> static void tuners(Rng &r, const char *n, H h, O o) {
	auto a = protocol<E>(r, (std::string(n) + " history").c_str(), h); auto b = protocol<E>(r, (std::string(n) + " optima").c_str(), o);
	for (auto x : b) CHECK(std::find(a.begin(), a.end(), x) != a.end() , "optimum-unknown", "%s: an optimum is not in the history", n);
}
void run_case(Rng &r, uint64_t idx) {
	ud_reset(); Bag bag; int kind = idx % Z_COUNT; ZObj z = zoo(r, kind, bag); ccs_object_t o = z.o; if (z.ud) for (const char *s : {"get_history", "get_optima"}) z.ud->silent.insert(s);
	switch (kind) {
	case Z_RNG: { // parallel arrays of the objective space
		OSModel m = gen_os(r, "os", bag, false, 5); ccs_objective_space_t os = m.os;
		std::vector<ccs_objective_type_t> types; auto ex = protocol<ccs_expression_t>(r, "objectives", [&](size_t k, ccs_expression_t *v, size_t *c) { types.assign(k + 2, (ccs_objective_type_t)0x5a5a); ccs_result_t e = ccs_objective_space_get_objectives(os, k, v, v ? types.data() : NULL, c); if (v) CHECK(types[k] == (ccs_objective_type_t)0x5a5a, "types-overrun", "objectives query wrote beyond its types"); return e; });
		for (size_t i = 0; i < ex.size(); i++) { ccs_expression_t e; ccs_objective_type_t t; OK(ccs_objective_space_get_objective(os, i, &e, &t)); std::vector<ccs_expression_t> all(ex.size()); std::vector<ccs_objective_type_t> ty(ex.size()); OK(ccs_objective_space_get_objectives(os, ex.size(), all.data(), ty.data(), NULL)); CHECK(e == ex[i] && t == ty[i] && t == m.dir[i], "objective", "objective %zu differs between bulk and indexed", i); ev("objective"); }
		ccs_expression_t e; ccs_objective_type_t t; REFUSED(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_objective_space_get_objective(os, ex.size(), &e, &t));
		if (ex.size()) { std::vector<ccs_expression_t> all(ex.size()); REFUSED(CCS_RESULT_ERROR_INVALID_VALUE, ccs_objective_space_get_objectives(os, ex.size(), all.data(), NULL, NULL)); }
		break; }
	case Z_DIST: dist(r, (ccs_distribution_t)o); break;
	case Z_PARAM: {
		auto p = (ccs_parameter_t)o; ccs_parameter_type_t t; OK(ccs_parameter_get_type(p, &t));
		if (t == CCS_PARAMETER_TYPE_CATEGORICAL) P(ccs_datum_t, ccs_categorical_parameter_get_values(p, k, v, m));
		else if (t == CCS_PARAMETER_TYPE_ORDINAL) P(ccs_datum_t, ccs_ordinal_parameter_get_values(p, k, v, m));
		else if (t == CCS_PARAMETER_TYPE_DISCRETE) P(ccs_datum_t, ccs_discrete_parameter_get_values(p, k, v, m));
		for (int i = 0; i < 3; i++) { POpt po; po.types = 2 << i; PModel m = gen_param(r, "q", po); bag.own(m.p); DV v; ccs_parameter_t q = m.p;
			if (m.type == CCS_PARAMETER_TYPE_CATEGORICAL) v = protocol<ccs_datum_t>(r, "categorical values", [&](size_t k, ccs_datum_t *d, size_t *c) { return ccs_categorical_parameter_get_values(q, k, d, c); });
			else if (m.type == CCS_PARAMETER_TYPE_ORDINAL) v = protocol<ccs_datum_t>(r, "ordinal values", [&](size_t k, ccs_datum_t *d, size_t *c) { return ccs_ordinal_parameter_get_values(q, k, d, c); });
			else if (m.type == CCS_PARAMETER_TYPE_DISCRETE) v = protocol<ccs_datum_t>(r, "discrete values", [&](size_t k, ccs_datum_t *d, size_t *c) { return ccs_discrete_parameter_get_values(q, k, d, c); });
			else continue;
			CHECK(v.size() == m.values.size(), "values-count", "%zu values listed, %zu declared", v.size(), m.values.size()); for (size_t j = 0; j < v.size(); j++) CHECK(veq(v[j], m.values[j]), "values-order", "value %zu is %s, declared %s", j, dtos(v[j]).c_str(), dtos(m.values[j]).c_str()); ev("parameter.values"); }
		break; }
	case Z_EXPR: expr(r, (ccs_expression_t)o); break;
	case Z_CS: {
		auto cs = (ccs_configuration_space_t)o; contexts(r, (ccs_context_t)cs);
		auto p = P(ccs_parameter_t, ccs_configuration_space_get_parameters(cs, k, v, m)); indexed<ccs_parameter_t>("configuration space parameter", p, [&](size_t i, ccs_parameter_t *x) { return ccs_configuration_space_get_parameter(cs, i, x); });
		auto c = P(ccs_expression_t, ccs_configuration_space_get_conditions(cs, k, v, m)); CHECK(c.size() == p.size(), "conditions", "%zu conditions for %zu parameters", c.size(), p.size());
		indexed<ccs_expression_t>("condition", c, [&](size_t i, ccs_expression_t *x) { return ccs_configuration_space_get_condition(cs, i, x); });
		auto f = P(ccs_expression_t, ccs_configuration_space_get_forbidden_clauses(cs, k, v, m)); indexed<ccs_expression_t>("forbidden clause", f, [&](size_t i, ccs_expression_t *x) { return ccs_configuration_space_get_forbidden_clause(cs, i, x); });
		size_t n = 99; OK(ccs_configuration_space_get_num_parameters(cs, &n)); CHECK(n == p.size(), "num-parameters", "%zu parameters announced, %zu listed", n, p.size()); break; }
	case Z_OS: { auto s = (ccs_objective_space_t)o; contexts(r, (ccs_context_t)s); auto p = P(ccs_parameter_t, ccs_objective_space_get_parameters(s, k, v, m)); indexed<ccs_parameter_t>("objective space parameter", p, [&](size_t i, ccs_parameter_t *x) { return ccs_objective_space_get_parameter(s, i, x); }); break; }
	case Z_FS: { auto s = (ccs_features_space_t)o; contexts(r, (ccs_context_t)s); auto p = P(ccs_parameter_t, ccs_features_space_get_parameters(s, k, v, m)); indexed<ccs_parameter_t>("features space parameter", p, [&](size_t i, ccs_parameter_t *x) { return ccs_features_space_get_parameter(s, i, x); }); break; }
	case Z_CONF: { auto c = (ccs_configuration_t)o; bindings(r, (ccs_binding_t)o); auto v = P(ccs_datum_t, ccs_configuration_get_values(c, k, v, m)); indexed<ccs_datum_t>("ccs_configuration_get_value", v, [&](size_t i, ccs_datum_t *d) { return ccs_configuration_get_value(c, i, d); }); break; }
	case Z_FEAT: { auto c = (ccs_features_t)o; bindings(r, (ccs_binding_t)o); auto v = P(ccs_datum_t, ccs_features_get_values(c, k, v, m)); indexed<ccs_datum_t>("ccs_features_get_value", v, [&](size_t i, ccs_datum_t *d) { return ccs_features_get_value(c, i, d); }); break; }
	case Z_EVAL: evals(r, "evaluation values", (ccs_evaluation_t)o, (ccs_objective_space_t)NULL, ccs_evaluation_get_values, ccs_evaluation_get_objective_values, ccs_evaluation_get_objective_value); break;
	case Z_FEVAL: evals(r, "features evaluation values", (ccs_features_evaluation_t)o, (ccs_objective_space_t)NULL, ccs_features_evaluation_get_values, ccs_features_evaluation_get_objective_values, ccs_features_evaluation_get_objective_value); break;
	case Z_TEVAL: evals(r, "tree evaluation values", (ccs_tree_evaluation_t)o, (ccs_objective_space_t)NULL, ccs_tree_evaluation_get_values, ccs_tree_evaluation_get_objective_values, ccs_tree_evaluation_get_objective_value); break;
	case Z_TREE: tree(r, (ccs_tree_t)o); break;
	case Z_STS: case Z_DTS: { ccs_tree_t t; OK(ccs_tree_space_get_tree((ccs_tree_space_t)o, &t)); tree(r, t); break; }
	case Z_TCONF: { auto c = (ccs_tree_configuration_t)o; auto p = P(size_t, ccs_tree_configuration_get_position(c, k, v, m)); ccs_tree_t t; if (ccs_tree_configuration_get_node(c, &t)) { ccs_clear_thread_error(); break; } auto v = P(ccs_datum_t, ccs_tree_configuration_get_values(c, k, v, m)); CHECK(v.size() == p.size() + 1, "path", "%zu values for a position of %zu", v.size(), p.size()); break; }
	case Z_TUNER: case Z_UTUNER: { auto t = (ccs_tuner_t)o; tuners<ccs_evaluation_t>(r, zname[kind], [&](size_t k, ccs_evaluation_t *v, size_t *m) { return ccs_tuner_get_history(t, k, v, m); }, [&](size_t k, ccs_evaluation_t *v, size_t *m) { return ccs_tuner_get_optima(t, k, v, m); }); break; }
	case Z_FTUNER: case Z_UFTUNER: { auto t = (ccs_features_tuner_t)o; tuners<ccs_features_evaluation_t>(r, zname[kind], [&](size_t k, ccs_features_evaluation_t *v, size_t *m) { return ccs_features_tuner_get_history(t, NULL, k, v, m); }, [&](size_t k, ccs_features_evaluation_t *v, size_t *m) { return ccs_features_tuner_get_optima(t, NULL, k, v, m); });
		size_t n = 0; OK(ccs_features_tuner_get_history(t, NULL, 0, NULL, &n)); std::vector<ccs_features_evaluation_t> h(n); if (n) { OK(ccs_features_tuner_get_history(t, NULL, n, h.data(), NULL)); ccs_features_t f; OK(ccs_features_evaluation_get_features(r.pick(h), &f)); tuners<ccs_features_evaluation_t>(r, "per-features", [&](size_t k, ccs_features_evaluation_t *v, size_t *m) { return ccs_features_tuner_get_history(t, f, k, v, m); }, [&](size_t k, ccs_features_evaluation_t *v, size_t *m) { return ccs_features_tuner_get_optima(t, f, k, v, m); }); ev("per-features"); }
		break; }
	case Z_TTUNER: case Z_UTTUNER: { auto t = (ccs_tree_tuner_t)o; tuners<ccs_tree_evaluation_t>(r, zname[kind], [&](size_t k, ccs_tree_evaluation_t *v, size_t *m) { return ccs_tree_tuner_get_history(t, k, v, m); }, [&](size_t k, ccs_tree_evaluation_t *v, size_t *m) { return ccs_tree_tuner_get_optima(t, k, v, m); }); break; }
	case Z_MAP: { auto mp = (ccs_map_t)o; auto a = P(ccs_datum_t, ccs_map_get_keys(mp, k, v, m)); auto b = P(ccs_datum_t, ccs_map_get_values(mp, k, v, m)); DV vals; auto c = protocol<ccs_datum_t>(r, "map pairs", [&](size_t k, ccs_datum_t *v, size_t *m) { vals.assign(k + 1, ccs_int(-4242)); ccs_result_t e = ccs_map_get_pairs(mp, k, v, v ? vals.data() : NULL, m); if (v) CHECK(vals[k].value.i == -4242, "pairs-overrun", "pairs query wrote beyond its values"); return e; });
		CHECK(a.size() == b.size() && a.size() == c.size(), "map-counts", "%zu keys, %zu values, %zu pairs", a.size(), b.size(), c.size()); for (auto &k : a) { ccs_datum_t d; OK(ccs_map_get(mp, k, &d)); ev("map.lookup"); } break; }
	}
	desc(std::string(zname[kind]) + " " + z.info);
	sig(mix64(idx, 1));
}
