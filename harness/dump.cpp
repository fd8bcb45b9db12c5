// Full public dump of an object: everything the read interface shows.  Used to
// compare an original with a reloaded object, and states before and after calls.
#include "gen.hpp"
#include <gsl/gsl_rng.h>
static thread_local std::map<void *, int> *g_seen;
static std::string D(ccs_object_t o, int lvl);
static std::string ival(const ccs_interval_t &b) {
	return std::string(b.lower_included ? "[" : "(") + numstr(b.type, b.lower) + "," + numstr(b.type, b.upper) + (b.upper_included ? "]" : ")") + (b.type == CCS_NUMERIC_TYPE_INT ? "i" : "f");
}
static std::string bits(double f) { uint64_t u; memcpy(&u, &f, 8); return sfmt("%.17g/%016llx", f, (unsigned long long)u); }
static std::string dd(const ccs_datum_t &d) {
	if (d.type == CCS_DATA_TYPE_FLOAT) return "F" + bits(d.value.f);
	return sfmt("%d:", (int)d.type) + dtos(d);
}
static std::string dvals(const DV &v) { std::string s = "{"; for (auto &d : v) s += dd(d) + ","; return s + "}"; }
static std::string dump_rng(ccs_rng_t r) {
	gsl_rng *g = NULL; OK(ccs_rng_get_gsl_rng(r, &g));
	const gsl_rng_type *t; OK(ccs_rng_get_type(r, &t));
	unsigned long mn, mx; OK(ccs_rng_min(r, &mn)); OK(ccs_rng_max(r, &mx));
	return sfmt("rng(%s,%lu,%lu,%zu,%016llx)", t->name, mn, mx, gsl_rng_size(g), (unsigned long long)hash_str(std::string((char *)gsl_rng_state(g), gsl_rng_size(g))));
}
static std::string dump_param(ccs_parameter_t p) {
	ccs_parameter_type_t t; OK(ccs_parameter_get_type(p, &t));
	const char *n; OK(ccs_parameter_get_name(p, &n));
	ccs_datum_t def; OK(ccs_parameter_get_default_value(p, &def));
	std::string s = sfmt("param(%d,'%s',def=%s", (int)t, n, dd(def).c_str());
	size_t c = 0; DV v;
	switch (t) {
	case CCS_PARAMETER_TYPE_NUMERICAL: {
		ccs_numeric_type_t nt; ccs_numeric_t l, u, q; OK(ccs_numerical_parameter_get_properties(p, &nt, &l, &u, &q));
		s += sfmt(",%d,%s,%s,%s", (int)nt, numstr(nt, l).c_str(), numstr(nt, u).c_str(), numstr(nt, q).c_str()); break;
	}
	case CCS_PARAMETER_TYPE_CATEGORICAL: OK(ccs_categorical_parameter_get_values(p, 0, NULL, &c)); v.resize(c); OK(ccs_categorical_parameter_get_values(p, c, v.data(), NULL)); break;
	case CCS_PARAMETER_TYPE_ORDINAL: OK(ccs_ordinal_parameter_get_values(p, 0, NULL, &c)); v.resize(c); OK(ccs_ordinal_parameter_get_values(p, c, v.data(), NULL)); break;
	case CCS_PARAMETER_TYPE_DISCRETE: OK(ccs_discrete_parameter_get_values(p, 0, NULL, &c)); v.resize(c); OK(ccs_discrete_parameter_get_values(p, c, v.data(), NULL)); break;
	default: break;
	}
	if (c) s += "," + dvals(v);
	if (t != CCS_PARAMETER_TYPE_STRING) { ccs_interval_t b; OK(ccs_parameter_sampling_interval(p, &b)); s += "," + ival(b); }
	return s + ")";
}
static std::string dump_dist(ccs_distribution_t d) {
	ccs_distribution_type_t t; OK(ccs_distribution_get_type(d, &t));
	size_t dim = 0; OK(ccs_distribution_get_dimension(d, &dim));
	std::vector<ccs_numeric_type_t> nt(dim); std::vector<ccs_interval_t> b(dim);
	OK(ccs_distribution_get_data_types(d, nt.data())); OK(ccs_distribution_get_bounds(d, b.data()));
	std::string s = sfmt("dist(%d,%zu", (int)t, dim);
	for (size_t i = 0; i < dim; i++) s += sfmt(",%d%s", (int)nt[i], ival(b[i]).c_str());
	size_t n = 0;
	switch (t) {
	case CCS_DISTRIBUTION_TYPE_UNIFORM: { ccs_numeric_t l, u, q; ccs_scale_type_t sc; OK(ccs_uniform_distribution_get_properties(d, &l, &u, &sc, &q)); s += sfmt(",%s,%s,%d,%s", numstr(nt[0], l).c_str(), numstr(nt[0], u).c_str(), (int)sc, numstr(nt[0], q).c_str()); break; }
	case CCS_DISTRIBUTION_TYPE_NORMAL: { double mu, sg; ccs_numeric_t q; ccs_scale_type_t sc; OK(ccs_normal_distribution_get_properties(d, &mu, &sg, &sc, &q)); s += "," + bits(mu) + "," + bits(sg) + sfmt(",%d,%s", (int)sc, numstr(nt[0], q).c_str()); break; }
	case CCS_DISTRIBUTION_TYPE_ROULETTE: { OK(ccs_roulette_distribution_get_num_areas(d, &n)); std::vector<double> w(n); OK(ccs_roulette_distribution_get_areas(d, n, w.data(), NULL)); for (double x : w) s += sfmt(",%.0f", std::floor(x * 1e8 + 0.1234567)); /* areas are renormalised when reloaded: equal up to rounding */ break; }
	case CCS_DISTRIBUTION_TYPE_MIXTURE: {
		OK(ccs_mixture_distribution_get_num_distributions(d, &n)); std::vector<double> w(n); OK(ccs_mixture_distribution_get_weights(d, n, w.data(), NULL));
		std::vector<ccs_distribution_t> v(n); OK(ccs_mixture_distribution_get_distributions(d, n, v.data(), NULL));
		for (size_t i = 0; i < n; i++) s += sfmt(",%.0f*", std::floor(w[i] * 1e8 + 0.1234567)) + dump_dist(v[i]); break;
	}
	case CCS_DISTRIBUTION_TYPE_MULTIVARIATE: {
		OK(ccs_multivariate_distribution_get_num_distributions(d, &n)); std::vector<ccs_distribution_t> v(n); OK(ccs_multivariate_distribution_get_distributions(d, n, v.data(), NULL));
		for (auto x : v) s += "," + dump_dist(x); break;
	}
	default: break;
	}
	return s + ")";
}
static std::string dump_expr(ccs_expression_t e) {
	ccs_expression_type_t t; OK(ccs_expression_get_type(e, &t));
	if (t == CCS_EXPRESSION_TYPE_LITERAL) { ccs_datum_t d; OK(ccs_literal_get_value(e, &d)); return "lit " + dd(d); }
	if (t == CCS_EXPRESSION_TYPE_VARIABLE) { ccs_parameter_t p; const char *n; OK(ccs_variable_get_parameter(e, &p)); OK(ccs_parameter_get_name(p, &n)); return std::string("var ") + n; }
	size_t n = 0; OK(ccs_expression_get_num_nodes(e, &n));
	std::vector<ccs_expression_t> v(n); if (n) OK(ccs_expression_get_nodes(e, n, v.data(), NULL));
	std::string s = sfmt("op%d(", (int)t); for (auto x : v) s += dump_expr(x) + ";"; return s + ")";
}
static std::string params_of(ccs_context_t c) {
	size_t n = 0; OK(ccs_context_get_num_parameters(c, &n)); std::vector<ccs_parameter_t> v(n);
	if (n) OK(ccs_context_get_parameters(c, n, v.data(), NULL));
	std::string s; for (auto p : v) s += "\n  " + dump_param(p); return s;
}
static std::string dump_tree(ccs_tree_t t) {
	size_t a = 0; ccs_datum_t v; double w, b; OK(ccs_tree_get_arity(t, &a)); OK(ccs_tree_get_value(t, &v)); OK(ccs_tree_get_weight(t, &w)); OK(ccs_tree_get_bias(t, &b));
	std::string s = sfmt("tree(%zu,%s,%s,%s", a, dd(v).c_str(), bits(w).c_str(), bits(b).c_str());
	size_t idx = 0; ccs_tree_t par = NULL; OK(ccs_tree_get_parent(t, &par, &idx)); if (par) s += sfmt(",idx=%zu", idx);
	for (size_t i = 0; i < a; i++) { ccs_tree_t c = NULL; OK(ccs_tree_get_child(t, i, &c)); s += c ? "," + dump_tree(c) : ",-"; }
	return s + ")";
}
static std::string bind_vals(ccs_binding_t b) {
	size_t n = 0; OK(ccs_binding_get_values(b, 0, NULL, &n)); DV v(n); if (n) OK(ccs_binding_get_values(b, n, v.data(), NULL));
	return dvals(v);
}
// spaces are shown once, later mentions refer to the first
static std::string space(ccs_object_t o, int lvl) {
	auto it = g_seen->find(o); if (it != g_seen->end()) return sfmt("@%d", it->second);
	int k = g_seen->size(); (*g_seen)[o] = k; return sfmt("@%d=", k) + D(o, lvl + 1);
}
template <class T, class F> static std::string list_of(F get, int lvl) {
	size_t n = 0; OK(get(0, (T *)NULL, &n)); std::vector<T> v(n); if (n) OK(get(n, v.data(), (size_t *)NULL));
	std::string s = sfmt("%zu:", n); for (auto x : v) s += "\n   " + D(x, lvl + 1); return s;
}
static std::string D(ccs_object_t o, int lvl) {
	if (!o) return "null";
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t));
	const char *n = NULL; std::string s; size_t c = 0;
	switch (t) {
	case CCS_OBJECT_TYPE_RNG: return dump_rng((ccs_rng_t)o);
	case CCS_OBJECT_TYPE_DISTRIBUTION: return dump_dist((ccs_distribution_t)o);
	case CCS_OBJECT_TYPE_PARAMETER: return dump_param((ccs_parameter_t)o);
	case CCS_OBJECT_TYPE_EXPRESSION: return dump_expr((ccs_expression_t)o);
	case CCS_OBJECT_TYPE_TREE: return dump_tree((ccs_tree_t)o);
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: {
		auto cs = (ccs_configuration_space_t)o; ccs_rng_t r; OK(ccs_configuration_space_get_name(cs, &n)); OK(ccs_configuration_space_get_rng(cs, &r));
		s = sfmt("cs('%s',%s", n, dump_rng(r).c_str()) + params_of((ccs_context_t)cs);
		OK(ccs_configuration_space_get_num_parameters(cs, &c));
		for (size_t i = 0; i < c; i++) {
			ccs_distribution_t d; size_t di; OK(ccs_configuration_space_get_parameter_distribution(cs, i, &d, &di));
			s += sfmt("\n  d%zu[%zu]=", i, di) + dump_dist(d);
			ccs_expression_t e = NULL; OK(ccs_configuration_space_get_condition(cs, i, &e)); if (e) s += " if " + dump_expr(e);
		}
		size_t nf = 0; OK(ccs_configuration_space_get_forbidden_clauses(cs, 0, NULL, &nf)); std::vector<ccs_expression_t> f(nf); if (nf) OK(ccs_configuration_space_get_forbidden_clauses(cs, nf, f.data(), NULL));
		for (auto e : f) s += "\n  forbid " + dump_expr(e);
		ccs_configuration_t d = NULL; ccs_result_t de = ccs_configuration_space_get_default_configuration(cs, &d); // its conditions may not be evaluable
		if (!de) { s += "\n  default " + bind_vals((ccs_binding_t)d); ccs_release_object(d); } else { CHECK(de != CCS_RESULT_ERROR_OUT_OF_MEMORY, "default-configuration", "the default configuration gives %s", rname(de)); s += sfmt("\n  default %s", rname(de)); ccs_clear_thread_error(); }
		return s + ")";
	}
	case CCS_OBJECT_TYPE_FEATURES_SPACE: OK(ccs_features_space_get_name((ccs_features_space_t)o, &n)); return sfmt("fs('%s'", n) + params_of((ccs_context_t)o) + ")";
	case CCS_OBJECT_TYPE_OBJECTIVE_SPACE: {
		auto os = (ccs_objective_space_t)o; OK(ccs_objective_space_get_name(os, &n)); s = sfmt("os('%s'", n) + params_of((ccs_context_t)os);
		OK(ccs_objective_space_get_objectives(os, 0, NULL, NULL, &c)); std::vector<ccs_expression_t> e(c); std::vector<ccs_objective_type_t> ty(c); if (c) OK(ccs_objective_space_get_objectives(os, c, e.data(), ty.data(), NULL));
		for (size_t i = 0; i < c; i++) s += sfmt("\n  obj %d ", (int)ty[i]) + dump_expr(e[i]);
		return s + ")";
	}
	case CCS_OBJECT_TYPE_CONFIGURATION: { ccs_configuration_space_t x; OK(ccs_configuration_get_configuration_space((ccs_configuration_t)o, &x)); return "conf(" + bind_vals((ccs_binding_t)o) + "," + space(x, lvl) + ")"; }
	case CCS_OBJECT_TYPE_FEATURES: { ccs_features_space_t x; OK(ccs_features_get_features_space((ccs_features_t)o, &x)); return "feat(" + bind_vals((ccs_binding_t)o) + "," + space(x, lvl) + ")"; }
	case CCS_OBJECT_TYPE_EVALUATION: { auto e = (ccs_evaluation_t)o; ccs_objective_space_t os; ccs_configuration_t cf; ccs_evaluation_result_t rs; OK(ccs_evaluation_get_objective_space(e, &os)); OK(ccs_evaluation_get_configuration(e, &cf)); OK(ccs_evaluation_get_result(e, &rs));
		return sfmt("eval(%d,", (int)rs) + bind_vals((ccs_binding_t)o) + "," + D(cf, lvl + 1) + "," + space(os, lvl) + ")"; }
	case CCS_OBJECT_TYPE_FEATURES_EVALUATION: { auto e = (ccs_features_evaluation_t)o; ccs_objective_space_t os; ccs_configuration_t cf; ccs_features_t f; ccs_evaluation_result_t rs; OK(ccs_features_evaluation_get_objective_space(e, &os)); OK(ccs_features_evaluation_get_configuration(e, &cf)); OK(ccs_features_evaluation_get_features(e, &f)); OK(ccs_features_evaluation_get_result(e, &rs));
		return sfmt("feval(%d,", (int)rs) + bind_vals((ccs_binding_t)o) + "," + D(cf, lvl + 1) + "," + D(f, lvl + 1) + "," + space(os, lvl) + ")"; }
	case CCS_OBJECT_TYPE_TREE_EVALUATION: { auto e = (ccs_tree_evaluation_t)o; ccs_objective_space_t os; ccs_tree_configuration_t cf; ccs_evaluation_result_t rs; OK(ccs_tree_evaluation_get_objective_space(e, &os)); OK(ccs_tree_evaluation_get_configuration(e, &cf)); OK(ccs_tree_evaluation_get_result(e, &rs));
		return sfmt("teval(%d,", (int)rs) + bind_vals((ccs_binding_t)o) + "," + D(cf, lvl + 1) + "," + space(os, lvl) + ")"; }
	case CCS_OBJECT_TYPE_TREE_CONFIGURATION: { auto tc = (ccs_tree_configuration_t)o; OK(ccs_tree_configuration_get_position(tc, 0, NULL, &c)); std::vector<size_t> p(c); if (c) OK(ccs_tree_configuration_get_position(tc, c, p.data(), NULL));
		size_t nv = 0; OK(ccs_tree_configuration_get_values(tc, 0, NULL, &nv)); DV v(nv); bool undef = false; if (nv) { ccs_result_t e = ccs_tree_configuration_get_values(tc, nv, v.data(), NULL); if (e == CCS_RESULT_ERROR_INVALID_TREE || e == CCS_RESULT_ERROR_OUT_OF_BOUNDS) { undef = true; ccs_clear_thread_error(); } else OK(e); }
		ccs_tree_space_t ts; OK(ccs_tree_configuration_get_tree_space(tc, &ts));
		s = "tconf("; for (size_t x : p) s += sfmt("%zu.", x); return s + (undef ? "undefined" : dvals(v)) + "," + space(ts, lvl) + ")"; }
	case CCS_OBJECT_TYPE_TREE_SPACE: { auto ts = (ccs_tree_space_t)o; ccs_tree_space_type_t ty; ccs_rng_t r; ccs_tree_t tr; OK(ccs_tree_space_get_type(ts, &ty)); OK(ccs_tree_space_get_name(ts, &n)); OK(ccs_tree_space_get_rng(ts, &r)); OK(ccs_tree_space_get_tree(ts, &tr));
		return sfmt("ts(%d,'%s',%s,", (int)ty, n, dump_rng(r).c_str()) + dump_tree(tr) + ")"; }
	case CCS_OBJECT_TYPE_TUNER: { auto u = (ccs_tuner_t)o; ccs_tuner_type_t ty; ccs_configuration_space_t cs; ccs_objective_space_t os; OK(ccs_tuner_get_type(u, &ty)); OK(ccs_tuner_get_name(u, &n)); OK(ccs_tuner_get_configuration_space(u, &cs)); OK(ccs_tuner_get_objective_space(u, &os));
		s = sfmt("tuner(%d,'%s',", (int)ty, n) + space(cs, lvl) + "," + space(os, lvl);
		s += "\n history " + list_of<ccs_evaluation_t>([&](size_t k, ccs_evaluation_t *v, size_t *nr) { return ccs_tuner_get_history(u, k, v, nr); }, lvl);
		s += "\n optima " + list_of<ccs_evaluation_t>([&](size_t k, ccs_evaluation_t *v, size_t *nr) { return ccs_tuner_get_optima(u, k, v, nr); }, lvl); return s + ")"; }
	case CCS_OBJECT_TYPE_FEATURES_TUNER: { auto u = (ccs_features_tuner_t)o; ccs_features_tuner_type_t ty; ccs_configuration_space_t cs; ccs_objective_space_t os; ccs_features_space_t fs; OK(ccs_features_tuner_get_type(u, &ty)); OK(ccs_features_tuner_get_name(u, &n)); OK(ccs_features_tuner_get_configuration_space(u, &cs)); OK(ccs_features_tuner_get_objective_space(u, &os)); OK(ccs_features_tuner_get_features_space(u, &fs));
		s = sfmt("ftuner(%d,'%s',", (int)ty, n) + space(cs, lvl) + "," + space(fs, lvl) + "," + space(os, lvl);
		s += "\n history " + list_of<ccs_features_evaluation_t>([&](size_t k, ccs_features_evaluation_t *v, size_t *nr) { return ccs_features_tuner_get_history(u, NULL, k, v, nr); }, lvl);
		s += "\n optima " + list_of<ccs_features_evaluation_t>([&](size_t k, ccs_features_evaluation_t *v, size_t *nr) { return ccs_features_tuner_get_optima(u, NULL, k, v, nr); }, lvl); return s + ")"; }
	case CCS_OBJECT_TYPE_TREE_TUNER: { auto u = (ccs_tree_tuner_t)o; ccs_tree_tuner_type_t ty; ccs_tree_space_t ts; ccs_objective_space_t os; OK(ccs_tree_tuner_get_type(u, &ty)); OK(ccs_tree_tuner_get_name(u, &n)); OK(ccs_tree_tuner_get_tree_space(u, &ts)); OK(ccs_tree_tuner_get_objective_space(u, &os));
		s = sfmt("ttuner(%d,'%s',", (int)ty, n) + space(ts, lvl) + "," + space(os, lvl);
		s += "\n history " + list_of<ccs_tree_evaluation_t>([&](size_t k, ccs_tree_evaluation_t *v, size_t *nr) { return ccs_tree_tuner_get_history(u, k, v, nr); }, lvl);
		s += "\n optima " + list_of<ccs_tree_evaluation_t>([&](size_t k, ccs_tree_evaluation_t *v, size_t *nr) { return ccs_tree_tuner_get_optima(u, k, v, nr); }, lvl); return s + ")"; }
	case CCS_OBJECT_TYPE_MAP: {
		auto m = (ccs_map_t)o; OK(ccs_map_get_pairs(m, 0, NULL, NULL, &c)); DV k(c), v(c); if (c) OK(ccs_map_get_pairs(m, c, k.data(), v.data(), NULL));
		std::vector<std::string> e; for (size_t i = 0; i < c; i++) e.push_back(dd(k[i]) + "=>" + dd(v[i])); std::sort(e.begin(), e.end());
		s = "map("; for (auto &x : e) s += x + ";"; return s + ")"; }
	default: return sfmt("object(%d)", (int)t);
	}
}
std::string dump(ccs_object_t o, int) {
	std::map<void *, int> seen; g_seen = &seen;
	if (o) { ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); if (t == CCS_OBJECT_TYPE_CONFIGURATION_SPACE || t == CCS_OBJECT_TYPE_FEATURES_SPACE || t == CCS_OBJECT_TYPE_OBJECTIVE_SPACE || t == CCS_OBJECT_TYPE_TREE_SPACE) seen[o] = 0; }
	std::string s = D(o, 0); g_seen = nullptr; return s;
}
