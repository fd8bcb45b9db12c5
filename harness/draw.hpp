// Drawing from any object that draws, with everything it returns as text.
#pragma once
#include "exercise.hpp"
static std::string numbers(const std::vector<ccs_numeric_t> &v) { std::string s; for (auto &x : v) s += sfmt("%llx,", (unsigned long long)x.i); return s; }
static std::string datums(const DV &v) { std::string s; for (auto &d : v) s += dtos(d) + ","; return s; }
static std::string conf(ccs_object_t c) {
	ccs_object_type_t t; OK(ccs_object_get_type(c, &t)); size_t n = 0;
	if (t == CCS_OBJECT_TYPE_TREE_CONFIGURATION) { OK(ccs_tree_configuration_get_position((ccs_tree_configuration_t)c, 0, NULL, &n)); std::vector<size_t> p(n); if (n) OK(ccs_tree_configuration_get_position((ccs_tree_configuration_t)c, n, p.data(), NULL)); std::string s = "<"; for (auto x : p) s += sfmt("%zu.", x); return s + ">"; }
	OK(ccs_configuration_get_values((ccs_configuration_t)c, 0, NULL, &n)); DV v(n); if (n) OK(ccs_configuration_get_values((ccs_configuration_t)c, n, v.data(), NULL)); return "<" + datums(v) + ">";
}
static std::string confs(ccs_result_t e, const std::vector<ccs_object_t> &w) { std::string s = e ? rname(e) : ""; if (e) ccs_clear_thread_error(); for (auto c : w) if (c) { s += conf(c); ccs_release_object(c); ev("drawn.configuration"); } return s; }
// One drawing operation; everything it returns as text.  g: generator for objects without one.
static std::string draw(ccs_object_t o, ccs_rng_t g, int op, size_t n) {
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); std::string s; std::vector<ccs_object_t> w(n, NULL); ccs_result_t e;
	switch (t) {
	case CCS_OBJECT_TYPE_RNG: { unsigned long u; double f; for (size_t i = 0; i < n; i++) if ((op + i) % 3) { OK(ccs_rng_get((ccs_rng_t)o, &u)); s += sfmt("%lu,", u); } else { OK(ccs_rng_uniform((ccs_rng_t)o, &f)); s += sfmt("%a,", f); } ev("drawn.raw", n); return s; }
	case CCS_OBJECT_TYPE_DISTRIBUTION: {
		auto d = (ccs_distribution_t)o; size_t dim; OK(ccs_distribution_get_dimension(d, &dim)); std::vector<ccs_numeric_t> v(n * dim, NI(0)); ev("drawn.distribution", n);
		if (op % 3 == 0) { for (size_t i = 0; i < n; i++) OK(ccs_distribution_sample(d, g, v.data() + i * dim)); }
		else if (op % 3 == 1) OK(ccs_distribution_samples(d, g, n, v.data()));
		else { std::vector<ccs_numeric_t *> q(dim); for (size_t i = 0; i < dim; i++) q[i] = v.data() + i * n; OK(ccs_distribution_soa_samples(d, g, n, q.data())); }
		return numbers(v); }
	case CCS_OBJECT_TYPE_PARAMETER: {
		auto p = (ccs_parameter_t)o; ccs_distribution_t d = NULL; e = ccs_parameter_get_default_distribution(p, &d); if (e) { ccs_clear_thread_error(); return rname(e); } DV v(n, ccs_none); ev("drawn.parameter", n);
		if (op % 2) { e = ccs_parameter_samples(p, d, g, n, v.data()); if (e) s = rname(e); } else for (auto &x : v) { e = ccs_parameter_sample(p, d, g, &x); if (e) s += rname(e); }
		ccs_clear_thread_error(); ccs_release_object(d); return s + datums(v); }
	case CCS_OBJECT_TYPE_TREE: { std::vector<size_t> ix(n, 0); e = op % 2 ? ccs_tree_samples((ccs_tree_t)o, g, n, ix.data()) : CCS_RESULT_SUCCESS; if (!(op % 2)) for (auto &x : ix) if ((e = ccs_tree_sample((ccs_tree_t)o, g, &x))) break; if (e) { ccs_clear_thread_error(); return rname(e); } for (auto x : ix) s += sfmt("%zu,", x); ev("drawn.tree", n); return s; }
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: if (op % 3) { e = ccs_configuration_space_samples((ccs_configuration_space_t)o, n, (ccs_configuration_t *)w.data()); return confs(e, w); } e = ccs_configuration_space_sample((ccs_configuration_space_t)o, (ccs_configuration_t *)w.data()); return confs(e, w);
	case CCS_OBJECT_TYPE_TREE_SPACE: if (op % 3) { e = ccs_tree_space_samples((ccs_tree_space_t)o, n, (ccs_tree_configuration_t *)w.data()); if (e) w.assign(n, NULL); return confs(e, w); } e = ccs_tree_space_sample((ccs_tree_space_t)o, (ccs_tree_configuration_t *)w.data()); if (e) w.assign(n, NULL); return confs(e, w);
	case CCS_OBJECT_TYPE_TUNER: if (op % 3) { e = ccs_tuner_ask((ccs_tuner_t)o, n, (ccs_configuration_t *)w.data(), NULL); return confs(e, w); } e = ccs_tuner_suggest((ccs_tuner_t)o, (ccs_configuration_t *)w.data()); return confs(e, w);
	case CCS_OBJECT_TYPE_TREE_TUNER: if (op % 3) { e = ccs_tree_tuner_ask((ccs_tree_tuner_t)o, n, (ccs_tree_configuration_t *)w.data(), NULL); if (e) w.assign(n, NULL); return confs(e, w); } e = ccs_tree_tuner_suggest((ccs_tree_tuner_t)o, (ccs_tree_configuration_t *)w.data()); if (e) w.assign(n, NULL); return confs(e, w);
	case CCS_OBJECT_TYPE_FEATURES_TUNER: {
		auto u = (ccs_features_tuner_t)o; ccs_features_space_t fs; OK(ccs_features_tuner_get_features_space(u, &fs)); Bag b; size_t np; OK(ccs_features_space_get_num_parameters(fs, &np)); DV v(np); for (size_t i = 0; i < np; i++) { ccs_parameter_t p; OK(ccs_features_space_get_parameter(fs, i, &p)); OK(ccs_parameter_get_default_value(p, &v[i])); }
		ccs_features_t f; OK(ccs_create_features(fs, np, v.data(), &f)); b.own(f);
		if (op % 3) e = ccs_features_tuner_ask(u, f, n, (ccs_configuration_t *)w.data(), NULL); else e = ccs_features_tuner_suggest(u, f, (ccs_configuration_t *)w.data()); return confs(e, w); }
	default: return "";
	}
}
