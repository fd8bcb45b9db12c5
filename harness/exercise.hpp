// Uses an arbitrary library object through the whole interface of its type,
// tolerating refusals: what is watched is the absence of undefined behaviour,
// leaks and hangs.
#pragma once
#include "zoo.hpp"
#include <gsl/gsl_rng.h>
static inline bool EX(ccs_result_t e) { if (e < CCS_RESULT_SUCCESS) { ccs_clear_thread_error(); return false; } return e == CCS_RESULT_SUCCESS; }
struct Exo { bool random = true; std::function<void(ccs_object_t)> touch; }; // random: draw from the object's own generators
static void use_datum(const ccs_datum_t &d) { volatile size_t sink = 0; if (d.type == CCS_DATA_TYPE_STRING && d.value.s) sink = strlen(d.value.s); (void)sink; }
static void use_eval_values(ccs_binding_t b) {
	size_t n = 0; if (!EX(ccs_binding_get_values(b, 0, NULL, &n))) return; DV v(n); if (n && EX(ccs_binding_get_values(b, n, v.data(), NULL))) for (auto &d : v) use_datum(d);
	ccs_hash_t h; EX(ccs_binding_hash(b, &h)); int c; EX(ccs_binding_cmp(b, b, &c)); ccs_context_t cx = NULL; if (!EX(ccs_binding_get_context(b, &cx))) return;
	size_t m = 0; if (EX(ccs_context_get_num_parameters(cx, &m))) for (size_t i = 0; i < m; i++) { ccs_parameter_t p; const char *nm; ccs_datum_t d; if (EX(ccs_context_get_parameter(cx, i, &p)) && EX(ccs_parameter_get_name(p, &nm))) { if (EX(ccs_binding_get_value_by_name(b, nm, &d))) use_datum(d); EX(ccs_binding_get_value_by_parameter(b, p, &d)); EX(ccs_binding_get_value(b, i, &d)); } }
}
static void use_param(Rng &r, ccs_parameter_t p, ccs_rng_t g) {
	ccs_datum_t d, o; ccs_bool_t b; if (EX(ccs_parameter_get_default_value(p, &d))) { use_datum(d); EX(ccs_parameter_check_value(p, d, &b)); EX(ccs_parameter_validate_value(p, d, &o, &b)); }
	for (int i = 0; i < 3; i++) { ccs_datum_t x = gen_scalar(r); if (EX(ccs_parameter_validate_value(p, x, &o, &b)) && b) use_datum(o); }
	ccs_distribution_t ds = NULL; if (EX(ccs_parameter_get_default_distribution(p, &ds))) { DV v(5); if (EX(ccs_parameter_samples(p, ds, g, 5, v.data()))) for (auto &x : v) use_datum(x); ccs_release_object(ds); }
}
static void use_expr(Rng &r, ccs_expression_t e) {
	ccs_datum_t d; if (EX(ccs_expression_eval(e, NULL, NULL, &d))) use_datum(d); size_t n = 0; if (EX(ccs_expression_get_parameters(e, 0, NULL, &n)) && n) {
		std::vector<ccs_parameter_t> v(n); if (!EX(ccs_expression_get_parameters(e, n, v.data(), NULL))) return; ccs_features_space_t fs; if (!EX(ccs_create_features_space("x", &fs))) return;
		bool ok = EX(ccs_features_space_add_parameters(fs, n, v.data())); DV w; for (auto p : v) { ccs_datum_t x = ccs_inactive; if (r.below(4)) EX(ccs_parameter_get_default_value(p, &x)); w.push_back(x); }
		if (ok && EX(ccs_expression_eval(e, (ccs_context_t)fs, w.data(), &d))) use_datum(d); ccs_release_object(fs);
	}
}
static void exercise(Rng &r, ccs_object_t o, const Exo &x = Exo());
template <class C> static void drop_confs(Rng &r, std::vector<C> &v, const Exo &x) { for (auto c : v) if (c) { exercise(r, c, x); ccs_release_object(c); } }
static void exercise(Rng &r, ccs_object_t o, const Exo &x) {
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); if (x.touch) x.touch(o);
	Bag bag; ccs_rng_t g = NULL; if (EX(ccs_create_rng(&g))) bag.own(g); else return;
	switch (t) {
	case CCS_OBJECT_TYPE_RNG: if (x.random) { unsigned long u; double f; for (int i = 0; i < 3; i++) { EX(ccs_rng_get((ccs_rng_t)o, &u)); EX(ccs_rng_uniform((ccs_rng_t)o, &f)); } } break;
	case CCS_OBJECT_TYPE_DISTRIBUTION: {
		auto d = (ccs_distribution_t)o; size_t n = 0; if (!EX(ccs_distribution_get_dimension(d, &n)) || n > 10000) break; std::vector<ccs_numeric_t> v(n * 3); EX(ccs_distribution_samples(d, g, 3, v.data())); EX(ccs_distribution_sample(d, g, v.data()));
		std::vector<ccs_numeric_t *> s(n); std::vector<std::vector<ccs_numeric_t>> st(n, std::vector<ccs_numeric_t>(3)); for (size_t i = 0; i < n; i++) s[i] = st[i].data(); EX(ccs_distribution_soa_samples(d, g, 3, s.data()));
		std::vector<ccs_interval_t> b(n); std::vector<ccs_bool_t> ov(n); if (EX(ccs_distribution_get_bounds(d, b.data()))) EX(ccs_distribution_check_oversampling(d, b.data(), ov.data())); break; }
	case CCS_OBJECT_TYPE_PARAMETER: use_param(r, (ccs_parameter_t)o, g); break;
	case CCS_OBJECT_TYPE_EXPRESSION: use_expr(r, (ccs_expression_t)o); break;
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: {
		auto cs = (ccs_configuration_space_t)o; ccs_configuration_t c = NULL; if (EX(ccs_configuration_space_get_default_configuration(cs, &c))) { exercise(r, c, x); ccs_release_object(c); }
		size_t n = 0; EX(ccs_configuration_space_get_num_parameters(cs, &n)); DV v; for (size_t i = 0; i < n; i++) { ccs_parameter_t p; if (EX(ccs_configuration_space_get_parameter(cs, i, &p))) use_param(r, p, g); v.push_back(gen_scalar(r)); } ccs_bool_t b; if (n) EX(ccs_configuration_space_check_configuration_values(cs, n, v.data(), &b));
		if (x.random) { c = NULL; if (EX(ccs_configuration_space_sample(cs, &c))) { exercise(r, c, x); ccs_release_object(c); } std::vector<ccs_configuration_t> w(3, NULL); EX(ccs_configuration_space_samples(cs, 3, w.data())); drop_confs(r, w, x); } // what could be sampled is returned even on failure
		size_t nf = 0; if (EX(ccs_configuration_space_get_forbidden_clauses(cs, 0, NULL, &nf))) for (size_t i = 0; i < nf; i++) { ccs_expression_t e; if (EX(ccs_configuration_space_get_forbidden_clause(cs, i, &e))) use_expr(r, e); }
		break; }
	case CCS_OBJECT_TYPE_FEATURES_SPACE: { auto fs = (ccs_features_space_t)o; size_t n = 0; EX(ccs_features_space_get_num_parameters(fs, &n)); DV v; for (size_t i = 0; i < n; i++) { ccs_parameter_t p; ccs_datum_t d = ccs_none; if (EX(ccs_features_space_get_parameter(fs, i, &p))) { use_param(r, p, g); EX(ccs_parameter_get_default_value(p, &d)); } v.push_back(d); } ccs_features_t f; if (EX(ccs_create_features(fs, n, v.data(), &f))) { exercise(r, f, x); ccs_release_object(f); } break; }
	case CCS_OBJECT_TYPE_OBJECTIVE_SPACE: { auto os = (ccs_objective_space_t)o; size_t n = 0; EX(ccs_objective_space_get_num_parameters(os, &n)); DV v; for (size_t i = 0; i < n; i++) { ccs_parameter_t p; if (EX(ccs_objective_space_get_parameter(os, i, &p))) use_param(r, p, g); v.push_back(gen_scalar(r)); } ccs_bool_t b; if (n) EX(ccs_objective_space_check_evaluation_values(os, n, v.data(), &b));
		size_t m = 0; if (EX(ccs_objective_space_get_objectives(os, 0, NULL, NULL, &m))) for (size_t i = 0; i < m; i++) { ccs_expression_t e; ccs_objective_type_t ty; if (EX(ccs_objective_space_get_objective(os, i, &e, &ty))) use_expr(r, e); } break; }
	case CCS_OBJECT_TYPE_CONFIGURATION: { ccs_bool_t b; EX(ccs_configuration_check((ccs_configuration_t)o, &b)); use_eval_values((ccs_binding_t)o); break; }
	case CCS_OBJECT_TYPE_FEATURES: { ccs_bool_t b; EX(ccs_features_check((ccs_features_t)o, &b)); use_eval_values((ccs_binding_t)o); break; }
	case CCS_OBJECT_TYPE_EVALUATION: { auto e = (ccs_evaluation_t)o; use_eval_values((ccs_binding_t)o); ccs_bool_t b; EX(ccs_evaluation_check(e, &b)); ccs_comparison_t c; EX(ccs_evaluation_compare(e, e, &c)); size_t n = 0; if (EX(ccs_evaluation_get_objective_values(e, 0, NULL, &n)) && n) { DV v(n); if (EX(ccs_evaluation_get_objective_values(e, n, v.data(), NULL))) for (auto &d : v) use_datum(d); } ccs_configuration_t cf; if (EX(ccs_evaluation_get_configuration(e, &cf))) exercise(r, cf, x); break; }
	case CCS_OBJECT_TYPE_FEATURES_EVALUATION: { auto e = (ccs_features_evaluation_t)o; use_eval_values((ccs_binding_t)o); ccs_bool_t b; EX(ccs_features_evaluation_check(e, &b)); ccs_comparison_t c; EX(ccs_features_evaluation_compare(e, e, &c)); size_t n = 0; if (EX(ccs_features_evaluation_get_objective_values(e, 0, NULL, &n)) && n) { DV v(n); EX(ccs_features_evaluation_get_objective_values(e, n, v.data(), NULL)); } ccs_configuration_t cf; if (EX(ccs_features_evaluation_get_configuration(e, &cf))) exercise(r, cf, x); ccs_features_t f; if (EX(ccs_features_evaluation_get_features(e, &f))) exercise(r, f, x); break; }
	case CCS_OBJECT_TYPE_TREE_EVALUATION: { auto e = (ccs_tree_evaluation_t)o; use_eval_values((ccs_binding_t)o); ccs_bool_t b; EX(ccs_tree_evaluation_check(e, &b)); ccs_comparison_t c; EX(ccs_tree_evaluation_compare(e, e, &c)); size_t n = 0; if (EX(ccs_tree_evaluation_get_objective_values(e, 0, NULL, &n)) && n) { DV v(n); EX(ccs_tree_evaluation_get_objective_values(e, n, v.data(), NULL)); } ccs_tree_configuration_t cf; if (EX(ccs_tree_evaluation_get_configuration(e, &cf))) exercise(r, cf, x); break; }
	case CCS_OBJECT_TYPE_TREE_CONFIGURATION: { auto c = (ccs_tree_configuration_t)o; ccs_bool_t b; EX(ccs_tree_configuration_check(c, &b)); ccs_hash_t h; EX(ccs_tree_configuration_hash(c, &h)); int k; EX(ccs_tree_configuration_cmp(c, c, &k)); ccs_tree_t n; EX(ccs_tree_configuration_get_node(c, &n)); size_t m = 0; if (EX(ccs_tree_configuration_get_values(c, 0, NULL, &m)) && m) { DV v(m); if (EX(ccs_tree_configuration_get_values(c, m, v.data(), NULL))) for (auto &d : v) use_datum(d); } break; }
	case CCS_OBJECT_TYPE_TREE: {
		auto tr = (ccs_tree_t)o; size_t ix[4], n = 0; EX(ccs_tree_samples(tr, g, 4, ix)); EX(ccs_tree_sample(tr, g, ix)); ccs_datum_t d; if (EX(ccs_tree_get_value(tr, &d))) use_datum(d); EX(ccs_tree_get_arity(tr, &n));
		for (size_t i = 0; i < n && i < 20; i++) { ccs_tree_t c = NULL; if (EX(ccs_tree_get_child(tr, i, &c)) && c) exercise(r, c, x); size_t pos[2] = {i, r.below(3)}; ccs_bool_t b; ccs_tree_t nd; EX(ccs_tree_position_is_valid(tr, 2, pos, &b)); EX(ccs_tree_get_node_at_position(tr, 2, pos, &nd)); DV v(3); EX(ccs_tree_get_values_at_position(tr, 2, pos, 3, v.data())); }
		break; }
	case CCS_OBJECT_TYPE_TREE_SPACE: {
		auto ts = (ccs_tree_space_t)o; ccs_tree_t tr; if (EX(ccs_tree_space_get_tree(ts, &tr))) exercise(r, tr, x);
		if (x.random) { ccs_tree_configuration_t c = NULL; if (EX(ccs_tree_space_sample(ts, &c))) { exercise(r, c, x); ccs_release_object(c); } std::vector<ccs_tree_configuration_t> w(3, NULL); EX(ccs_tree_space_samples(ts, 3, w.data())); drop_confs(r, w, x); }
		for (int i = 0; i < 3; i++) { size_t pos[3] = {r.below(3), r.below(3), r.below(3)}, n = r.below(4); ccs_bool_t b; ccs_tree_t nd; DV v(4); EX(ccs_tree_space_check_position(ts, n, n ? pos : NULL, &b)); EX(ccs_tree_space_get_node_at_position(ts, n, n ? pos : NULL, &nd)); if (EX(ccs_tree_space_get_values_at_position(ts, n, n ? pos : NULL, n + 1, v.data()))) for (auto &d : v) use_datum(d); }
		break; }
	case CCS_OBJECT_TYPE_TUNER: {
		auto u = (ccs_tuner_t)o; if (x.random) { std::vector<ccs_configuration_t> w(2, NULL); size_t n = 0; if (EX(ccs_tuner_ask(u, 2, w.data(), &n))) w.resize(n); drop_confs(r, w, x); ccs_configuration_t c = NULL; if (EX(ccs_tuner_suggest(u, &c))) { exercise(r, c, x); ccs_release_object(c); } }
		size_t n = 0; if (EX(ccs_tuner_get_history(u, 0, NULL, &n)) && n) { std::vector<ccs_evaluation_t> h(n); if (EX(ccs_tuner_get_history(u, n, h.data(), NULL))) { for (auto e : h) exercise(r, e, x); for (auto a : h) for (auto b : h) { ccs_comparison_t c; EX(ccs_evaluation_compare(a, b, &c)); } EX(ccs_tuner_tell(u, 1, h.data())); } }
		if (EX(ccs_tuner_get_optima(u, 0, NULL, &n)) && n) { std::vector<ccs_evaluation_t> h(n); if (EX(ccs_tuner_get_optima(u, n, h.data(), NULL))) for (auto e : h) exercise(r, e, x); } break; }
	case CCS_OBJECT_TYPE_FEATURES_TUNER: {
		auto u = (ccs_features_tuner_t)o; size_t n = 0; if (EX(ccs_features_tuner_get_history(u, NULL, 0, NULL, &n)) && n) { std::vector<ccs_features_evaluation_t> h(n); if (EX(ccs_features_tuner_get_history(u, NULL, n, h.data(), NULL))) {
			for (auto e : h) exercise(r, e, x); ccs_features_t f = NULL; EX(ccs_features_evaluation_get_features(h[0], &f));
			if (x.random && f) { std::vector<ccs_configuration_t> w(2, NULL); size_t k = 0; if (EX(ccs_features_tuner_ask(u, f, 2, w.data(), &k))) w.resize(k); drop_confs(r, w, x); ccs_configuration_t c = NULL; if (EX(ccs_features_tuner_suggest(u, f, &c))) { exercise(r, c, x); ccs_release_object(c); } }
			if (f) { size_t k; EX(ccs_features_tuner_get_optima(u, f, 0, NULL, &k)); EX(ccs_features_tuner_get_history(u, f, 0, NULL, &k)); } EX(ccs_features_tuner_tell(u, 1, h.data())); } } break; }
	case CCS_OBJECT_TYPE_TREE_TUNER: {
		auto u = (ccs_tree_tuner_t)o; if (x.random) { std::vector<ccs_tree_configuration_t> w(2, NULL); size_t n = 0; if (EX(ccs_tree_tuner_ask(u, 2, w.data(), &n))) w.resize(n); drop_confs(r, w, x); ccs_tree_configuration_t c = NULL; if (EX(ccs_tree_tuner_suggest(u, &c))) { exercise(r, c, x); ccs_release_object(c); } }
		size_t n = 0; if (EX(ccs_tree_tuner_get_history(u, 0, NULL, &n)) && n) { std::vector<ccs_tree_evaluation_t> h(n); if (EX(ccs_tree_tuner_get_history(u, n, h.data(), NULL))) { for (auto e : h) exercise(r, e, x); EX(ccs_tree_tuner_tell(u, 1, h.data())); } } break; }
	case CCS_OBJECT_TYPE_MAP: {
		auto m = (ccs_map_t)o; size_t n = 0; if (!EX(ccs_map_get_pairs(m, 0, NULL, NULL, &n))) break; DV k(n), v(n); if (n && EX(ccs_map_get_pairs(m, n, k.data(), v.data(), NULL))) for (size_t i = 0; i < n; i++) { use_datum(k[i]); use_datum(v[i]); ccs_datum_t d; ccs_bool_t b; EX(ccs_map_get(m, k[i], &d)); EX(ccs_map_exist(m, k[i], &b)); }
		EX(ccs_map_set(m, ccs_int(123456), ccs_int(1))); EX(ccs_map_del(m, ccs_int(123456))); break; }
	default: break;
	}
}
// generators of an object whose state the stream carries
static inline void rngs_of(ccs_object_t o, std::vector<ccs_rng_t> &out) {
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); ccs_rng_t g = NULL;
	switch (t) {
	case CCS_OBJECT_TYPE_RNG: out.push_back((ccs_rng_t)o); break;
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: OK(ccs_configuration_space_get_rng((ccs_configuration_space_t)o, &g)); out.push_back(g); break;
	case CCS_OBJECT_TYPE_TREE_SPACE: OK(ccs_tree_space_get_rng((ccs_tree_space_t)o, &g)); out.push_back(g); break;
	case CCS_OBJECT_TYPE_TUNER: { ccs_configuration_space_t s; OK(ccs_tuner_get_configuration_space((ccs_tuner_t)o, &s)); rngs_of(s, out); break; }
	case CCS_OBJECT_TYPE_FEATURES_TUNER: { ccs_configuration_space_t s; OK(ccs_features_tuner_get_configuration_space((ccs_features_tuner_t)o, &s)); rngs_of(s, out); break; }
	case CCS_OBJECT_TYPE_TREE_TUNER: { ccs_tree_space_t s; OK(ccs_tree_tuner_get_tree_space((ccs_tree_tuner_t)o, &s)); rngs_of(s, out); break; }
	default: break;
	}
}
static inline std::string state_of(ccs_rng_t g) { gsl_rng *p; OK(ccs_rng_get_gsl_rng(g, &p)); return std::string((char *)gsl_rng_state(p), gsl_rng_size(p)); }

