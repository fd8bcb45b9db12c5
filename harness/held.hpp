// The objects another object refers to, as its interface shows them.
#pragma once
#include "exercise.hpp"
static inline void held_by(ccs_object_t o, std::vector<ccs_object_t> &out) {
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); size_t n = 0; auto add = [&](void *x) { if (x) out.push_back((ccs_object_t)x); };
	auto params = [&](ccs_context_t c) { size_t k = 0; OK(ccs_context_get_parameters(c, 0, NULL, &k)); std::vector<ccs_parameter_t> p(k); if (k) OK(ccs_context_get_parameters(c, k, p.data(), NULL)); for (auto x : p) add(x); };
	switch (t) {
	case CCS_OBJECT_TYPE_DISTRIBUTION: {
		auto d = (ccs_distribution_t)o; ccs_distribution_type_t dt; OK(ccs_distribution_get_type(d, &dt)); std::vector<ccs_distribution_t> v;
		if (dt == CCS_DISTRIBUTION_TYPE_MIXTURE) { OK(ccs_mixture_distribution_get_distributions(d, 0, NULL, &n)); v.resize(n); OK(ccs_mixture_distribution_get_distributions(d, n, v.data(), NULL)); }
		else if (dt == CCS_DISTRIBUTION_TYPE_MULTIVARIATE) { OK(ccs_multivariate_distribution_get_distributions(d, 0, NULL, &n)); v.resize(n); OK(ccs_multivariate_distribution_get_distributions(d, n, v.data(), NULL)); }
		for (auto x : v) add(x);
		break; }
	case CCS_OBJECT_TYPE_EXPRESSION: {
		auto e = (ccs_expression_t)o; ccs_expression_type_t et; OK(ccs_expression_get_type(e, &et)); OK(ccs_expression_get_nodes(e, 0, NULL, &n)); std::vector<ccs_expression_t> v(n); if (n) OK(ccs_expression_get_nodes(e, n, v.data(), NULL)); for (auto x : v) add(x);
		if (et == CCS_EXPRESSION_TYPE_VARIABLE) { ccs_parameter_t p; OK(ccs_variable_get_parameter(e, &p)); add(p); } break; }
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: {
		auto cs = (ccs_configuration_space_t)o; params((ccs_context_t)o); ccs_rng_t g; OK(ccs_configuration_space_get_rng(cs, &g)); add(g); OK(ccs_configuration_space_get_num_parameters(cs, &n));
		for (size_t i = 0; i < n; i++) { ccs_distribution_t d; size_t k; OK(ccs_configuration_space_get_parameter_distribution(cs, i, &d, &k)); add(d); ccs_expression_t e = NULL; OK(ccs_configuration_space_get_condition(cs, i, &e)); add(e); }
		size_t m = 0; OK(ccs_configuration_space_get_forbidden_clauses(cs, 0, NULL, &m)); std::vector<ccs_expression_t> f(m); if (m) OK(ccs_configuration_space_get_forbidden_clauses(cs, m, f.data(), NULL)); for (auto e : f) add(e);
		break; }
	case CCS_OBJECT_TYPE_FEATURES_SPACE: params((ccs_context_t)o); break;
	case CCS_OBJECT_TYPE_OBJECTIVE_SPACE: { params((ccs_context_t)o); auto os = (ccs_objective_space_t)o; OK(ccs_objective_space_get_objectives(os, 0, NULL, NULL, &n)); std::vector<ccs_expression_t> e(n); std::vector<ccs_objective_type_t> ty(n); if (n) OK(ccs_objective_space_get_objectives(os, n, e.data(), ty.data(), NULL)); for (auto x : e) add(x); break; }
	case CCS_OBJECT_TYPE_CONFIGURATION: { ccs_configuration_space_t x; OK(ccs_configuration_get_configuration_space((ccs_configuration_t)o, &x)); add(x); break; }
	case CCS_OBJECT_TYPE_FEATURES: { ccs_features_space_t x; OK(ccs_features_get_features_space((ccs_features_t)o, &x)); add(x); break; }
	case CCS_OBJECT_TYPE_EVALUATION: { auto e = (ccs_evaluation_t)o; ccs_objective_space_t a; ccs_configuration_t b; OK(ccs_evaluation_get_objective_space(e, &a)); OK(ccs_evaluation_get_configuration(e, &b)); add(a); add(b); break; }
	case CCS_OBJECT_TYPE_FEATURES_EVALUATION: { auto e = (ccs_features_evaluation_t)o; ccs_objective_space_t a; ccs_configuration_t b; ccs_features_t f; OK(ccs_features_evaluation_get_objective_space(e, &a)); OK(ccs_features_evaluation_get_configuration(e, &b)); OK(ccs_features_evaluation_get_features(e, &f)); add(a); add(b); add(f); break; }
	case CCS_OBJECT_TYPE_TREE_EVALUATION: { auto e = (ccs_tree_evaluation_t)o; ccs_objective_space_t a; ccs_tree_configuration_t b; OK(ccs_tree_evaluation_get_objective_space(e, &a)); OK(ccs_tree_evaluation_get_configuration(e, &b)); add(a); add(b); break; }
	case CCS_OBJECT_TYPE_TREE_CONFIGURATION: { ccs_tree_space_t x; OK(ccs_tree_configuration_get_tree_space((ccs_tree_configuration_t)o, &x)); add(x); break; }
	case CCS_OBJECT_TYPE_TREE: { OK(ccs_tree_get_children((ccs_tree_t)o, 0, NULL, &n)); std::vector<ccs_tree_t> v(n); if (n) OK(ccs_tree_get_children((ccs_tree_t)o, n, v.data(), NULL)); for (auto x : v) add(x); break; }
	case CCS_OBJECT_TYPE_TREE_SPACE: { ccs_rng_t g; ccs_tree_t tr; OK(ccs_tree_space_get_rng((ccs_tree_space_t)o, &g)); OK(ccs_tree_space_get_tree((ccs_tree_space_t)o, &tr)); add(g); add(tr); break; }
	case CCS_OBJECT_TYPE_TUNER: { auto u = (ccs_tuner_t)o; ccs_configuration_space_t cs; ccs_objective_space_t os; OK(ccs_tuner_get_configuration_space(u, &cs)); OK(ccs_tuner_get_objective_space(u, &os)); add(cs); add(os);
		for (int k = 0; k < 2; k++) { n = 0; OK(k ? ccs_tuner_get_optima(u, 0, NULL, &n) : ccs_tuner_get_history(u, 0, NULL, &n)); std::vector<ccs_evaluation_t> v(n); if (n) OK(k ? ccs_tuner_get_optima(u, n, v.data(), NULL) : ccs_tuner_get_history(u, n, v.data(), NULL)); for (auto x : v) add(x); } break; }
	case CCS_OBJECT_TYPE_FEATURES_TUNER: { auto u = (ccs_features_tuner_t)o; ccs_configuration_space_t cs; ccs_objective_space_t os; ccs_features_space_t fs; OK(ccs_features_tuner_get_configuration_space(u, &cs)); OK(ccs_features_tuner_get_objective_space(u, &os)); OK(ccs_features_tuner_get_features_space(u, &fs)); add(cs); add(os); add(fs);
		for (int k = 0; k < 2; k++) { n = 0; OK(k ? ccs_features_tuner_get_optima(u, NULL, 0, NULL, &n) : ccs_features_tuner_get_history(u, NULL, 0, NULL, &n)); std::vector<ccs_features_evaluation_t> v(n); if (n) OK(k ? ccs_features_tuner_get_optima(u, NULL, n, v.data(), NULL) : ccs_features_tuner_get_history(u, NULL, n, v.data(), NULL)); for (auto x : v) add(x); } break; }
	case CCS_OBJECT_TYPE_TREE_TUNER: { auto u = (ccs_tree_tuner_t)o; ccs_tree_space_t ts; ccs_objective_space_t os; OK(ccs_tree_tuner_get_tree_space(u, &ts)); OK(ccs_tree_tuner_get_objective_space(u, &os)); add(ts); add(os);
		for (int k = 0; k < 2; k++) { n = 0; OK(k ? ccs_tree_tuner_get_optima(u, 0, NULL, &n) : ccs_tree_tuner_get_history(u, 0, NULL, &n)); std::vector<ccs_tree_evaluation_t> v(n); if (n) OK(k ? ccs_tree_tuner_get_optima(u, n, v.data(), NULL) : ccs_tree_tuner_get_history(u, n, v.data(), NULL)); for (auto x : v) add(x); } break; }
	case CCS_OBJECT_TYPE_MAP: { OK(ccs_map_get_pairs((ccs_map_t)o, 0, NULL, NULL, &n)); DV k(n), v(n); if (n) OK(ccs_map_get_pairs((ccs_map_t)o, n, k.data(), v.data(), NULL)); for (auto *l : {&k, &v}) for (auto &d : *l) if (d.type == CCS_DATA_TYPE_OBJECT && !(d.flags & CCS_DATUM_FLAG_ID)) add(d.value.o); break; }
	default: break;
	}
}
