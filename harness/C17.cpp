// C17: a refused call reports its error and changes nothing.
#include "refuse.hpp"
#include "exercise.hpp"
const char *PROP = "C17";
uint64_t num_cases(bool th) { return th ? 12000 : 979; }
bool ledger_check() { return true; }
void prop_init() {}

struct World {
	CSModel cs; OSModel os; FSModel fs;
	ccs_rng_t rng; ccs_distribution_t uni, nrm, rou, mix, mul, mul2, d2;
	PModel num, cat, ord, dis, str, fresh; ccs_parameter_t samename = NULL;
	ccs_expression_t op, lit, var, list, boolx, foreign;
	ccs_configuration_t conf, conf2; ccs_features_t feat; ccs_evaluation_t ev, ev2; ccs_features_evaluation_t fev, fev2;
	ccs_tuner_t tun, utun; ccs_features_tuner_t ftun, uftun; ccs_tree_tuner_t ttun, uttun; UD *uu, *uf, *ut, *ud;
	TP tree; ccs_tree_t loose, child; ccs_tree_space_t sts, dts; ccs_tree_configuration_t tconf, tconf2; ccs_tree_evaluation_t tev, tev2; ccs_map_t map; ccs_error_stack_t es;
	ccs_configuration_space_t cs2; ccs_objective_space_t os2; ccs_features_space_t fs2; ccs_configuration_t other_conf; ccs_evaluation_t other_ev; ccs_tree_space_t sts2; ccs_tree_configuration_t other_tconf; ccs_features_t other_feat; ccs_features_evaluation_t other_fev; ccs_tree_evaluation_t other_tev;
	std::vector<ccs_object_t> kinds, all;
};
template <class T> static T mk(Bag &b, T o) { return b.own(o); }
static void build(Rng &r, Bag &b, World &w) {
	CSOpt co; co.minp = 3; co.maxp = 5; co.safe = true; co.dists = r.below(2); w.cs = gen_cs(r, "cs", b, co); w.os = gen_os(r, "os", b, true, 3); w.fs = gen_fs(r, "fs", b, 3);
	w.rng = mk_rng(r, b);
	OK(ccs_create_uniform_int_distribution(0, 5, CCS_SCALE_TYPE_LINEAR, 0, &w.uni)); b.own(w.uni); OK(ccs_create_normal_float_distribution(0, 1, CCS_SCALE_TYPE_LINEAR, 0, &w.nrm)); b.own(w.nrm);
	double ar[3] = {1, 2, 3}; OK(ccs_create_roulette_distribution(3, ar, &w.rou)); b.own(w.rou);
	ccs_distribution_t ds[2] = {w.uni, w.uni}; OK(ccs_create_mixture_distribution(2, ds, ar, &w.mix)); b.own(w.mix); ds[1] = w.nrm; OK(ccs_create_multivariate_distribution(2, ds, &w.mul)); b.own(w.mul); ds[1] = w.uni; OK(ccs_create_multivariate_distribution(2, ds, &w.mul2)); b.own(w.mul2);
	POpt po; auto one = [&](const char *n, int t, bool st = false) { POpt q; q.types = t; q.string = st; for (;;) { PModel p = gen_param(r, n, q); b.own(p.p); return p; } };
	w.num = one("num", 1); w.cat = one("cat", 2); w.ord = one("ord", 4); w.dis = one("dis", 8); w.fresh = one("fresh", 1);
	w.str.type = CCS_PARAMETER_TYPE_STRING; w.str.name = "str"; OK(make_param(w.str)); b.own(w.str.p);
	OK(ccs_create_int_numerical_parameter(w.cs.ps[0].name.c_str(), 0, 5, 0, 1, &w.samename)); b.own(w.samename);
	OK(ccs_create_literal(ccs_int(3), &w.lit)); b.own(w.lit); OK(ccs_create_variable(w.cs.ps[0].p, &w.var)); b.own(w.var);
	OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_ADD, ccs_object(w.lit), ccs_int(2), &w.op)); b.own(w.op);
	ccs_datum_t nodes[3] = {ccs_int(1), ccs_float(2), dstr("x")}; OK(ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, 3, nodes, &w.list)); b.own(w.list);
	OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(w.var), ccs_object(w.var), &w.boolx)); b.own(w.boolx);
	ccs_expression_t fv; OK(ccs_create_variable(w.fresh.p, &fv)); b.own(fv); OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(fv), ccs_int(1), &w.foreign)); b.own(w.foreign);
	OK(ccs_configuration_space_get_default_configuration(w.cs.cs, &w.conf)); b.own(w.conf); OK(ccs_configuration_space_get_default_configuration(w.cs.cs, &w.conf2)); b.own(w.conf2);
	auto mkf = [&](ccs_features_space_t s) { DV v = w.fs.rand_values(r); ccs_features_t f; OK(ccs_create_features(s, v.size(), v.data(), &f)); return b.own(f); };
	w.feat = mkf(w.fs.fs);
	w.ev = mk_eval(w.os, w.conf, 0, w.os.rand_values(r), b); w.ev2 = mk_eval(w.os, w.conf2, 0, w.os.rand_values(r), b); w.fev = mk_feval(w.os, w.conf, w.feat, 0, w.os.rand_values(r), b); w.fev2 = mk_feval(w.os, w.conf2, w.feat, 0, w.os.rand_values(r), b);
	w.tree = gen_tree(r, b, 3, 3, true); OK(ccs_create_tree(2, ccs_int(1), &w.loose)); b.own(w.loose); OK(ccs_create_tree(0, ccs_int(2), &w.child)); b.own(w.child); OK(ccs_tree_set_child(w.loose, 0, w.child));
	OK(ccs_create_static_tree_space("sts", w.tree->t, &w.sts)); b.own(w.sts);
	w.ud = ud_new(3, r.next()); ccs_tree_t root; OK(ccs_create_tree(2, ccs_int(7), &root)); b.own(root); OK(ccs_create_dynamic_tree_space("dts", root, (ccs_dynamic_tree_space_vector_t *)ud_vector(3, 0), w.ud, &w.dts)); b.own(w.dts); { size_t at = 0; ccs_bool_t okp; OK(ccs_tree_space_check_position(w.dts, 1, &at, &okp)); }
	OK(ccs_create_tree_configuration(w.sts, 0, NULL, &w.tconf)); b.own(w.tconf); OK(ccs_create_tree_configuration(w.sts, 0, NULL, &w.tconf2)); b.own(w.tconf2);
	w.tev = mk_teval(w.os, w.tconf, 0, w.os.rand_values(r), b); w.tev2 = mk_teval(w.os, w.tconf2, 0, w.os.rand_values(r), b);
	OK(ccs_create_random_tuner("tun", w.cs.cs, w.os.os, &w.tun)); b.own(w.tun); OK(ccs_create_random_features_tuner("ftun", w.cs.cs, w.fs.fs, w.os.os, &w.ftun)); b.own(w.ftun); OK(ccs_create_random_tree_tuner("ttun", w.sts, w.os.os, &w.ttun)); b.own(w.ttun);
	w.uu = ud_new(0, 1); OK(ccs_create_user_defined_tuner("utun", w.cs.cs, w.os.os, (ccs_user_defined_tuner_vector_t *)ud_vector(0, 0), w.uu, &w.utun)); b.own(w.utun);
	w.uf = ud_new(1, 1); OK(ccs_create_user_defined_features_tuner("uftun", w.cs.cs, w.fs.fs, w.os.os, (ccs_user_defined_features_tuner_vector_t *)ud_vector(1, 0), w.uf, &w.uftun)); b.own(w.uftun);
	w.ut = ud_new(2, 1); OK(ccs_create_user_defined_tree_tuner("uttun", w.sts, w.os.os, (ccs_user_defined_tree_tuner_vector_t *)ud_vector(2, 0), w.ut, &w.uttun)); b.own(w.uttun);
	ccs_evaluation_t e2[2] = {w.ev, w.ev2}; OK(ccs_tuner_tell(w.tun, 2, e2)); OK(ccs_tuner_tell(w.utun, 1, e2)); ccs_features_evaluation_t f2[2] = {w.fev, w.fev2}; OK(ccs_features_tuner_tell(w.ftun, 2, f2)); OK(ccs_features_tuner_tell(w.uftun, 1, f2)); ccs_tree_evaluation_t t2[2] = {w.tev, w.tev2}; OK(ccs_tree_tuner_tell(w.ttun, 2, t2)); OK(ccs_tree_tuner_tell(w.uttun, 1, t2));
	OK(ccs_create_map(&w.map)); b.own(w.map); OK(ccs_map_set(w.map, ccs_int(1), dstr("one"))); OK(ccs_map_set(w.map, dstr("k"), ccs_object(w.rng)));
	OK(ccs_create_error_stack(&w.es, CCS_RESULT_ERROR_EXTERNAL, "kept")); b.own(w.es);
	OK(ccs_create_configuration_space("cs2", &w.cs2)); b.own(w.cs2); OK(ccs_configuration_space_add_parameter(w.cs2, w.fresh.p, NULL)); OK(ccs_configuration_space_get_default_configuration(w.cs2, &w.other_conf)); b.own(w.other_conf);
	OK(ccs_create_objective_space("os2", &w.os2)); b.own(w.os2); for (auto &p : w.os.ps) OK(ccs_objective_space_add_parameter(w.os2, p.p));
	OK(ccs_create_features_space("fs2", &w.fs2)); b.own(w.fs2); for (auto &p : w.fs.ps) OK(ccs_features_space_add_parameter(w.fs2, p.p));
	{ DV v = w.os.rand_values(r); OK(ccs_create_evaluation(w.os2, w.conf, 0, v.size(), v.data(), &w.other_ev)); b.own(w.other_ev); w.other_feat = mkf(w.fs2); OK(ccs_create_features_evaluation(w.os2, w.conf, w.other_feat, 0, v.size(), v.data(), &w.other_fev)); b.own(w.other_fev);
	  OK(ccs_create_static_tree_space("sts2", w.loose, &w.sts2)); b.own(w.sts2); OK(ccs_create_tree_configuration(w.sts2, 0, NULL, &w.other_tconf)); b.own(w.other_tconf); OK(ccs_create_tree_evaluation(w.os2, w.other_tconf, 0, v.size(), v.data(), &w.other_tev)); b.own(w.other_tev); }
	w.kinds = {w.rng, w.uni, w.num.p, w.op, w.cs.cs, w.conf, w.os.os, w.ev, w.tun, w.fs.fs, w.feat, w.fev, w.ftun, w.map, w.es, w.tree->t, w.sts, w.tconf, w.tev, w.ttun};
	w.all = {w.cs.cs, w.os.os, w.fs.fs, w.conf, w.feat, w.ev, w.fev, w.tun, w.ftun, w.ttun, w.utun, w.uftun, w.uttun, w.sts, w.dts, w.tree->t, w.loose, w.tconf, w.tev, w.map, w.rng, w.uni, w.mix, w.mul, w.rou, w.num.p, w.cat.p, w.ord.p, w.dis.p, w.str.p, w.op, w.list, w.cs2, w.os2, w.fs2, w.sts2};
}
#define Q(fn, ...) s('q', #fn, fn, {__VA_ARGS__})
#define M(fn, ...) s('m', #fn, fn, {__VA_ARGS__})
#define C(fn, ...) s('c', #fn, fn, {__VA_ARGS__})
#define XA(why, fn, ...) s.sem(CCS_RESULT_SUCCESS, why, #fn, fn, {__VA_ARGS__})
#define X(code, why, fn, ...) s.sem(CCS_RESULT_ERROR_##code, why, #fn, fn, {__VA_ARGS__})
static const size_t PT = sizeof(void *), SZ = sizeof(size_t), DT = sizeof(ccs_datum_t), BO = sizeof(ccs_bool_t), NT = sizeof(ccs_numeric_t), DB = sizeof(double), EN = sizeof(int);
#define BINDING(pre, h)                                                                                                    \
	Q(pre##_get_value, h, N(0), OD(1)); Q(pre##_get_values, h, N(n), OD(n), OO(SZ)); Q(pre##_get_value_by_name, h, I(n0), OD(1)); Q(pre##_hash, h, O(sizeof(ccs_hash_t)));       \
	X(OUT_OF_BOUNDS, "index beyond the last", pre##_get_value, h, N(n + s.r.below(3)), OD(1)); X(OUT_OF_BOUNDS, "huge index", pre##_get_value, h, N(SIZE_MAX - s.r.below(3)), OD(1)); \
	X(OUT_OF_BOUNDS, "index that truncates to a valid one", pre##_get_value, h, N(0x100000000ull), OD(1)); X(INVALID_NAME, "unknown name", pre##_get_value_by_name, h, I("no such name"), OD(1)); \
	if (n > 1) X(INVALID_VALUE, "small buffer", pre##_get_values, h, N(n - 1), OD(n - 1), OO(SZ)); if (n) X(INVALID_VALUE, "sized NULL buffer", pre##_get_values, h, N(n), IO(NULL), OO(SZ)); X(INVALID_VALUE, "nothing asked", pre##_get_values, h, N(0), IO(NULL), IO(NULL));
static void bindings(Sweep &s, World &w, ccs_object_t o, ccs_context_t c, const std::vector<PModel> &ps, ccs_parameter_t stranger, ccs_object_t other) {
	size_t n = ps.size(); const char *n0 = ps[0].name.c_str(); auto h = H(o, M_BIND); (void)c;
	BINDING(ccs_binding, h)
	Q(ccs_binding_get_context, h, O(PT)); Q(ccs_binding_get_value_by_parameter, h, HP(ps[0].p), OD(1)); Q(ccs_binding_cmp, h, H(other, M_BIND), O(EN));
	M(ccs_binding_set_value, h, N(0), D(ps[0].in(s.r))); M(ccs_binding_set_value_by_name, h, I(n0), D(ps[0].in(s.r))); M(ccs_binding_set_value_by_parameter, h, HP(ps[0].p), D(ps[0].in(s.r)));
	DV v; for (auto &p : ps) v.push_back(p.in(s.r)); M(ccs_binding_set_values, h, N(n), I(v.data()));
	X(OUT_OF_BOUNDS, "index beyond the last", ccs_binding_set_value, h, N(n + s.r.below(2)), D(v[0])); X(INVALID_NAME, "unknown name", ccs_binding_set_value_by_name, h, I("nope"), D(v[0])); X(INVALID_PARAMETER, "foreign parameter", ccs_binding_set_value_by_parameter, h, HP(stranger), D(v[0])); X(INVALID_PARAMETER, "foreign parameter", ccs_binding_get_value_by_parameter, h, HP(stranger), OD(1));
	X(INVALID_VALUE, "wrong number of values", ccs_binding_set_values, h, N(n - 1), I(v.data())); v.push_back(v[0]); X(INVALID_VALUE, "wrong number of values", ccs_binding_set_values, h, N(n + 1), I(v.data()));
	// a transient value its parameter does not accept: refused, wherever it stands in the list
	for (size_t k = 0; k < n; k++) { ccs_datum_t bad = ps[k].any(s.r); if (ps[k].type == CCS_PARAMETER_TYPE_STRING || ps[k].accepts(bad)) continue; bad.flags |= CCS_DATUM_FLAG_TRANSIENT; X(INVALID_VALUE, "transient value out of the domain", ccs_binding_set_value, h, N(k), D(bad)); v.resize(n); for (size_t i = 0; i < n; i++) v[i] = i == k ? bad : ps[i].in(s.r); X(INVALID_VALUE, "transient value out of the domain", ccs_binding_set_values, h, N(n), I(v.data())); ev("transient-refused"); }
}
#define SPACE(pre, sp)                                                                                                     \
	Q(pre##_get_num_parameters, sp, O(SZ)); Q(pre##_get_parameter, sp, N(0), O(PT)); Q(pre##_get_parameter_by_name, sp, I(n0), O(PT)); Q(pre##_get_parameter_index_by_name, sp, I(n0), O(SZ)); Q(pre##_get_parameter_index, sp, HP(ps[0].p), O(SZ)); \
	Q(pre##_get_parameter_indexes, sp, N(n), HPA(pp), O(n *SZ)); Q(pre##_get_parameters, sp, N(n), O(n *PT), OO(SZ)); Q(pre##_validate_value, sp, N(0), D(ps[0].in(s.r)), OD(1)); Q(pre##_get_name, sp, O(PT));    \
	X(OUT_OF_BOUNDS, "index beyond the last", pre##_get_parameter, sp, N(n + s.r.below(3)), O(PT)); X(OUT_OF_BOUNDS, "index that truncates to a valid one", pre##_get_parameter, sp, N(0x100000000ull), O(PT)); X(INVALID_NAME, "unknown name", pre##_get_parameter_by_name, sp, I("nope"), O(PT)); X(INVALID_NAME, "unknown name", pre##_get_parameter_index_by_name, sp, I("nope"), O(SZ)); \
	X(INVALID_PARAMETER, "foreign parameter", pre##_get_parameter_index, sp, HP(stranger), O(SZ)); { auto q = pp; q[0] = stranger; X(INVALID_PARAMETER, "foreign parameter", pre##_get_parameter_indexes, sp, N(n), HPA(q), O(n *SZ)); } \
	X(OUT_OF_BOUNDS, "index beyond the last", pre##_validate_value, sp, N(n + s.r.below(3)), D(ps[0].in(s.r)), OD(1)); for (size_t k = 0; k < n; k++) { ccs_datum_t bad = ps[k].any(s.r); if (!ps[k].accepts(bad)) { X(INVALID_VALUE, "value out of the domain", pre##_validate_value, sp, N(k), D(bad), OD(1)); } } \
	if (n > 1) X(INVALID_VALUE, "small buffer", pre##_get_parameters, sp, N(n - 1), O((n - 1) * PT), OO(SZ)); X(INVALID_VALUE, "nothing asked", pre##_get_parameters, sp, N(0), IO(NULL), IO(NULL));
// too few values, too many, and a transient one that its parameter refuses
#define WRONGV(code, code2, ret, fn, ...)                                                                                                                                                                                                                      \
	{                                                                                                                                                                                                                                                      \
		DV u = v; u.push_back(v[0]); X(code, "too many values", fn, __VA_ARGS__, N(n + 1), I(u.data()), O(ret)); X(code, "too few values", fn, __VA_ARGS__, N(n - 1), I(u.data()), O(ret));                                                            \
		if (code2) for (size_t k = 0; k < n; k++) { ccs_datum_t bad = ps[k].any(s.r); if (ps[k].type == CCS_PARAMETER_TYPE_STRING || ps[k].accepts(bad)) continue; bad.flags |= CCS_DATUM_FLAG_TRANSIENT; u = v; u[k] = bad; X(INVALID_VALUE, "transient value out of the domain", fn, __VA_ARGS__, N(n), I(u.data()), O(ret)); ev("create.transient-refused"); } \
	}
static void contexts(Sweep &s, World &w, ccs_object_t o, const std::vector<PModel> &ps, ccs_parameter_t stranger) {
	size_t n = ps.size(); const char *n0 = ps[0].name.c_str(); std::vector<ccs_parameter_t> pp; for (auto &p : ps) pp.push_back(p.p); auto h = H(o, M_CTX);
	SPACE(ccs_context, h)
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); DV v; for (auto &p : ps) v.push_back(p.in(s.r));
	if (t == CCS_OBJECT_TYPE_CONFIGURATION_SPACE) {
		auto c = H(o); SPACE(ccs_configuration_space, c)
		M(ccs_configuration_space_set_rng, c, H(w.rng)); Q(ccs_configuration_space_get_rng, c, O(PT)); M(ccs_configuration_space_add_parameter, c, H(w.num.p), HO(w.uni)); M(ccs_configuration_space_add_parameters, c, N(2), HA(std::vector<ccs_parameter_t>{w.num.p, w.cat.p}), IO(NULL));
		size_t ix[2] = {0, 1}; M(ccs_configuration_space_set_distribution, c, H(w.mul), I(ix)); Q(ccs_configuration_space_get_parameter_distribution, c, N(0), O(PT), O(SZ)); M(ccs_configuration_space_set_condition, c, N(0), H(w.boolx)); Q(ccs_configuration_space_get_condition, c, N(0), O(PT)); Q(ccs_configuration_space_get_conditions, c, N(n), O(n * PT), OO(SZ));
		M(ccs_configuration_space_add_forbidden_clause, c, H(w.boolx)); M(ccs_configuration_space_add_forbidden_clauses, c, N(1), HA(std::vector<ccs_expression_t>{w.boolx}));
		Q(ccs_configuration_space_check_configuration, c, H(w.conf), O(BO)); Q(ccs_configuration_space_check_configuration_values, c, N(n), I(v.data()), O(BO)); C(ccs_configuration_space_get_default_configuration, c, O(PT)); M(ccs_configuration_space_sample, c, O(PT)); M(ccs_configuration_space_samples, c, N(2), O(2 * PT));
		X(INVALID_PARAMETER, "already in the space", ccs_configuration_space_add_parameter, c, H(ps[s.r.below(n)].p), IO(NULL)); X(INVALID_PARAMETER, "name already in the space", ccs_configuration_space_add_parameter, c, H(w.samename), IO(NULL)); X(INVALID_PARAMETER, "string parameter", ccs_configuration_space_add_parameter, c, H(w.str.p), IO(NULL));
		X(INVALID_DISTRIBUTION, "two-dimensional distribution", ccs_configuration_space_add_parameter, c, H(w.num.p), H(w.mul));
		ix[1] = n + s.r.below(2); X(INVALID_VALUE, "index beyond the last", ccs_configuration_space_set_distribution, c, H(w.mul), I(ix)); ix[1] = 0; X(INVALID_VALUE, "repeated index", ccs_configuration_space_set_distribution, c, H(w.mul), I(ix));
		X(OUT_OF_BOUNDS, "index beyond the last", ccs_configuration_space_get_parameter_distribution, c, N(n), O(PT), O(SZ)); X(OUT_OF_BOUNDS, "index beyond the last", ccs_configuration_space_set_condition, c, N(n + s.r.below(3)), H(w.boolx)); X(OUT_OF_BOUNDS, "index beyond the last", ccs_configuration_space_get_condition, c, N(n), O(PT));
		X(INVALID_PARAMETER, "foreign parameter", ccs_configuration_space_set_condition, c, N(n - 1 - 0), H(w.foreign));
		X(INVALID_PARAMETER, "foreign parameter", ccs_configuration_space_add_forbidden_clause, c, H(w.foreign)); X(INVALID_PARAMETER, "foreign parameter", ccs_configuration_space_add_forbidden_clauses, c, N(1), HA(std::vector<ccs_expression_t>{w.foreign}));
		if (!w.cs.cond[0]) { // a parameter that would depend on itself
			X(INVALID_GRAPH, "parameter depending on itself", ccs_configuration_space_set_condition, c, N(0), H(w.boolx)); X(INVALID_CONFIGURATION, "default configuration forbidden", ccs_configuration_space_add_forbidden_clause, c, H(w.boolx)); ev("cycle-refused"); }
		for (size_t i = 0; i < n; i++) if (w.cs.cond[i]) { X(INVALID_PARAMETER, "condition already set", ccs_configuration_space_set_condition, c, N(i), H(w.boolx)); ev("second-condition"); }
		size_t nf; OK(ccs_configuration_space_get_forbidden_clauses((ccs_configuration_space_t)o, 0, NULL, &nf)); X(OUT_OF_BOUNDS, "index beyond the last", ccs_configuration_space_get_forbidden_clause, c, N(nf), O(PT)); if (nf) Q(ccs_configuration_space_get_forbidden_clause, c, N(0), O(PT)); if (nf > 1) X(INVALID_VALUE, "small buffer", ccs_configuration_space_get_forbidden_clauses, c, N(nf - 1), O((nf - 1) * PT), OO(SZ));
		X(INVALID_CONFIGURATION, "configuration of another space", ccs_configuration_space_check_configuration, c, H(w.other_conf), O(BO));  X(INVALID_VALUE, "small buffer", ccs_configuration_space_get_conditions, c, N(n - 1), O((n - 1) * PT), OO(SZ));
		C(ccs_create_configuration, c, N(n), I(v.data()), O(PT)); WRONGV(INVALID_VALUE, 1, PT, ccs_create_configuration, c) WRONGV(INVALID_CONFIGURATION, 0, BO, ccs_configuration_space_check_configuration_values, c) 
		
	} else if (t == CCS_OBJECT_TYPE_OBJECTIVE_SPACE) {
		auto c = H(o); SPACE(ccs_objective_space, c) size_t m = w.os.obj.size(); ccs_objective_type_t ty = CCS_OBJECTIVE_TYPE_MINIMIZE;
		M(ccs_objective_space_add_parameter, c, H(w.num.p)); M(ccs_objective_space_add_parameters, c, N(2), HA(std::vector<ccs_parameter_t>{w.num.p, w.cat.p})); Q(ccs_objective_space_check_evaluation_values, c, N(n), I(v.data()), O(BO)); M(ccs_objective_space_add_objective, c, H(w.lit), N(0)); M(ccs_objective_space_add_objectives, c, N(1), HA(std::vector<ccs_expression_t>{w.lit}), I(&ty));
		Q(ccs_objective_space_get_objective, c, N(0), O(PT), O(EN)); Q(ccs_objective_space_get_objectives, c, N(m), O(m * PT), O(m * EN), OO(SZ));
		X(INVALID_PARAMETER, "already in the space", ccs_objective_space_add_parameter, c, H(ps[s.r.below(n)].p)); X(INVALID_PARAMETER, "foreign parameter", ccs_objective_space_add_objective, c, H(w.foreign), N(0)); X(OUT_OF_BOUNDS, "index beyond the last", ccs_objective_space_get_objective, c, N(m + s.r.below(3)), O(PT), O(EN));  if (m > 1) X(INVALID_VALUE, "small buffer", ccs_objective_space_get_objectives, c, N(m - 1), O((m - 1) * PT), O((m - 1) * EN), OO(SZ));
		C(ccs_create_evaluation, c, H(w.conf), N(0), N(n), I(v.data()), O(PT)); C(ccs_create_features_evaluation, c, H(w.conf), H(w.feat), N(0), N(n), I(v.data()), O(PT)); C(ccs_create_tree_evaluation, c, H(w.tconf), N(0), N(n), I(v.data()), O(PT)); WRONGV(INVALID_VALUE, 1, PT, ccs_create_evaluation, c, H(w.conf), N(0)) WRONGV(INVALID_VALUE, 1, PT, ccs_create_features_evaluation, c, H(w.conf), H(w.feat), N(0)) WRONGV(INVALID_VALUE, 1, PT, ccs_create_tree_evaluation, c, H(w.tconf), N(0)) WRONGV(INVALID_EVALUATION, 0, BO, ccs_objective_space_check_evaluation_values, c)
		v.push_back(v[0]);   
	} else {
		auto c = H(o); SPACE(ccs_features_space, c)
		M(ccs_features_space_add_parameter, c, H(w.num.p)); M(ccs_features_space_add_parameters, c, N(2), HA(std::vector<ccs_parameter_t>{w.num.p, w.cat.p})); Q(ccs_features_space_check_features, c, H(w.feat), O(BO)); Q(ccs_features_space_check_features_values, c, N(n), I(v.data()), O(BO)); C(ccs_create_features, c, N(n), I(v.data()), O(PT)); WRONGV(INVALID_VALUE, 1, PT, ccs_create_features, c) WRONGV(INVALID_FEATURES, 0, BO, ccs_features_space_check_features_values, c)
		X(INVALID_PARAMETER, "already in the space", ccs_features_space_add_parameter, c, H(ps[s.r.below(n)].p)); X(INVALID_FEATURES, "features of another space", ccs_features_space_check_features, c, H(w.other_feat), O(BO)); v.push_back(v[0]);  
	}
}
#define EVALUATION(pre, o, o2, bad)                                                                                        \
	{ auto h = H(o); BINDING(pre, h) Q(pre##_get_objective_space, h, O(PT)); Q(pre##_get_configuration, h, O(PT)); Q(pre##_get_result, h, O(4)); M(pre##_set_result, h, N(3)); M(pre##_set_value, h, N(0), D(ps[0].in(s.r))); Q(pre##_check, h, O(BO)); Q(pre##_get_objective_value, h, N(0), OD(1)); Q(pre##_get_objective_values, h, N(m), OD(m), OO(SZ)); Q(pre##_cmp, h, H(o2), O(EN)); Q(pre##_compare, h, H(o2), O(EN)); \
	  X(OUT_OF_BOUNDS, "index beyond the last", pre##_get_objective_value, h, N(m + s.r.below(2)), OD(1)); if (m > 1) X(INVALID_VALUE, "small buffer", pre##_get_objective_values, h, N(m - 1), OD(m - 1), OO(SZ)); X(INVALID_OBJECT, "evaluations in different spaces", pre##_compare, h, H(bad), O(EN)); X(OUT_OF_BOUNDS, "index beyond the last", pre##_set_value, h, N(n), D(ps[0].in(s.r))); }
static void sweep(Rng &r, Sweep &s, World &w) {
	// which part of the interface this case visits
	switch (r.below(8)) {
	case 0: {
		contexts(s, w, w.cs.cs, w.cs.ps, w.fresh.p); bindings(s, w, w.conf, (ccs_context_t)w.cs.cs, w.cs.ps, w.fresh.p, w.conf2);
		size_t n = w.cs.ps.size(); const char *n0 = w.cs.ps[0].name.c_str(); auto h = H(w.conf); BINDING(ccs_configuration, h) Q(ccs_configuration_get_configuration_space, h, O(PT)); M(ccs_configuration_set_value, h, N(0), D(ccs_int(1))); Q(ccs_configuration_check, h, O(BO)); Q(ccs_configuration_cmp, h, H(w.conf2), O(EN)); X(OUT_OF_BOUNDS, "index beyond the last", ccs_configuration_set_value, h, N(n), D(ccs_int(1)));
		C(ccs_create_configuration_space, I("n"), O(PT)); break; }
	case 1: {
		contexts(s, w, w.fs.fs, w.fs.ps, w.fresh.p); bindings(s, w, w.feat, (ccs_context_t)w.fs.fs, w.fs.ps, w.fresh.p, w.other_feat);
		size_t n = w.fs.ps.size(); const char *n0 = w.fs.ps[0].name.c_str(); auto h = H(w.feat); BINDING(ccs_features, h) Q(ccs_features_get_features_space, h, O(PT)); M(ccs_features_set_value, h, N(0), D(ccs_int(1))); Q(ccs_features_check, h, O(BO)); Q(ccs_features_cmp, h, H(w.other_feat), O(EN)); C(ccs_create_features_space, I("n"), O(PT)); break; }
	case 2: {
		contexts(s, w, w.os.os, w.os.ps, w.fresh.p); auto &ps = w.os.ps; size_t n = ps.size(), m = w.os.obj.size(); const char *n0 = ps[0].name.c_str(); C(ccs_create_objective_space, I("n"), O(PT));
		bindings(s, w, w.ev, (ccs_context_t)w.os.os, ps, w.fresh.p, w.ev2); bindings(s, w, w.fev, (ccs_context_t)w.os.os, ps, w.fresh.p, w.fev2); bindings(s, w, w.tev, (ccs_context_t)w.os.os, ps, w.fresh.p, w.tev2);
		EVALUATION(ccs_evaluation, w.ev, w.ev2, w.other_ev) EVALUATION(ccs_features_evaluation, w.fev, w.fev2, w.other_fev) EVALUATION(ccs_tree_evaluation, w.tev, w.tev2, w.other_tev) Q(ccs_features_evaluation_get_features, H(w.fev), O(PT)); break; }
	case 3: { // distributions
		for (auto d : {w.uni, w.nrm, w.rou, w.mix, w.mul}) {
			size_t dim; OK(ccs_distribution_get_dimension(d, &dim)); auto h = H(d); std::vector<ccs_interval_t> iv(dim); OK(ccs_distribution_get_bounds(d, iv.data()));
			Q(ccs_distribution_get_type, h, O(EN)); Q(ccs_distribution_get_dimension, h, O(SZ)); Q(ccs_distribution_get_data_types, h, O(dim * EN)); Q(ccs_distribution_get_bounds, h, O(dim * sizeof(ccs_interval_t))); Q(ccs_distribution_check_oversampling, h, I(iv.data()), O(dim * BO));
			M(ccs_distribution_sample, h, H(w.rng), O(dim * NT)); M(ccs_distribution_samples, h, H(w.rng), N(3), O(dim * 3 * NT)); M(ccs_distribution_strided_samples, h, H(w.rng), N(2), N(dim), O(dim * 2 * NT)); std::vector<std::vector<ccs_numeric_t>> b(dim, std::vector<ccs_numeric_t>(2)); std::vector<ccs_numeric_t *> bp; for (auto &x : b) bp.push_back(x.data()); M(ccs_distribution_soa_samples, h, H(w.rng), N(2), I(bp.data()));
			if (dim > 1) X(INVALID_VALUE, "stride below the dimension", ccs_distribution_strided_samples, h, H(w.rng), N(2), N(dim - 1), O(dim * 2 * NT));
			std::vector<ccs_parameter_t> pp(dim, w.num.p); M(ccs_distribution_parameters_samples, h, H(w.rng), HA(pp), N(2), OD(2 * dim)); M(ccs_distribution_parameters_sample, h, H(w.rng), HA(pp), OD(dim)); XA("string parameter", ccs_distribution_parameters_sample, h, H(w.rng), HA(std::vector<ccs_parameter_t>(dim, w.str.p)), OD(dim));
			ccs_distribution_type_t t; OK(ccs_distribution_get_type(d, &t));
			if (t == CCS_DISTRIBUTION_TYPE_NORMAL) Q(ccs_normal_distribution_get_properties, h, OO(DB), OO(DB), OO(EN), OO(NT)); else X(INVALID_DISTRIBUTION, "other type", ccs_normal_distribution_get_properties, h, OO(DB), OO(DB), OO(EN), OO(NT));
			if (t == CCS_DISTRIBUTION_TYPE_UNIFORM) Q(ccs_uniform_distribution_get_properties, h, OO(NT), OO(NT), OO(EN), OO(NT)); else X(INVALID_DISTRIBUTION, "other type", ccs_uniform_distribution_get_properties, h, OO(NT), OO(NT), OO(EN), OO(NT));
			if (t == CCS_DISTRIBUTION_TYPE_ROULETTE) { Q(ccs_roulette_distribution_get_num_areas, h, O(SZ)); Q(ccs_roulette_distribution_get_areas, h, N(3), O(3 * DB), OO(SZ)); X(INVALID_VALUE, "small buffer", ccs_roulette_distribution_get_areas, h, N(2), O(2 * DB), OO(SZ)); } else { X(INVALID_DISTRIBUTION, "other type", ccs_roulette_distribution_get_num_areas, h, O(SZ)); X(INVALID_DISTRIBUTION, "other type", ccs_roulette_distribution_get_areas, h, N(3), O(3 * DB), OO(SZ)); }
			if (t == CCS_DISTRIBUTION_TYPE_MIXTURE) { Q(ccs_mixture_distribution_get_num_distributions, h, O(SZ)); Q(ccs_mixture_distribution_get_distributions, h, N(2), O(2 * PT), OO(SZ)); Q(ccs_mixture_distribution_get_weights, h, N(2), O(2 * DB), OO(SZ)); X(INVALID_VALUE, "small buffer", ccs_mixture_distribution_get_weights, h, N(1), O(DB), OO(SZ)); } else { X(INVALID_DISTRIBUTION, "other type", ccs_mixture_distribution_get_num_distributions, h, O(SZ)); X(INVALID_DISTRIBUTION, "other type", ccs_mixture_distribution_get_distributions, h, N(2), O(2 * PT), OO(SZ)); X(INVALID_DISTRIBUTION, "other type", ccs_mixture_distribution_get_weights, h, N(2), O(2 * DB), OO(SZ)); }
			if (t == CCS_DISTRIBUTION_TYPE_MULTIVARIATE) { Q(ccs_multivariate_distribution_get_num_distributions, h, O(SZ)); Q(ccs_multivariate_distribution_get_distributions, h, N(2), O(2 * PT), OO(SZ)); } else { X(INVALID_DISTRIBUTION, "other type", ccs_multivariate_distribution_get_num_distributions, h, O(SZ)); X(INVALID_DISTRIBUTION, "other type", ccs_multivariate_distribution_get_distributions, h, N(2), O(2 * PT), OO(SZ)); }
		}
		double ar[3] = {1, 2, 3}, neg[3] = {1, -2, 3}, zero[3] = {0, 0, 0};
		C(ccs_create_normal_distribution, N(CCS_NUMERIC_TYPE_FLOAT), F(0), F(1), N(0), NU(NF(0)), O(PT)); C(ccs_create_normal_int_distribution, F(0), F(1), N(0), N(0), O(PT)); C(ccs_create_normal_float_distribution, F(0), F(1), N(0), F(0), O(PT)); C(ccs_create_uniform_distribution, N(CCS_NUMERIC_TYPE_INT), NU(NI(0)), NU(NI(4)), N(0), NU(NI(0)), O(PT)); C(ccs_create_uniform_int_distribution, N(0), N(4), N(0), N(0), O(PT)); C(ccs_create_uniform_float_distribution, F(0), F(4), N(0), F(0), O(PT));
		C(ccs_create_roulette_distribution, N(3), I(ar), O(PT)); C(ccs_create_mixture_distribution, N(2), HA(std::vector<ccs_distribution_t>{w.uni, w.uni}), I(ar), O(PT)); C(ccs_create_multivariate_distribution, N(2), HA(std::vector<ccs_distribution_t>{w.uni, w.nrm}), O(PT));
		X(INVALID_VALUE, "negative quantization", ccs_create_normal_float_distribution, F(0), F(1), N(0), F(-1), O(PT)); X(INVALID_VALUE, "unordered bounds", ccs_create_uniform_int_distribution, N(4), N(4), N(0), N(0), O(PT)); X(INVALID_VALUE, "unordered bounds", ccs_create_uniform_float_distribution, F(4), F(3), N(0), F(0), O(PT)); X(INVALID_VALUE, "negative quantization", ccs_create_uniform_float_distribution, F(0), F(3), N(0), F(-1), O(PT)); X(INVALID_VALUE, "quantization beyond the range", ccs_create_uniform_int_distribution, N(0), N(3), N(0), N(4), O(PT));
		X(INVALID_SCALE, "unknown scale", ccs_create_normal_float_distribution, F(0), F(1), N(99), F(0), O(PT)); X(INVALID_SCALE, "unknown scale", ccs_create_uniform_float_distribution, F(0), F(1), N(99), F(0), O(PT)); X(INVALID_TYPE, "unknown data type", ccs_create_uniform_distribution, N(99), NU(NI(0)), NU(NI(4)), N(0), NU(NI(0)), O(PT)); X(INVALID_TYPE, "unknown data type", ccs_create_normal_distribution, N(99), F(0), F(1), N(0), NU(NI(0)), O(PT)); X(INVALID_VALUE, "logarithm of a negative bound", ccs_create_uniform_float_distribution, F(-1), F(3), N(CCS_SCALE_TYPE_LOGARITHMIC), F(0), O(PT));
		X(INVALID_VALUE, "negative area", ccs_create_roulette_distribution, N(3), I(neg), O(PT)); X(INVALID_VALUE, "zero areas", ccs_create_roulette_distribution, N(3), I(zero), O(PT)); X(INVALID_VALUE, "no area", ccs_create_roulette_distribution, N(0), I(ar), O(PT));
		X(INVALID_VALUE, "negative weight", ccs_create_mixture_distribution, N(2), HA(std::vector<ccs_distribution_t>{w.uni, w.uni}), I(neg), O(PT)); X(INVALID_DISTRIBUTION, "different types", ccs_create_mixture_distribution, N(2), HA(std::vector<ccs_distribution_t>{w.uni, w.nrm}), I(ar), O(PT)); X(INVALID_DISTRIBUTION, "different types", ccs_create_mixture_distribution, N(3), HA(std::vector<ccs_distribution_t>{w.mul, w.mul, w.mul2}), I(ar), O(PT)); X(INVALID_DISTRIBUTION, "different dimensions", ccs_create_mixture_distribution, N(2), HA(std::vector<ccs_distribution_t>{w.uni, w.mul}), I(ar), O(PT)); X(INVALID_VALUE, "no distribution", ccs_create_multivariate_distribution, N(0), HA(std::vector<ccs_distribution_t>{w.uni}), O(PT));
		ccs_interval_t iv{CCS_NUMERIC_TYPE_INT, NI(0), NI(4), CCS_TRUE, CCS_FALSE}, jv{CCS_NUMERIC_TYPE_FLOAT, NF(0), NF(4), CCS_TRUE, CCS_FALSE}; Q(ccs_interval_empty, I(&iv), O(BO)); Q(ccs_interval_intersect, I(&iv), I(&iv), O(sizeof iv)); Q(ccs_interval_union, I(&iv), I(&iv), O(sizeof iv)); Q(ccs_interval_equal, I(&iv), I(&iv), O(BO)); X(INVALID_TYPE, "different types", ccs_interval_intersect, I(&iv), I(&jv), O(sizeof iv)); X(INVALID_TYPE, "different types", ccs_interval_union, I(&iv), I(&jv), O(sizeof iv)); X(INVALID_TYPE, "different types", ccs_interval_equal, I(&iv), I(&jv), O(BO));
		break; }
	case 4: { // parameters and generators
		for (auto &p : {w.num, w.cat, w.ord, w.dis, w.str}) {
			auto h = H(p.p); ccs_datum_t v = p.type == CCS_PARAMETER_TYPE_STRING ? dstr("v") : p.in(r); DV vs(3, v); std::vector<ccs_bool_t> res(3); bool str = p.type == CCS_PARAMETER_TYPE_STRING; size_t nv = p.values.size();
			Q(ccs_parameter_get_type, h, O(EN)); Q(ccs_parameter_get_name, h, O(PT)); Q(ccs_parameter_check_value, h, D(v), O(BO)); Q(ccs_parameter_check_values, h, N(3), I(vs.data()), O(3 * BO)); Q(ccs_parameter_validate_value, h, D(v), OD(1), O(BO)); Q(ccs_parameter_validate_values, h, N(3), I(vs.data()), OD(3), O(3 * BO));
			if (!str) { Q(ccs_parameter_get_default_value, h, OD(1)); C(ccs_parameter_get_default_distribution, h, O(PT)); M(ccs_parameter_sample, h, H(w.uni), H(w.rng), OD(1)); M(ccs_parameter_samples, h, H(w.uni), H(w.rng), N(2), OD(2)); Q(ccs_parameter_sampling_interval, h, O(sizeof(ccs_interval_t))); std::vector<ccs_numeric_t> nv2(2, p.nt == CCS_NUMERIC_TYPE_INT ? NI(0) : NF(0)); M(ccs_parameter_convert_samples, h, N(0), N(2), I(nv2.data()), OD(2)); X(INVALID_DISTRIBUTION, "two-dimensional distribution", ccs_parameter_sample, h, H(w.mul), H(w.rng), OD(1)); }
			else { X(UNSUPPORTED_OPERATION, "string parameter", ccs_parameter_get_default_distribution, h, O(PT)); X(UNSUPPORTED_OPERATION, "string parameter", ccs_parameter_sample, h, H(w.uni), H(w.rng), OD(1)); X(UNSUPPORTED_OPERATION, "string parameter", ccs_parameter_samples, h, H(w.uni), H(w.rng), N(2), OD(2)); }
#define LISTP(fn, ty) if (p.type == ty) { Q(fn, h, N(nv), OD(nv), OO(SZ)); if (nv > 1) X(INVALID_VALUE, "small buffer", fn, h, N(nv - 1), OD(nv - 1), OO(SZ)); } else X(INVALID_PARAMETER, "other type", fn, h, N(3), OD(3), OO(SZ));
			LISTP(ccs_categorical_parameter_get_values, CCS_PARAMETER_TYPE_CATEGORICAL) LISTP(ccs_ordinal_parameter_get_values, CCS_PARAMETER_TYPE_ORDINAL) LISTP(ccs_discrete_parameter_get_values, CCS_PARAMETER_TYPE_DISCRETE)
			if (p.type == CCS_PARAMETER_TYPE_ORDINAL) { Q(ccs_ordinal_parameter_compare_values, h, D(v), D(v), O(8)); ccs_datum_t bad = dstr("not a value"); X(INVALID_VALUE, "not one of the values", ccs_ordinal_parameter_compare_values, h, D(v), D(bad), O(8)); X(INVALID_VALUE, "not one of the values", ccs_ordinal_parameter_compare_values, h, D(bad), D(v), O(8)); } else X(INVALID_PARAMETER, "other type", ccs_ordinal_parameter_compare_values, h, D(v), D(v), O(8));
			if (p.type == CCS_PARAMETER_TYPE_NUMERICAL) Q(ccs_numerical_parameter_get_properties, h, OO(EN), OO(NT), OO(NT), OO(NT)); else X(INVALID_PARAMETER, "other type", ccs_numerical_parameter_get_properties, h, OO(EN), OO(NT), OO(NT), OO(NT));
		}
		DV three = {ccs_int(1), ccs_float(2), dstr("3")}, dup = {ccs_int(1), ccs_int(2), ccs_int(1)}, numv = {ccs_int(1), ccs_int(4), ccs_float(2.5)};
		C(ccs_create_numerical_parameter, I("p"), N(CCS_NUMERIC_TYPE_INT), NU(NI(0)), NU(NI(5)), NU(NI(0)), NU(NI(1)), O(PT)); C(ccs_create_int_numerical_parameter, I("p"), N(0), N(5), N(0), N(1), O(PT)); C(ccs_create_float_numerical_parameter, I("p"), F(0), F(5), F(0), F(1), O(PT)); C(ccs_create_string_parameter, I("p"), O(PT));
		C(ccs_create_categorical_parameter, I("p"), N(3), I(three.data()), N(1), O(PT)); C(ccs_create_ordinal_parameter, I("p"), N(3), I(three.data()), N(1), O(PT)); C(ccs_create_discrete_parameter, I("p"), N(3), I(numv.data()), N(1), O(PT));
		X(INVALID_VALUE, "unordered bounds", ccs_create_int_numerical_parameter, I("p"), N(5), N(5), N(0), N(5), O(PT)); X(INVALID_VALUE, "default out of bounds", ccs_create_int_numerical_parameter, I("p"), N(0), N(5), N(0), N(5), O(PT)); X(INVALID_VALUE, "default out of bounds", ccs_create_float_numerical_parameter, I("p"), F(0), F(5), F(0), F(-1), O(PT)); X(INVALID_VALUE, "negative quantization", ccs_create_float_numerical_parameter, I("p"), F(0), F(5), F(-1), F(1), O(PT)); X(INVALID_VALUE, "quantization beyond the range", ccs_create_int_numerical_parameter, I("p"), N(0), N(5), N(9), N(1), O(PT)); X(INVALID_TYPE, "unknown data type", ccs_create_numerical_parameter, I("p"), N(77), NU(NI(0)), NU(NI(5)), NU(NI(0)), NU(NI(1)), O(PT));
		X(INVALID_VALUE, "default index beyond the last", ccs_create_categorical_parameter, I("p"), N(3), I(three.data()), N(3), O(PT)); X(INVALID_VALUE, "repeated value", ccs_create_categorical_parameter, I("p"), N(3), I(dup.data()), N(0), O(PT)); X(INVALID_VALUE, "default index beyond the last", ccs_create_ordinal_parameter, I("p"), N(3), I(three.data()), N(3), O(PT)); X(INVALID_VALUE, "repeated value", ccs_create_ordinal_parameter, I("p"), N(3), I(dup.data()), N(0), O(PT)); { static DV far; far.clear(); for (int i = 0, m = s.r.range(4, 60); i < m; i++) far.push_back(ccs_int(i)); far[far.size() - 1 - s.r.below(far.size() / 2)] = far[s.r.below(far.size() / 2)]; X(INVALID_VALUE, "repeated value", ccs_create_categorical_parameter, I("p"), N(far.size()), I(far.data()), N(0), O(PT)); X(INVALID_VALUE, "repeated value", ccs_create_ordinal_parameter, I("p"), N(far.size()), I(far.data()), N(0), O(PT)); X(INVALID_VALUE, "repeated value", ccs_create_discrete_parameter, I("p"), N(far.size()), I(far.data()), N(0), O(PT)); }
		X(INVALID_VALUE, "repeated value", ccs_create_discrete_parameter, I("p"), N(3), I(dup.data()), N(0), O(PT)); X(INVALID_VALUE, "default index beyond the last", ccs_create_discrete_parameter, I("p"), N(3), I(numv.data()), N(3), O(PT)); X(INVALID_VALUE, "value that is not a number", ccs_create_discrete_parameter, I("p"), N(3), I(three.data()), N(0), O(PT));
		X(INVALID_VALUE, "no value", ccs_create_categorical_parameter, I("p"), N(0), I(three.data()), N(0), O(PT));
		auto g = H(w.rng); C(ccs_create_rng, O(PT)); C(ccs_create_rng_with_type, I(gsl_rng_taus), O(PT)); Q(ccs_rng_get_type, g, O(PT)); M(ccs_rng_set_seed, g, N(3)); M(ccs_rng_get, g, O(8)); M(ccs_rng_uniform, g, O(8)); Q(ccs_rng_get_gsl_rng, g, O(PT)); Q(ccs_rng_min, g, O(8)); Q(ccs_rng_max, g, O(8));
		break; }
	case 5: { // expressions, maps, objects, error stacks
		auto &ps = w.cs.ps; DV v; for (auto &p : ps) v.push_back(p.in(r)); ccs_datum_t nodes[2] = {ccs_int(1), ccs_object(w.op)}, badn[2] = {ccs_int(1), ccs_object(w.cs.cs)};
		C(ccs_create_expression, N(CCS_EXPRESSION_TYPE_ADD), N(2), I(nodes), O(PT)); C(ccs_create_binary_expression, N(CCS_EXPRESSION_TYPE_ADD), D(nodes[0]), D(nodes[1]), O(PT)); C(ccs_create_unary_expression, N(CCS_EXPRESSION_TYPE_NOT), D(nodes[1]), O(PT)); C(ccs_create_literal, D(ccs_int(1)), O(PT)); C(ccs_create_variable, H(ps[0].p), O(PT));
		for (auto e : {w.op, w.lit, w.var, w.list, w.boolx}) { auto h = H(e); Q(ccs_expression_get_type, h, O(EN)); Q(ccs_expression_get_num_nodes, h, O(SZ)); size_t n; OK(ccs_expression_get_num_nodes(e, &n)); if (n) Q(ccs_expression_get_nodes, h, N(n), O(n * PT), OO(SZ)); if (n > 1) X(INVALID_VALUE, "small buffer", ccs_expression_get_nodes, h, N(n - 1), O((n - 1) * PT), OO(SZ)); Q(ccs_expression_get_parameters, h, N(3), O(3 * PT), OO(SZ)); }
		Q(ccs_literal_get_value, H(w.lit), OD(1)); Q(ccs_variable_get_parameter, H(w.var), O(PT)); X(INVALID_EXPRESSION, "not a literal", ccs_literal_get_value, H(w.var), OD(1)); X(INVALID_EXPRESSION, "not a variable", ccs_variable_get_parameter, H(w.lit), O(PT)); X(INVALID_EXPRESSION, "not a literal", ccs_literal_get_value, H(w.op), OD(1));
		Q(ccs_expression_eval, H(w.boolx), H(w.cs.cs, M_CTX), I(v.data()), OD(1)); Q(ccs_expression_eval, H(w.op), IO(NULL), IO(NULL), OD(1)); Q(ccs_expression_list_eval_node, H(w.list), IO(NULL), IO(NULL), N(1), OD(1)); X(OUT_OF_BOUNDS, "index beyond the last", ccs_expression_list_eval_node, H(w.list), IO(NULL), IO(NULL), N(3 + r.below(2)), OD(1)); X(INVALID_EXPRESSION, "not a list", ccs_expression_list_eval_node, H(w.op), IO(NULL), IO(NULL), N(0), OD(1));
		Q(ccs_expression_check_context, H(w.op), IO(NULL)); Q(ccs_expression_check_context, H(w.boolx), HO(w.cs.cs, M_CTX)); X(INVALID_PARAMETER, "foreign parameter", ccs_expression_check_context, H(w.foreign), H(w.cs.cs)); X(INVALID_VALUE, "no context", ccs_expression_check_context, H(w.boolx), IO(NULL)); X(INVALID_PARAMETER, "foreign parameter", ccs_expression_eval, H(w.foreign), H(w.cs.cs), I(v.data()), OD(1));
		X(INVALID_VALUE, "wrong number of operands", ccs_create_expression, N(CCS_EXPRESSION_TYPE_ADD), N(1), I(nodes), O(PT)); X(INVALID_VALUE, "literal through the generic constructor", ccs_create_expression, N(CCS_EXPRESSION_TYPE_LITERAL), N(1), I(nodes), O(PT)); X(INVALID_VALUE, "variable through the generic constructor", ccs_create_expression, N(CCS_EXPRESSION_TYPE_VARIABLE), N(1), I(nodes), O(PT)); X(INVALID_VALUE, "unknown type", ccs_create_expression, N(999), N(2), I(nodes), O(PT)); X(INVALID_VALUE, "operand that is another object", ccs_create_expression, N(CCS_EXPRESSION_TYPE_ADD), N(2), I(badn), O(PT)); X(INVALID_VALUE, "object literal", ccs_create_literal, D(badn[1]), O(PT));
		auto m = H(w.map); C(ccs_create_map, O(PT)); M(ccs_map_set, m, D(ccs_int(4)), D(ccs_int(5))); Q(ccs_map_exist, m, D(ccs_int(1)), O(BO)); Q(ccs_map_get, m, D(ccs_int(1)), OD(1)); M(ccs_map_del, m, D(ccs_int(1))); Q(ccs_map_get_keys, m, N(2), OD(2), OO(SZ)); Q(ccs_map_get_values, m, N(2), OD(2), OO(SZ)); Q(ccs_map_get_pairs, m, N(2), OD(2), OD(2), OO(SZ)); M(ccs_map_clear, m); X(INVALID_VALUE, "small buffer", ccs_map_get_keys, m, N(1), OD(1), OO(SZ)); X(INVALID_VALUE, "small buffer", ccs_map_get_values, m, N(1), OD(1), OO(SZ)); X(INVALID_VALUE, "small buffer", ccs_map_get_pairs, m, N(1), OD(1), OD(1), OO(SZ)); X(INVALID_VALUE, "absent key", ccs_map_del, m, D(ccs_float(1)));
		ccs_object_t o = r.pick(w.kinds); auto h = H(o, M_ANY); void *ptr = &w; Q(ccs_object_get_type, h, O(EN)); Q(ccs_object_get_refcount, h, O(4)); Q(ccs_object_get_user_data, h, O(PT)); M(ccs_object_set_user_data, h, IO(ptr)); M(ccs_object_set_destroy_callback, h, I(ptr), IO(NULL)); M(ccs_object_set_serialize_callback, h, IO(NULL), IO(NULL)); M(ccs_retain_object, h); M(ccs_release_object, h);
		const char *nm; ccs_result_t e = ccs_get_result_name((ccs_result_t)r.pick({1000, -1000, 77}), &nm); CHECK(e < 0, "result-name", "unknown result code accepted"); ccs_clear_thread_error();
		break; }
	case 6: { // trees
		auto t = H(w.loose); size_t pos[1] = {0}, badp[1] = {2 + r.below(3)}; ccs_tree_t free1; OK(ccs_create_tree(1, ccs_int(9), &free1)); 
		C(ccs_create_tree, N(2), D(ccs_int(1)), O(PT)); Q(ccs_tree_get_value, t, OD(1)); Q(ccs_tree_get_arity, t, O(SZ)); M(ccs_tree_set_child, t, N(1), H(free1)); Q(ccs_tree_get_child, t, N(0), O(PT)); Q(ccs_tree_get_children, t, N(2), O(2 * PT), OO(SZ)); Q(ccs_tree_get_parent, H(w.child), O(PT), OO(SZ)); Q(ccs_tree_get_position, H(w.child), N(1), O(SZ), OO(SZ)); Q(ccs_tree_get_values, H(w.child), N(2), OD(2), OO(SZ)); Q(ccs_tree_position_is_valid, t, N(1), I(pos), O(BO)); Q(ccs_tree_get_values_at_position, t, N(1), I(pos), N(2), OD(2)); Q(ccs_tree_get_node_at_position, t, N(1), I(pos), O(PT)); Q(ccs_tree_get_weight, t, O(DB)); M(ccs_tree_set_weight, t, F(2)); Q(ccs_tree_get_bias, t, O(DB)); M(ccs_tree_set_bias, t, F(2)); M(ccs_tree_sample, t, H(w.rng), O(SZ)); M(ccs_tree_samples, t, H(w.rng), N(2), O(2 * SZ));
		X(OUT_OF_BOUNDS, "index beyond the last", ccs_tree_set_child, t, N(2 + r.below(2)), H(free1)); X(INVALID_VALUE, "child already set", ccs_tree_set_child, t, N(0), H(free1)); X(INVALID_TREE, "child that has a parent", ccs_tree_set_child, t, N(1), H(w.child)); X(INVALID_TREE, "cycle", ccs_tree_set_child, t, N(1), H(w.loose)); X(OUT_OF_BOUNDS, "index beyond the last", ccs_tree_get_child, t, N(2), O(PT)); X(INVALID_TREE, "position out of the tree", ccs_tree_get_node_at_position, t, N(1), I(badp), O(PT)); X(INVALID_TREE, "position out of the tree", ccs_tree_get_values_at_position, t, N(1), I(badp), N(2), OD(2)); X(INVALID_VALUE, "small buffer", ccs_tree_get_values_at_position, t, N(1), I(pos), N(1), OD(1)); X(INVALID_VALUE, "small buffer", ccs_tree_get_children, t, N(1), O(PT), OO(SZ)); X(INVALID_VALUE, "small buffer", ccs_tree_get_values, H(w.child), N(1), OD(1), OO(SZ)); X(INVALID_VALUE, "negative weight", ccs_tree_set_weight, t, F(-1)); X(INVALID_VALUE, "negative bias", ccs_tree_set_bias, t, F(-0.5));
		s.w.m.erase(free1); ccs_release_object(free1);
		for (auto ts : {w.sts2, w.dts}) {
			auto h = H(ts); bool dyn = ts == w.dts; pos[0] = 0; auto cf = w.other_tconf; if (dyn) { OK(ccs_create_tree_configuration(ts, 1, pos, &cf)); s.w.m.erase(ts); ccs_bool_t b; OK(ccs_tree_configuration_check(cf, &b)); }
			Q(ccs_tree_space_get_type, h, O(EN)); Q(ccs_tree_space_get_name, h, O(PT)); M(ccs_tree_space_set_rng, h, H(w.rng)); Q(ccs_tree_space_get_rng, h, O(PT)); Q(ccs_tree_space_get_tree, h, O(PT)); Q(ccs_tree_space_get_node_at_position, h, N(1), I(pos), O(PT)); Q(ccs_tree_space_get_values_at_position, h, N(1), I(pos), N(2), OD(2)); Q(ccs_tree_space_check_position, h, N(1), I(pos), O(BO)); Q(ccs_tree_space_check_configuration, h, H(cf), O(BO)); M(ccs_tree_space_sample, h, O(PT)); M(ccs_tree_space_samples, h, N(2), O(2 * PT)); C(ccs_create_tree_configuration, h, N(1), I(pos), O(PT));
			X(INVALID_CONFIGURATION, "configuration of another space", ccs_tree_space_check_configuration, h, H(w.tconf), O(BO)); X(INVALID_TREE, "position out of the tree", ccs_tree_space_get_node_at_position, h, N(1), I(badp), O(PT)); X(INVALID_TREE, "position out of the tree", ccs_tree_space_get_values_at_position, h, N(1), I(badp), N(2), OD(2)); X(INVALID_VALUE, "small buffer", ccs_tree_space_get_values_at_position, h, N(1), I(pos), N(1), OD(1));
			auto c = H(cf); Q(ccs_tree_configuration_get_tree_space, c, O(PT)); Q(ccs_tree_configuration_get_position, c, N(3), O(3 * SZ), OO(SZ)); Q(ccs_tree_configuration_get_values, c, N(4), OD(4), OO(SZ)); Q(ccs_tree_configuration_get_node, c, O(PT)); Q(ccs_tree_configuration_check, c, O(BO)); Q(ccs_tree_configuration_hash, c, O(4)); Q(ccs_tree_configuration_cmp, c, H(w.tconf2), O(EN));
			if (dyn) { s.w.m.erase(cf); ccs_release_object(cf); s.w.m.erase(ts); Q(ccs_dynamic_tree_space_get_tree_space_data, h, O(PT)); } else X(INVALID_TREE_SPACE, "static space", ccs_dynamic_tree_space_get_tree_space_data, h, O(PT));
		}
		C(ccs_create_static_tree_space, I("n"), H(w.loose), O(PT)); auto *vec = (ccs_dynamic_tree_space_vector_t *)ud_vector(3, 0); M(ccs_create_dynamic_tree_space, I("n"), H(w.loose), I(vec), IO(NULL), O(PT));
		auto bad = *vec; if (r.below(2)) bad.get_child = NULL; else bad.del = NULL; X(INVALID_VALUE, "missing callback", ccs_create_dynamic_tree_space, I("n"), H(w.loose), I(&bad), IO(NULL), O(PT)); break; }
	case 7: { // tuners
		for (auto u : {w.tun, w.utun}) { auto h = H(u); bool user = u == w.utun; std::vector<ccs_evaluation_t> e1{w.ev};
			Q(ccs_tuner_get_type, h, O(EN)); Q(ccs_tuner_get_name, h, O(PT)); Q(ccs_tuner_get_configuration_space, h, O(PT)); Q(ccs_tuner_get_objective_space, h, O(PT)); M(ccs_tuner_ask, h, N(2), O(2 * PT), OO(SZ)); if (!user) M(ccs_tuner_tell, h, N(1), HA(e1)); M(ccs_tuner_suggest, h, O(PT)); Q(ccs_tuner_get_optima, h, N(3), O(3 * PT), OO(SZ)); Q(ccs_tuner_get_history, h, N(3), O(3 * PT), OO(SZ));
			if (user) { Q(ccs_user_defined_tuner_get_tuner_data, h, O(PT)); X(UNSUPPORTED_OPERATION, "no suggest callback", ccs_tuner_suggest, h, O(PT)); } else { X(INVALID_TUNER, "built-in tuner", ccs_user_defined_tuner_get_tuner_data, h, O(PT)); X(INVALID_VALUE, "small buffer", ccs_tuner_get_history, h, N(1), O(PT), OO(SZ)); } }
		for (auto u : {w.ftun, w.uftun}) { auto h = H(u); bool user = u == w.uftun; std::vector<ccs_features_evaluation_t> e1{w.fev};
			Q(ccs_features_tuner_get_type, h, O(EN)); Q(ccs_features_tuner_get_name, h, O(PT)); Q(ccs_features_tuner_get_configuration_space, h, O(PT)); Q(ccs_features_tuner_get_objective_space, h, O(PT)); Q(ccs_features_tuner_get_features_space, h, O(PT)); M(ccs_features_tuner_ask, h, H(w.feat), N(2), O(2 * PT), OO(SZ)); if (!user) M(ccs_features_tuner_tell, h, N(1), HA(e1)); M(ccs_features_tuner_suggest, h, H(w.feat), O(PT)); Q(ccs_features_tuner_get_optima, h, HO(w.feat), N(3), O(3 * PT), OO(SZ)); Q(ccs_features_tuner_get_history, h, HO(w.feat), N(3), O(3 * PT), OO(SZ));
			if (user) Q(ccs_user_defined_features_tuner_get_tuner_data, h, O(PT)); else { X(INVALID_FEATURES_TUNER, "built-in tuner", ccs_user_defined_features_tuner_get_tuner_data, h, O(PT)); X(INVALID_VALUE, "small buffer", ccs_features_tuner_get_history, h, IO(NULL), N(1), O(PT), OO(SZ)); } }
		for (auto u : {w.ttun, w.uttun}) { auto h = H(u); bool user = u == w.uttun; std::vector<ccs_tree_evaluation_t> e1{w.tev};
			Q(ccs_tree_tuner_get_type, h, O(EN)); Q(ccs_tree_tuner_get_name, h, O(PT)); Q(ccs_tree_tuner_get_tree_space, h, O(PT)); Q(ccs_tree_tuner_get_objective_space, h, O(PT)); M(ccs_tree_tuner_ask, h, N(2), O(2 * PT), OO(SZ)); if (!user) M(ccs_tree_tuner_tell, h, N(1), HA(e1)); M(ccs_tree_tuner_suggest, h, O(PT)); Q(ccs_tree_tuner_get_optima, h, N(3), O(3 * PT), OO(SZ)); Q(ccs_tree_tuner_get_history, h, N(3), O(3 * PT), OO(SZ));
			if (user) Q(ccs_user_defined_tree_tuner_get_tuner_data, h, O(PT)); else { X(INVALID_TUNER, "built-in tuner", ccs_user_defined_tree_tuner_get_tuner_data, h, O(PT)); X(INVALID_VALUE, "small buffer", ccs_tree_tuner_get_history, h, N(1), O(PT), OO(SZ)); } }
		C(ccs_create_random_tuner, I("n"), H(w.cs.cs), H(w.os.os), O(PT)); C(ccs_create_random_features_tuner, I("n"), H(w.cs.cs), H(w.fs.fs), H(w.os.os), O(PT)); C(ccs_create_random_tree_tuner, I("n"), H(w.sts), H(w.os.os), O(PT));
		auto *v0 = (ccs_user_defined_tuner_vector_t *)ud_vector(0, 0); auto *v1 = (ccs_user_defined_features_tuner_vector_t *)ud_vector(1, 0); auto *v2 = (ccs_user_defined_tree_tuner_vector_t *)ud_vector(2, 0);
		M(ccs_create_user_defined_tuner, I("n"), H(w.cs.cs), H(w.os.os), I(v0), IO(NULL), O(PT)); M(ccs_create_user_defined_features_tuner, I("n"), H(w.cs.cs), H(w.fs.fs), H(w.os.os), I(v1), IO(NULL), O(PT)); M(ccs_create_user_defined_tree_tuner, I("n"), H(w.sts), H(w.os.os), I(v2), IO(NULL), O(PT));
		auto b0 = *v0; auto b1 = *v1; auto b2 = *v2;
		switch (r.below(5)) { case 0: b0.del = NULL; b1.del = NULL; b2.del = NULL; break; case 1: b0.ask = NULL; b1.ask = NULL; b2.ask = NULL; break; case 2: b0.tell = NULL; b1.tell = NULL; b2.tell = NULL; break; case 3: b0.get_optima = NULL; b1.get_optima = NULL; b2.get_optima = NULL; break; default: b0.get_history = NULL; b1.get_history = NULL; b2.get_history = NULL; }
		X(INVALID_VALUE, "missing callback", ccs_create_user_defined_tuner, I("n"), H(w.cs.cs), H(w.os.os), I(&b0), IO(NULL), O(PT)); X(INVALID_VALUE, "missing callback", ccs_create_user_defined_features_tuner, I("n"), H(w.cs.cs), H(w.fs.fs), H(w.os.os), I(&b1), IO(NULL), O(PT)); X(INVALID_VALUE, "missing callback", ccs_create_user_defined_tree_tuner, I("n"), H(w.sts), H(w.os.os), I(&b2), IO(NULL), O(PT));
		break; }
	}
}
// an error left unread by an earlier call does not stand in for a later one
static void stale_errors(Rng &r, World &w) {
	ccs_numeric_t z{}; ccs_parameter_t p; ccs_datum_t d; ccs_tree_t t; size_t sz; ccs_interval_t itv; ccs_distribution_t ds; ccs_object_t o; const char *nm;
	std::vector<std::function<ccs_result_t()>> calls = {
		[&] { return ccs_configuration_space_get_parameter(w.cs.cs, 1 << 20, &p); }, [&] { return ccs_objective_space_get_parameter(w.os.os, 1 << 20, &p); },
		[&] { return ccs_configuration_space_get_parameter_by_name(w.cs.cs, "no such name", &p); }, [&] { return ccs_features_space_get_parameter_by_name(w.fs.fs, "no such name", &p); },
		[&] { return ccs_create_numerical_parameter("x", CCS_NUMERIC_TYPE_INT, z, z, z, z, &p); }, [&] { return ccs_create_uniform_int_distribution(3, 2, CCS_SCALE_TYPE_LINEAR, 0, &ds); },
		[&] { return ccs_create_tree(1, ccs_int(0), NULL); }, [&] { return ccs_interval_empty(&itv, NULL); }, [&] { return ccs_parameter_get_name(NULL, &nm); }, [&] { return ccs_map_get(NULL, ccs_none, &d); },
		[&] { return ccs_tree_get_child(w.loose, 1 << 20, &t); }, [&] { return ccs_map_del(w.map, dstr("no such key")); }, [&] { return ccs_object_serialize(w.cs.cs, (ccs_serialize_format_t)77, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END); },
		[&] { return ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, (size_t)0, (void *)"", CCS_DESERIALIZE_OPTION_END); },
	};
	auto text = [&](ccs_result_t e) { ccs_error_stack_t es = ccs_get_thread_error(); std::string s = rname(e); if (!es) return s + " (no error stack)";
		ccs_result_t c; const char *m; size_t n; ccs_error_stack_elem_t *el; OK(ccs_error_stack_get_code(es, &c)); OK(ccs_error_stack_get_message(es, &m)); OK(ccs_error_stack_get_elems(es, &n, &el));
		s += sfmt(" %s '%s'", rname(c), m); for (size_t i = 0; i < n; i++) s += sfmt(" %s:%d:%s", el[i].file, el[i].line, el[i].func); OK(ccs_release_object(es)); return s; };
	std::vector<std::string> alone; for (auto &c : calls) { ccs_clear_thread_error(); alone.push_back(text(c())); }
	for (int k = 0; k < 12; k++) {
		size_t a = r.below(calls.size()), b = r.below(calls.size()); ccs_clear_thread_error(); (void)calls[a](); std::string s = text(calls[b]());
		CHECK(s == alone[b], "stale-error", "after an unread error (%s)\nthe failing call reports: %s\ninstead of: %s", alone[a].c_str(), s.c_str(), alone[b].c_str()); ev("error-after-error");
	}
}
// error stacks hold what was put in them, and the thread's slot follows the ownership rules
static void error_objects(Rng &r) {
	struct M { ccs_error_stack_t s; ccs_result_t code; std::string msg; std::vector<std::tuple<const char *, int, const char *>> el; };
	static const char *files[] = {"a.c", "some/longer/path/to/a/file.c", "z"}, *funcs[] = {"f", "a_function_with_a_rather_long_name", "g"};
	auto check = [&](const M &m, const char *what) {
		ccs_result_t c; const char *t; size_t n = 999; ccs_error_stack_elem_t *el = NULL;
		OK(ccs_error_stack_get_code(m.s, &c)); OK(ccs_error_stack_get_message(m.s, &t)); OK(ccs_error_stack_get_elems(m.s, &n, &el));
		CHECK(c == m.code, "stack-code", "%s: code %s, expected %s", what, rname(c), rname(m.code));
		CHECK(m.msg == t, "stack-message", "%s: the message is '%s', expected '%s'", what, t, m.msg.c_str());
		CHECK(n == m.el.size(), "stack-trace", "%s: %zu elements, expected %zu", what, n, m.el.size());
		for (size_t i = 0; i < n; i++) CHECK(el[i].file == std::get<0>(m.el[i]) && el[i].line == std::get<1>(m.el[i]) && el[i].func == std::get<2>(m.el[i]), "stack-element", "%s: element %zu of %zu is %s:%d:%s", what, i, n, el[i].file, el[i].line, el[i].func);
		ev("error-stack.read");
	};
	std::vector<M> st; M th; th.s = NULL; ccs_clear_thread_error();
	auto text = [&](M &m, std::string &a, int &num, int &k) { a = std::string(r.pick({0, 1, 7, 63, 119, 127, 128, 255, 256, 1023, 1024, 4096}), 'a' + r.below(26)); num = (int)r.next(); k = r.below(4); m.code = (ccs_result_t)-(int)r.range(1, 20); m.msg = k == 0 ? "" : k == 1 ? a : k == 2 ? sfmt("%s (%d)", a.c_str(), num) : sfmt("[%d] %s %g%%", num, a.c_str(), num * 0.5); };
	auto push = [&](M &m, bool thread) { int n = r.chance(1, 4) ? r.range(5, 40) : r.below(4); for (int i = 0; i < n; i++) { auto f = files[r.below(3)], g = funcs[r.below(3)]; int l = (int)r.below(100000); if (thread) OK(ccs_thread_error_stack_push(f, l, g)); else OK(ccs_error_stack_push(m.s, f, l, g)); m.el.emplace_back(f, l, g); } };
	int steps = r.range(4, 24);
	for (int q = 0; q < steps; q++) switch (r.below(7)) {
	case 0: { M m; std::string a; int num, k; text(m, a, num, k);
		if (k == 0) OK(ccs_create_error_stack(&m.s, m.code, NULL)); else if (k == 1) OK(ccs_create_error_stack(&m.s, m.code, "%s", a.c_str())); else if (k == 2) OK(ccs_create_error_stack(&m.s, m.code, "%s (%d)", a.c_str(), num)); else OK(ccs_create_error_stack(&m.s, m.code, "[%d] %s %g%%", num, a.c_str(), num * 0.5));
		push(m, false); check(m, "created"); st.push_back(m); ev("error-stack.created"); break; }
	case 1: { M m; std::string a; int num, k; text(m, a, num, k);
		if (k == 0) OK(ccs_create_thread_error(m.code, NULL)); else if (k == 1) OK(ccs_create_thread_error(m.code, "%s", a.c_str())); else if (k == 2) OK(ccs_create_thread_error(m.code, "%s (%d)", a.c_str(), num)); else OK(ccs_create_thread_error(m.code, "[%d] %s %g%%", num, a.c_str(), num * 0.5));
		push(m, true); th = m; th.s = (ccs_error_stack_t)1; break; }
	case 2: { ccs_error_stack_t s = ccs_get_thread_error(); CHECK(!s == !th.s, "thread-error", "the thread %s an error, expected %s", s ? "has" : "does not have", th.s ? "one" : "none"); if (!s) break;
		if (th.s != (ccs_error_stack_t)1) CHECK(s == th.s, "thread-error", "the thread's error is not the one that was set"); th.s = s; check(th, "taken from the thread"); st.push_back(th); th.s = NULL; ev("error-stack.taken"); break; }
	case 3: { if (st.empty()) break; size_t i = r.below(st.size()); M m = st[i]; st.erase(st.begin() + i); int32_t rc = refcount(m.s); OK(ccs_set_thread_error(m.s)); CHECK(refcount(m.s) == rc, "thread-error-refs", "setting the thread's error changed its reference count from %d to %d", rc, refcount(m.s)); th = m; ev("error-stack.set"); break; }
	case 4: if (r.below(2)) { ccs_clear_thread_error(); th.s = NULL; th.el.clear(); } else if (th.s) push(th, true); else CHECK(ccs_thread_error_stack_push("f", 1, "g") == CCS_RESULT_ERROR_INVALID_OBJECT, "push-nowhere", "an element was pushed on the missing error of the thread"); break;
	case 5: if (!st.empty()) { size_t i = r.below(st.size()); push(st[i], false); check(st[i], "extended"); if (r.below(2)) { OK(ccs_release_object(st[i].s)); st.erase(st.begin() + i); } } break;
	case 6: { size_t n; ccs_error_stack_elem_t *el; const char *t; ccs_result_t c; ccs_error_stack_t any = st.empty() ? NULL : st[0].s;
		CHECK(ccs_create_error_stack(NULL, CCS_RESULT_ERROR_EXTERNAL, "x") == CCS_RESULT_ERROR_INVALID_VALUE, "accepted", "no place for the error stack, yet accepted");
		CHECK(ccs_set_thread_error(NULL) == CCS_RESULT_ERROR_INVALID_OBJECT, "accepted", "NULL accepted as the thread's error");
		if (any) { CHECK(ccs_error_stack_get_elems(any, NULL, &el) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_error_stack_get_elems(any, &n, NULL) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_error_stack_get_message(any, NULL) == CCS_RESULT_ERROR_INVALID_VALUE && ccs_error_stack_get_code(any, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "accepted", "missing output accepted"); }
		CHECK(ccs_error_stack_get_elems(NULL, &n, &el) == CCS_RESULT_ERROR_INVALID_OBJECT && ccs_error_stack_get_message(NULL, &t) == CCS_RESULT_ERROR_INVALID_OBJECT && ccs_error_stack_get_code(NULL, &c) == CCS_RESULT_ERROR_INVALID_OBJECT, "accepted", "missing error stack accepted"); break; }
	}
	for (auto &m : st) { check(m, "kept"); OK(ccs_release_object(m.s)); }
	ccs_clear_thread_error();
}
// what the world does afterwards, as text
static std::string behaviour(uint64_t seed, World &w) {
	std::string out; Exo x; x.touch = [&](ccs_object_t o) { dump(o); out += dump(o); out += "\n"; };
	for (auto o : w.all) { Rng r(seed); exercise(r, o, x); } return out;
}
void run_case(Rng &r, uint64_t idx) {
	(void)idx; uint64_t seed = r.next(), bs = r.next(); ud_reset();
	std::string a, b;
	{ Bag bag; World w; Rng g(seed); build(g, bag, w);
	  { Watch wa; for (auto o : w.all) wa.add(o); Rng q(r.next()); Sweep s(q, wa); s.kinds = w.kinds; sweep(q, s, w); wa.check_all("after all refusals"); sig(mix64(seed, mix64(s.calls, s.funcs))); ev("worlds"); }
	  ccs_clear_thread_error(); stale_errors(r, w); error_objects(r); error_objects(r); a = behaviour(bs, w); ccs_clear_thread_error(); }
	{ Bag bag; World w; Rng g(seed); build(g, bag, w); for (auto o : w.all) { dump(o); } b = behaviour(bs, w); ccs_clear_thread_error(); }
	CHECK(a == b, "behaviour-changed", "after refused calls the objects behave differently from untouched twins"); ev("twins-compared");
	ud_reset();
}
