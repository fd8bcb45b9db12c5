// C26: any single failing allocation is reported and survived.
#include "exercise.hpp"
#include "held.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
const char *PROP = "C26";
uint64_t num_cases(bool th) { return th ? 400000 : 30000; }
static bool scripted; // the builders of whole scripts may lose objects of their own when a call of theirs fails
bool ledger_check() { return !scripted; }
void prop_init() {}

struct Op { std::string name; std::function<ccs_result_t()> call; std::vector<ccs_object_t> seen; bool draws = false; bool lists = false; std::vector<ccs_object_t> outs; std::function<std::string()> outd; std::shared_ptr<void> keep; };
// one call with every argument fixed, on a fresh world; outputs are taken by the world's bag
static ccs_result_t nodist(ccs_result_t e) { if (e == CCS_RESULT_ERROR_INVALID_DISTRIBUTION || e == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL) { ccs_clear_thread_error(); return CCS_RESULT_SUCCESS; } return e; } // nothing can be drawn
struct Fds { int n = count(); static int count() { int k = 0; for (int i = 0; i < 128; i++) if (fcntl(i, F_GETFD) != -1) k++; return k; } ~Fds() noexcept(false) { if (!std::uncaught_exceptions()) CHECK(count() == n, "descriptors", "%d descriptors opened and not closed", count() - n); } };
struct W { Bag b; ZObj z; Op op; };
template <class T> static void out(W &w, T o) { if (o) { w.b.own(o); w.op.outs.push_back((ccs_object_t)o); } }
static const int NOPS = 56;
static void make(Rng r, int k, W &w) {
	auto &b = w.b; auto &op = w.op; op.name = "?"; CSOpt co; co.maxp = 4; co.minp = 2; co.safe = true; co.dists = true;
	auto keepv = [&](auto v) { auto p = std::make_shared<decltype(v)>(std::move(v)); op.keep = p; return p; };
	auto stuff = [&](int kind) { ZOpt o; o.small = true; w.z = zoo(r, kind, b, o); return w.z.o; };
#define O1(type, expr) op.call = [=, &w]() -> ccs_result_t { type x = NULL; ccs_result_t rc_ = (expr); if (!rc_) out(w, x); else CHECK(!x, "output", "%s failed yet returned an object", w.op.name.c_str()); return rc_; }
	switch (k) {
	case 0: op.name = "ccs_create_rng"; O1(ccs_rng_t, ccs_create_rng(&x)); break;
	case 1: { op.name = "ccs_create_uniform_int_distribution"; O1(ccs_distribution_t, ccs_create_uniform_int_distribution(0, 9, CCS_SCALE_TYPE_LINEAR, 2, &x)); break; }
	case 2: { op.name = "ccs_create_normal_float_distribution"; O1(ccs_distribution_t, ccs_create_normal_float_distribution(0, 1, CCS_SCALE_TYPE_LINEAR, 0, &x)); break; }
	case 3: { op.name = "ccs_create_roulette_distribution"; O1(ccs_distribution_t, ({ double a[3] = {1, 2, 3}; ccs_create_roulette_distribution(3, a, &x); })); break; }
	case 4: case 5: { DModel d = gen_dist(r, 2); OK(ccs_retain_object(d.d)); auto d1 = b.own(d.d); release(d); ccs_distribution_t u; OK(ccs_create_uniform_float_distribution(0, 1, CCS_SCALE_TYPE_LINEAR, 0, &u)); b.own(u); op.seen = {d1, u};
		if (k == 4) { op.name = "ccs_create_multivariate_distribution"; O1(ccs_distribution_t, ({ ccs_distribution_t ds[2] = {(ccs_distribution_t)d1, u}; ccs_create_multivariate_distribution(2, ds, &x); })); }
		else { op.name = "ccs_create_mixture_distribution"; O1(ccs_distribution_t, ({ ccs_distribution_t ds[2] = {u, u}; double wt[2] = {1, 2}; ccs_create_mixture_distribution(2, ds, wt, &x); })); } break; }
	case 6: { op.name = "creating a parameter"; POpt po; po.string = true; auto p = keepv(gen_param(r, "param", po)); b.own(p->p); auto kept = std::make_shared<PModel>(*p); op.keep = kept; op.call = [kept, &w]() -> ccs_result_t { PModel m = *kept; m.p = NULL; ccs_result_t e = make_param(m); if (!e) out(w, m.p); return e; }; break; }
	case 7: { op.name = "ccs_parameter_get_default_distribution"; auto p = (ccs_parameter_t)stuff(Z_PARAM); ccs_parameter_type_t t; OK(ccs_parameter_get_type(p, &t)); op.seen = {p}; if (t == CCS_PARAMETER_TYPE_STRING) op.call = [] { return CCS_RESULT_SUCCESS; }; else O1(ccs_distribution_t, ccs_parameter_get_default_distribution(p, &x)); break; }
	case 8: { op.name = "ccs_parameter_samples"; POpt po; PModel m = gen_param(r, "p", po); auto p = b.own(m.p); ccs_distribution_t d; OK(ccs_parameter_get_default_distribution(p, &d)); b.own(d); auto g = mk_rng(r, b); size_t n = 1 + r.below(200); op.seen = {p, d}; op.draws = true; op.call = [=] { DV v(n); return n == 1 ? ccs_parameter_sample(p, d, g, v.data()) : ccs_parameter_samples(p, d, g, n, v.data()); }; break; }
	case 9: { op.name = "ccs_parameter_validate_value (string)"; ccs_parameter_t p; OK(ccs_create_string_parameter("s", &p)); b.own(p); ccs_datum_t x; ccs_bool_t ok0; OK(ccs_parameter_validate_value(p, ccs_string("first"), &x, &ok0)); op.seen = {p}; op.call = [=] { std::vector<std::unique_ptr<char[]>> st; ccs_datum_t o; ccs_bool_t okv; ccs_result_t e = ccs_parameter_validate_value(p, transient_copy(dstr("another string"), st), &o, &okv); if (!e) { CHECK(okv && o.type == CCS_DATA_TYPE_STRING && !strcmp(o.value.s, "another string"), "string", "a string parameter gave back another string"); } return e; }; break; }
	case 10: { op.name = "creating an expression"; auto e = (ccs_expression_t)stuff(Z_EXPR); op.seen = {e}; int ty = r.below(3); ccs_parameter_t p; OK(ccs_create_int_numerical_parameter("p", 0, 5, 0, 1, &p)); b.own(p); op.seen.push_back(p); O1(ccs_expression_t, ty == 0 ? ccs_create_literal(ccs_string("some literal"), &x) : ty == 1 ? ccs_create_variable(p, &x) : ({ ccs_datum_t n[2] = {ccs_object((ccs_object_t)e), ccs_int(3)}; ccs_create_expression(CCS_EXPRESSION_TYPE_ADD, 2, n, &x); })); break; }
	case 11: { op.name = "ccs_expression_eval"; CSModel m = gen_cs(r, "cs", b, co); std::vector<int> vars; for (size_t i = 0; i < m.ps.size(); i++) vars.push_back(i); EP e = gen_bool(r, m.ps, vars, 3); ccs_expression_t ex = b.own(build_expr(&r, *e, m.ps)); auto v = std::make_shared<DV>(); for (auto &p : m.ps) v->push_back(p.in(r)); op.seen = {ex, m.cs}; auto cs = m.cs; auto res = std::make_shared<std::string>(); op.outd = [res] { return *res; }; op.call = [=]() -> ccs_result_t { ccs_datum_t o; ccs_result_t rc = ccs_expression_eval(ex, (ccs_context_t)cs, v->data(), &o); if (rc && rc != CCS_RESULT_ERROR_OUT_OF_MEMORY) { *res = rname(rc); return CCS_RESULT_SUCCESS; } if (!rc) *res = dtos(o); return rc; }; break; }
	case 12: { op.name = "ccs_expression_get_parameters"; auto e = (ccs_expression_t)stuff(Z_EXPR); op.seen = {e}; auto res = std::make_shared<size_t>(0); op.outd = [res] { return sfmt("%zu", *res); }; op.call = [=] { size_t n = 0; ccs_result_t rc = ccs_expression_get_parameters(e, 0, NULL, &n); if (!rc) { std::vector<ccs_parameter_t> v(n + 1); rc = ccs_expression_get_parameters(e, n + 1, v.data(), &n); *res = n; } return rc; }; break; }
	case 13: { op.name = "creating a space"; int ty = r.below(3); O1(ccs_object_t, ty == 0 ? ccs_create_configuration_space("a space", (ccs_configuration_space_t *)&x) : ty == 1 ? ccs_create_objective_space("a space", (ccs_objective_space_t *)&x) : ccs_create_features_space("a space", (ccs_features_space_t *)&x)); break; }
	case 14: case 15: case 16: { op.name = k == 14 ? "ccs_configuration_space_add_parameter" : k == 15 ? "ccs_objective_space_add_parameter" : "ccs_features_space_add_parameter"; auto s = stuff(k == 14 ? Z_CS : k == 15 ? Z_OS : Z_FS); if (r.chance(1, 3)) { size_t have; OK(ccs_context_get_num_parameters((ccs_context_t)s, &have)); for (size_t full = r.pick({8, 16}); have < full; have++) { ccs_parameter_t q; OK(ccs_create_int_numerical_parameter(sfmt("fill%zu", have).c_str(), 0, 9, 0, 1, &q)); b.own(q); OK(k == 14 ? ccs_configuration_space_add_parameter((ccs_configuration_space_t)s, q, NULL) : k == 15 ? ccs_objective_space_add_parameter((ccs_objective_space_t)s, q) : ccs_features_space_add_parameter((ccs_features_space_t)s, q)); } } POpt po; PModel m = gen_param(r, "brand new", po); auto p = b.own(m.p); ccs_distribution_t d = NULL; if (r.below(2) && k == 14) { OK(ccs_parameter_get_default_distribution(p, &d)); b.own(d); } op.seen = {s, p}; if (d) op.seen.push_back(d); op.call = [=] { return k == 14 ? ccs_configuration_space_add_parameter((ccs_configuration_space_t)s, p, d) : k == 15 ? ccs_objective_space_add_parameter((ccs_objective_space_t)s, p) : ccs_features_space_add_parameter((ccs_features_space_t)s, p); }; break; }
	case 17: { op.name = "ccs_configuration_space_set_distribution"; ccs_configuration_space_t cs; OK(ccs_create_configuration_space("cs", &cs)); b.own(cs); for (int i = 0; i < 4; i++) { ccs_parameter_t p; OK(ccs_create_int_numerical_parameter(sfmt("p%d", i).c_str(), 0, 9, 0, 1, &p)); b.own(p); OK(ccs_configuration_space_add_parameter(cs, p, NULL)); }
		auto mv = [&](int n) { std::vector<ccs_distribution_t> ds; for (int i = 0; i < n; i++) { ccs_distribution_t u; OK(ccs_create_uniform_int_distribution(0, 5 + i, CCS_SCALE_TYPE_LINEAR, 0, &u)); ds.push_back(b.own(u)); } ccs_distribution_t d; if (n == 1) return ds[0]; OK(ccs_create_multivariate_distribution(n, ds.data(), &d)); return b.own(d); };
		if (r.below(2)) { size_t ix[3] = {0, 1, 2}; OK(ccs_configuration_space_set_distribution(cs, mv(3), ix)); } int n = r.range(1, 4); auto d = mv(n); auto ix = std::make_shared<std::vector<size_t>>(); std::vector<size_t> all{0, 1, 2, 3}; r.shuffle(all); ix->assign(all.begin(), all.begin() + n); op.seen = {cs, d}; op.call = [=] { return ccs_configuration_space_set_distribution(cs, d, ix->data()); }; break; }
	case 18: case 19: { CSOpt c2 = co; CSModel m = gen_cs(r, "cs", b, c2); PModel q; { POpt po; po.types = 1; q = gen_param(r, "extra", po); b.own(q.p); OK(ccs_configuration_space_add_parameter(m.cs, q.p, NULL)); } auto cs = m.cs; size_t n; OK(ccs_configuration_space_get_num_parameters(cs, &n)); ccs_expression_t v0, ex; OK(ccs_create_variable(k == 18 ? m.ps[0].p : q.p, &v0)); b.own(v0); OK(ccs_create_binary_expression(k == 18 ? CCS_EXPRESSION_TYPE_EQUAL : CCS_EXPRESSION_TYPE_NOT_EQUAL, ccs_object(v0), ccs_object(v0), &ex)); b.own(ex); op.seen = {cs, ex};
		if (k == 18) { op.name = "ccs_configuration_space_set_condition"; op.call = [=] { return ccs_configuration_space_set_condition(cs, n - 1, ex); }; } else { op.name = "ccs_configuration_space_add_forbidden_clause"; if (r.below(2)) { size_t have; OK(ccs_configuration_space_get_forbidden_clauses(cs, 0, NULL, &have)); for (int full = r.pick({8, 16}); (int)have < full; have++) OK(ccs_configuration_space_add_forbidden_clause(cs, ex)); } op.call = [=] { return ccs_configuration_space_add_forbidden_clause(cs, ex); }; } break; }
	case 20: { op.name = "ccs_objective_space_add_objective"; OSModel m = gen_os(r, "os", b, true, 3); ccs_expression_t v0; OK(ccs_create_variable(m.ps[0].p, &v0)); b.own(v0); auto os = m.os; if (r.below(2)) { size_t have; OK(ccs_objective_space_get_objectives(os, 0, NULL, NULL, &have)); for (int full = r.pick({8, 8, 16}); (int)have < full; have++) OK(ccs_objective_space_add_objective(os, v0, CCS_OBJECTIVE_TYPE_MINIMIZE)); } else if (r.below(2)) { OK(ccs_create_objective_space("bare", &os)); b.own(os); OK(ccs_objective_space_add_parameter(os, m.ps[0].p)); } op.seen = {os, v0}; op.call = [=] { return ccs_objective_space_add_objective(os, v0, CCS_OBJECTIVE_TYPE_MAXIMIZE); }; break; }
	case 21: { op.name = "ccs_configuration_space_get_default_configuration"; auto cs = gen_cs(r, "cs", b, co).cs; op.seen = {cs}; O1(ccs_configuration_t, ccs_configuration_space_get_default_configuration(cs, &x)); break; }
	case 22: { op.name = "ccs_configuration_space_check_configuration"; auto c = (ccs_configuration_t)stuff(Z_CONF); op.seen = {c}; auto res = std::make_shared<int>(0); op.outd = [res] { return sfmt("%d", *res); }; op.call = [=]() -> ccs_result_t { ccs_bool_t v = 0; ccs_result_t e = ccs_configuration_check(c, &v); if (e && e != CCS_RESULT_ERROR_OUT_OF_MEMORY) { *res = e; return CCS_RESULT_SUCCESS; } *res = v; return e; }; break; }
	case 23: case 24: { op.name = k == 23 ? "ccs_configuration_space_sample" : "ccs_configuration_space_samples"; auto m = gen_cs(r, "cs", b, co); auto cs = m.cs; op.seen = {cs}; op.draws = true; size_t n = k == 23 ? 1 : r.range(2, 20); bool one = k == 23;
		op.call = [=, &w]() -> ccs_result_t { std::vector<ccs_configuration_t> v(n, NULL); ccs_result_t e = one ? ccs_configuration_space_sample(cs, v.data()) : ccs_configuration_space_samples(cs, n, v.data()); for (auto c : v) if (c) { ccs_bool_t okc = 0; w.b.own(c); if (!led_fired()) { OK(ccs_configuration_check(c, &okc)); CHECK(okc, "sample", "sampled configuration is not valid"); } } if (e == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL) { ccs_clear_thread_error(); return CCS_RESULT_SUCCESS; } return e; }; break; }
	case 25: { op.name = "creating a configuration"; CSModel m = gen_cs(r, "cs", b, co); auto v = std::make_shared<DV>(); for (auto &p : m.ps) v->push_back(p.in(r)); auto cs = m.cs; op.seen = {cs}; O1(ccs_configuration_t, ccs_create_configuration(cs, v->size(), v->data(), &x)); break; }
	case 26: { op.name = "creating features"; FSModel m = gen_fs(r, "fs", b, 3); auto v = std::make_shared<DV>(); for (auto &p : m.ps) v->push_back(p.in(r)); auto fs = m.fs; op.seen = {fs}; O1(ccs_features_t, ccs_create_features(fs, v->size(), v->data(), &x)); break; }
	case 27: { op.name = "creating an evaluation"; CSModel m = gen_cs(r, "cs", b, co); OSModel o = gen_os(r, "os", b, true, 2); FSModel f = gen_fs(r, "fs", b, 2); ccs_configuration_t c; OK(ccs_configuration_space_get_default_configuration(m.cs, &c)); b.own(c); DV fv; for (auto &p : f.ps) fv.push_back(p.in(r)); ccs_features_t ft; OK(ccs_create_features(f.fs, fv.size(), fv.data(), &ft)); b.own(ft); auto v = std::make_shared<DV>(o.rand_values(r)); auto os = o.os; op.seen = {os, c, ft}; bool feat = r.below(2); O1(ccs_object_t, feat ? ccs_create_features_evaluation(os, c, ft, 0, v->size(), v->data(), (ccs_features_evaluation_t *)&x) : ccs_create_evaluation(os, c, 0, v->size(), v->data(), (ccs_evaluation_t *)&x)); break; }
	case 28: { op.name = "evaluation objectives"; auto e = (ccs_evaluation_t)stuff(Z_EVAL); op.seen = {e}; auto res = std::make_shared<std::string>(); op.outd = [res] { return *res; }; op.call = [=]() -> ccs_result_t { size_t n = 0; ccs_result_t rc = ccs_evaluation_get_objective_values(e, 0, NULL, &n); if (!rc && n) { DV v(n); rc = ccs_evaluation_get_objective_values(e, n, v.data(), NULL); if (rc && rc != CCS_RESULT_ERROR_OUT_OF_MEMORY) { *res = rname(rc); return CCS_RESULT_SUCCESS; } if (!rc) { res->clear(); for (auto &d : v) *res += dtos(d) + " "; } } return rc; }; break; }
	case 29: case 30: case 31: { // tell
		op.name = k == 29 ? "ccs_tuner_tell" : k == 30 ? "ccs_features_tuner_tell" : "ccs_tree_tuner_tell"; OSModel o = gen_os(r, "os", b, true, 2); auto v = std::make_shared<std::vector<ccs_object_t>>(); ccs_object_t t = NULL; int pre = r.chance(1, 4) ? (int)r.range(6, 8) : r.chance(1, 8) ? 16 : (int)r.below(6), n = r.range(1, 3);
		if (k == 31) { TP tr = gen_tree(r, b, 3, 3, false); ccs_tree_space_t ts; OK(ccs_create_static_tree_space("ts", tr->t, &ts)); b.own(ts); OK(ccs_create_random_tree_tuner("t", ts, o.os, (ccs_tree_tuner_t *)&t)); b.own(t); for (int i = 0; i < pre + n; i++) { ccs_tree_configuration_t c; OK(ccs_tree_space_sample(ts, &c)); b.own(c); v->push_back(mk_teval(o, c, r.chance(1, 6), o.rand_values(r), b)); } OK(ccs_tree_tuner_tell((ccs_tree_tuner_t)t, pre, (ccs_tree_evaluation_t *)v->data())); }
		else { CSOpt c3; c3.maxp = 3; c3.safe = true; CSModel m = gen_cs(r, "cs", b, c3); FSModel f = gen_fs(r, "fs", b, 2); std::vector<ccs_features_t> fts; for (int i = 0; i < 2; i++) { DV fv; for (auto &p : f.ps) fv.push_back(p.in(r)); ccs_features_t ft; OK(ccs_create_features(f.fs, fv.size(), fv.data(), &ft)); fts.push_back(b.own(ft)); } if (k == 29) OK(ccs_create_random_tuner("t", m.cs, o.os, (ccs_tuner_t *)&t)); else OK(ccs_create_random_features_tuner("t", m.cs, f.fs, o.os, (ccs_features_tuner_t *)&t)); b.own(t);
			for (int i = 0; i < pre + n; i++) { ccs_configuration_t c; OK(ccs_configuration_space_get_default_configuration(m.cs, &c)); b.own(c); v->push_back(k == 29 ? (ccs_object_t)mk_eval(o, c, r.chance(1, 6), o.rand_values(r), b) : (ccs_object_t)mk_feval(o, c, r.pick(fts), r.chance(1, 6), o.rand_values(r), b)); }
			if (k == 29) OK(ccs_tuner_tell((ccs_tuner_t)t, pre, (ccs_evaluation_t *)v->data())); else OK(ccs_features_tuner_tell((ccs_features_tuner_t)t, pre, (ccs_features_evaluation_t *)v->data())); }
		op.seen = {t}; op.call = [=]() -> ccs_result_t { return k == 29 ? ccs_tuner_tell((ccs_tuner_t)t, n, (ccs_evaluation_t *)v->data() + pre) : k == 30 ? ccs_features_tuner_tell((ccs_features_tuner_t)t, n, (ccs_features_evaluation_t *)v->data() + pre) : ccs_tree_tuner_tell((ccs_tree_tuner_t)t, n, (ccs_tree_evaluation_t *)v->data() + pre); }; break; }
	case 32: { op.name = "asking and suggesting"; int zk = r.pick({(int)Z_TUNER, (int)Z_TTUNER}); auto t = stuff(zk); op.seen = {t}; op.draws = true; bool sug = r.below(2); size_t n = r.range(1, 5);
		op.call = [=, &w]() -> ccs_result_t { std::vector<ccs_object_t> v(n, NULL); size_t got = 0; ccs_result_t e; if (zk == Z_TUNER) e = sug ? ccs_tuner_suggest((ccs_tuner_t)t, (ccs_configuration_t *)v.data()) : ccs_tuner_ask((ccs_tuner_t)t, n, (ccs_configuration_t *)v.data(), &got); else e = sug ? ccs_tree_tuner_suggest((ccs_tree_tuner_t)t, (ccs_tree_configuration_t *)v.data()) : ccs_tree_tuner_ask((ccs_tree_tuner_t)t, n, (ccs_tree_configuration_t *)v.data(), &got); for (auto c : v) if (c) w.b.own(c); return nodist(e); }; break; }
	case 33: { op.name = "creating a tuner"; CSModel m = gen_cs(r, "cs", b, co); FSModel f = gen_fs(r, "fs", b, 2); OSModel o = gen_os(r, "os", b, true, 2); TP tr = gen_tree(r, b, 2, 2, false); ccs_tree_space_t ts; OK(ccs_create_static_tree_space("ts", tr->t, &ts)); b.own(ts); int ty = r.below(6); auto cs = m.cs; auto fs = f.fs; auto os = o.os; op.seen = {cs, fs, os, ts}; UD *u = ud_new(ty >= 3 ? ty - 3 : 0, 1);
		O1(ccs_object_t, ty == 0 ? ccs_create_random_tuner("a tuner", cs, os, (ccs_tuner_t *)&x) : ty == 1 ? ccs_create_random_features_tuner("a tuner", cs, fs, os, (ccs_features_tuner_t *)&x) : ty == 2 ? ccs_create_random_tree_tuner("a tuner", ts, os, (ccs_tree_tuner_t *)&x) : ty == 3 ? ccs_create_user_defined_tuner("a tuner", cs, os, (ccs_user_defined_tuner_vector_t *)ud_vector(0, 0), u, (ccs_tuner_t *)&x) : ty == 4 ? ccs_create_user_defined_features_tuner("a tuner", cs, fs, os, (ccs_user_defined_features_tuner_vector_t *)ud_vector(1, 0), u, (ccs_features_tuner_t *)&x) : ccs_create_user_defined_tree_tuner("a tuner", ts, os, (ccs_user_defined_tree_tuner_vector_t *)ud_vector(2, 0), u, (ccs_tree_tuner_t *)&x)); break; }
	case 34: { op.name = "ccs_create_tree"; bool s = r.below(2); size_t ar = r.below(5); O1(ccs_tree_t, ccs_create_tree(ar, s ? ccs_string("a string") : ccs_int(3), &x)); break; }
	case 35: { op.name = "tree sampling"; auto t = (ccs_tree_t)stuff(Z_TREE); auto g = mk_rng(r, b); op.seen = {t}; op.draws = true; size_t n = r.range(1, 8); op.call = [=] { std::vector<size_t> v(n); return nodist(n == 1 ? ccs_tree_sample(t, g, v.data()) : ccs_tree_samples(t, g, n, v.data())); }; break; }
	case 36: { op.name = "attaching and weighting a tree"; TP tr = gen_tree(r, b, 3, 3, true); ccs_tree_t p, c; OK(ccs_create_tree(2, ccs_int(1), &p)); b.own(p); OK(ccs_create_tree(1, ccs_int(2), &c)); b.own(c); op.seen = {p, c}; int ty = r.below(3); op.call = [=] { return ty == 0 ? ccs_tree_set_child(p, 1, c) : ty == 1 ? ccs_tree_set_weight(p, 3) : ccs_tree_set_bias(p, 0.5); }; break; }
	case 37: { op.name = "creating a tree space"; ccs_tree_t t; OK(ccs_create_tree(2, ccs_int(1), &t)); b.own(t); op.seen = {t}; bool dyn = r.below(2); UD *u = ud_new(3, 1); O1(ccs_tree_space_t, dyn ? ccs_create_dynamic_tree_space("a space", t, (ccs_dynamic_tree_space_vector_t *)ud_vector(3, 0), u, &x) : ccs_create_static_tree_space("a space", t, &x)); break; }
	case 38: { op.name = "tree space sampling"; auto ts = (ccs_tree_space_t)stuff(Z_STS); op.seen = {ts}; op.draws = true; size_t n = r.range(1, 6); op.call = [=, &w] { std::vector<ccs_tree_configuration_t> v(n, NULL); ccs_result_t e = n == 1 ? ccs_tree_space_sample(ts, v.data()) : ccs_tree_space_samples(ts, n, v.data()); for (auto c : v) if (c) w.b.own(c); return nodist(e); }; break; }
	case 39: { op.name = "position queries"; bool dyn = r.below(2); auto ts = (ccs_tree_space_t)stuff(dyn ? Z_DTS : Z_STS); op.draws = dyn; op.seen = {ts}; auto pos = std::make_shared<std::vector<size_t>>(); for (int i = r.range(0, 3); i--;) pos->push_back(r.below(2)); int ty = r.below(4); op.call = [=, &w]() -> ccs_result_t { size_t n = pos->size(); ccs_result_t e; ccs_bool_t v; ccs_tree_t nd = NULL; DV vals(n + 1); ccs_tree_configuration_t c = NULL; switch (ty) { case 0: e = ccs_tree_space_check_position(ts, n, pos->data(), &v); break; case 1: e = ccs_tree_space_get_node_at_position(ts, n, pos->data(), &nd); break; case 2: e = ccs_tree_space_get_values_at_position(ts, n, pos->data(), n + 1, vals.data()); break; default: e = ccs_create_tree_configuration(ts, n, pos->data(), &c); if (!e) out(w, c); } if (e == CCS_RESULT_ERROR_INVALID_TREE || e == CCS_RESULT_ERROR_OUT_OF_BOUNDS) { ccs_clear_thread_error(); e = CCS_RESULT_SUCCESS; } return e; }; break; }
	case 40: { op.name = "ccs_create_map"; O1(ccs_map_t, ccs_create_map(&x)); break; }
	case 41: { op.name = "ccs_map_set"; ccs_map_t m; OK(ccs_create_map(&m)); b.own(m); int n = r.below(40); for (int i = 0; i < n; i++) OK(ccs_map_set(m, ccs_int(i), ccs_int(i))); OK(ccs_map_set(m, dstr("key"), dstr("old"))); ccs_rng_t g; OK(ccs_create_rng(&g)); b.own(g); op.seen = {m, g}; int ty = r.below(5); op.call = [=] { std::vector<std::unique_ptr<char[]>> st; return ty == 0 ? ccs_map_set(m, ccs_int(1000), ccs_int(1)) : ty == 1 ? ccs_map_set(m, transient_copy(dstr("key"), st), transient_copy(dstr("new value"), st)) : ty == 2 ? ccs_map_set(m, transient_copy(dstr("new key"), st), ccs_object(g)) : ty == 3 ? ccs_map_set(m, dstr("key"), ccs_object(g)) : ccs_map_del(m, dstr("key")); }; break; }
	case 42: { op.name = "saving"; auto o = stuff(r.below(Z_COUNT)); op.name += sfmt(" a %s", zname[w.z.kind]); op.seen = {o}; auto res = std::make_shared<std::vector<char>>(); op.outd = [res] { return std::string(res->begin(), res->end()); }; op.call = [=]() -> ccs_result_t { size_t n = 0; ccs_result_t e = ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END); if (e) return e; res->assign(n, 0); return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, res->data(), CCS_SERIALIZE_OPTION_END); }; op.draws = true; break; }
	case 43: case 44: { op.name = "loading"; auto o = stuff(r.below(Z_COUNT)); op.name += sfmt(" a %s", zname[w.z.kind]); for (auto d : w.z.deps) op.seen.push_back(d); auto bytes = std::make_shared<std::vector<char>>(ser(o)); ZObj z = w.z; bool withmap = !z.deps.empty() || r.below(2); ccs_map_t m = NULL; if (withmap) { m = b.own(zoo_map(z)); op.seen.push_back(m); } op.call = [=, &w]() -> ccs_result_t { ccs_object_t x = NULL; ccs_result_t e; if (m) e = zoo_reload(z, bytes->data(), bytes->size(), m, &x); else e = z.vec ? ccs_object_deserialize(&x, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, bytes->size(), bytes->data(), CCS_DESERIALIZE_OPTION_VECTOR, z.vec, CCS_DESERIALIZE_OPTION_DATA, ud_new(z.ud->kind, z.ud->seed), CCS_DESERIALIZE_OPTION_END) : ccs_object_deserialize(&x, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, bytes->size(), bytes->data(), CCS_DESERIALIZE_OPTION_END); if (!e) out(w, x); else CHECK(!x, "output", "failed loading returned an object"); return e; }; break; }
	case 46: { op.name = "ccs_distribution_samples"; DModel d = gen_dist(r, 2); OK(ccs_retain_object(d.d)); auto d1 = b.own(d.d); size_t dim = d.dim; release(d); auto g = mk_rng(r, b); op.seen = {d1}; op.draws = true; size_t n = r.range(1, 30); int ty = r.below(3);
		op.call = [=] { std::vector<ccs_numeric_t> v((dim + 1) * n); std::vector<ccs_numeric_t *> col; for (size_t i = 0; i < dim; i++) col.push_back(i % 3 == 2 ? NULL : v.data() + i * n); return ty == 0 ? ccs_distribution_samples(d1, g, n, v.data()) : ty == 1 ? ccs_distribution_strided_samples(d1, g, n, dim + 1, v.data()) : ccs_distribution_soa_samples(d1, g, n, col.data()); }; break; }
	case 47: { op.name = "user defined and features tuners"; int zk = r.pick({(int)Z_UTUNER, (int)Z_UFTUNER, (int)Z_UTTUNER, (int)Z_FTUNER}); auto t = stuff(zk); op.seen = {t}; op.draws = true; bool sug = r.below(2); size_t n = r.range(1, 4); ccs_features_t ft = NULL;
		if (zk == Z_UFTUNER || zk == Z_FTUNER) { ccs_features_space_t fs; OK(ccs_features_tuner_get_features_space((ccs_features_tuner_t)t, &fs)); size_t np; OK(ccs_features_space_get_parameters(fs, 0, NULL, &np)); DV fv; for (size_t i = 0; i < np; i++) { ccs_parameter_t q; ccs_datum_t dv; OK(ccs_features_space_get_parameter(fs, i, &q)); OK(ccs_parameter_get_default_value(q, &dv)); { ccs_parameter_type_t pt; OK(ccs_parameter_get_type(q, &pt)); if (pt == CCS_PARAMETER_TYPE_STRING) dv = dstr("x"); } fv.push_back(dv); } OK(ccs_create_features(fs, fv.size(), fv.data(), &ft)); b.own(ft); op.seen.push_back(ft); }
		op.call = [=, &w]() -> ccs_result_t { std::vector<ccs_object_t> v(n, NULL); size_t got = 0; ccs_result_t e; auto C = (ccs_configuration_t *)v.data(); auto T = (ccs_tree_configuration_t *)v.data(); if (ft) e = sug ? ccs_features_tuner_suggest((ccs_features_tuner_t)t, ft, C) : ccs_features_tuner_ask((ccs_features_tuner_t)t, ft, n, C, &got); else if (zk == Z_UTUNER) e = sug ? ccs_tuner_suggest((ccs_tuner_t)t, C) : ccs_tuner_ask((ccs_tuner_t)t, n, C, &got); else e = sug ? ccs_tree_tuner_suggest((ccs_tree_tuner_t)t, T) : ccs_tree_tuner_ask((ccs_tree_tuner_t)t, n, T, &got); for (auto c : v) if (c) w.b.own(c); if (e == CCS_RESULT_ERROR_UNSUPPORTED_OPERATION) { ccs_clear_thread_error(); e = CCS_RESULT_SUCCESS; } return nodist(e); }; break; }
	case 48: case 49: { op.name = "a refused call"; CSModel m = gen_cs(r, "cs", b, co); auto cs = m.cs; auto res = std::make_shared<std::string>("-"); int ty = r.below(8); op.seen = {cs}; ccs_parameter_t p = m.ps[0].p; auto q = std::make_shared<DV>(m.ps.size() + 1, dstr("no such value")); size_t np = m.ps.size(); ccs_configuration_t c0; OK(ccs_configuration_space_get_default_configuration(cs, &c0)); b.own(c0); ccs_map_t mp; OK(ccs_create_map(&mp)); b.own(mp); op.seen.push_back(c0);
		op.call = [=]() -> ccs_result_t { ccs_result_t e; ccs_object_t x = NULL; ccs_datum_t dv; size_t ix; switch (ty) { case 0: e = ccs_configuration_space_add_parameter(cs, p, NULL); break; case 1: e = ccs_create_configuration(cs, np + 1, q->data(), (ccs_configuration_t *)&x); break; case 2: e = ccs_configuration_set_value(c0, np, ccs_int(1)); break; case 3: e = ccs_create_int_numerical_parameter("p", 5, 1, 0, 1, (ccs_parameter_t *)&x); break; case 4: e = ccs_create_uniform_distribution(CCS_NUMERIC_TYPE_INT, NI(4), NI(2), CCS_SCALE_TYPE_LINEAR, NI(0), (ccs_distribution_t *)&x); break; case 5: e = ccs_configuration_space_get_parameter_by_name(cs, "missing", (ccs_parameter_t *)&x); if (!e && !x) e = CCS_RESULT_ERROR_INVALID_NAME; break; case 6: e = ccs_create_tree(3, ccs_int(1), NULL); break; default: e = ccs_configuration_get_value_by_name(c0, "missing", &dv); (void)ix; }
			CHECK(e < 0, "refused", "an invalid call (%d) is accepted", ty); CHECK(!x, "output", "a refused call returns an object"); if (e != CCS_RESULT_ERROR_OUT_OF_MEMORY) { CHECK(*res == "-" || *res == rname(e), "refusal", "call %d is refused with %s instead of %s", ty, rname(e), res->c_str()); *res = rname(e); ccs_clear_thread_error(); e = CCS_RESULT_SUCCESS; } return e; }; break; }
	case 50: case 51: { op.name = k == 50 ? "writing to a descriptor" : "reading from a descriptor"; auto o = stuff(r.pick({(int)Z_CS, (int)Z_OS, (int)Z_FS, (int)Z_RNG, (int)Z_PARAM, (int)Z_DIST, (int)Z_TREE, (int)Z_STS, (int)Z_TUNER})); op.seen = {o}; auto bytes = std::make_shared<std::vector<char>>(ser(o)); bool nb = r.below(2), path = r.below(3) == 0; op.draws = k == 50; bool wr = k == 50; auto bad = std::make_shared<bool>(false);
		op.call = [=, &w]() -> ccs_result_t { Fds f; int fd = memfd_create("x", 0); std::string pn = sfmt("/proc/self/fd/%d", fd); ccs_result_t e; ccs_object_t x = NULL; void *st = NULL; int guard = 0; auto D = CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR; auto F = CCS_SERIALIZE_FORMAT_BINARY; if (!wr) { (void)!write(fd, bytes->data(), bytes->size()); lseek(fd, 0, SEEK_SET); }
			if (wr) e = path ? ccs_object_serialize(o, F, CCS_SERIALIZE_OPERATION_FILE, pn.c_str(), CCS_SERIALIZE_OPTION_END) : nb ? ccs_object_serialize(o, F, D, fd, CCS_SERIALIZE_OPTION_NON_BLOCKING, &st, CCS_SERIALIZE_OPTION_END) : ccs_object_serialize(o, F, D, fd, CCS_SERIALIZE_OPTION_END);
			else e = path ? ccs_object_deserialize(&x, F, CCS_SERIALIZE_OPERATION_FILE, pn.c_str(), CCS_DESERIALIZE_OPTION_END) : nb ? ccs_object_deserialize(&x, F, D, fd, CCS_DESERIALIZE_OPTION_NON_BLOCKING, &st, CCS_DESERIALIZE_OPTION_END) : ccs_object_deserialize(&x, F, D, fd, CCS_DESERIALIZE_OPTION_END);
			bool okb = true; if (!e && wr) { std::vector<char> g(bytes->size() + 1); ssize_t n = pread(fd, g.data(), g.size(), 0); g.resize(n < 0 ? 0 : n); okb = g == *bytes; } close(fd); CHECK(okb, "bytes", "descriptor holds other bytes than memory serialization"); if (!e && !wr) out(w, x); else CHECK(!x, "output", "failed loading returned an object"); return e; }; break; }
	case 52: { op.name = "binding values"; CSOpt c2; c2.minp = 2; c2.maxp = 4; c2.conds = c2.forb = false; CSModel m = gen_cs(r, "cs", b, c2); ccs_configuration_t c; OK(ccs_configuration_space_get_default_configuration(m.cs, &c)); b.own(c); op.seen = {c}; auto v = std::make_shared<DV>(); for (auto &p : m.ps) v->push_back(p.in(r)); size_t i = r.below(m.ps.size()); op.call = [=]() -> ccs_result_t { std::vector<std::unique_ptr<char[]>> st; ccs_result_t e = ccs_configuration_set_value(c, i, transient_copy((*v)[i], st)); return e; }; break; }
	case 53: { op.name = "sampling a dynamic tree space"; auto ts = (ccs_tree_space_t)stuff(Z_DTS); op.seen = {ts}; op.draws = true; size_t n = r.range(1, 6); op.call = [=, &w] { std::vector<ccs_tree_configuration_t> v(n, NULL); ccs_result_t e = n == 1 ? ccs_tree_space_sample(ts, v.data()) : ccs_tree_space_samples(ts, n, v.data()); for (auto c : v) if (c) w.b.own(c); return nodist(e); }; break; }
	case 54: { op.name = "comparing evaluations"; OSModel o = gen_os(r, "os", b, true, 3); TP tr = gen_tree(r, b, 2, 2, false); ccs_tree_space_t ts; OK(ccs_create_static_tree_space("ts", tr->t, &ts)); b.own(ts); ccs_tree_configuration_t c; OK(ccs_create_tree_configuration(ts, 0, NULL, &c)); b.own(c); auto e1 = mk_teval(o, c, false, o.rand_values(r), b), e2 = mk_teval(o, c, false, o.rand_values(r), b); op.seen = {e1, e2}; auto v = std::make_shared<DV>(o.rand_values(r)); auto os = o.os; auto res = std::make_shared<std::string>(); op.outd = [res] { return *res; }; op.call = [=, &w]() -> ccs_result_t { ccs_comparison_t q; ccs_result_t e = ccs_tree_evaluation_compare(e1, e2, &q); if (e) { if (e == CCS_RESULT_ERROR_OUT_OF_MEMORY) return e; *res = rname(e); ccs_clear_thread_error(); } else *res = sfmt("%d", q); ccs_tree_evaluation_t x = NULL; e = ccs_create_tree_evaluation(os, c, CCS_RESULT_SUCCESS, v->size(), v->data(), &x); if (!e) out(w, x); return e; }; break; }
	default: { op.name = "object callbacks and user data"; auto o = stuff(r.below(Z_COUNT)); op.seen = {o}; int ty = r.below(2); op.call = [=]() -> ccs_result_t { return ty ? ccs_object_set_destroy_callback(o, [](ccs_object_t, void *) {}, NULL) : ccs_object_set_user_data(o, (void *)o); }; break; }
	}
}
struct Snap { std::vector<std::string> d; std::vector<int> rc; };
static Snap snap(W &w, bool refs) { Snap s; for (auto o : w.op.seen) { dump(o); s.d.push_back(dump(o)); if (refs) s.rc.push_back(refcount(o)); } return s; }
static std::string result_of(W &w) { std::string s; for (auto o : w.op.outs) { dump(o); s += dump(o); } if (w.op.outd) s += w.op.outd(); return s; }
static void single(Rng &r, int k) {
	uint64_t seed = r.next(), at = led_count(); std::string ref, refseen; size_t total; std::string nm;
	{ W w; make(Rng(seed), k, w); nm = w.op.name; snap(w, false); at = led_count(); note("%s", nm.c_str()); ccs_result_t e = w.op.call(); total = led_count() - at; CHECK(e == CCS_RESULT_SUCCESS, "reference", "%s fails without injection: %s", nm.c_str(), rname(e)); ref = result_of(w); for (auto &s : snap(w, false).d) refseen += s; ccs_clear_thread_error(); }
	desc(sfmt("%s: %zu allocations", nm.c_str(), total)); sig(mix64(seed, k)); if (!total) { ev("no-allocation"); return; }
	size_t done = 0; auto w = std::make_unique<W>(); make(Rng(seed), k, *w); std::vector<size_t> ks; for (size_t i = 1; i <= total; i++) ks.push_back(i); if (ks.size() > (tier.thorough ? 400 : 60)) { r.shuffle(ks); ks.resize(tier.thorough ? 400 : 60); }
	for (size_t i : ks) {
		Snap before = snap(*w, true); ccs_clear_thread_error();
		note("%s, allocation %zu of %zu fails", nm.c_str(), i, total); led_fail_at(i); ccs_result_t e; try { e = w->op.call(); } catch (...) { led_fail_at(0); throw; } bool fired = led_fired(); led_fail_at(0);
		if (!fired) { CHECK(e == CCS_RESULT_SUCCESS, "unfired", "%s fails (%s) without any allocation failing", nm.c_str(), rname(e)); ev("unfired"); }
		if (fired) { ev("injected"); done++; CHECK(e == CCS_RESULT_SUCCESS || e == CCS_RESULT_ERROR_OUT_OF_MEMORY, "code", "%s: failing allocation %zu of %zu reported as %s", nm.c_str(), i, total, rname(e)); }
		if (e == CCS_RESULT_SUCCESS) { ev(fired ? "survived" : "done"); if (fired && !w->op.draws) { CHECK(result_of(*w) == ref, "result", "%s: survived failing allocation %zu with another result", nm.c_str(), i); std::string s; for (auto &x : snap(*w, false).d) s += x; CHECK(s == refseen, "effect", "%s: survived failing allocation %zu with another effect", nm.c_str(), i); } w.reset(); w = std::make_unique<W>(); make(Rng(seed), k, *w); continue; }
		ev("reported"); ccs_clear_thread_error();
		Snap after = snap(*w, true); if (!w->op.draws) { for (size_t j = 0; j < before.d.size(); j++) { CHECK(before.d[j] == after.d[j], "changed", "%s: failing allocation %zu left an object changed\n%s\n%s", nm.c_str(), i, before.d[j].c_str(), after.d[j].c_str()); CHECK(before.rc[j] == after.rc[j], "references", "%s: failing allocation %zu changed references of an object from %d to %d", nm.c_str(), i, before.rc[j], after.rc[j]); } }
	}
	// after all those failures the call still works
	ccs_clear_thread_error(); note("%s, again", nm.c_str()); ccs_result_t e = w->op.call(); CHECK(e == CCS_RESULT_SUCCESS, "afterwards", "%s fails after failed attempts: %s", nm.c_str(), rname(e));
	if (!w->op.draws) { CHECK(result_of(*w) == ref, "afterwards-result", "%s gives another result after failed attempts", nm.c_str()); std::string s; for (auto &x : snap(*w, false).d) s += x; CHECK(s == refseen, "afterwards-effect", "%s has another effect after failed attempts", nm.c_str()); }
	for (auto o : w->op.seen) { Rng q(1); exercise(q, o); } for (auto o : w->op.outs) { Rng q(1); exercise(q, o); } ev("calls"); ev("failures", done); ccs_clear_thread_error();
}
// whole scripts: build, use, save, reload with one failure anywhere
static void script(Rng &r, int kind) {
	uint64_t seed = r.next(); auto go = [&](Bag &b, bool *threw) {
		*threw = false; try { Rng q(seed); ZOpt zo; zo.small = true; ZObj z = zoo(q, kind, b, zo); Rng x(seed); exercise(x, z.o); auto bytes = ser(z.o); zoo_reload_ok(z, bytes, b); } catch (Failure &f) { *threw = true; led_fail_at(0); std::string s = f.key; if (s.find("OUT_OF_MEMORY") == std::string::npos && f.msg.find("OUT_OF_MEMORY") == std::string::npos) throw; } };
	size_t total; { ud_reset(); Bag b; bool t; uint64_t at = led_count(); go(b, &t); total = led_count() - at; CHECK(!t, "reference", "script fails without injection"); ccs_clear_thread_error(); }
	desc(sfmt("script of a %s: %zu allocations", zname[kind], total)); sig(mix64(seed, kind));
	for (int i = tier.thorough ? 40 : 12; i-- && total;) {
		size_t k = 1 + r.below(total); ccs_clear_thread_error();
		{ Bag b; bool t; note("script of a %s, allocation %zu of %zu fails", zname[kind], k, total); led_fail_at(k); go(b, &t); bool fired = led_fired(); led_fail_at(0); ccs_clear_thread_error(); if (fired || t) ev(t ? "script.stopped" : "script.survived"); for (auto o : b.v) { dump(o); } if (b.v.size() && t) for (int j = 0; j < 3; j++) { Rng x(j); exercise(x, r.pick(b.v)); } ccs_clear_thread_error(); }
	}
}
void run_case(Rng &r, uint64_t idx) { ud_reset(); scripted = idx % 4 == 3; if (scripted) script(r, (idx / 4) % Z_COUNT); else single(r, (idx - idx / 4) % NOPS); ccs_clear_thread_error(); ud_reset(); }
