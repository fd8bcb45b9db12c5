// C06: configuration checking, defaults, and acceptance of conditions and
// forbidden clauses agree with the definition, along random construction
// histories of a configuration space.
#include "gen.hpp"
const char *PROP = "C06";
uint64_t num_cases(bool th) { return th ? 300000 : 48000; }
bool ledger_check() { return true; }
void prop_init() {}

// verdicts the definition allows: bit 1 valid, bit 0 invalid, plus error codes
struct Outcome { bool valid = false, invalid = false; std::set<int> errs; };
static Outcome judge(const CSModel &m, const DV &v) {
	Outcome o; bool viol = false;
	for (size_t i = 0; i < m.ps.size(); i++) {
		bool active = true;
		if (m.cond[i]) {
			EVal e = eval_ref(*m.cond[i], m.ps, v);
			if (!e.ok()) { o.errs.insert(e.err); continue; }
			active = e.v.type == CCS_DATA_TYPE_BOOL && e.v.value.i;
		}
		if (active != (v[i].type != CCS_DATA_TYPE_INACTIVE)) viol = true;
		else if (active && !m.ps[i].accepts(v[i])) viol = true;
	}
	if (viol) { o.invalid = true; return o; }
	if (!o.errs.empty()) return o;
	for (auto &f : m.forb) {
		EVal e = eval_ref(*f, m.ps, v);
		if (!e.ok()) o.errs.insert(e.err);
		else if (e.v.type == CCS_DATA_TYPE_BOOL && e.v.value.i) o.invalid = true;
	}
	if (o.errs.empty() && !o.invalid) o.valid = true;
	return o;
}
static std::string vstr(const DV &v) { std::string s = "["; for (auto &d : v) s += dtos(d) + ","; return s + "]"; }
static std::string ostr(const Outcome &o) { std::string s; if (o.valid) s += "valid "; if (o.invalid) s += "invalid "; for (int e : o.errs) s += rname((ccs_result_t)e) + std::string(" "); return s; }
static void expect(const CSModel &m, const DV &v, const Outcome &o, ccs_result_t res, ccs_bool_t b, const char *how) {
	bool good = res == CCS_RESULT_SUCCESS ? (b == CCS_TRUE ? o.valid : b == CCS_FALSE ? o.invalid : false) : o.errs.count(res) > 0;
	if (res != CCS_RESULT_SUCCESS) ccs_clear_thread_error();
	CHECK(good, "verdict", "%s gave %s/%d for %s where the definition says %s; space: %s", how, rname(res), b, vstr(v).c_str(), ostr(o).c_str(), m.str().c_str());
	ev(o.valid ? "verdict.valid" : o.errs.empty() ? "verdict.invalid" : "verdict.error");
}
static DV gen_vector(Rng &r, const CSModel &m) {
	DV v; for (auto &p : m.ps) v.push_back(p.in(r));
	if (r.chance(9, 10)) m.resolve(v);
	if (r.chance(1, 2) && !v.empty()) { // perturb
		int n = r.range(1, 2);
		while (n--) {
			size_t i = r.below(v.size());
			switch (r.below(4)) {
			case 0: v[i] = ccs_inactive; break;
			case 1: v[i] = m.ps[i].in(r); break;
			case 2: v[i] = m.ps[i].any(r); break;
			default: v[i] = gen_scalar(r); break;
			}
			if (r.chance(1, 3)) m.resolve(v);
		}
	}
	return v;
}
static void check_vectors(Rng &r, const CSModel &m, CSModel &other, int n) {
	for (int k = 0; k < n; k++) {
		DV v = gen_vector(r, m);
		eval_nan = false;
		Outcome o = judge(m, v);
		if (eval_nan) continue;
		std::vector<std::unique_ptr<char[]>> st;
		DV g; for (auto &d : v) g.push_back(r.chance(1, 3) ? transient_copy(d, st) : d);
		ccs_bool_t b = 9;
		ccs_result_t res = ccs_configuration_space_check_configuration_values(m.cs, g.size(), g.data(), &b);
		expect(m, v, o, res, b, "check_configuration_values");
		for (size_t i = 0; i < v.size(); i++) CHECK(veq(v[i], g[i]), "argument-modified", "checking modified the caller's value %zu", i);
		ccs_configuration_t c = NULL;
		OK(ccs_create_configuration(m.cs, v.size(), v.data(), &c));
		b = 9; res = ccs_configuration_check(c, &b); expect(m, v, o, res, b, "configuration_check");
		b = 9; res = ccs_configuration_space_check_configuration(m.cs, c, &b); expect(m, v, o, res, b, "check_configuration");
		if (r.chance(1, 4) && !v.empty()) { // change one value in place and check again
			size_t i = r.below(v.size());
			ccs_datum_t d = r.chance(1, 4) ? ccs_inactive : m.ps[i].in(r);
			DV w = v; w[i] = d;
			ccs_result_t sr = ccs_configuration_set_value(c, i, d);
			if (sr == CCS_RESULT_SUCCESS) {
				eval_nan = false; Outcome o2 = judge(m, w);
				if (!eval_nan) { b = 9; res = ccs_configuration_check(c, &b); expect(m, w, o2, res, b, "configuration_check after set_value"); ev("changed.checked"); }
			} else ccs_clear_thread_error();
		}
		if (r.chance(1, 6)) { b = 9; REFUSED(CCS_RESULT_ERROR_INVALID_CONFIGURATION, ccs_configuration_space_check_configuration(other.cs, c, &b)); ev("foreign.refused"); }
		ccs_release_object(c);
		if (r.chance(1, 6)) { // wrong number of values
			DV w = v; bool more = v.empty() || r.below(2); if (more) w.push_back(ccs_int(0)); else w.pop_back();
			b = 9; REFUSED(CCS_RESULT_ERROR_INVALID_CONFIGURATION, ccs_configuration_space_check_configuration_values(m.cs, w.size(), w.empty() ? NULL : w.data(), &b)); ev("size.refused");
		}
	}
}
static bool default_of(const CSModel &m, DV &v, std::set<int> &errs) {
	v.clear(); for (auto &p : m.ps) v.push_back(p.def);
	bool ok = true;
	for (int i : m.topo()) if (m.cond[i]) {
		EVal e = eval_ref(*m.cond[i], m.ps, v);
		if (!e.ok()) { errs.insert(e.err); ok = false; continue; }
		if (!(e.v.type == CCS_DATA_TYPE_BOOL && e.v.value.i)) v[i] = ccs_inactive;
	}
	return ok;
}
static void check_default(const CSModel &m) {
	DV v; std::set<int> errs; eval_nan = false;
	bool ok = default_of(m, v, errs);
	if (eval_nan) return;
	ccs_configuration_t c = NULL;
	ccs_result_t res = ccs_configuration_space_get_default_configuration(m.cs, &c);
	if (!ok) { CHECK(res < 0, "default-error", "default configuration succeeded although a condition cannot be evaluated: %s", m.str().c_str()); ccs_clear_thread_error(); ev("default.error"); return; }
	if (res) fail_call(res, CCS_RESULT_SUCCESS, "ccs_configuration_space_get_default_configuration", __LINE__);
	size_t n = 0; DV g(v.size() + 1, ccs_int(-9));
	OK(ccs_configuration_get_values(c, v.size(), v.empty() ? NULL : g.data(), &n));
	CHECK(n == v.size(), "default-size", "default configuration has %zu values, expected %zu", n, v.size());
	for (size_t i = 0; i < n; i++) CHECK(veq(g[i], v[i]), "default-value", "default configuration value %zu is %s, expected %s; space %s", i, dtos(g[i]).c_str(), dtos(v[i]).c_str(), m.str().c_str());
	ccs_configuration_space_t sp; OK(ccs_configuration_get_configuration_space(c, &sp)); CHECK(sp == m.cs, "default-space", "default configuration belongs to another space");
	eval_nan = false; Outcome o = judge(m, v);
	if (!eval_nan) { ccs_bool_t b = 9; res = ccs_configuration_check(c, &b); expect(m, v, o, res, b, "check of the default configuration"); }
	CHECK(!o.invalid, "default-forbidden", "an accepted clause or condition makes the default configuration invalid: %s", m.str().c_str());
	ccs_release_object(c);
	ev("default.compared");
}
static void check_readback(const CSModel &m) {
	size_t n = 0; OK(ccs_configuration_space_get_num_parameters(m.cs, &n));
	CHECK(n == m.ps.size(), "num-parameters", "%zu parameters, expected %zu", n, m.ps.size());
	for (size_t i = 0; i < n; i++) {
		ccs_parameter_t p; OK(ccs_configuration_space_get_parameter(m.cs, i, &p)); CHECK(p == m.ps[i].p, "parameter", "parameter %zu differs", i);
		size_t j = 999; OK(ccs_configuration_space_get_parameter_index(m.cs, p, &j)); CHECK(j == i, "parameter-index", "index of parameter %zu is %zu", i, j);
		OK(ccs_configuration_space_get_parameter_index_by_name(m.cs, m.ps[i].name.c_str(), &j)); CHECK(j == i, "name-index", "index of name %s is %zu, expected %zu", m.ps[i].name.c_str(), j, i);
		ccs_expression_t e; OK(ccs_configuration_space_get_condition(m.cs, i, &e)); CHECK(e == m.cond_o[i], "condition", "condition of parameter %zu differs from the one set; space %s", i, m.str().c_str());
		if (e) CHECK(same_expr(*read_expr(e, m.ps), *m.cond[i]), "condition-content", "condition %zu content differs", i);
	}
	std::vector<ccs_expression_t> a(n + 2, (ccs_expression_t)8);
	OK(ccs_configuration_space_get_conditions(m.cs, n, n ? a.data() : NULL, &n));
	for (size_t i = 0; i < n; i++) CHECK(a[i] == m.cond_o[i], "conditions", "bulk condition %zu differs", i);
	size_t f = 99; OK(ccs_configuration_space_get_forbidden_clauses(m.cs, 0, NULL, &f));
	CHECK(f == m.forb.size(), "num-clauses", "%zu clauses, expected %zu", f, m.forb.size());
	a.assign(f + 2, (ccs_expression_t)8);
	OK(ccs_configuration_space_get_forbidden_clauses(m.cs, f + 1, a.data(), NULL));
	for (size_t i = 0; i < f; i++) {
		ccs_expression_t e; OK(ccs_configuration_space_get_forbidden_clause(m.cs, i, &e));
		CHECK(e == m.forb_o[i] && a[i] == e, "clause", "clause %zu differs from the one added", i);
		CHECK(same_expr(*read_expr(e, m.ps), *m.forb[i]), "clause-content", "clause %zu content differs", i);
	}
	REFUSED(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_configuration_space_get_forbidden_clause(m.cs, f, a.data()));
	REFUSED(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_configuration_space_get_condition(m.cs, m.ps.size(), a.data()));
	ev("readback");
}
static bool cyclic(const CSModel &m, size_t idx, const Expr &e) {
	// would adding edges vars(e) -> idx close a cycle?
	std::set<int> start; vars_of(e, start);
	std::vector<int> work(start.begin(), start.end()); std::set<int> seen(start);
	while (!work.empty()) {
		int v = work.back(); work.pop_back();
		if (v == (int)idx) return true;
		if (m.cond[v]) { std::set<int> s; vars_of(*m.cond[v], s); for (int w : s) if (seen.insert(w).second) work.push_back(w); }
	}
	return false;
}
void run_case(Rng &r, uint64_t idx) {
	Bag bag;
	CSModel m, other; m.name = "cs"; 
	{ TName nm(r); OK(ccs_create_configuration_space(nm.c(), &m.cs)); bag.own(m.cs); nm.is(ccs_configuration_space_get_name, m.cs, "space"); TName nf(r), no(r); ccs_features_space_t fs; ccs_objective_space_t os; OK(ccs_create_features_space(nf.c(), &fs)); bag.own(fs); nf.is(ccs_features_space_get_name, fs, "features space"); OK(ccs_create_objective_space(no.c(), &os)); bag.own(os); no.is(ccs_objective_space_get_name, os, "objective space"); }
	OK(ccs_create_configuration_space("other", &other.cs)); bag.own(other.cs);
	POpt po; po.maxvals = 4; po.extreme = r.chance(1, 8);
	std::string stem = name_stem(r, "p"); if (stem.size() > 1) ev("long-names");
	PModel foreign = gen_param(r, stem + "0", po); bag.own(foreign.p); // same name as a parameter of the space, different object
	int target = r.chance(1, 10) ? r.range(12, 40) : r.range(1, 7);
	uint64_t h = 1;
	auto add = [&](int n) {
		std::vector<ccs_parameter_t> a; std::vector<ccs_distribution_t> ds; std::vector<DModel> dm(n);
		for (int i = 0; i < n; i++) {
			PModel p = gen_param(r, stem + std::to_string(m.ps.size()), po); bag.own(p.p);
			ccs_distribution_t d = NULL; if (r.chance(1, 5)) { dm[i] = gen_dist_for(r, p); d = dm[i].d; }
			a.push_back(p.p); ds.push_back(d); m.ps.push_back(p); m.cond.push_back(nullptr); m.cond_o.push_back(NULL);
		}
		if (n == 1 && r.below(2)) OK(ccs_configuration_space_add_parameter(m.cs, a[0], ds[0]));
		else {
			bool any = false; for (auto d : ds) if (d) any = true;
			OK(ccs_configuration_space_add_parameters(m.cs, n, a.data(), any || r.below(2) ? ds.data() : NULL));
		}
		for (auto &d : dm) if (d.d) release(d);
		ev("parameter.added", n);
	};
	int first = std::max(1, target / 2); add(first);
	int steps = r.range(3, 10) + (target > 10 ? target : 0);
	for (int s = 0; s < steps; s++) {
		size_t n = m.ps.size(); int op = r.below(12);
		h = mix64(h, op);
		std::vector<int> all; for (size_t i = 0; i < n; i++) all.push_back(i);
		if (op < 1 && (int)n < target) { add(std::min<int>(target - n, r.range(1, 3))); note("add parameters -> %zu", m.ps.size()); }
		else if (op < 6) { // condition
			size_t i = r.chance(1, 12) ? n + r.below(3) : r.below(n);
			std::vector<int> vars;
			if (r.chance(2, 3)) { for (int v : all) if ((size_t)v < i) vars.push_back(v); if (vars.empty()) vars = all; }
			else vars = all;
			if (vars.size() > 3 && r.chance(2, 3)) { r.shuffle(vars); vars.resize(3); }
			int k = r.below(10);
			EP e = k < 7 ? gen_bool(r, m.ps, vars, 2) : k < 8 ? gen_num(r, m.ps, vars, 2) : k < 9 ? gen_wild(r, m.ps, vars, 2) : e_lit(gen_scalar(r));
			if (e->type == CCS_EXPRESSION_TYPE_LIST) continue;
			bool fr = r.chance(1, 12);
			ccs_expression_t x;
			if (fr) { // refer to a parameter that is not in the space, somewhere in the expression
				std::vector<PModel> q = m.ps; q.push_back(foreign);
				EP e2 = e_op(CCS_EXPRESSION_TYPE_AND, {e, e_op(CCS_EXPRESSION_TYPE_EQUAL, {e_var(q.size() - 1), e_lit(foreign.def)})});
				if (r.below(2)) std::swap(e2->n[0], e2->n[1]);
				x = bag.own(build_expr(&r, *e2, q));
			} else x = bag.own(build_expr(&r, *e, m.ps));
			note("condition %zu: %s%s", i, e->str().c_str(), fr ? " + foreign" : "");
			int32_t rc = refcount(x);
			if (i >= n) { REFUSED(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_configuration_space_set_condition(m.cs, i, x)); ev("condition.bounds"); }
			else if (m.cond[i]) { REFUSED(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_set_condition(m.cs, i, x)); ev("condition.twice"); }
			else if (fr) { REFUSED_ANY(ccs_configuration_space_set_condition(m.cs, i, x)); ev("condition.foreign"); }
			else if (cyclic(m, i, *e)) { REFUSED(CCS_RESULT_ERROR_INVALID_GRAPH, ccs_configuration_space_set_condition(m.cs, i, x)); ev("condition.cycle"); }
			else {
				OK(ccs_configuration_space_set_condition(m.cs, i, x)); m.cond[i] = e; m.cond_o[i] = x; ev("condition.accepted");
				CHECK(refcount(x) == rc + 1, "condition-retained", "accepted condition not retained");
				rc++;
			}
			CHECK(refcount(x) == rc, "condition-refcount", "refused condition changed reference count");
		} else if (op < 9) { // clause
			int k = r.below(10);
			std::vector<int> vars = all; if (vars.size() > 3 && r.chance(2, 3)) { r.shuffle(vars); vars.resize(3); }
			std::vector<EP> es; std::vector<ccs_expression_t> xs; int cnt = r.chance(1, 4) ? r.range(0, 3) : 1; int fr = -1;
			for (int c = 0; c < cnt; c++) {
				EP e = k < 8 ? gen_bool(r, m.ps, vars, 2) : k < 9 ? gen_wild(r, m.ps, vars, 2) : gen_num(r, m.ps, vars, 1);
				if (e->type == CCS_EXPRESSION_TYPE_LIST) e = e_lit(ccs_false);
				es.push_back(e);
				if (r.chance(1, 12) && fr < 0) {
					fr = c; std::vector<PModel> q = m.ps; q.push_back(foreign);
					xs.push_back(bag.own(build_expr(&r, *e_op(CCS_EXPRESSION_TYPE_AND, {e, e_op(CCS_EXPRESSION_TYPE_EQUAL, {e_var(q.size() - 1), e_lit(foreign.def)})}), q)));
				} else xs.push_back(bag.own(build_expr(&r, *e, m.ps)));
			}
			DV dv; std::set<int> errs; eval_nan = false;
			bool dok = default_of(m, dv, errs);
			// expected outcome per clause, in order; a batch stops at the first refusal
			int stop = -1; ccs_result_t want = CCS_RESULT_SUCCESS; bool anyerr = false;
			for (int c = 0; c < cnt && stop < 0; c++) {
				if (c == fr || !dok) { stop = c; anyerr = true; break; }
				EVal v = eval_ref(*es[c], m.ps, dv);
				if (!v.ok()) { stop = c; want = v.err; }
				else if (v.v.type == CCS_DATA_TYPE_BOOL && v.v.value.i) { stop = c; want = CCS_RESULT_ERROR_INVALID_CONFIGURATION; }
			}
			if (eval_nan) continue;
			for (int c = 0; c < cnt; c++) note("clause %s", es[c]->str().c_str());
			ccs_result_t res = cnt == 1 && r.below(2) ? ccs_configuration_space_add_forbidden_clause(m.cs, xs[0])
			                                          : ccs_configuration_space_add_forbidden_clauses(m.cs, cnt, xs.empty() ? NULL : xs.data());
			if (res) ccs_clear_thread_error();
			if (stop < 0) { CHECK(!res, "clause-refused", "clause refused (%s) although it neither forbids the default nor refers outside: %s", rname(res), m.str().c_str()); ev("clause.accepted", cnt); }
			else if (anyerr) { CHECK(res < 0, "clause-accepted", "clause referring outside the space (or with an unevaluable default) accepted"); ev("clause.foreign"); }
			else { CHECK(res == want, "clause-code", "clause gave %s, expected %s", rname(res), rname(want)); ev(want == CCS_RESULT_ERROR_INVALID_CONFIGURATION ? "clause.default" : "clause.error"); }
			for (int c = 0; c < (stop < 0 ? cnt : stop); c++) { m.forb.push_back(es[c]); m.forb_o.push_back(xs[c]); }
		} else if (op == 9) { // refused parameters
			int k = r.below(3);
			if (k == 0) { REFUSED(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_add_parameter(m.cs, foreign.p, NULL)); ev("duplicate.refused"); }
			else if (k == 1) { ccs_parameter_t p; OK(ccs_create_string_parameter("str", &p)); bag.own(p); REFUSED(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_add_parameter(m.cs, p, NULL)); ev("string.refused"); }
			else { size_t j; ccs_parameter_t q; REFUSED_ANY(ccs_configuration_space_get_parameter_index(m.cs, foreign.p, &j)); REFUSED_ANY(ccs_configuration_space_get_parameter_by_name(m.cs, "absent", &q)); }
		} else if (op == 10) check_default(m);
		else { ccs_configuration_t c; ccs_result_t res = ccs_configuration_space_sample(m.cs, &c); if (!res) ccs_release_object(c); else ccs_clear_thread_error(); }
		if (r.chance(1, 2)) check_vectors(r, m, other, 3);
		if (r.chance(1, 4)) { check_default(m); check_readback(m); }
	}
	desc(m.str()); sig(mix64(h, hash_str(m.str())));
	check_readback(m); check_default(m); check_vectors(r, m, other, 12);
	DV dv; std::set<int> derr;
	if (r.chance(1, 4) && default_of(m, dv, derr)) { // (a space whose default cannot be evaluated cannot be reloaded) the definition survives a reload with the same verdicts
		auto b = ser((ccs_object_t)m.cs); ccs_object_t o = deser(b); bag.own(o);
		CSModel m2 = m; m2.cs = (ccs_configuration_space_t)o;
		for (int k = 0; k < 4; k++) {
			DV v = gen_vector(r, m); eval_nan = false; Outcome oc = judge(m, v); if (eval_nan) continue;
			ccs_bool_t bb = 9; ccs_result_t res = ccs_configuration_space_check_configuration_values(m2.cs, v.size(), v.data(), &bb);
			expect(m2, v, oc, res, bb, "check by the reloaded space"); ev("reloaded.checked");
		}
	}
}
