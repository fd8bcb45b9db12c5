// C21: objective values and Pareto comparison of evaluations.
#include "zoo.hpp"
const char *PROP = "C21";
uint64_t num_cases(bool th) { return th ? 540000 : 180000; }
bool ledger_check() { return true; }
void prop_init() {}

// uniform access to the three kinds of evaluations
struct K {
	const char *name;
	ccs_result_t (*compare)(void *, void *, ccs_comparison_t *);
	ccs_result_t (*oval)(void *, size_t, ccs_datum_t *);
	ccs_result_t (*ovals)(void *, size_t, ccs_datum_t *, size_t *);
	ccs_result_t (*check)(void *, ccs_bool_t *);
	ccs_result_t (*setr)(void *, ccs_evaluation_result_t);
	ccs_result_t (*getr)(void *, ccs_evaluation_result_t *);
	ccs_result_t (*setv)(void *, size_t, ccs_datum_t);
	ccs_result_t (*getv)(void *, size_t, ccs_datum_t *);
};
#define KIND(T, p) {#p, (decltype(K::compare))&p##_compare, (decltype(K::oval))&p##_get_objective_value, (decltype(K::ovals))&p##_get_objective_values, (decltype(K::check))&p##_check, (decltype(K::setr))&p##_set_result, (decltype(K::getr))&p##_get_result, (decltype(K::setv))&p##_set_value, (decltype(K::getv))&p##_get_value}
static const K kinds[3] = {KIND(ccs_evaluation_t, ccs_evaluation), KIND(ccs_features_evaluation_t, ccs_features_evaluation), KIND(ccs_tree_evaluation_t, ccs_tree_evaluation)};

struct E { void *o; DV v; int res; size_t feat; int space; };
static std::string vstr(const DV &v) { std::string s = "["; for (auto &d : v) s += dtos(d) + ","; return s + "]"; }
static std::string osstr(const OSModel &m) { std::string s; for (auto &p : m.ps) s += p.str() + "; "; for (size_t i = 0; i < m.obj.size(); i++) s += (m.dir[i] == CCS_OBJECTIVE_TYPE_MAXIMIZE ? "max " : "min ") + m.obj[i]->str() + "; "; return s; }

static void check_values(Rng &r, const K &k, const OSModel &m, const E &e) {
	size_t n = m.obj.size(); bool anyerr = false; std::vector<EVal> w(n);
	eval_nan = false;
	for (size_t i = 0; i < n; i++) { w[i] = m.objective(i, e.v); if (!w[i].ok()) anyerr = true; }
	if (eval_nan) return;
	for (size_t i = 0; i < n; i++) {
		ccs_datum_t d = ccs_int(-99); ccs_result_t res = k.oval(e.o, i, &d);
		if (res) ccs_clear_thread_error();
		CHECK(res == w[i].err, "objective-code", "%s: objective %zu gave %s, expected %s (%s of %s)", k.name, i, rname(res), rname(w[i].err), vstr(e.v).c_str(), osstr(m).c_str());
		if (!res) { CHECK(veq(d, w[i].v), "objective-value", "%s: objective %zu is %s, expected %s (%s of %s)", k.name, i, dtos(d).c_str(), dtos(w[i].v).c_str(), vstr(e.v).c_str(), osstr(m).c_str()); ev("objective.value"); } else ev("objective.error");
	}
	ccs_datum_t d; REFUSED(CCS_RESULT_ERROR_OUT_OF_BOUNDS, k.oval(e.o, n + r.below(2), &d));
	size_t c = 77; OK(k.ovals(e.o, 0, NULL, &c)); CHECK(c == n, "objective-count", "%s: %zu objective values, expected %zu", k.name, c, n);
	size_t extra = r.below(3); DV a(n + extra + 1, ccs_int(-99));
	if (n + extra) {
		ccs_result_t res = k.ovals(e.o, n + extra, a.data(), r.below(2) ? &c : NULL);
		if (res) ccs_clear_thread_error();
		CHECK((res < 0) == anyerr, "objectives-code", "%s: bulk objective values gave %s", k.name, rname(res));
		if (!res) for (size_t i = 0; i < n + extra; i++) CHECK(i < n ? veq(a[i], w[i].v) : a[i].type == CCS_DATA_TYPE_NONE, "objectives-bulk", "%s: bulk objective value %zu is %s", k.name, i, dtos(a[i]).c_str());
		CHECK(a[n + extra].value.i == -99, "objectives-overrun", "bulk query wrote beyond its buffer");
	}
	bool ok = true; for (size_t i = 0; i < e.v.size(); i++) if (!m.ps[i].accepts(e.v[i])) ok = false;
	ccs_bool_t b = 9; OK(k.check(e.o, &b)); CHECK(b == (ok ? CCS_TRUE : CCS_FALSE), "check", "%s: check gave %d for %s in %s", k.name, b, vstr(e.v).c_str(), osstr(m).c_str());
	b = 9; OK(ccs_objective_space_check_evaluation_values(m.os, e.v.size(), const_cast<ccs_datum_t *>(e.v.data()), &b)); CHECK(b == (ok ? CCS_TRUE : CCS_FALSE), "check-values", "check of values gave %d", b);
	ev(ok ? "check.valid" : "check.invalid");
}
static int mirror(int c) { return c == CCS_COMPARISON_BETTER ? CCS_COMPARISON_WORSE : c == CCS_COMPARISON_WORSE ? CCS_COMPARISON_BETTER : c; }
static void check_pair(const K &k, const OSModel *ms, const E &a, const E &b, bool feats) {
	ccs_comparison_t c1 = CCS_COMPARISON_MAX, c2 = CCS_COMPARISON_MAX;
	ccs_result_t r1 = k.compare(a.o, b.o, &c1); if (r1) ccs_clear_thread_error();
	ccs_result_t r2 = k.compare(b.o, a.o, &c2); if (r2) ccs_clear_thread_error();
	if (a.o == b.o) { CHECK(!r1 && c1 == CCS_COMPARISON_EQUIVALENT, "self", "%s: evaluation not equivalent to itself", k.name); ev("compare.self"); return; }
	if (a.res || b.res || a.space != b.space) { CHECK(r1 == CCS_RESULT_ERROR_INVALID_OBJECT && r2 == r1, "refused", "%s: comparison involving a failed or foreign evaluation gave %s/%s", k.name, rname(r1), rname(r2)); ev(a.res || b.res ? "compare.failed" : "compare.foreign"); return; }
	const OSModel &m = ms[a.space];
	eval_nan = false;
	int w = m.compare(a.v, b.v);
	if (eval_nan) return;
	if (feats && a.feat != b.feat) { CHECK(!r1 && c1 == CCS_COMPARISON_NOT_COMPARABLE && !r2 && c2 == c1, "features", "%s: evaluations with different features compare as %d/%d (%s)", k.name, c1, c2, rname(r1)); ev("compare.features"); return; }
	bool unev = false; for (size_t i = 0; i < m.obj.size(); i++) if (!m.objective(i, a.v).ok() || !m.objective(i, b.v).ok()) unev = true;
	if (unev) { // an objective that cannot be evaluated: refused, unless earlier objectives already settle it as not comparable
		CHECK(r1 < 0 || (w == CCS_COMPARISON_NOT_COMPARABLE && c1 == w), "unevaluable", "%s: comparison gave %s/%d, expected %d", k.name, rname(r1), c1, w); ev("compare.error"); return;
	}
	CHECK(!r1 && c1 == w, "pareto", "%s: comparing %s with %s gave %s/%d, expected %d (%s)", k.name, vstr(a.v).c_str(), vstr(b.v).c_str(), rname(r1), c1, w, osstr(m).c_str());
	CHECK(!r2 && c2 == mirror(w), "mirror", "%s: swapped operands gave %s/%d, expected %d", k.name, rname(r2), c2, mirror(w));
	ev(w == CCS_COMPARISON_BETTER || w == CCS_COMPARISON_WORSE ? "compare.dominance" : w == CCS_COMPARISON_EQUIVALENT ? "compare.equivalent" : "compare.incomparable");
}
void run_case(Rng &r, uint64_t idx) {
	Bag bag; ud_reset();
	int kind = r.below(3); const K &k = kinds[kind];
	bool simple = r.chance(2, 3);
	OSModel ms[2] = {gen_os(r, "os", bag, simple, r.chance(1, 6) ? 6 : 3), gen_os(r, "os2", bag, true, 2)};
	if (r.chance(1, 12)) { OK(ccs_create_objective_space("none", &ms[1].os)); bag.own(ms[1].os); OK(ccs_objective_space_add_parameter(ms[1].os, ms[1].ps[0].p)); ms[1].ps.resize(1); ms[1].obj.clear(); ms[1].dir.clear(); }
	CSOpt co; co.maxp = 2; co.conds = co.forb = co.dists = false; CSModel cs = gen_cs(r, "cs", bag, co);
	FSModel fs; std::vector<ccs_features_t> fv; std::vector<DV> fvals;
	ccs_tree_space_t ts = NULL; 
	if (kind == 1) { fs = gen_fs(r, "fs", bag, 2); for (int i = 0; i < 3; i++) { DV v = fs.rand_values(r); ccs_features_t f; OK(ccs_create_features(fs.fs, v.size(), v.data(), &f)); bag.own(f); fv.push_back(f); fvals.push_back(v); } }
	if (kind == 2) { TP t = gen_tree(r, bag, 2, 3, false); OK(ccs_create_static_tree_space("ts", t->t, &ts)); bag.own(ts); }
	auto featid = [&](size_t i) { for (size_t j = 0; j < i; j++) { bool eq = true; for (size_t x = 0; x < fvals[i].size(); x++) if (!veq(fvals[i][x], fvals[j][x])) eq = false; if (eq) return j; } return i; };
	std::vector<E> es; int n = r.range(3, 9);
	for (int i = 0; i < n; i++) {
		E e; e.space = r.chance(1, 6); const OSModel &m = ms[e.space];
		e.v = !es.empty() && es.back().space == e.space && r.chance(1, 3) ? es.back().v : m.rand_values(r);
		if (r.chance(1, 3)) { size_t j = r.below(e.v.size()); e.v[j] = m.ps[j].in(r); }
		if (r.chance(1, 3)) { size_t j = r.below(e.v.size()); e.v[j] = nudge(r, e.v[j]); ev("value.nudged"); }
		if (r.chance(1, 12)) e.v[r.below(e.v.size())] = gen_scalar(r); // value outside of its parameter's domain
		if (r.chance(1, 20)) e.v[r.below(e.v.size())] = ccs_inactive;
		e.res = r.chance(1, 8) ? r.pick({1, -1, -7, 12}) : 0; e.feat = 0;
		if (kind == 0) { ccs_configuration_t c; OK(ccs_configuration_space_sample(cs.cs, &c)); bag.own(c); ccs_evaluation_t o; OK(ccs_create_evaluation(m.os, c, (ccs_evaluation_result_t)e.res, e.v.size(), e.v.data(), &o)); e.o = bag.own(o); }
		else if (kind == 1) { ccs_configuration_t c; OK(ccs_configuration_space_sample(cs.cs, &c)); bag.own(c); size_t f = r.below(fv.size()); e.feat = featid(f); ccs_features_evaluation_t o; OK(ccs_create_features_evaluation(m.os, c, fv[f], (ccs_evaluation_result_t)e.res, e.v.size(), e.v.data(), &o)); e.o = bag.own(o); }
		else { ccs_tree_configuration_t c; OK(ccs_tree_space_sample(ts, &c)); bag.own(c); ccs_tree_evaluation_t o; OK(ccs_create_tree_evaluation(m.os, c, (ccs_evaluation_result_t)e.res, e.v.size(), e.v.data(), &o)); e.o = bag.own(o); }
		es.push_back(e);
	}
	for (int round = 0; round < 2; round++) {
		for (auto &e : es) {
			check_values(r, k, ms[e.space], e);
			ccs_evaluation_result_t res; OK(k.getr(e.o, &res)); CHECK(res == e.res, "result", "%s: result %d, expected %d", k.name, res, e.res);
			for (size_t i = 0; i < e.v.size(); i++) { ccs_datum_t d; OK(k.getv(e.o, i, &d)); CHECK(veq(d, e.v[i]), "value", "%s: value %zu is %s, expected %s", k.name, i, dtos(d).c_str(), dtos(e.v[i]).c_str()); }
		}
		for (auto &a : es) for (auto &b : es) check_pair(k, ms, a, b, kind == 1);
		if (round) break;
		for (auto &e : es) { // change results and values, then judge again
			if (r.chance(1, 4)) { e.res = r.chance(1, 2) ? 0 : (int)r.range(-3, 3); OK(k.setr(e.o, (ccs_evaluation_result_t)e.res)); ev("result.changed"); }
			if (r.chance(1, 3)) { size_t j = r.below(e.v.size()); ccs_datum_t d = ms[e.space].ps[j].in(r); OK(k.setv(e.o, j, d)); e.v[j] = d; ev("value.changed"); }
		}
	}
	// declared objectives read back
	for (auto &m : ms) for (size_t i = 0; i < m.obj.size(); i++) {
		ccs_expression_t x; ccs_objective_type_t t; OK(ccs_objective_space_get_objective(m.os, i, &x, &t));
		CHECK(t == m.dir[i] && same_expr(*read_expr(x, m.ps), *m.obj[i]), "objective-readback", "objective %zu differs from the declared one", i);
	}
	sig(mix64(kind, hash_str(osstr(ms[0])))); desc(std::string(k.name) + " " + osstr(ms[0]));
}
