// C12: feature tuners treat each feature vector as its own problem.
#include "tuner.hpp"
const char *PROP = "C12";
uint64_t num_cases(bool th) { return th ? 300000 : 50000; }
bool ledger_check() { return true; }
void prop_init() {}

struct World { Bag bag; CSModel cs; FSModel fs; OSModel os; ccs_features_tuner_t t = NULL; std::vector<Told> hist, pool; std::vector<DV> fv; std::vector<std::vector<ccs_features_t>> fo; };
static bool same(const DV &a, const DV &b) { for (size_t i = 0; i < a.size(); i++) if (!veq(a[i], b[i])) return false; return a.size() == b.size(); }
static std::string vstr(const DV &v) { std::string s = "["; for (auto &d : v) s += dtos(d) + ","; return s + "]"; }
static ccs_features_t mkf(Rng &r, World &w, const DV &v) { // equal content, distinct object
	std::vector<std::unique_ptr<char[]>> st; DV g; for (auto &d : v) g.push_back(r.below(2) ? transient_copy(d, st) : d);
	ccs_features_t f; OK(ccs_create_features(w.fs.fs, g.size(), g.data(), &f)); return w.bag.own(f);
}
static std::vector<Told> of(const World &w, size_t f) { std::vector<Told> o; for (auto &t : w.hist) if (t.feat == f) o.push_back(t); return o; }
static std::vector<void *> listing(Rng &r, World &w, bool opt, ccs_features_t f) {
	return list_of(r, [&](size_t n, void **a, size_t *m) { return opt ? ccs_features_tuner_get_optima(w.t, f, n, (ccs_features_evaluation_t *)a, m) : ccs_features_tuner_get_history(w.t, f, n, (ccs_features_evaluation_t *)a, m); }, opt ? "optima" : "history");
}
static void verify(Rng &r, World &w) {
	auto h = listing(r, w, false, NULL); check_history(w.hist, h, "whole history");
	auto o = listing(r, w, true, NULL); check_optima(w.os, w.hist, o, "whole optima");
	size_t total = 0;
	for (size_t f = 0; f < w.fv.size(); f++) {
		ccs_features_t fo = r.chance(1, 3) ? mkf(r, w, w.fv[f]) : r.pick(w.fo[f]);
		auto part = of(w, f);
		auto hf = listing(r, w, false, fo); check_history(part, hf, "history of features");
		auto q = listing(r, w, true, fo); check_optima(w.os, part, q, "optima of features"); total += q.size();
		for (void *x : q) CHECK(std::find(o.begin(), o.end(), x) != o.end(), "optima-part", "an optimum of given features is not among all optima");
		ev("features.verified");
	}
	CHECK(total == o.size(), "optima-cover", "optima per features sum to %zu, all optima are %zu", total, o.size());
}
static void check_validation(Rng &r, World &w) {
	DV v = w.fs.rand_values(r); bool ok = true;
	if (v.size() && r.chance(2, 3)) { size_t i = r.below(v.size()); v[i] = r.chance(1, 4) ? ccs_inactive : r.below(2) ? w.fs.ps[i].any(r) : gen_scalar(r); }
	for (size_t i = 0; i < v.size(); i++) if (!w.fs.ps[i].accepts(v[i])) ok = false;
	ccs_bool_t b = 9; OK(ccs_features_space_check_features_values(w.fs.fs, v.size(), v.data(), &b)); CHECK(b == (ok ? CCS_TRUE : CCS_FALSE), "check-values", "values %s checked %d, expected %d", vstr(v).c_str(), b, ok);
	if (v.size() > 1) { REFUSED_ANY(ccs_features_space_check_features_values(w.fs.fs, v.size() - 1, v.data(), &b)); }
	ccs_features_t f; OK(ccs_create_features(w.fs.fs, v.size(), v.data(), &f)); w.bag.own(f);
	b = 9; OK(ccs_features_check(f, &b)); CHECK(b == (ok ? CCS_TRUE : CCS_FALSE), "features-check", "features %s checked %d, expected %d", vstr(v).c_str(), b, ok);
	b = 9; OK(ccs_features_space_check_features(w.fs.fs, f, &b)); CHECK(b == (ok ? CCS_TRUE : CCS_FALSE), "space-check", "features %s checked %d, expected %d", vstr(v).c_str(), b, ok);
	void *c = NULL;
	if (!ok) {
		REFUSED(CCS_RESULT_ERROR_INVALID_FEATURES, ccs_features_tuner_ask(w.t, f, 1, (ccs_configuration_t *)&c, NULL));
		REFUSED(CCS_RESULT_ERROR_INVALID_FEATURES, ccs_features_tuner_suggest(w.t, f, (ccs_configuration_t *)&c)); ev("features.invalid");
	} else ev("features.valid");
	if (r.chance(1, 3)) { // features of another space
		Bag b2; FSModel g = gen_fs(r, "other", b2, 2); DV gv = g.rand_values(r); ccs_features_t gf; OK(ccs_create_features(g.fs, gv.size(), gv.data(), &gf)); b2.own(gf);
		REFUSED_ANY(ccs_features_space_check_features(w.fs.fs, gf, &b));
		REFUSED_ANY(ccs_features_tuner_ask(w.t, gf, 1, (ccs_configuration_t *)&c, NULL));
		REFUSED_ANY(ccs_features_tuner_suggest(w.t, gf, (ccs_configuration_t *)&c)); ev("features.foreign");
	}
}
static Told make(Rng &r, World &w, int style) {
	Told t; t.res = r.chance(1, 7) ? r.pick({1, -1, -3}) : 0; t.feat = r.below(w.fv.size());
	t.v = w.os.rand_values(r);
	if (r.chance(1, 5)) { size_t j = r.below(t.v.size()); t.v[j] = nudge(r, t.v[j]); }
	if (!w.pool.empty() && r.chance(1, 3)) { t.v = r.pick(w.pool).v; if (r.chance(1, 2)) { size_t j = r.below(t.v.size()); t.v[j] = w.os.ps[j].in(r); } }
	if (style == 1) for (size_t j = 0; j < t.v.size(); j++) { const PModel &p = w.os.ps[j]; if (p.type != CCS_PARAMETER_TYPE_NUMERICAL) continue; t.v[j] = p.nt == CCS_NUMERIC_TYPE_INT ? ccs_int(p.lower.i + (int64_t)r.below(std::min<uint64_t>(p.upper.i - p.lower.i, 6))) : ccs_float((double)r.range(0, 8)); }
	if (style == 2) for (size_t j = 0; j < t.v.size(); j++) if (r.chance(1, 10)) t.v[j] = gen_scalar(r);
	ccs_configuration_t c; if (ccs_configuration_space_sample(w.cs.cs, &c)) { ccs_clear_thread_error(); OK(ccs_configuration_space_get_default_configuration(w.cs.cs, &c)); } w.bag.own(c); t.conf = (ccs_object_t)c;
	ccs_features_t f = r.below(2) ? mkf(r, w, w.fv[t.feat]) : r.pick(w.fo[t.feat]);
	ccs_features_evaluation_t e; OK(ccs_create_features_evaluation(w.os.os, c, f, (ccs_evaluation_result_t)t.res, t.v.size(), t.v.data(), &e)); t.o = w.bag.own(e);
	w.pool.push_back(t); return t;
}
#define SAME(getter, obj, want, what) do { decltype(want) x_ = NULL; OK(getter(obj, &x_)); CHECK(x_ == (want), "made-of", "%s is not the one the tuner was created with", what); } while (0)
void run_case(Rng &r, uint64_t idx) {
	ud_reset(); World w; int style = r.below(4);
	w.os = gen_os(r, "os", w.bag, style != 2, 3);
	CSOpt co; co.maxp = 4; co.dists = false; co.safe = true; w.cs = gen_cs(r, "cs", w.bag, co);
	w.fs = gen_fs(r, "fs", w.bag, 3, true);
	int nf = r.range(1, 5);
	for (int i = 0; i < nf; i++) {
		DV v = w.fs.rand_values(r);
		if (!w.fv.empty() && !v.empty() && r.chance(1, 2)) { v = r.pick(w.fv); size_t j = r.below(v.size()); v[j] = w.fs.ps[j].in(r); } // differ in one position only
		bool dup = false; for (auto &x : w.fv) if (same(x, v)) dup = true;
		if (!dup) { w.fv.push_back(v); w.fo.push_back({}); w.fo.back().push_back(mkf(r, w, v)); }
	}
	{ TName nm(r); OK(ccs_create_random_features_tuner(nm.c(), w.cs.cs, w.fs.fs, w.os.os, &w.t)); w.bag.own(w.t); nm.is(ccs_features_tuner_get_name, w.t, "feature tuner"); SAME(ccs_features_tuner_get_configuration_space, w.t, w.cs.cs, "configuration space"); SAME(ccs_features_tuner_get_objective_space, w.t, w.os.os, "objective space"); SAME(ccs_features_tuner_get_features_space, w.t, w.fs.fs, "features space"); ccs_features_tuner_type_t ty; OK(ccs_features_tuner_get_type(w.t, &ty)); CHECK(ty == CCS_FEATURES_TUNER_TYPE_RANDOM, "type", "wrong tuner type"); }
	int steps = r.chance(1, 8) ? r.range(20, 50) : r.range(3, 12); uint64_t h = idx;
	verify(r, w);
	for (int s = 0; s < steps; s++) {
		int op = r.below(10);
		if (op < 6) {
			int n = r.chance(1, 10) ? 0 : r.chance(1, 10) ? r.range(8, 24) : r.range(1, 4);
			std::vector<void *> a; std::vector<Told> add;
			for (int i = 0; i < n; i++) { Told t = !w.pool.empty() && r.chance(1, 10) ? r.pick(w.pool) : make(r, w, style); a.push_back(t.o); add.push_back(t); h = mix64(h, t.res * 31 + t.feat); for (auto &d : t.v) h = mix64(h, d.value.i); }
			OK(ccs_features_tuner_tell(w.t, n, n ? (ccs_features_evaluation_t *)a.data() : NULL));
			for (auto &t : add) { if (!t.res) { w.hist.push_back(t); ev("told.success"); } else ev("told.failed"); }
			verify(r, w);
		} else if (op == 6) {
			int n = r.range(1, 4); std::vector<void *> a; for (int i = 0; i < n; i++) a.push_back(make(r, w, style).o);
			a[r.below(n)] = r.below(2) ? NULL : (void *)w.os.os;
			REFUSED(CCS_RESULT_ERROR_INVALID_OBJECT, ccs_features_tuner_tell(w.t, n, (ccs_features_evaluation_t *)a.data())); ev("tell.refused"); verify(r, w);
		} else if (op == 7) { // ask
			size_t f = r.below(w.fv.size()); size_t k = r.range(1, 4), got = 77; std::vector<ccs_configuration_t> a(k + 1, (ccs_configuration_t)8);
			OK(ccs_features_tuner_ask(w.t, w.fo[f][0], 0, NULL, &got)); CHECK(got >= 1, "ask-count", "tuner proposes nothing");
			ccs_result_t res = ccs_features_tuner_ask(w.t, w.fo[f][0], k, a.data(), &got);
			if (res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && !w.cs.forb.empty()) { ccs_clear_thread_error(); for (size_t i = 0; i < k; i++) if (a[i] && a[i] != (ccs_configuration_t)8) ccs_release_object(a[i]); continue; }
			if (res) fail_call(res, CCS_RESULT_SUCCESS, "ask", __LINE__);
			for (size_t i = 0; i < got; i++) { ccs_bool_t b = 9; OK(ccs_configuration_space_check_configuration(w.cs.cs, a[i], &b)); CHECK(b == CCS_TRUE, "ask-valid", "asked configuration invalid"); ccs_release_object(a[i]); ev("asked"); }
		} else if (op == 8) { // suggest for features
			size_t f = r.below(w.fv.size()); ccs_features_t fo = r.below(2) ? mkf(r, w, w.fv[f]) : w.fo[f][0];
			auto o = listing(r, w, true, fo); ccs_configuration_t c = (ccs_configuration_t)8;
			for (int k = 0; k < 4; k++) {
				ccs_result_t res = ccs_features_tuner_suggest(w.t, fo, &c);
				if (o.empty() && res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && !w.cs.forb.empty()) { ccs_clear_thread_error(); break; }
				if (res) fail_call(res, CCS_RESULT_SUCCESS, "suggest", __LINE__);
				if (!o.empty()) { bool ok = false; for (void *x : o) for (auto &t : w.hist) if (t.o == x && t.conf == (ccs_object_t)c && t.feat == f) ok = true; CHECK(ok, "suggest-optimal", "suggestion for %s is not the configuration of one of its optima", vstr(w.fv[f]).c_str()); ev("suggest.optimal"); }
				else { ccs_bool_t b = 9; OK(ccs_configuration_space_check_configuration(w.cs.cs, c, &b)); CHECK(b == CCS_TRUE, "suggest-valid", "suggested configuration invalid"); ev("suggest.random"); }
				ccs_release_object(c);
			}
		} else check_validation(r, w);
	}
	check_validation(r, w);
	sig(h); desc(sfmt("%zu feature vectors, %zu told successfully", w.fv.size(), w.hist.size()));
}
