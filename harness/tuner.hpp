// Monitors shared by the tuner properties: history and optima as defined by
// the sequence of tells.
#pragma once
#include "zoo.hpp"
struct Told { void *o; DV v; int res; size_t feat; ccs_object_t conf; };
// verdict of comparing two told evaluations; error as < -100
static inline int told_cmp(const OSModel &m, const Told &a, const Told &b) {
	if (a.o == b.o) return CCS_COMPARISON_EQUIVALENT;
	if (a.feat != b.feat) return CCS_COMPARISON_NOT_COMPARABLE;
	return m.compare(a.v, b.v);
}
static inline bool evaluable(const OSModel &m, const Told &a) { for (size_t i = 0; i < m.obj.size(); i++) if (!m.objective(i, a.v).ok()) return false; return true; }
static inline std::string told_str(const OSModel &m, const Told &t) { std::string s = "("; for (size_t i = 0; i < m.obj.size(); i++) { EVal e = m.objective(i, t.v); s += (e.ok() ? dtos(e.v) : std::string("error")) + (m.dir[i] == CCS_OBJECTIVE_TYPE_MAXIMIZE ? "^ " : "v "); } return s + ")"; }
// optima: handles reported; hist: successful evaluations told, in order
static inline void check_optima(const OSModel &m, const std::vector<Told> &hist, const std::vector<void *> &opt, const char *what) {
	std::vector<const Told *> o;
	for (void *x : opt) {
		const Told *f = nullptr; for (auto &t : hist) if (t.o == x) f = &t;
		CHECK(f, "optimum-unknown", "%s: an optimum was never told (or was not successful)", what);
		for (auto *p : o) CHECK(p->o != x, "optimum-twice", "%s: the same evaluation is reported twice among optima", what);
		o.push_back(f);
	}
	eval_nan = false;
	for (auto *p : o) CHECK(evaluable(m, *p), "optimum-unevaluable", "%s: an evaluation without objective values is reported optimal", what);
	for (size_t i = 0; i < o.size(); i++) for (size_t j = i + 1; j < o.size(); j++) {
		int c = told_cmp(m, *o[i], *o[j]);
		CHECK(eval_nan || c == CCS_COMPARISON_NOT_COMPARABLE, c == CCS_COMPARISON_EQUIVALENT ? "optima-equivalent" : "optima-dominated", "%s: optima %s and %s compare as %d", what, told_str(m, *o[i]).c_str(), told_str(m, *o[j]).c_str(), c);
		ev("optima.pair");
	}
	for (auto &t : hist) {
		if (!evaluable(m, t)) { ev("unevaluable.skipped"); continue; }
		bool cov = false;
		for (auto *p : o) { int c = told_cmp(m, *p, t); if (c == CCS_COMPARISON_BETTER || c == CCS_COMPARISON_EQUIVALENT) { cov = true; break; } }
		CHECK(eval_nan || cov, "optima-missing", "%s: %s is neither dominated by nor equivalent to any of the %zu optima", what, told_str(m, t).c_str(), o.size());
		ev("history.covered");
	}
	ev("optima.checked");
	if (o.size() > 1) ev("optima.several");
}
template <class F> static std::vector<void *> list_of(Rng &r, F get, const char *what) {
	size_t n = 9999; OK(get((size_t)0, (void **)NULL, &n));
	size_t extra = r.below(3);
	std::vector<void *> a(n + extra + 1, (void *)8);
	if (n + extra) OK(get(n + extra, a.data(), (size_t *)NULL));
	for (size_t i = 0; i < n + extra; i++) CHECK(i < n ? a[i] != NULL && a[i] != (void *)8 : !a[i], "listing", "%s: entry %zu of %zu badly filled", what, i, n);
	CHECK(a[n + extra] == (void *)8, "listing-overrun", "%s: listing wrote beyond its buffer", what);
	if (n > 1) REFUSED(CCS_RESULT_ERROR_INVALID_VALUE, get(n - 1, a.data(), (size_t *)NULL));
	a.resize(n); return a;
}
static inline void check_history(const std::vector<Told> &hist, const std::vector<void *> &h, const char *what) {
	CHECK(h.size() == hist.size(), "history-size", "%s: history has %zu entries, expected %zu", what, h.size(), hist.size());
	for (size_t i = 0; i < h.size(); i++) CHECK(h[i] == hist[i].o, "history-order", "%s: history entry %zu is not the %zu-th successful evaluation told", what, i, i);
	ev("history.checked");
}
