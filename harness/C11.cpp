// C11: built-in plain and tree tuners keep every successful evaluation and the
// Pareto optima.
#include "tuner.hpp"
const char *PROP = "C11";
uint64_t num_cases(bool th) { return th ? 180000 : 30000; }
bool ledger_check() { return true; }
void prop_init() {}

struct T { // uniform view of a plain or tree tuner
	bool tree; void *t;
	ccs_result_t hist(size_t n, void **a, size_t *m) const { return tree ? ccs_tree_tuner_get_history((ccs_tree_tuner_t)t, n, (ccs_tree_evaluation_t *)a, m) : ccs_tuner_get_history((ccs_tuner_t)t, n, (ccs_evaluation_t *)a, m); }
	ccs_result_t opt(size_t n, void **a, size_t *m) const { return tree ? ccs_tree_tuner_get_optima((ccs_tree_tuner_t)t, n, (ccs_tree_evaluation_t *)a, m) : ccs_tuner_get_optima((ccs_tuner_t)t, n, (ccs_evaluation_t *)a, m); }
	ccs_result_t tell(size_t n, void **a) const { return tree ? ccs_tree_tuner_tell((ccs_tree_tuner_t)t, n, (ccs_tree_evaluation_t *)a) : ccs_tuner_tell((ccs_tuner_t)t, n, (ccs_evaluation_t *)a); }
	ccs_result_t ask(size_t n, void **a, size_t *m) const { return tree ? ccs_tree_tuner_ask((ccs_tree_tuner_t)t, n, (ccs_tree_configuration_t *)a, m) : ccs_tuner_ask((ccs_tuner_t)t, n, (ccs_configuration_t *)a, m); }
	ccs_result_t suggest(void **a) const { return tree ? ccs_tree_tuner_suggest((ccs_tree_tuner_t)t, (ccs_tree_configuration_t *)a) : ccs_tuner_suggest((ccs_tuner_t)t, (ccs_configuration_t *)a); }
};
struct World { Bag bag; bool tree; CSModel cs; ccs_tree_space_t ts = NULL; OSModel os; T t; std::vector<Told> hist; std::vector<Told> pool; };

static void conf_valid(World &w, void *c, const char *what) {
	ccs_bool_t b = 9;
	if (w.tree) {
		ccs_tree_space_t s; OK(ccs_tree_configuration_get_tree_space((ccs_tree_configuration_t)c, &s)); CHECK(s == w.ts, "space", "%s: configuration of another space", what);
		OK(ccs_tree_configuration_check((ccs_tree_configuration_t)c, &b));
	} else {
		ccs_configuration_space_t s; OK(ccs_configuration_get_configuration_space((ccs_configuration_t)c, &s)); CHECK(s == w.cs.cs, "space", "%s: configuration of another space", what);
		OK(ccs_configuration_check((ccs_configuration_t)c, &b));
		DV v(w.cs.ps.size()); OK(ccs_configuration_get_values((ccs_configuration_t)c, v.size(), v.data(), NULL));
		eval_nan = false; int d = w.cs.verdict(v); CHECK(eval_nan || d == 1, "definition", "%s: configuration not valid by the definition", what);
	}
	CHECK(b == CCS_TRUE, "valid", "%s: configuration refused by its space", what);
}
static void verify(Rng &r, World &w, const T &t) {
	auto h = list_of(r, [&](size_t n, void **a, size_t *m) { return t.hist(n, a, m); }, "history");
	check_history(w.hist, h, "history");
	auto o = list_of(r, [&](size_t n, void **a, size_t *m) { return t.opt(n, a, m); }, "optima");
	check_optima(w.os, w.hist, o, "optima");
}
static Told make(Rng &r, World &w, int style) {
	Told t; t.feat = 0; t.res = r.chance(1, 6) ? r.pick({1, -1, -3, 2, 1000}) : 0;
	t.v = w.os.rand_values(r);
	if (r.chance(1, 5)) { size_t j = r.below(t.v.size()); t.v[j] = nudge(r, t.v[j]); }
	if (!w.pool.empty() && r.chance(1, 3)) { t.v = r.pick(w.pool).v; if (r.chance(2, 3)) { size_t j = r.below(t.v.size()); t.v[j] = w.os.ps[j].in(r); } }
	if (style == 1) for (size_t j = 0; j < t.v.size(); j++) { // trade-off curve: many incomparable evaluations
		const PModel &p = w.os.ps[j]; if (p.type != CCS_PARAMETER_TYPE_NUMERICAL) continue;
		if (p.nt == CCS_NUMERIC_TYPE_INT) t.v[j] = ccs_int(p.lower.i + (int64_t)r.below(std::min<uint64_t>(p.upper.i - p.lower.i, 8))); else t.v[j] = ccs_float((double)r.range(0, 12));
	}
	if (style == 2) for (size_t j = 0; j < t.v.size(); j++) if (r.chance(1, 10)) t.v[j] = gen_scalar(r); // ill-typed result values
	if (w.tree) {
		ccs_tree_configuration_t c; OK(ccs_tree_space_sample(w.ts, &c)); w.bag.own(c); t.conf = (ccs_object_t)c;
		ccs_tree_evaluation_t e; OK(ccs_create_tree_evaluation(w.os.os, c, (ccs_evaluation_result_t)t.res, t.v.size(), t.v.data(), &e)); t.o = w.bag.own(e);
	} else {
		ccs_configuration_t c; OK(ccs_configuration_space_get_default_configuration(w.cs.cs, &c));
		if (r.below(2)) { ccs_configuration_t c2; if (!ccs_configuration_space_sample(w.cs.cs, &c2)) { ccs_release_object(c); c = c2; } else ccs_clear_thread_error(); }
		w.bag.own(c); t.conf = (ccs_object_t)c;
		ccs_evaluation_t e; OK(ccs_create_evaluation(w.os.os, c, (ccs_evaluation_result_t)t.res, t.v.size(), t.v.data(), &e)); t.o = w.bag.own(e);
	}
	w.pool.push_back(t); return t;
}
#define SAME(getter, obj, want, what) do { decltype(want) x_ = NULL; OK(getter(obj, &x_)); CHECK(x_ == (want), "made-of", "%s is not the one the tuner was created with", what); } while (0)
void run_case(Rng &r, uint64_t idx) {
	ud_reset(); World w; w.tree = r.chance(1, 3);
	int style = r.below(4);
	w.os = gen_os(r, "os", w.bag, style != 2, r.chance(1, 5) ? 5 : 3);
	if (r.chance(1, 25)) { OK(ccs_create_objective_space("none", &w.os.os)); w.bag.own(w.os.os); OK(ccs_objective_space_add_parameter(w.os.os, w.os.ps[0].p)); w.os.ps.resize(1); w.os.obj.clear(); w.os.dir.clear(); }
	if (w.tree) {
		if (r.below(2)) { TP t = gen_tree(r, w.bag, 3, 3, false); OK(ccs_create_static_tree_space("ts", t->t, &w.ts)); w.bag.own(w.ts); }
		else { UD *u = ud_new(3, r.next()); ccs_tree_t root; OK(ccs_create_tree(2, ccs_int(0), &root)); w.bag.own(root); OK(ccs_create_dynamic_tree_space("dts", root, (ccs_dynamic_tree_space_vector_t *)ud_vector(3, 7), u, &w.ts)); w.bag.own(w.ts); }
		ccs_tree_tuner_t t; TName nm(r); OK(ccs_create_random_tree_tuner(nm.c(), w.ts, w.os.os, &t)); w.bag.own(t); nm.is(ccs_tree_tuner_get_name, t, "tree tuner"); SAME(ccs_tree_tuner_get_tree_space, t, w.ts, "tree space"); SAME(ccs_tree_tuner_get_objective_space, t, w.os.os, "objective space"); ccs_tree_tuner_type_t ty; OK(ccs_tree_tuner_get_type(t, &ty)); CHECK(ty == CCS_TREE_TUNER_TYPE_RANDOM, "type", "wrong tuner type"); w.t = T{true, t};
	} else {
		CSOpt co; co.maxp = 4; co.dists = false; co.safe = true; w.cs = gen_cs(r, "cs", w.bag, co);
		ccs_tuner_t t; TName nm(r); OK(ccs_create_random_tuner(nm.c(), w.cs.cs, w.os.os, &t)); w.bag.own(t); nm.is(ccs_tuner_get_name, t, "tuner"); SAME(ccs_tuner_get_configuration_space, t, w.cs.cs, "configuration space"); SAME(ccs_tuner_get_objective_space, t, w.os.os, "objective space"); ccs_tuner_type_t ty; OK(ccs_tuner_get_type(t, &ty)); CHECK(ty == CCS_TUNER_TYPE_RANDOM, "type", "wrong tuner type"); w.t = T{false, t};
	}
	int steps = r.chance(1, 8) ? r.range(30, 80) : r.range(3, 15); uint64_t h = idx;
	verify(r, w, w.t);
	for (int s = 0; s < steps; s++) {
		int op = r.below(10);
		if (op < 6) { // tell a batch
			int n = r.chance(1, 10) ? 0 : r.chance(1, 10) ? r.range(10, 40) : r.range(1, 4);
			std::vector<void *> a; std::vector<Told> add;
			for (int i = 0; i < n; i++) { Told t = !w.pool.empty() && r.chance(1, 10) ? r.pick(w.pool) : make(r, w, style); a.push_back(t.o); add.push_back(t); h = mix64(h, t.res * 31 + i); for (auto &d : t.v) h = mix64(h, d.value.i); }
			OK(w.t.tell(n, n ? a.data() : NULL));
			for (auto &t : add) { if (!t.res) { w.hist.push_back(t); ev("told.success"); } else ev("told.failed"); }
			verify(r, w, w.t);
		} else if (op == 6) { // a batch with an invalid entry is refused as a whole
			int n = r.range(1, 4); std::vector<void *> a; for (int i = 0; i < n; i++) a.push_back(make(r, w, style).o);
			a[r.below(n)] = r.below(2) ? NULL : (void *)w.os.os;
			REFUSED(CCS_RESULT_ERROR_INVALID_OBJECT, w.t.tell(n, a.data())); ev("tell.refused");
			verify(r, w, w.t);
		} else if (op == 7) { // ask
			size_t n = 77; OK(w.t.ask(0, NULL, &n)); CHECK(n >= 1, "ask-count", "tuner can propose %zu configurations", n);
			size_t k = r.range(1, 5); std::vector<void *> a(k + 1, (void *)8); size_t got = 77;
			ccs_result_t res = w.t.ask(k, a.data(), &got);
			if (res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && !w.tree && !w.cs.forb.empty()) { ccs_clear_thread_error(); for (size_t i = 0; i < k; i++) if (a[i] && a[i] != (void *)8) ccs_release_object((ccs_object_t)a[i]); ev("ask.unsuccessful"); continue; }
			if (res) fail_call(res, CCS_RESULT_SUCCESS, "ask", __LINE__);
			CHECK(got <= k && a[k] == (void *)8, "ask-number", "asked %zu, got %zu", k, got);
			for (size_t i = 0; i < got; i++) { conf_valid(w, a[i], "ask"); CHECK(refcount((ccs_object_t)a[i]) == 1, "ask-ownership", "asked configuration has reference count %d", refcount((ccs_object_t)a[i])); ccs_release_object((ccs_object_t)a[i]); ev("asked"); }
		} else if (op == 8) { // suggest
			auto o = list_of(r, [&](size_t n, void **a, size_t *m) { return w.t.opt(n, a, m); }, "optima");
			void *c = (void *)8; 
			ccs_result_t res = w.t.suggest(&c);
			if (o.empty() && res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && !w.tree && !w.cs.forb.empty()) { ccs_clear_thread_error(); continue; }
			if (res) fail_call(res, CCS_RESULT_SUCCESS, "suggest", __LINE__);
			if (!o.empty()) {
				bool f = false; for (void *x : o) for (auto &t : w.hist) if (t.o == x && (void *)t.conf == c) f = true;
				CHECK(f, "suggest-optimal", "suggestion is not the configuration of an optimum"); ev("suggest.optimal");
			} else { conf_valid(w, c, "suggest"); ev("suggest.random"); }
			ccs_release_object((ccs_object_t)c);
		} else { // what the caller does with its own references does not matter; listings are borrowed
			verify(r, w, w.t); ev("reverified");
		}
	}
	sig(h); desc(sfmt("%s tuner, %zu told successfully, %zu objectives", w.tree ? "tree" : "plain", w.hist.size(), w.os.obj.size()));
	// the tuner keeps the evaluations alive: drop the caller's references first
	if (r.below(2)) {
		ccs_retain_object((ccs_object_t)w.t.t);
		std::vector<ccs_object_t> v; v.swap(w.bag.v);
		std::set<void *> pool; for (auto &t : w.pool) pool.insert(t.o);
		for (auto o : v) if (pool.count(o)) ccs_release_object(o); else w.bag.v.push_back(o);
		w.bag.own((ccs_object_t)w.t.t);
		verify(r, w, w.t); ev("caller.dropped");
	}
}
