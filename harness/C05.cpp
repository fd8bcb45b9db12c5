// C05: sampled configurations are always valid members of their space.
#include "gen.hpp"
const char *PROP = "C05";
uint64_t num_cases(bool th) { return th ? 200000 : 40000; }
bool ledger_check() { return true; }
void prop_init() {}

struct Slot { std::shared_ptr<DModel> d; size_t dim = 0; bool custom = false; };
struct Space { CSModel m; std::vector<Slot> slot; std::vector<std::shared_ptr<DModel>> pool; ccs_rng_t rng = NULL; };

static std::string vstr(const DV &v) { std::string s = "["; for (auto &d : v) s += dtos(d) + ","; return s + "]"; }
static void check_conf(const Space &s, ccs_configuration_t c) {
	const CSModel &m = s.m;
	ccs_object_type_t t; OK(ccs_object_get_type((ccs_object_t)c, &t)); CHECK(t == CCS_OBJECT_TYPE_CONFIGURATION, "kind", "sample is not a configuration");
	CHECK(refcount((ccs_object_t)c) == 1, "ownership", "sampled configuration has reference count %d", refcount((ccs_object_t)c));
	ccs_configuration_space_t sp; OK(ccs_configuration_get_configuration_space(c, &sp)); CHECK(sp == m.cs, "space", "sample belongs to another space");
	size_t n = 0; DV v(m.ps.size() + 1); OK(ccs_configuration_get_values(c, m.ps.size(), v.data(), &n)); CHECK(n == m.ps.size(), "size", "sample has %zu values, expected %zu", n, m.ps.size());
	v.resize(n);
	ccs_bool_t b = 9; OK(ccs_configuration_check(c, &b));
	CHECK(b == CCS_TRUE, "own-check", "sample %s refused by the space's own check; space %s", vstr(v).c_str(), m.str().c_str());
	b = 9; OK(ccs_configuration_space_check_configuration_values(m.cs, n, v.data(), &b)); CHECK(b == CCS_TRUE, "own-check-values", "sample %s refused by the space's own value check", vstr(v).c_str());
	eval_nan = false; int w = m.verdict(v);
	if (!eval_nan) CHECK(w == 1, "definition", "sample %s is not valid by the definition (%d); space %s", vstr(v).c_str(), w, m.str().c_str());
	for (size_t i = 0; i < n; i++) {
		if (v[i].type == CCS_DATA_TYPE_INACTIVE) { ev("value.inactive"); continue; }
		ev("value.active");
		const PModel &p = m.ps[i];
		if (s.slot[i].custom) { // drawn from the distribution attached to this parameter, at its own dimension
			ccs_numeric_t x; if (p.listlike()) x.i = p.index_of(v[i]); else if (p.nt == CCS_NUMERIC_TYPE_INT) x.i = v[i].value.i; else x.f = v[i].value.f;
			CHECK(s.slot[i].d->ongrid(s.slot[i].dim, x), "distribution", "value %s of %s cannot come from its distribution %s dimension %zu", dtos(v[i]).c_str(), p.str().c_str(), s.slot[i].d->str().c_str(), s.slot[i].dim);
			ev("value.from-distribution");
		}
	}
	ev("sample.checked");
}
static bool failure_allowed(const Space &s, ccs_result_t res) {
	bool expr = !s.m.forb.empty(); for (auto &c : s.m.cond) if (c) expr = true;
	if (res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL) {
		if (!s.m.forb.empty()) return true;
		for (auto &x : s.slot) if (x.custom) return true; // a distribution may miss the parameter's domain
		return false;
	}
	return expr && (res == CCS_RESULT_ERROR_INVALID_VALUE || res == CCS_RESULT_ERROR_INVALID_EXPRESSION || res == CCS_RESULT_ERROR_UNSUPPORTED_OPERATION); // an unevaluable expression
}
// A sampling makes many attempts (100 per configuration), so it cannot fail on a space half of whose raw draws are valid.
static void may_give_up(const Space &s, size_t n, size_t got) {
	for (auto &x : s.slot) if (x.custom) return;
	std::vector<ccs_distribution_t> d; for (auto &p : s.m.ps) { ccs_distribution_t x; OK(ccs_parameter_get_default_distribution(p.p, &x)); d.push_back(x); }
	size_t ok = 0, tot = 300;
	for (size_t k = 0; k < tot; k++) {
		DV v(s.m.ps.size()); bool good = true;
		for (size_t i = 0; i < v.size(); i++) if (ccs_parameter_sample(s.m.ps[i].p, d[i], s.rng, &v[i])) { ccs_clear_thread_error(); good = false; break; }
		eval_nan = false; if (good && s.m.resolve(v) && s.m.verdict(v) == 1 && !eval_nan) ok++;
	}
	for (auto x : d) ccs_release_object(x);
	CHECK(ok * 2 < tot, "gave-up", "sampling %zu configurations gave up after %zu, yet %zu draws of %zu are valid; space %s", n, got, ok, tot, s.m.str().c_str()); ev("gave-up.checked");
}
static void sample_one(const Space &s) {
	ccs_configuration_t c = (ccs_configuration_t)8;
	ccs_result_t res = ccs_configuration_space_sample(s.m.cs, &c);
	if (res) {
		ccs_clear_thread_error();
		CHECK(failure_allowed(s, res), "sample-error", "sampling failed with %s; space %s", rname(res), s.m.str().c_str());
		CHECK(c == (ccs_configuration_t)8 || !c, "failed-output", "failed sampling still returned something");
		if (res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL) may_give_up(s, 1, 0);
		ev(res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL ? "single.unsuccessful" : "single.error"); return;
	}
	check_conf(s, c); ccs_release_object(c); ev("single.ok");
}
static void sample_many(Rng &r, const Space &s) {
	size_t n = r.chance(1, 10) ? 0 : r.chance(1, 40) ? r.range(90, 300) : r.chance(1, 8) ? r.range(20, 90) : r.range(1, 8);
	std::vector<ccs_configuration_t> a(n + 2, (ccs_configuration_t)8);
	ccs_result_t res = ccs_configuration_space_samples(s.m.cs, n, n ? a.data() + 1 : NULL);
	CHECK(a[0] == (ccs_configuration_t)8 && a[n + 1] == (ccs_configuration_t)8, "overrun", "batch sampling wrote outside its array");
	if (res) { ccs_clear_thread_error(); CHECK(failure_allowed(s, res), "samples-error", "batch sampling failed with %s; space %s", rname(res), s.m.str().c_str()); }
	size_t got = 0; bool ended = false;
	for (size_t i = 1; i <= n; i++) {
		if (!a[i]) { ended = true; continue; }
		CHECK(a[i] != (ccs_configuration_t)8, "unset", "batch entry %zu left unset", i - 1);
		CHECK(!ended, "contiguous", "configuration after a null entry");
		for (size_t j = 1; j < i; j++) CHECK(a[j] != a[i], "aliased", "same configuration returned twice");
		check_conf(s, a[i]); got++;
	}
	if (!res) { CHECK(got == n, "incomplete", "successful batch of %zu holds %zu", n, got); ev("batch.ok"); }
	else if (res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL) { CHECK(got < n, "full-but-failed", "failed batch is full"); ev(got ? "batch.partial" : "batch.none"); }
	else ev("batch.error");
	for (size_t i = 1; i <= n; i++) if (a[i]) ccs_release_object(a[i]);
	if (res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL) may_give_up(s, n, got);
	bool custom = false; for (auto &x : s.slot) if (x.custom) custom = true; // whose draws may miss the domain for good
	if (res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && n >= 60 && !custom) { // a batch may make as many attempts per configuration as a single sampling: it cannot give up where as many single samplings all succeed (odds below 1e-9)
		size_t ok = 0; while (ok < n) { ccs_configuration_t c = NULL; if (ccs_configuration_space_sample(s.m.cs, &c)) { ccs_clear_thread_error(); break; } ccs_release_object(c); ok++; }
		CHECK(ok < n, "gave-up", "a batch of %zu held %zu configurations, yet %zu single samplings all succeed; space %s", n, got, ok, s.m.str().c_str()); ev("batch.gave-up-checked");
	}
}
static void set_default(Rng &r, Space &s, size_t i) { s.slot[i] = Slot(); }
static void attach(Rng &r, Space &s, Bag &bag) {
	size_t n = s.m.ps.size();
	size_t k = r.range(1, std::min<size_t>(n, 4));
	std::vector<size_t> idx; for (size_t i = 0; i < n; i++) idx.push_back(i);
	r.shuffle(idx); idx.resize(k);
	auto mk = [&]() {
		auto d = std::make_shared<DModel>();
		if (k == 1) { *d = gen_dist_for(r, s.m.ps[idx[0]]); return d; }
		d->type = CCS_DISTRIBUTION_TYPE_MULTIVARIATE; d->dim = 0;
		std::vector<ccs_distribution_t> ds;
		for (size_t i = 0; i < k; i++) { DModel x = gen_dist_for(r, s.m.ps[idx[i]]); d->dim++; d->types.push_back(x.types[0]); d->bounds.push_back(x.bounds[0]); ds.push_back(x.d); d->sub.push_back(x); }
		OK(ccs_create_multivariate_distribution(k, ds.data(), &d->d));
		return d;
	};
	std::shared_ptr<DModel> d = mk();
	if (r.chance(1, 3)) { // mixture of two
		auto e = mk(), x = std::make_shared<DModel>();
		x->type = CCS_DISTRIBUTION_TYPE_MIXTURE; x->dim = k; x->types = d->types; x->weights = {1.0 + r.below(3), 1.0};
		ccs_distribution_t ds[2] = {d->d, e->d};
		OK(ccs_create_mixture_distribution(2, ds, x->weights.data(), &x->d));
		x->bounds.resize(k); OK(ccs_distribution_get_bounds(x->d, x->bounds.data()));
		x->sub = {*d, *e}; d = x;
	}
	bag.own(d->d); for (auto &q : d->sub) { bag.own(q.d); for (auto &z : q.sub) { bag.own(z.d); for (auto &y : z.sub) { bag.own(y.d); for (auto &w : y.sub) bag.own(w.d); } } }
	std::vector<size_t> arg = idx;
	if (r.chance(1, 8)) { // refused: out of range or repeated index
		if (k > 1 && r.below(2)) arg[k - 1] = arg[0]; else arg[r.below(k)] = n + r.below(3);
		REFUSED(CCS_RESULT_ERROR_INVALID_VALUE, ccs_configuration_space_set_distribution(s.m.cs, d->d, arg.data())); ev("attach.refused"); return;
	}
	OK(ccs_configuration_space_set_distribution(s.m.cs, d->d, arg.data()));
	// parameters sharing a replaced distribution fall back to their default one
	std::set<DModel *> gone; for (size_t i : idx) if (s.slot[i].custom) gone.insert(s.slot[i].d.get());
	for (size_t i = 0; i < n; i++) if (s.slot[i].custom && gone.count(s.slot[i].d.get())) set_default(r, s, i);
	for (size_t i = 0; i < k; i++) { s.slot[idx[i]].d = d; s.slot[idx[i]].dim = i; s.slot[idx[i]].custom = true; }
	ev(k == 1 ? "attach.single" : "attach.joint");
	note("attach dim %zu %s", k, d->str().c_str());
}
static void check_attached(const Space &s) {
	for (size_t i = 0; i < s.slot.size(); i++) {
		ccs_distribution_t d = NULL; size_t k = 77; OK(ccs_configuration_space_get_parameter_distribution(s.m.cs, i, &d, &k));
		if (s.slot[i].custom) CHECK(d == s.slot[i].d->d && k == s.slot[i].dim, "attached", "parameter %zu reports another distribution or dimension (%zu, expected %zu)", i, k, s.slot[i].dim);
		else CHECK(k == 0, "attached-default", "default distribution with dimension %zu", k);
	}
	ev("attached.checked");
}
void run_case(Rng &r, uint64_t idx) {
	Bag bag; Space s;
	CSOpt o; o.maxp = r.chance(1, 10) ? 20 : 7; o.dists = false; o.po.maxvals = 4; o.po.extreme = r.chance(1, 8); o.forb = r.chance(2, 3);
	s.m = gen_cs(r, "cs", bag, o);
	s.slot.resize(s.m.ps.size());
	size_t n = s.m.ps.size();
	int mode = r.below(4);
	if (mode == 0) // hard to satisfy: most values of several parameters are forbidden
		for (size_t i = 0; i < n; i++) if (s.m.ps[i].listlike() && s.m.ps[i].values.size() > 1 && r.chance(2, 3)) {
			EP e = e_op(CCS_EXPRESSION_TYPE_NOT_EQUAL, {e_var(i), e_lit(s.m.ps[i].def)});
			ccs_expression_t x = bag.own(build_expr(&r, *e, s.m.ps));
			OK(ccs_configuration_space_add_forbidden_clause(s.m.cs, x)); s.m.forb.push_back(e); s.m.forb_o.push_back(x);
		}
	if (mode == 1) for (size_t i = 0; i < n; i++) if (s.m.ps[i].type == CCS_PARAMETER_TYPE_NUMERICAL && r.chance(1, 3)) { // practically impossible except for the default
		EP e = e_op(CCS_EXPRESSION_TYPE_NOT_EQUAL, {e_var(i), e_lit(s.m.ps[i].def)});
		ccs_expression_t x = bag.own(build_expr(&r, *e, s.m.ps));
		OK(ccs_configuration_space_add_forbidden_clause(s.m.cs, x)); s.m.forb.push_back(e); s.m.forb_o.push_back(x);
	}
	ccs_rng_t rng; OK(ccs_create_rng(&rng)); bag.own(rng); OK(ccs_rng_set_seed(rng, r.next() & 0xffffffff)); OK(ccs_configuration_space_set_rng(s.m.cs, rng)); OK(ccs_create_rng(&s.rng)); bag.own(s.rng); OK(ccs_rng_set_seed(s.rng, r.next() & 0xffffffff));
	int steps = r.range(3, 7);
	for (int k = 0; k < steps; k++) {
		switch (r.below(7)) {
		case 0: attach(r, s, bag); check_attached(s); break;
		case 1: case 2: for (int i = 0; i < 5; i++) sample_one(s); break;
		case 3: case 4: sample_many(r, s); break;
		case 5: { // a refused condition leaves sampling as it was
			size_t i = r.below(n); EP e = e_op(CCS_EXPRESSION_TYPE_EQUAL, {e_var(i), e_lit(s.m.ps[i].def)});
			if (s.m.cond[i]) break;
			ccs_expression_t x = bag.own(build_expr(&r, *e, s.m.ps));
			REFUSED(CCS_RESULT_ERROR_INVALID_GRAPH, ccs_configuration_space_set_condition(s.m.cs, i, x)); ev("cycle.refused"); break; }
		default: { // extend the space
			PModel p = gen_param(r, "p" + std::to_string(s.m.ps.size()), o.po); bag.own(p.p);
			OK(ccs_configuration_space_add_parameter(s.m.cs, p.p, NULL));
			s.m.ps.push_back(p); s.m.cond.push_back(nullptr); s.m.cond_o.push_back(NULL); s.slot.push_back(Slot()); n++; 
			if (r.chance(1, 2) && n > 1) {
				std::vector<int> vars; for (size_t i = 0; i + 1 < n; i++) vars.push_back(i);
				EP e = gen_bool(r, s.m.ps, vars, 1); bool bad = false;
				for (int t = 0; t < 12 && !bad; t++) { DV v; for (auto &q : s.m.ps) v.push_back(q.in(r)); if (t) s.m.resolve(v); if (!eval_ref(*e, s.m.ps, v).ok()) bad = true; }
				if (!bad) { ccs_expression_t x = bag.own(build_expr(&r, *e, s.m.ps)); OK(ccs_configuration_space_set_condition(s.m.cs, n - 1, x)); s.m.cond[n - 1] = e; s.m.cond_o[n - 1] = x; }
			}
			ev("extended"); }
		}
	}
	for (int i = 0; i < 3; i++) sample_one(s);
	sample_many(r, s); check_attached(s);
	sig(hash_str(s.m.str())); desc(s.m.str());
}
