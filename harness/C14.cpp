// C14: tree spaces only produce and accept positions of their tree.
#include "zoo.hpp"
const char *PROP = "C14";
uint64_t num_cases(bool th) { return th ? 288000 : 48000; }
bool ledger_check() { return true; }
void prop_init() {}

typedef std::vector<size_t> Pos;
static double wsum(const TModel &t) { double s = t.weight; for (auto &c : t.ch) s += c ? wsum(*c) * c->bias : 1.0; return s; }
static std::string pstr(const Pos &p) { std::string s = "["; for (size_t x : p) s += sfmt("%zu.", x); return s + "]"; }
static std::string tstr(const TModel &t) { std::string s = sfmt("(%zu %s w%g b%g", t.arity, dtos(t.value).c_str(), t.weight, t.bias); for (auto &c : t.ch) s += c ? " " + tstr(*c) : " -"; return s + ")"; }
struct World {
	Bag bag; TP tree; ccs_tree_space_t ts = NULL; UD *ud = nullptr; Rng *gr = nullptr; int maxdepth = 4;
	std::map<ccs_tree_t, TModel *> by; std::vector<std::pair<TModel *, size_t>> asked; bool hostile = false;
	std::vector<std::pair<Pos, ccs_tree_configuration_t>> confs; size_t requests = 0;
	void index(const TP &t) { by[t->t] = t.get(); for (auto &c : t->ch) if (c) index(c); }
};
// dynamic generation: the model grows with the tree
static ccs_result_t gen_child(World &w, ccs_tree_t parent, size_t idx, ccs_tree_t *out) {
	auto it = w.by.find(parent);
	if (it == w.by.end()) { w.ud->problems.push_back("child of an unknown node requested"); return CCS_RESULT_ERROR_INVALID_TREE; }
	TModel *p = it->second;
	if (idx >= p->arity) { w.ud->problems.push_back("child out of bounds requested"); return CCS_RESULT_ERROR_OUT_OF_BOUNDS; }
	if (p->ch[idx]) { w.ud->problems.push_back("child requested again"); return CCS_RESULT_ERROR_INVALID_TREE; }
	w.requests++; w.asked.push_back({p, idx});
	if (w.hostile) { *out = NULL; return CCS_RESULT_SUCCESS; }
	size_t depth = tree_path(p).size() + 1; Rng &r = *w.gr;
	TP c = std::make_shared<TModel>(); c->arity = (int)depth >= w.maxdepth ? 0 : r.range(0, 3); c->value = gen_scalar(r); c->ch.resize(c->arity);
	if (ccs_create_tree(c->arity, c->value, &c->t)) return CCS_RESULT_ERROR_OUT_OF_MEMORY;
	if (r.chance(1, 3)) { c->weight = r.pick({0.0, 0.5, 3.0}); ccs_tree_set_weight(c->t, c->weight); }
	if (r.chance(1, 3)) { c->bias = r.pick({0.0, 0.5, 4.0}); ccs_tree_set_bias(c->t, c->bias); }
	p->ch[idx] = c; c->parent = p; c->index = idx; w.by[c->t] = c.get(); *out = c->t;
	return CCS_RESULT_SUCCESS;
}
static Pos rand_pos(Rng &r, const TModel *t) {
	Pos p; size_t len = r.below(6);
	for (size_t i = 0; i < len; i++) {
		size_t a = t ? t->arity : 2, s = a && !r.chance(1, 10) ? r.below(a) : r.pick<size_t>({a, a + 1, SIZE_MAX, 0});
		p.push_back(s); t = t && s < t->arity ? t->ch[s].get() : nullptr;
		if (!t && r.chance(1, 3)) break;
	}
	return p;
}
// how far a position can be walked on the present model
struct Walk { const TModel *at; size_t steps; bool oob; };
static Walk walk(const TModel *t, const Pos &p) {
	size_t i = 0;
	for (; i < p.size(); i++) { if (p[i] >= t->arity) return {t, i, true}; if (!t->ch[p[i]]) return {t, i, false}; t = t->ch[p[i]].get(); }
	return {t, i, false};
}
static void problems(World &w) { if (w.ud) CHECK(w.ud->problems.empty(), "request", "%s", w.ud->problems[0].c_str()); }
static void expect_requests(World &w, const Walk &before, const Pos &p, const char *what) {
	// exactly the missing steps were requested, in order
	problems(w);
	const TModel *t = before.at; size_t i = before.steps, k = 0;
	while (i < p.size() && p[i] < t->arity) { CHECK(k < w.asked.size() && w.asked[k].first == t && w.asked[k].second == p[i], "requests", "%s: missing child %zu of step %zu not requested in order", what, p[i], i); t = t->ch[p[i]].get(); i++; k++; }
	CHECK(k == w.asked.size(), "requests-extra", "%s: %zu children requested, %zu needed", what, w.asked.size(), k);
	if (k) ev("requested"); else ev("reused");
}
static void check_pos(Rng &r, World &w, const Pos &p) {
	TModel *T = w.tree.get(); ccs_tree_configuration_t conf = NULL; bool dyn = w.ud;
	int order[6] = {0, 1, 2, 3, 4, 5}; for (int i = 5; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
	OK(ccs_create_tree_configuration(w.ts, p.size(), p.data(), &conf)); w.bag.own(conf);
	for (int q : order) {
		Walk b = walk(T, p); bool missing = b.steps < p.size() && !b.oob; w.asked.clear();
		ccs_tree_t node = NULL; ccs_bool_t v = 9; size_t k = p.size() + 1 + r.below(3); DV vals(k + 1, ccs_int(-77)); ccs_result_t e = CCS_RESULT_SUCCESS;
		static const char *nm[] = {"check_position", "get_node_at_position", "get_values_at_position", "configuration_check", "configuration_get_node", "configuration_get_values"};
		switch (q) {
		case 0: e = ccs_tree_space_check_position(w.ts, p.size(), p.data(), &v); break;
		case 1: e = ccs_tree_space_get_node_at_position(w.ts, p.size(), p.data(), &node); break;
		case 2: e = ccs_tree_space_get_values_at_position(w.ts, p.size(), p.data(), k, vals.data()); break;
		case 3: e = r.below(2) ? ccs_tree_configuration_check(conf, &v) : ccs_tree_space_check_configuration(w.ts, conf, &v); break;
		case 4: e = ccs_tree_configuration_get_node(conf, &node); break;
		case 5: e = ccs_tree_configuration_get_values(conf, k, vals.data(), NULL); break;
		}
		if (e) ccs_clear_thread_error();
		if (dyn) expect_requests(w, b, p, nm[q]);
		Walk a = walk(T, p); bool whole = a.steps == p.size();
		if (q == 0 || q == 3) {
			bool want = dyn ? whole : whole || (!a.oob && a.steps + 1 == p.size());
			CHECK(!e && v == (want ? CCS_TRUE : CCS_FALSE), "verdict", "%s of %s gave %s/%d, expected %d in %s", nm[q], pstr(p).c_str(), rname(e), v, want, tstr(*T).c_str());
			ev(want ? (dyn ? "dynamic.valid" : "static.valid") : (dyn ? "dynamic.invalid" : "static.invalid"));
			if (!dyn && want && !whole) ev("static.declared-only");
		} else if (!whole) {
			ccs_result_t want = a.oob ? CCS_RESULT_ERROR_OUT_OF_BOUNDS : CCS_RESULT_ERROR_INVALID_TREE;
			CHECK(e == want, "refused", "%s of %s gave %s, expected %s", nm[q], pstr(p).c_str(), rname(e), rname(want)); ev("refused");
		} else {
			CHECK(!e, "accepted", "%s of %s gave %s", nm[q], pstr(p).c_str(), rname(e));
			if (q == 1 || q == 4) CHECK(node == a.at->t, "node", "%s of %s is not the node reached by walking", nm[q], pstr(p).c_str());
			else {
				auto pv = tree_path_values(a.at); CHECK(pv.size() == p.size() + 1, "model", "model"); // root of the space is a root
				for (size_t i = 0; i < k; i++) CHECK(i < pv.size() ? veq(vals[i], pv[i]) : vals[i].type == CCS_DATA_TYPE_NONE, "values", "%s of %s: value %zu is %s", nm[q], pstr(p).c_str(), i, dtos(vals[i]).c_str());
			}
			CHECK(vals[k].value.i == -77, "overrun", "query wrote beyond its buffer");
			ev("node-and-values");
		}
		(void)missing;
	}
	size_t n = 99; OK(ccs_tree_configuration_get_position(conf, 0, NULL, &n)); CHECK(n == p.size(), "position-size", "configuration holds %zu steps, created with %zu", n, p.size());
	Pos g(n + 2, 4242); OK(ccs_tree_configuration_get_position(conf, n + 1, g.data(), NULL)); for (size_t i = 0; i < n; i++) CHECK(g[i] == p[i], "position", "step %zu is %zu, created with %zu", i, g[i], p[i]); CHECK(g[n + 1] == 4242, "overrun", "position query wrote beyond its buffer");
	ccs_tree_space_t s; OK(ccs_tree_configuration_get_tree_space(conf, &s)); CHECK(s == w.ts, "space", "wrong tree space");
	w.confs.push_back({p, conf});
}
static Pos position_of(ccs_tree_configuration_t c) { size_t n = 0; OK(ccs_tree_configuration_get_position(c, 0, NULL, &n)); Pos p(n); if (n) OK(ccs_tree_configuration_get_position(c, n, p.data(), NULL)); return p; }
static void probs(const TModel *t, const Pos &p, double pr, std::map<Pos, double> &out) {
	double s = wsum(*t); if (s <= 0) return;
	if (t->weight > 0) out[p] += pr * t->weight / s;
	for (size_t i = 0; i < t->arity; i++) { Pos q = p; q.push_back(i); double w = t->ch[i] ? wsum(*t->ch[i]) * t->ch[i]->bias : 1.0; if (w <= 0) continue; if (t->ch[i]) probs(t->ch[i].get(), q, pr * w / s, out); else out[q] += pr * w / s; }
}
static void check_samples(Rng &r, World &w, size_t N, bool freq) {
	double s = wsum(*w.tree); std::vector<ccs_tree_configuration_t> c(N + 1, (ccs_tree_configuration_t)NULL);
	if (s == 0) { REFUSED(CCS_RESULT_ERROR_INVALID_DISTRIBUTION, ccs_tree_space_sample(w.ts, &c[0])); REFUSED(CCS_RESULT_ERROR_INVALID_DISTRIBUTION, ccs_tree_space_samples(w.ts, N, c.data())); CHECK(!c[0], "sample-none", "failed sampling handed out a configuration"); ev("sample.zero"); return; }
	std::map<Pos, double> pr; std::map<Pos, size_t> cnt; probs(w.tree.get(), {}, 1, pr);
	if (r.below(2)) OK(ccs_tree_space_samples(w.ts, N, c.data())); else for (size_t i = 0; i < N; i++) OK(ccs_tree_space_sample(w.ts, &c[i]));
	CHECK(!c[N], "sample-overrun", "sampling wrote beyond its buffer");
	for (size_t i = 0; i < N; i++) { CHECK(c[i] != NULL, "sample-null", "sampling gave no configuration"); w.bag.own(c[i]); }
	for (size_t i = 0; i < N; i++) {
		Pos p = position_of(c[i]); ccs_tree_space_t ts; OK(ccs_tree_configuration_get_tree_space(c[i], &ts)); CHECK(ts == w.ts, "sample-space", "sample of another space");
		CHECK(pr.count(p), "sample-impossible", "position %s sampled, its probability is zero in %s", pstr(p).c_str(), tstr(*w.tree).c_str()); cnt[p]++;
	}
	if (freq) { for (auto &kv : pr) { double e = N * kv.second, sd = sqrt(e * (1 - kv.second)); CHECK(fabs(cnt[kv.first] - e) <= freq_tol(sd), "sample-frequency", "position %s sampled %zu times of %zu, expected %g in %s", pstr(kv.first).c_str(), cnt[kv.first], N, e, tstr(*w.tree).c_str()); } ev("frequency.tested"); }
	for (size_t i = 0; i < std::min<size_t>(N, 30); i++) { ccs_bool_t b = 9; OK(ccs_tree_configuration_check(c[i], &b)); CHECK(b == CCS_TRUE, "sample-invalid", "sampled configuration is not valid"); problems(w); ev("sample.checked"); if (w.confs.size() < 40) w.confs.push_back({position_of(c[i]), c[i]}); }
}
void run_case(Rng &r, uint64_t idx) {
	ud_reset(); World w; Rng gr(r.next()); w.gr = &gr; bool dyn = idx & 1;
	if (dyn && r.chance(2, 3)) { w.tree = std::make_shared<TModel>(); w.tree->arity = r.range(1, 4); w.tree->ch.resize(w.tree->arity); w.tree->value = gen_scalar(r); OK(ccs_create_tree(w.tree->arity, w.tree->value, &w.tree->t)); w.bag.own(w.tree->t); }
	else w.tree = gen_tree(r, w.bag, r.range(0, dyn ? 2 : 4), 3, true);
	w.index(w.tree);
	TName nm(r);
	if (dyn) {
		w.maxdepth = r.range(1, 5); w.ud = ud_new(3); w.ud->gen_child = [&](UD *, ccs_tree_t p, size_t i, ccs_tree_t *o) { return gen_child(w, p, i, o); };
		OK(ccs_create_dynamic_tree_space(nm.c(), w.tree->t, (ccs_dynamic_tree_space_vector_t *)ud_vector(3, 0), w.ud, &w.ts));
	} else OK(ccs_create_static_tree_space(nm.c(), w.tree->t, &w.ts));
	w.bag.own(w.ts); nm.is(ccs_tree_space_get_name, w.ts, "tree space");
	ccs_rng_t g = mk_rng(r, w.bag); OK(ccs_tree_space_set_rng(w.ts, g));
	ccs_tree_t rt = NULL; OK(ccs_tree_space_get_tree(w.ts, &rt)); CHECK(rt == w.tree->t, "tree", "the space's tree is not the one given");
	ccs_tree_space_type_t ty; OK(ccs_tree_space_get_type(w.ts, &ty)); CHECK(ty == (dyn ? CCS_TREE_SPACE_TYPE_DYNAMIC : CCS_TREE_SPACE_TYPE_STATIC), "type", "wrong space type");
	std::string d0 = tstr(*w.tree); int n = r.range(4, 14); uint64_t h = 0;
	for (int i = 0; i < n; i++) {
		int op = r.below(8); h = mix64(h, op);
		if (op < 4) { Pos p = r.chance(1, 4) && !w.confs.empty() ? r.pick(w.confs).first : rand_pos(r, w.tree.get()); h = mix64(h, hash_str(pstr(p))); check_pos(r, w, p); }
		else if (op == 4) check_samples(r, w, r.range(1, 12), false);
		else if (op == 5 && dyn) { // failing generator
			Pos p = rand_pos(r, w.tree.get()); Walk b = walk(w.tree.get(), p);
			if (b.oob || b.steps == p.size()) continue;
			ccs_result_t code = r.pick({CCS_RESULT_ERROR_EXTERNAL, CCS_RESULT_ERROR_INVALID_VALUE, CCS_RESULT_ERROR_INVALID_TREE}); bool host = r.chance(1, 4);
			if (host) w.hostile = true; else w.ud->fail["get_child"] = code;
			w.asked.clear(); ccs_bool_t v; ccs_tree_t t; ccs_result_t e = r.below(2) ? ccs_tree_space_check_position(w.ts, p.size(), p.data(), &v) : ccs_tree_space_get_node_at_position(w.ts, p.size(), p.data(), &t); ccs_clear_thread_error();
			CHECK(host ? e < 0 : e == code, "callback-error", "failing generator (%s) reported as %s", host ? "no child" : rname(code), rname(e)); ev("generator.failed");
			w.hostile = false; w.ud->fail.clear(); w.asked.clear(); check_pos(r, w, p);
		} else if (op == 6) { // the tree may still be extended or reweighted by its owner
			std::vector<TP> all; tree_nodes(w.tree, all); TP t = r.pick(all);
			if (r.below(2)) { double x = r.pick({0.0, 0.5, 2.0}); OK(ccs_tree_set_weight(t->t, x)); t->weight = x; ev("reweighted"); }
			else for (size_t k = 0; k < t->arity; k++) if (!t->ch[k]) { TP c = gen_tree(r, w.bag, r.below(3), 2, true); OK(ccs_tree_set_child(t->t, k, c->t)); t->ch[k] = c; c->parent = t.get(); c->index = k; w.index(c); ev("extended"); break; }
		} else if (op == 7 && r.chance(1, 3)) { // configuration of another space
			Bag b2; ZObj z = zoo(r, r.below(2) ? Z_STS : Z_DTS, b2); Pos p = rand_pos(r, NULL); ccs_tree_configuration_t c; ccs_tree_space_t o = (ccs_tree_space_t)z.o; OK(ccs_create_tree_configuration(o, p.size(), p.data(), &c)); b2.own(c);
			ccs_bool_t v; REFUSED(CCS_RESULT_ERROR_INVALID_CONFIGURATION, ccs_tree_space_check_configuration(w.ts, c, &v)); ev("foreign.refused");
			int k = 0; if (!w.confs.empty()) { OK(ccs_tree_configuration_cmp(w.confs[0].second, c, &k)); CHECK(k != 0, "foreign-equal", "configurations of different spaces compare equal"); }
		}
	}
	check_samples(r, w, idx % 8 < 2 ? 2000 : 20, idx % 8 < 2);
	// equality is equality of positions
	for (size_t k = 0; k < 30 && !w.confs.empty(); k++) {
		auto &a = r.pick(w.confs), &b = r.pick(w.confs); int c1 = 9, c2 = 9; OK(ccs_tree_configuration_cmp(a.second, b.second, &c1)); OK(ccs_tree_configuration_cmp(b.second, a.second, &c2)); bool eq = a.first == b.first;
		CHECK((c1 == 0) == eq && (c2 == 0) == eq, "equality", "configurations at %s and %s compare %d/%d", pstr(a.first).c_str(), pstr(b.first).c_str(), c1, c2);
		if (eq && a.second != b.second) { ccs_hash_t h1, h2; OK(ccs_tree_configuration_hash(a.second, &h1)); OK(ccs_tree_configuration_hash(b.second, &h2)); CHECK(h1 == h2, "hash", "equal configurations hash differently"); ev("equal.distinct"); } else if (!eq) ev("unequal");
	}
	desc((dyn ? "dynamic " : "static ") + d0 + " -> " + tstr(*w.tree)); sig(mix64(h, hash_str(d0 + tstr(*w.tree)))); if (dyn) ev("children.generated", w.requests);
}
