// C13: trees keep structure, positions and weights consistent.
#include "zoo.hpp"
const char *PROP = "C13";
uint64_t num_cases(bool th) { return th ? 300000 : 48000; }
bool ledger_check() { return true; }
void prop_init() {}

struct Forest {
	std::vector<TP> n;          // every living node
	std::set<TModel *> held;    // nodes the caller holds a reference on
	~Forest() { for (auto *m : held) ccs_release_object(m->t); }
};
static double wsum(const TModel &t) { double s = 0; for (auto &c : t.ch) s += c ? wsum(*c) * c->bias : 1.0; return s + t.weight; }
// whether the weights of a node and its ancestors can be turned into probabilities
static bool summable(const TModel *t) { for (; t; t = t->parent) { double s = wsum(*t); if (!std::isfinite(s) || (s > 0 && !std::isfinite(1.0 / s))) return false; } return true; }
static TModel *root(TModel *t) { while (t->parent) t = t->parent; return t; }
static std::string tstr(const TModel &t) {
	std::string s = sfmt("(%zu %s w%g b%g", t.arity, dtos(t.value).c_str(), t.weight, t.bias);
	for (auto &c : t.ch) s += c ? " " + tstr(*c) : " -";
	return s + ")";
}
static const TModel *walk(const TModel *t, const std::vector<size_t> &p, size_t &steps) { // steps = steps that could be made
	for (steps = 0; steps < p.size(); steps++) { if (p[steps] >= t->arity || !t->ch[p[steps]]) return nullptr; t = t->ch[p[steps]].get(); }
	return t;
}
static bool pos_valid(const TModel *t, const std::vector<size_t> &p) {
	for (size_t i = 0; i < p.size(); i++) { if (!t || p[i] >= t->arity) return false; t = t->ch[p[i]].get(); }
	return true;
}
static std::vector<size_t> rand_pos(Rng &r, const TModel *t) {
	std::vector<size_t> p; size_t len = r.below(6);
	for (size_t i = 0; i < len; i++) {
		size_t a = t ? t->arity : 2;
		size_t s = a && !r.chance(1, 8) ? r.below(a) : r.pick<size_t>({a, a + 1, SIZE_MAX, 0});
		p.push_back(s);
		t = t && s < t->arity ? t->ch[s].get() : nullptr;
		if (!t && r.chance(1, 2)) break;
	}
	return p;
}
// the caller drops its reference on a node
static void drop_model(Forest &f, const TP &t) { // t is a destroyed root
	for (auto &c : t->ch) if (c) { TP k = c; k->parent = nullptr; k->index = 0; c = nullptr; if (!f.held.count(k.get())) drop_model(f, k); }
	f.n.erase(std::find(f.n.begin(), f.n.end(), t));
}
static void check_node(Rng &r, const TModel &m) {
	ccs_tree_t t = m.t; size_t a = 99; OK(ccs_tree_get_arity(t, &a)); CHECK(a == m.arity, "arity", "arity is %zu, expected %zu", a, m.arity);
	ccs_datum_t v; OK(ccs_tree_get_value(t, &v)); CHECK(veq(v, m.value), "value", "value is %s, expected %s", dtos(v).c_str(), dtos(m.value).c_str());
	double w = -1, b = -1; OK(ccs_tree_get_weight(t, &w)); OK(ccs_tree_get_bias(t, &b)); CHECK(w == m.weight && b == m.bias, "weight-bias", "weight %g bias %g, expected %g %g", w, b, m.weight, m.bias);
	ccs_tree_t p = (ccs_tree_t)1; size_t ix = 999; OK(ccs_tree_get_parent(t, &p, r.below(4) ? &ix : NULL)); CHECK(p == (m.parent ? m.parent->t : NULL), "parent", "wrong parent"); if (m.parent && ix != 999) CHECK(ix == m.index, "index", "index is %zu, expected %zu", ix, m.index);
	size_t cn = 99; OK(ccs_tree_get_children(t, 0, NULL, &cn)); CHECK(cn == m.arity, "children-count", "%zu children announced, expected %zu", cn, m.arity);
	std::vector<ccs_tree_t> ch(m.arity + 3, (ccs_tree_t)7); size_t k = m.arity + r.below(3); if (k) OK(ccs_tree_get_children(t, k, ch.data(), r.below(2) ? &cn : NULL));
	for (size_t i = 0; i < k; i++) CHECK(ch[i] == (i < m.arity && m.ch[i] ? m.ch[i]->t : NULL), "children", "entry %zu of the children of %s", i, tstr(m).c_str());
	CHECK(ch[k] == (ccs_tree_t)7, "children-overrun", "children query wrote beyond its buffer");
	for (size_t i = 0; i < m.arity; i++) { ccs_tree_t c = (ccs_tree_t)7; OK(ccs_tree_get_child(t, i, &c)); CHECK(c == (m.ch[i] ? m.ch[i]->t : NULL), "child", "child %zu of %s", i, tstr(m).c_str()); }
	ccs_tree_t c; REFUSED(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_tree_get_child(t, m.arity + r.below(2), &c));
	auto path = tree_path(&m); auto vals = tree_path_values(&m); size_t n = 99, nv = 99;
	OK(ccs_tree_get_position(t, 0, NULL, &n)); CHECK(n == path.size(), "position-size", "depth %zu, expected %zu", n, path.size());
	OK(ccs_tree_get_values(t, 0, NULL, &nv)); CHECK(nv == vals.size(), "values-size", "%zu values on the path, expected %zu", nv, vals.size());
	size_t ex = r.below(3); std::vector<size_t> pos(n + ex + 1, 4242); DV vs(nv + ex + 1, ccs_int(-4242));
	if (n + ex) OK(ccs_tree_get_position(t, n + ex, pos.data(), NULL));
	for (size_t i = 0; i < n; i++) CHECK(pos[i] == path[i], "position", "step %zu is %zu, expected %zu", i, pos[i], path[i]);
	OK(ccs_tree_get_values(t, nv + ex, vs.data(), NULL)); for (size_t i = 0; i < nv; i++) CHECK(veq(vs[i], vals[i]), "values", "path value %zu is %s, expected %s", i, dtos(vs[i]).c_str(), dtos(vals[i]).c_str());
	CHECK(pos[n + ex] == 4242 && vs[nv + ex].value.i == -4242, "overrun", "query wrote beyond its buffer");
	// the node is found back from the root through its own position
	const TModel *rt = root((TModel *)&m); ccs_tree_t back = NULL; OK(ccs_tree_get_node_at_position(rt->t, n, pos.data(), &back)); CHECK(back == t, "round-trip", "position does not lead back to the node");
	ev("node.checked");
}
static void check_positions(Rng &r, const TModel &m) {
	auto p = rand_pos(r, &m); size_t steps; const TModel *w = walk(&m, p, steps); bool val = pos_valid(&m, p);
	ccs_bool_t b = 9; OK(ccs_tree_position_is_valid(m.t, p.size(), p.data(), &b)); CHECK(b == (val ? CCS_TRUE : CCS_FALSE), "position-verdict", "position verdict %d, expected %d in %s", b, val, tstr(m).c_str());
	ev(val ? "position.valid" : "position.invalid");
	ccs_tree_t t = NULL; DV v(p.size() + 3, ccs_int(-1)); size_t k = p.size() + 1 + r.below(2);
	ccs_result_t e1 = ccs_tree_get_node_at_position(m.t, p.size(), p.data(), &t), e2 = ccs_tree_get_values_at_position(m.t, p.size(), p.data(), k, v.data());
	if (w) {
		CHECK(!e1 && !e2 && t == w->t, "node-at", "node at a designated position (%s %s)", rname(e1), rname(e2));
		const TModel *x = &m; for (size_t i = 0; i <= p.size(); i++) { CHECK(veq(v[i], x->value), "values-at", "value %zu at position is %s, expected %s", i, dtos(v[i]).c_str(), dtos(x->value).c_str()); if (i < p.size()) x = x->ch[p[i]].get(); }
		for (size_t i = p.size() + 1; i < k; i++) CHECK(v[i].type == CCS_DATA_TYPE_NONE, "values-surplus", "surplus value not none");
		ev("position.node");
	} else {
		const TModel *x = &m; for (size_t i = 0; i < steps; i++) x = x->ch[p[i]].get();
		ccs_result_t want = p[steps] >= x->arity ? CCS_RESULT_ERROR_OUT_OF_BOUNDS : CCS_RESULT_ERROR_INVALID_TREE;
		CHECK(e1 == want && e2 == want, "node-at-refused", "absent position gave %s/%s, expected %s", rname(e1), rname(e2), rname(want)); ccs_clear_thread_error(); ev("position.absent");
	}
	REFUSED(CCS_RESULT_ERROR_INVALID_VALUE, ccs_tree_get_values_at_position(m.t, p.size(), p.data(), p.size(), p.size() ? v.data() : NULL));
}
static void check_freq(Rng &r, const TModel &m, ccs_rng_t g, size_t N) {
	std::vector<double> w; for (auto &c : m.ch) w.push_back(c ? wsum(*c) * c->bias : 1.0); w.push_back(m.weight); double s = 0; for (double x : w) s += x;
	std::vector<size_t> ix(N + 1, 5555);
	if (s == 0) {
		REFUSED(CCS_RESULT_ERROR_INVALID_DISTRIBUTION, ccs_tree_samples(m.t, g, N, ix.data())); REFUSED(CCS_RESULT_ERROR_INVALID_DISTRIBUTION, ccs_tree_sample(m.t, g, ix.data())); ev("weights.zero"); return;
	}
	if (r.below(3)) OK(ccs_tree_samples(m.t, g, N, ix.data())); else { for (size_t i = 0; i < N; i++) OK(ccs_tree_sample(m.t, g, &ix[i])); ev("sampled.singly"); }
	CHECK(ix[N] == 5555, "sample-overrun", "sampling wrote beyond its buffer");
	std::vector<size_t> cnt(w.size());
	for (size_t i = 0; i < N; i++) { CHECK(ix[i] <= m.arity, "sample-index", "sampled index %zu, arity %zu", ix[i], m.arity); CHECK(w[ix[i]] > 0, "sample-zero", "zero weight branch %zu selected in %s", ix[i], tstr(m).c_str()); cnt[ix[i]]++; }
	bool zero = false;
	for (size_t i = 0; i < w.size(); i++) { double e = N * (w[i] / s), sd = sqrt(e * (1 - w[i] / s)); zero |= w[i] == 0; CHECK(fabs(cnt[i] - e) <= freq_tol(sd), "frequency", "index %zu selected %zu times of %zu, expected %g in %s", i, cnt[i], N, e, tstr(m).c_str()); }
	ev("frequency.tested"); if (zero) ev("frequency.with-zero"); if (m.arity) ev("frequency.branching");
}
void run_case(Rng &r, uint64_t idx) {
	ud_reset(); Bag bag; Forest f; ccs_rng_t g = mk_rng(r, bag);
	const size_t maxn = r.chance(1, 10) ? 60 : 14; int ops = r.range(5, r.chance(1, 10) ? 120 : 35); uint64_t h = 0; const double scale = r.chance(1, 8) ? r.pick({1e-8, 1e8}) : 1.0;
	const bool extreme = r.chance(1, 6);
	auto add = [&]() {
		TP t = std::make_shared<TModel>(); t->arity = r.chance(1, 12) ? r.range(4, 20) : r.chance(1, 60) ? r.pick<size_t>({129, 257, 300}) : r.range(0, 4); t->value = gen_scalar(r); t->ch.resize(t->arity);
		std::vector<std::unique_ptr<char[]>> st; ccs_datum_t d = r.below(2) ? transient_copy(t->value, st) : t->value;
		if (d.type == CCS_DATA_TYPE_STRING && !(d.flags & CCS_DATUM_FLAG_TRANSIENT)) { st.emplace_back(new char[strlen(d.value.s) + 1]); strcpy(st.back().get(), d.value.s); d.value.s = st.back().get(); } // tree values are copied
		OK(ccs_create_tree(t->arity, d, &t->t)); f.n.push_back(t); f.held.insert(t.get()); ev("created");
	};
	for (int o = 0; o < ops; o++) {
		int op = r.below(12); h = mix64(h, op);
		if (f.n.size() < 2 || (op < 3 && f.n.size() < maxn)) { add(); continue; }
		TP t = r.pick(f.n);
		if (op < 7) { // attach
			TP c = r.pick(f.n);
			if (r.chance(3, 4)) { std::vector<TP> rt; for (auto &x : f.n) if (!x->parent) rt.push_back(x); c = r.pick(rt); }
			size_t i = t->arity && r.chance(9, 10) ? r.below(t->arity) : t->arity + r.below(2);
			if (r.chance(1, 2)) for (size_t j = 0; j < t->arity; j++) if (!t->ch[j]) { i = j; break; }
			bool cyc = root(t.get()) == c.get(), sum = true;
			if (i < t->arity && !t->ch[i] && !c->parent && !cyc) { t->ch[i] = c; sum = summable(t.get()); t->ch[i] = nullptr; }
			ccs_result_t e = ccs_tree_set_child(t->t, i, c->t); if (e) ccs_clear_thread_error();
			if (i >= t->arity) { CHECK(e == CCS_RESULT_ERROR_OUT_OF_BOUNDS, "attach-bounds", "attaching at %zu of %zu gave %s", i, t->arity, rname(e)); ev("attach.bounds"); h = mix64(h, 1); }
			else if (t->ch[i] || c->parent || cyc) {
				CHECK(e == CCS_RESULT_ERROR_INVALID_VALUE || e == CCS_RESULT_ERROR_INVALID_TREE, "attach-refused", "attaching (%s) gave %s", t->ch[i] ? "occupied" : c->parent ? "second parent" : "cycle", rname(e));
				ev(t->ch[i] ? "attach.occupied" : c->parent ? "attach.second-parent" : c == t ? "attach.self" : "attach.cycle"); h = mix64(h, 2);
			} else if (!sum) {
				CHECK(e == CCS_RESULT_ERROR_INVALID_VALUE, "attach-weight", "attaching a subtree whose weight cannot be added gave %s", rname(e)); ev("attach.unsummable"); h = mix64(h, 3);
				check_node(r, *t); check_node(r, *c); check_freq(r, *t, g, 300); check_freq(r, *root(t.get()), g, 300);
			} else {
				CHECK(e == CCS_RESULT_SUCCESS, "attach", "attaching gave %s", rname(e)); t->ch[i] = c; c->parent = t.get(); c->index = i; ev("attach"); if (c->count() > 1) ev("attach.subtree"); if (t->parent) ev("attach.deep");
			}
		} else if (op < 9) {
			double w = r.chance(1, 4) ? 0 : r.chance(1, 6) ? r.real(0, 50) : r.pick({0.25, 0.5, 1.0, 2.0, 5.0});
			if (extreme && r.below(2)) { // weights that cannot be turned into probabilities are refused, and change nothing
				double x = r.pick({(double)NAN, (double)INFINITY, 1.7e308, 1e308, 1e308, 1e300, 1e-300, 1e-310, 4e-324}), &m = op == 7 ? t->weight : t->bias, old = m; m = x;
				bool ok = std::isfinite(x) && summable(op == 7 ? t.get() : t->parent); if (!ok) m = old;
				ccs_result_t e = op == 7 ? ccs_tree_set_weight(t->t, x) : ccs_tree_set_bias(t->t, x); if (e) ccs_clear_thread_error();
				CHECK(e == (ok ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_INVALID_VALUE), "extreme-weight", "setting the %s of a node of %s to %g gave %s", op == 7 ? "weight" : "bias", tstr(*root(t.get())).c_str(), x, rname(e));
				ev(ok ? "extreme.accepted" : std::isfinite(x) ? "extreme.refused" : "nonfinite.refused"); h = mix64(h, ok);
				for (const TModel *y = t.get(); y; y = y->parent) { check_node(r, *y); check_freq(r, *y, g, 300); }
			} else if (r.chance(1, 10)) { REFUSED(CCS_RESULT_ERROR_INVALID_VALUE, ccs_tree_set_weight(t->t, -w - 0.5)); REFUSED(CCS_RESULT_ERROR_INVALID_VALUE, ccs_tree_set_bias(t->t, -w - 0.5)); ev("negative.refused"); }
			else if (extreme) continue;
			else if (op == 7) { w *= scale; OK(ccs_tree_set_weight(t->t, w)); t->weight = w; ev(t->parent ? "weight.attached" : "weight.root"); if (t->parent && t->parent->parent) ev("weight.deep"); if (scale != 1.0) ev("weight.scaled"); }
			else { OK(ccs_tree_set_bias(t->t, w)); t->bias = w; ev(t->parent ? "bias.attached" : "bias.root"); if (t->parent && t->parent->parent) ev("bias.deep"); }
		} else if (op == 9) { check_freq(r, *t, g, 300); if (t->parent) check_freq(r, *root(t.get()), g, 300); }
		else if (op == 10) { // the caller drops a reference
			if (!f.held.count(t.get()) || r.chance(1, 2)) continue;
			f.held.erase(t.get()); OK(ccs_release_object(t->t)); ev(t->parent ? "drop.attached" : "drop.root");
			if (!t->parent) drop_model(f, t);
		} else check_node(r, *t);
		if (r.chance(1, 3)) for (auto &x : f.n) check_node(r, *x);
		if (!f.n.empty()) check_positions(r, *r.pick(f.n));
	}
	if (f.n.empty()) add();
	for (auto &x : f.n) { check_node(r, *x); check_positions(r, *x); check_freq(r, *x, g, idx % 4 ? 1000 : 12000); }
	// the structure survives being saved and loaded
	std::vector<TP> rt; for (auto &x : f.n) if (!x->parent) rt.push_back(x);
	TP q = r.pick(rt); std::vector<char> s = ser(q->t); ccs_object_t o = deser(s); std::vector<std::pair<TModel *, ccs_tree_t>> saved; std::vector<TP> all; tree_nodes(q, all);
	for (auto &x : all) { ccs_tree_t n = NULL; auto p = tree_path(x.get()); OK(ccs_tree_get_node_at_position((ccs_tree_t)o, p.size(), p.data(), &n)); saved.push_back({x.get(), n}); }
	for (auto &x : saved) std::swap(x.first->t, x.second);
	try { for (auto &x : all) { check_node(r, *x); check_positions(r, *x); check_freq(r, *x, g, 500); ev("reloaded.node"); } } catch (...) { for (auto &x : saved) std::swap(x.first->t, x.second); ccs_release_object(o); throw; }
	for (auto &x : saved) std::swap(x.first->t, x.second);
	OK(ccs_release_object(o));
	std::string d; for (auto &x : rt) d += tstr(*x); desc(d); sig(mix64(h, hash_str(d)));
}
