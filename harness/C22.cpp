// C22: user-defined tuners and dynamic tree spaces are driven faithfully.
#include "zoo.hpp"
#include <unistd.h>
const char *PROP = "C22";
uint64_t num_cases(bool th) { return th ? 180000 : 30000; }
bool ledger_check() { return true; }
void prop_init() {}

static const ccs_result_t codes[] = {CCS_RESULT_ERROR_EXTERNAL, CCS_RESULT_ERROR_INVALID_VALUE, CCS_RESULT_ERROR_OUT_OF_MEMORY, CCS_RESULT_ERROR_INVALID_EVALUATION, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, CCS_RESULT_ERROR_INVALID_OBJECT, CCS_RESULT_ERROR_SYSTEM};
struct T { int kind; ccs_object_t o = NULL; UD *u = nullptr; int vopts = 0; std::vector<ccs_object_t> evs, feats; CSModel cs; FSModel fs; OSModel os; ccs_tree_space_t ts = NULL; ccs_tree_t root = NULL; bool gone = false; };

static ccs_result_t t_ask(T &t, ccs_object_t f, size_t n, ccs_object_t *v, size_t *r) { return t.kind == 0 ? ccs_tuner_ask((ccs_tuner_t)t.o, n, (ccs_configuration_t *)v, r) : t.kind == 1 ? ccs_features_tuner_ask((ccs_features_tuner_t)t.o, (ccs_features_t)f, n, (ccs_configuration_t *)v, r) : ccs_tree_tuner_ask((ccs_tree_tuner_t)t.o, n, (ccs_tree_configuration_t *)v, r); }
static ccs_result_t t_tell(T &t, size_t n, ccs_object_t *v) { return t.kind == 0 ? ccs_tuner_tell((ccs_tuner_t)t.o, n, (ccs_evaluation_t *)v) : t.kind == 1 ? ccs_features_tuner_tell((ccs_features_tuner_t)t.o, n, (ccs_features_evaluation_t *)v) : ccs_tree_tuner_tell((ccs_tree_tuner_t)t.o, n, (ccs_tree_evaluation_t *)v); }
static ccs_result_t t_sug(T &t, ccs_object_t f, ccs_object_t *c) { return t.kind == 0 ? ccs_tuner_suggest((ccs_tuner_t)t.o, (ccs_configuration_t *)c) : t.kind == 1 ? ccs_features_tuner_suggest((ccs_features_tuner_t)t.o, (ccs_features_t)f, (ccs_configuration_t *)c) : ccs_tree_tuner_suggest((ccs_tree_tuner_t)t.o, (ccs_tree_configuration_t *)c); }
static ccs_result_t t_list(T &t, bool opt, ccs_object_t f, size_t n, ccs_object_t *v, size_t *r) {
	if (t.kind == 0) return (opt ? ccs_tuner_get_optima : ccs_tuner_get_history)((ccs_tuner_t)t.o, n, (ccs_evaluation_t *)v, r);
	if (t.kind == 1) return (opt ? ccs_features_tuner_get_optima : ccs_features_tuner_get_history)((ccs_features_tuner_t)t.o, (ccs_features_t)f, n, (ccs_features_evaluation_t *)v, r);
	return (opt ? ccs_tree_tuner_get_optima : ccs_tree_tuner_get_history)((ccs_tree_tuner_t)t.o, n, (ccs_tree_evaluation_t *)v, r);
}
static void *t_data(int kind, ccs_object_t o) { void *d = NULL; OK(kind == 0 ? ccs_user_defined_tuner_get_tuner_data((ccs_tuner_t)o, &d) : kind == 1 ? ccs_user_defined_features_tuner_get_tuner_data((ccs_features_tuner_t)o, &d) : kind == 2 ? ccs_user_defined_tree_tuner_get_tuner_data((ccs_tree_tuner_t)o, &d) : ccs_dynamic_tree_space_get_tree_space_data((ccs_tree_space_t)o, &d)); return d; }
static const char *kn(int k) { static const char *n[] = {"tuner", "features tuner", "tree tuner", "dynamic tree space"}; return n[k]; }
static ccs_object_t some_conf(Rng &r, T &t, Bag &b) { ccs_object_t c = NULL; if (t.kind == 2) OK(ccs_tree_space_sample(t.ts, (ccs_tree_configuration_t *)&c)); else if (ccs_configuration_space_sample(t.cs.cs, (ccs_configuration_t *)&c)) { ccs_clear_thread_error(); OK(ccs_configuration_space_get_default_configuration(t.cs.cs, (ccs_configuration_t *)&c)); } (void)r; return b.own(c); }
static ccs_object_t new_eval(Rng &r, T &t, Bag &b) {
	ccs_object_t c = some_conf(r, t, b); int res = r.chance(1, 5) ? 1 : 0; DV v = t.os.rand_values(r);
	ccs_object_t e = t.kind == 0 ? (ccs_object_t)mk_eval(t.os, (ccs_configuration_t)c, res, v, b) : t.kind == 1 ? (ccs_object_t)mk_feval(t.os, (ccs_configuration_t)c, (ccs_features_t)r.pick(t.feats), res, v, b) : (ccs_object_t)mk_teval(t.os, (ccs_tree_configuration_t)c, res, v, b);
	t.evs.push_back(e); return e;
}
// the vector is given through a copy that is scrambled after the call: only what it held then counts
struct VecCopy {
	std::vector<char> m; size_t n;
	VecCopy(int kind, int opts) { n = kind == 0 ? sizeof(ccs_user_defined_tuner_vector_t) : kind == 1 ? sizeof(ccs_user_defined_features_tuner_vector_t) : kind == 2 ? sizeof(ccs_user_defined_tree_tuner_vector_t) : sizeof(ccs_dynamic_tree_space_vector_t); m.assign((char *)ud_vector(kind, opts), (char *)ud_vector(kind, opts) + n); }
	~VecCopy() { memset(m.data(), 0x41, n); }
};
#define SAME(getter, obj, want, what) do { decltype(want) x_ = NULL; OK(getter(obj, &x_)); CHECK(x_ == (want), "made-of", "%s is not the one the tuner was created with", what); } while (0)
static void build(Rng &r, T &t, Bag &b) {
	t.vopts = r.below(8); t.u = ud_new(t.kind, r.next()); int sl = r.below(4) ? r.range(1, 60) : 0; for (int i = 0; i < sl; i++) t.u->state.push_back((char)r.below(256));
	CSOpt co; co.maxp = 4; co.safe = true; if (t.kind < 2) t.cs = gen_cs(r, "cs", b, co); if (t.kind == 1) t.fs = gen_fs(r, "fs", b, 2); if (t.kind < 3) t.os = gen_os(r, "os", b, true, 3);
	if (t.kind == 2) { TP tr = gen_tree(r, b, 3, 3, false); OK(ccs_create_static_tree_space("ts", tr->t, &t.ts)); b.own(t.ts); }
	if (t.kind == 3) { OK(ccs_create_tree(r.range(1, 3), ccs_int(5), &t.root)); b.own(t.root); t.u->maxdepth = r.range(2, 5); }
	VecCopy v(t.kind, t.vopts); void *p = v.m.data(); TName nm(r);
	switch (t.kind) {
	case 0: OK(ccs_create_user_defined_tuner(nm.c(), t.cs.cs, t.os.os, (ccs_user_defined_tuner_vector_t *)p, t.u, (ccs_tuner_t *)&t.o)); break;
	case 1: OK(ccs_create_user_defined_features_tuner(nm.c(), t.cs.cs, t.fs.fs, t.os.os, (ccs_user_defined_features_tuner_vector_t *)p, t.u, (ccs_features_tuner_t *)&t.o)); break;
	case 2: OK(ccs_create_user_defined_tree_tuner(nm.c(), t.ts, t.os.os, (ccs_user_defined_tree_tuner_vector_t *)p, t.u, (ccs_tree_tuner_t *)&t.o)); break;
	default: OK(ccs_create_dynamic_tree_space(nm.c(), t.root, (ccs_dynamic_tree_space_vector_t *)p, t.u, (ccs_tree_space_t *)&t.o));
	}
	b.own(t.o);
	switch (t.kind) {
	case 0: { auto o = (ccs_tuner_t)t.o; nm.is(ccs_tuner_get_name, o, "user tuner"); SAME(ccs_tuner_get_configuration_space, o, t.cs.cs, "configuration space"); SAME(ccs_tuner_get_objective_space, o, t.os.os, "objective space"); break; }
	case 1: { auto o = (ccs_features_tuner_t)t.o; nm.is(ccs_features_tuner_get_name, o, "user feature tuner"); SAME(ccs_features_tuner_get_configuration_space, o, t.cs.cs, "configuration space"); SAME(ccs_features_tuner_get_objective_space, o, t.os.os, "objective space"); SAME(ccs_features_tuner_get_features_space, o, t.fs.fs, "features space"); break; }
	case 2: { auto o = (ccs_tree_tuner_t)t.o; nm.is(ccs_tree_tuner_get_name, o, "user tree tuner"); SAME(ccs_tree_tuner_get_tree_space, o, t.ts, "tree space"); SAME(ccs_tree_tuner_get_objective_space, o, t.os.os, "objective space"); break; }
	default: nm.is(ccs_tree_space_get_name, (ccs_tree_space_t)t.o, "dynamic tree space");
	}
	if (t.kind == 1) for (int i = 0; i < 3; i++) { DV fv; for (auto &p : t.fs.ps) fv.push_back(p.in(r)); ccs_features_t f; OK(ccs_create_features(t.fs.fs, fv.size(), fv.data(), &f)); b.own(f); t.feats.push_back(f); }
	CHECK(t.u->log.empty(), "create-called", "creating a %s called %s", kn(t.kind), t.u->log.empty() ? "" : t.u->log[0].op.c_str());
}
static std::string dmp(ccs_object_t o) { return o ? dump(o) : std::string("NULL"); }
// one delivered call, and nothing anywhere else
static UCall one(T &t, std::vector<T *> &others, const char *op) {
	CHECK(t.u->log.size() == 1, "deliveries", "%s %s: %zu callbacks made (%s...)", kn(t.kind), op, t.u->log.size(), t.u->log.empty() ? "none" : t.u->log[0].op.c_str());
	UCall c = t.u->log[0]; t.u->log.clear(); CHECK(c.op == op, "wrong-callback", "%s %s: delivered to %s", kn(t.kind), op, c.op.c_str()); CHECK(c.self == t.o, "wrong-object", "%s %s: callback was given another object", kn(t.kind), op);
	for (auto x : others) if (x->u != t.u) CHECK(x->u->log.empty(), "crossed", "%s %s: callback %s of another object ran", kn(t.kind), op, x->u->log[0].op.c_str()); ev("delivered"); ev((std::string("delivered.") + op).c_str()); return c;
}
static void quiet(std::vector<T *> &all, const char *what) { for (auto x : all) CHECK(x->u->log.empty(), "uncalled", "%s: callback %s ran", what, x->u->log[0].op.c_str()); }
static void tuner_op(Rng &r, T &t, std::vector<T *> &all, Bag &b) {
	ccs_object_t f = t.kind == 1 ? r.pick(t.feats) : NULL; ccs_result_t want = CCS_RESULT_SUCCESS; const char *ops[] = {"ask", "tell", "suggest", "get_optima", "get_history"}; const char *op = ops[r.below(5)];
	bool failing = r.chance(1, 5); if (failing) { want = codes[r.below(8)]; t.u->fail[op] = want; }
	struct Off { UD *u; ~Off() { u->fail.clear(); u->short_ask = false; } } off{t.u};
	if (!strcmp(op, "ask")) {
		size_t n = r.below(5), nr = 777; bool query = n == 0 && r.below(2), withn = query || r.below(2); if (n > 1 && r.chance(1, 4) && withn) t.u->short_ask = true; std::vector<ccs_object_t> v(n + 2, (ccs_object_t)0x55);
		ccs_result_t e = t_ask(t, f, query ? 0 : n, query ? NULL : v.data(), withn ? &nr : NULL); UCall c = one(t, all, op); if (!failing) want = c.ret; CHECK(e == want, "result", "%s ask: callback returned %s, call %s", kn(t.kind), rname(want), rname(e));
		CHECK(c.n == (query ? 0 : n) && (c.arr == NULL) == query && (c.nret != NULL) == withn, "arguments", "%s ask: arguments changed", kn(t.kind)); CHECK(c.feat == f, "features", "%s ask: features changed", kn(t.kind));
		if (!e) { if (query) CHECK(nr == 1, "count", "%s ask: the suggested number was changed", kn(t.kind)); else for (size_t i = 0; i < n; i++) { CHECK(v[i] == c.elems[i], "outputs", "%s ask: output %zu is not what the callback gave", kn(t.kind), i); if (v[i]) { CHECK(refcount(v[i]) == 1, "output-refs", "%s ask: returned configuration has %d references", kn(t.kind), refcount(v[i])); b.own(v[i]); } }
			if (withn && !query) CHECK(nr == c.m, "count", "%s ask: %zu reported, callback said %zu", kn(t.kind), nr, c.m); }
		CHECK(v[n] == (ccs_object_t)0x55, "overrun", "%s ask: wrote beyond the array", kn(t.kind));
	} else if (!strcmp(op, "tell")) {
		std::vector<ccs_object_t> v; int n = r.below(5); for (int i = 0; i < n; i++) v.push_back(t.evs.empty() || r.chance(3, 4) ? new_eval(r, t, b) : r.pick(t.evs)); t.u->log.clear(); std::vector<ccs_object_t> given = v; std::vector<std::string> was; for (auto o : v) was.push_back(dump(o)); std::vector<int> rc; for (auto o : v) rc.push_back(refcount(o)); auto hist = t.u->hist;
		ccs_result_t e = t_tell(t, n, n || r.below(2) ? v.data() : NULL); UCall c = one(t, all, op); CHECK(e == want, "result", "%s tell: callback returned %s, call %s", kn(t.kind), rname(want), rname(e));
		CHECK(c.n == (size_t)n && c.elems == given && v == given, "arguments", "%s tell: the list of evaluations was changed (%zu of %d delivered)", kn(t.kind), c.n, n); for (int i = 0; i < n; i++) { CHECK(dump(v[i]) == was[i], "evaluation-changed", "%s tell: an evaluation was modified", kn(t.kind)); if (failing) CHECK(refcount(v[i]) == rc[i], "evaluation-refs", "%s tell: references of an evaluation went from %d to %d in a failed call", kn(t.kind), rc[i], refcount(v[i])); }
	} else if (!strcmp(op, "suggest")) {
		ccs_object_t c0 = (ccs_object_t)0x55; ccs_result_t e = t_sug(t, f, &c0);
		if (!(t.vopts & UV_SUGGEST)) { CHECK(e == CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, "fallback", "%s suggest without a callback: %s", kn(t.kind), rname(e)); quiet(all, "suggest without a callback"); ev("suggest.absent"); return; }
		UCall c = one(t, all, op); if (!failing) want = c.ret; CHECK(e == want, "result", "%s suggest: callback returned %s, call %s", kn(t.kind), rname(want), rname(e)); CHECK(c.feat == f, "features", "%s suggest: features changed", kn(t.kind));
		if (!e) { CHECK(c0 == c.elems[0], "outputs", "%s suggest: not what the callback gave", kn(t.kind)); b.own(c0); }
	} else {
		bool opt = !strcmp(op, "get_optima"); if (t.kind == 1 && r.chance(1, 3)) f = NULL; size_t have = 0; { auto sv = t.u->fail; t.u->fail.clear(); OK(t_list(t, opt, f, 0, NULL, &have)); t.u->fail = sv; t.u->log.clear(); }
		size_t n = r.below(4) ? have + r.below(3) : r.below(have + 1), nr = 777; bool query = r.chance(1, 4); bool withn = query || r.below(2); std::vector<ccs_object_t> v(n + 2, (ccs_object_t)0x55);
		if (n == 0) query = withn = true;
		ccs_result_t e = t_list(t, opt, f, query ? 0 : n, query ? NULL : v.data(), withn ? &nr : NULL); UCall c = one(t, all, op); if (!failing) want = c.ret; CHECK(e == want, "result", "%s %s: callback returned %s, call %s", kn(t.kind), op, rname(want), rname(e));
		CHECK(c.n == (query ? 0 : n) && (c.arr == NULL) == query && (c.nret != NULL) == withn, "arguments", "%s %s: arguments changed", kn(t.kind), op); CHECK(c.feat == f, "features", "%s %s: features changed", kn(t.kind), op);
		if (!e) { if (withn) CHECK(nr == have, "count", "%s %s: %zu reported, callback said %zu", kn(t.kind), op, nr, have); if (!query) for (size_t i = 0; i < n; i++) CHECK(v[i] == c.elems[i], "outputs", "%s %s: output %zu is not what the callback gave", kn(t.kind), op, i); }
		CHECK(v[n] == (ccs_object_t)0x55, "overrun", "%s %s: wrote beyond the array", kn(t.kind), op);
	}
	if (failing) ev("error.propagated");
}
static void space_op(Rng &r, T &t, std::vector<T *> &all, Bag &b) {
	// walk down from the root: every missing child on the way is requested once, from its parent
	ccs_tree_space_t s = (ccs_tree_space_t)t.o; std::vector<size_t> pos; ccs_tree_t node = t.root; std::vector<std::pair<ccs_tree_t, size_t>> want; size_t known = 0; bool missing = false;
	for (int d = r.range(1, 5); d--;) { size_t ar = 0; if (!missing) OK(ccs_tree_get_arity(node, &ar)); size_t i = missing ? r.below(3) : ar ? r.below(ar) : 0; if (!missing && !ar) break; pos.push_back(i); if (!missing) { ccs_tree_t c = NULL; OK(ccs_tree_get_child(node, i, &c)); if (c) { node = c; known++; } else missing = true; } }
	if (missing && r.chance(1, 6)) { // a generator that returns something that cannot be attached
		int kind = r.below(3); ccs_tree_t other = NULL, bad = NULL; auto was = t.u->gen_child; int32_t before = refcount(t.root), nb = refcount(node); auto shape = dump(t.root);
		if (kind == 0) { OK(ccs_create_tree(1, ccs_int(1), &other)); b.own(other); OK(ccs_create_tree(r.below(3), ccs_int(2), &bad)); OK(ccs_tree_set_child(other, 0, bad)); }
		else if (kind == 1) { bad = t.root; OK(ccs_retain_object(bad)); }
		t.u->gen_child = [bad](UD *, ccs_tree_t, size_t, ccs_tree_t *o) { *o = bad; return CCS_RESULT_SUCCESS; };
		ccs_tree_t out = NULL; ccs_bool_t v = 0; DV vals(pos.size() + 1, ccs_none); ccs_result_t e; int how = r.below(3);
		e = how == 0 ? ccs_tree_space_check_position(s, pos.size(), pos.data(), &v) : how == 1 ? ccs_tree_space_get_node_at_position(s, pos.size(), pos.data(), &out) : ccs_tree_space_get_values_at_position(s, pos.size(), pos.data(), vals.size(), vals.data());
		t.u->gen_child = was; t.u->log.clear();
		CHECK(e < 0, "bad-child-accepted", "a generated child that %s was accepted", kind == 0 ? "already has a parent" : kind == 1 ? "is an ancestor" : "is missing");
		if (kind == 0) CHECK(refcount(bad) == 1, "bad-child-refs", "the refused child keeps %d references instead of its parent's", refcount(bad));
		CHECK(refcount(t.root) == before && refcount(node) == nb, "bad-child-refs", "a refused child changed the references of the tree (%d, %d)", refcount(t.root) - before, refcount(node) - nb);
		CHECK(dump(t.root) == shape, "bad-child-tree", "a refused child changed the tree"); ccs_clear_thread_error(); ev("bad-child.refused"); return;
	}
	bool failing = missing && r.chance(1, 4); ccs_result_t code = codes[r.below(8)]; if (failing) t.u->fail["get_child"] = code;
	ccs_result_t e; ccs_tree_t out = NULL; ccs_bool_t v = 0; int how = r.below(4); ccs_tree_configuration_t tc = NULL; DV vals(pos.size() + 1, ccs_none);
	switch (how) { case 0: e = ccs_tree_space_check_position(s, pos.size(), pos.data(), &v); break; case 1: e = ccs_tree_space_get_node_at_position(s, pos.size(), pos.data(), &out); break; case 2: e = ccs_tree_space_get_values_at_position(s, pos.size(), pos.data(), vals.size(), vals.data()); break; default: OK(ccs_create_tree_configuration(s, pos.size(), pos.data(), &tc)); b.own(tc); quiet(all, "creating a tree configuration"); e = ccs_tree_configuration_check(tc, &v); }
	t.u->fail.clear(); auto log = t.u->log; t.u->log.clear();
	for (auto x : all) CHECK(x->u->log.empty(), "crossed", "a position query ran callback %s of another object", x->u->log[0].op.c_str());
	if (!missing) CHECK(log.empty(), "requested-again", "a child that exists was requested again"); else CHECK(!log.empty(), "not-requested", "a missing child was not requested from the generator");
	// deliveries follow the path: the first is the first missing child of the deepest known node, each next one a child of the one before
	ccs_tree_t at = node; for (size_t k = 0; k < log.size(); k++) {
		CHECK(log[k].op == "get_child" && log[k].self == t.o, "wrong-callback", "position query delivered to %s", log[k].op.c_str()); CHECK(log[k].feat == (ccs_object_t)at && log[k].n == pos[known + k], "child-arguments", "generator was asked for child %zu of another node than the path's (step %zu)", log[k].n, known + k);
		ev("delivered.get_child"); if (log[k].ret) { CHECK(k + 1 == log.size(), "after-error", "generator called again after its error"); CHECK(e == log[k].ret, "result", "generator returned %s, call %s", rname(log[k].ret), rname(e)); ev("error.propagated"); ccs_tree_t c = (ccs_tree_t)0x55; OK(ccs_tree_get_child(at, log[k].n, &c)); CHECK(c == NULL, "attached-after-error", "a child appeared although its generation failed"); break; }
		ccs_tree_t c = NULL; OK(ccs_tree_get_child(at, log[k].n, &c)); CHECK((ccs_object_t)c == log[k].elems[0], "not-attached", "generated child is not the one found in the tree"); at = c; CHECK(refcount(c) == 1, "child-refs", "generated child has %d references", refcount(c));
	}
	if (failing) CHECK(e == code, "result", "generator returned %s, call %s", rname(code), rname(e));
	if (how == 1 && !e) CHECK(out == at, "node", "node at a position is not the generated one");
}
static std::vector<char> save(Rng &r, T &t, ccs_result_t *err) {
	size_t n = 0; ccs_result_t e = ccs_object_serialize(t.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END); if (e) { *err = e; return {}; }
	std::vector<char> b(n); *err = ccs_object_serialize(t.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b.data(), CCS_SERIALIZE_OPTION_END); (void)r; return b;
}
static void reload(Rng &r, T &t, std::vector<T *> &all, Bag &b) {
	ccs_result_t e; for (auto x : all) x->u->log.clear();
	if (r.chance(1, 3)) { // a failing callback while saving
		std::vector<const char *> ops; if (t.kind < 3) { ops.push_back("get_history"); ops.push_back("get_optima"); } if (t.vopts & UV_SER) { ops.push_back("serialize_size"); if (t.u->state.size()) ops.push_back("serialize"); }
		if (!ops.empty()) { const char *op = r.pick(ops); ccs_result_t code = codes[r.below(8)]; t.u->fail[op] = code; save(r, t, &e); t.u->fail.clear(); CHECK(e == code, "save-result", "%s: %s returned %s while saving, the call %s", kn(t.kind), op, rname(code), rname(e)); ev("save.failed"); for (auto &c : t.u->log) CHECK(c.op == "get_history" || c.op == "get_optima" || c.op == "serialize" || c.op == "serialize_size", "save-callback", "%s: saving called %s", kn(t.kind), c.op.c_str()); t.u->log.clear(); }
	}
	auto bytes = save(r, t, &e); CHECK(!e, "save", "%s cannot be saved: %s", kn(t.kind), rname(e));
	for (auto &c : t.u->log) { CHECK(c.self == t.o && (c.op == "get_history" || c.op == "get_optima" || c.op == "serialize" || c.op == "serialize_size"), "save-callback", "%s: saving called %s", kn(t.kind), c.op.c_str()); if (c.op == "serialize") CHECK(c.n >= t.u->state.size(), "save-room", "%s: %zu bytes given for a state of %zu", kn(t.kind), c.n, t.u->state.size()); if (c.op[0] == 'g') CHECK(!c.feat, "save-features", "%s: saving restricted the history to some features", kn(t.kind)); }
	t.u->log.clear(); for (auto x : all) CHECK(x->u->log.empty(), "crossed", "saving one object called another's callback");
	// the loader's vector need not have the same optional callbacks
	T n; n.kind = t.kind; n.vopts = r.below(2) ? t.vopts : r.below(8); n.u = ud_new(t.kind, t.u->seed); n.u->maxdepth = t.u->maxdepth; n.u->maxarity = t.u->maxarity; n.os = t.os; n.cs = t.cs; n.fs = t.fs; n.feats = t.feats; n.ts = t.ts;
	ccs_map_t m; OK(ccs_create_map(&m)); Bag mb; mb.own(m);
	ccs_result_t code = CCS_RESULT_SUCCESS; const char *fop = NULL;
	if (r.chance(1, 4)) { if (n.vopts & UV_DESER) fop = "deserialize"; else if (t.kind < 3 && !t.u->hist.empty()) fop = "tell"; if (fop) { code = codes[r.below(8)]; n.u->fail[fop] = code; } }
	{ VecCopy vc(n.kind, n.vopts);
	  if (r.chance(1, 4)) { FILE *fp = NULL; char path[] = "/tmp/verif-c22-XXXXXX"; int fd = mkstemp(path); CHECK(fd >= 0, "harness", "no scratch file"); close(fd); OK(ccs_object_serialize(t.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path, CCS_SERIALIZE_OPTION_END)); t.u->log.clear(); (void)fp;
		e = ccs_object_deserialize(&n.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_VECTOR, vc.m.data(), CCS_DESERIALIZE_OPTION_DATA, n.u, CCS_DESERIALIZE_OPTION_END); unlink(path); ev("through-file"); }
	  else e = ccs_object_deserialize(&n.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, bytes.size(), bytes.data(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_VECTOR, vc.m.data(), CCS_DESERIALIZE_OPTION_DATA, n.u, CCS_DESERIALIZE_OPTION_END); }
	for (auto x : all) CHECK(x->u->log.empty(), "crossed", "loading called callback %s of the original", x->u->log[0].op.c_str());
	if (fop) { CHECK(e == code, "load-result", "%s: %s returned %s while loading, the call %s", kn(t.kind), fop, rname(code), rname(e)); CHECK(n.u->dels <= 1, "deleted-twice", "%s: failed loading ran the deletion callback %d times", kn(t.kind), n.u->dels); CHECK(!n.u->after_del, "after-deletion", "%s: a callback ran after deletion", kn(t.kind)); for (auto &c : n.u->log) if (c.op == fop) CHECK(n.u->dels == 1, "not-deleted", "%s: the object whose callback failed was never deleted", kn(t.kind)); n.u->drop(); ev("load.failed"); return; }
	CHECK(!e, "load", "%s cannot be loaded: %s", kn(t.kind), rname(e)); b.own(n.o); CHECK(t_data(n.kind, n.o) == n.u, "data", "%s: loaded object does not hold the data given", kn(t.kind));
	std::string state = t.vopts & UV_SER ? t.u->state : ""; auto same = [&](const std::vector<ccs_object_t> &got, const std::vector<ccs_object_t> &was, const char *what) {
		CHECK(got.size() == was.size(), "loaded-count", "%s: %zu of %zu evaluations of the %s restored", kn(t.kind), got.size(), was.size(), what);
		for (size_t i = 0; i < got.size(); i++) { CHECK(dmp(got[i]) == dmp(was[i]), "loaded-content", "%s: evaluation %zu of the %s differs after loading", kn(t.kind), i, what); for (size_t j = 0; j < i; j++) CHECK((was[i] == was[j]) == (got[i] == got[j]), "loaded-identity", "%s: evaluations %zu and %zu of the %s: same object before or after loading only", kn(t.kind), j, i, what); } };
	int ds = 0; std::vector<ccs_object_t> told; for (auto &c : n.u->log) {
		CHECK(c.self == n.o, "wrong-object", "%s: loading delivered %s with another object", kn(t.kind), c.op.c_str());
		if (c.op == "deserialize") { ds++; CHECK(c.bytes == state, "state", "%s: state of %zu bytes restored as %zu bytes", kn(t.kind), state.size(), c.bytes.size()); if (t.kind < 3) { same(c.elems, t.u->hist, "history"); same(c.elems2, t.u->opt, "optima"); for (size_t i = 0; i < c.elems2.size(); i++) for (size_t j = 0; j < c.elems.size(); j++) CHECK((t.u->opt[i] == t.u->hist[j]) == (c.elems2[i] == c.elems[j]), "loaded-identity", "%s: optimum %zu is not the evaluation %zu of the history any more", kn(t.kind), i, j); } }
		else if (c.op == "tell") told.insert(told.end(), c.elems.begin(), c.elems.end()); else fail("load-callback", "%s: loading called %s", kn(t.kind), c.op.c_str());
	}
	if (n.vopts & UV_DESER) { CHECK(ds == 1, "deserialize-count", "%s: the deserialization callback ran %d times", kn(t.kind), ds); CHECK(told.empty(), "told", "%s: told on loading although it has a deserialization callback", kn(t.kind)); ev("load.callback"); if (state.size()) ev("load.state"); }
	else { CHECK(ds == 0, "deserialize-count", "%s: absent callback ran", kn(t.kind)); if (t.kind < 3) { same(told, t.u->hist, "history told"); ev("load.told"); if (!told.empty()) ev("load.told.some"); } }
	n.u->log.clear(); std::vector<T *> both = all; both.push_back(&n);
	for (auto o : n.u->hist) n.evs.push_back(o);
	if (t.kind == 3) { OK(ccs_tree_space_get_tree((ccs_tree_space_t)n.o, &n.root)); CHECK(dump(t.root) == dump(n.root), "tree", "loaded space has another tree"); }
	{ Bag nb; if (t.kind == 1) { ccs_features_space_t fs; OK(ccs_features_tuner_get_features_space((ccs_features_tuner_t)n.o, &fs)); n.feats.clear(); for (auto f : t.feats) { size_t k; OK(ccs_features_get_values((ccs_features_t)f, 0, NULL, &k)); DV v(k); if (k) OK(ccs_features_get_values((ccs_features_t)f, k, v.data(), NULL)); ccs_features_t g; OK(ccs_create_features(fs, k, v.data(), &g)); n.feats.push_back(nb.own(g)); } }
	  for (int i = r.below(4); i--;) { n.u->log.clear(); if (t.kind == 3) space_op(r, n, both, nb); else tuner_op(r, n, both, nb); ev("driven.reloaded"); } n.evs.clear(); }
	mb.clear(); // the map holds what was loaded
	// the loaded object is deleted once, on its own
	ccs_object_t o = n.o; for (size_t i = 0; i < b.v.size(); i++) if (b.v[i] == o) { b.v.erase(b.v.begin() + i); break; }
	n.u->log.clear(); OK(ccs_retain_object(o)); OK(ccs_release_object(o)); CHECK(!n.u->dels, "deleted-early", "%s: deletion callback ran while references remain", kn(t.kind)); OK(ccs_release_object(o)); CHECK(n.u->dels == 1 && n.u->log.size() == 1 && n.u->log[0].self == o, "deletion", "%s: loaded object deleted %d times", kn(t.kind), n.u->dels); ev("deleted.reloaded");
	CHECK(n.u->problems.empty(), "problem", "%s", n.u->problems.empty() ? "" : n.u->problems[0].c_str());
}
void run_case(Rng &r, uint64_t idx) {
	ud_reset(); std::vector<std::unique_ptr<T>> ts; std::vector<UD *> uds; std::string d;
	{ Bag b; int n = r.range(1, 3); for (int i = 0; i < n; i++) { ts.emplace_back(new T); ts.back()->kind = (idx + i * r.below(2)) % 4; build(r, *ts.back(), b); uds.push_back(ts.back()->u); d += sfmt("%d/%d ", ts.back()->kind, ts.back()->vopts); }
	  std::vector<T *> all; for (auto &t : ts) all.push_back(t.get());
	  for (int k = r.range(6, 20); k--;) {
		T &t = *r.pick(all); for (auto x : all) x->u->log.clear();
		CHECK(t_data(t.kind, t.o) == t.u, "data", "%s: data is not the caller's", kn(t.kind)); quiet(all, "reading the data");
		if (r.chance(1, 6)) reload(r, t, all, b); else if (t.kind == 3) space_op(r, t, all, b); else tuner_op(r, t, all, b);
		d += sfmt("%d", t.kind); for (auto x : all) { CHECK(!x->u->dels, "deleted-early", "%s: deletion callback ran while referenced", kn(x->kind)); CHECK(x->u->problems.empty(), "problem", "%s", x->u->problems.empty() ? "" : x->u->problems[0].c_str()); }
	  }
	  for (auto x : all) x->u->log.clear();
	}
	for (auto &t : ts) { CHECK(t->u->dels == 1, "deletion", "%s: deletion callback ran %d times", kn(t->kind), t->u->dels); CHECK(!t->u->after_del && t->u->log.size() == 1 && t->u->log[0].op == "del" && t->u->log[0].self == t->o, "after-deletion", "%s: wrong deliveries around deletion", kn(t->kind)); ev("deleted"); }
	desc(d); sig(mix64(hash_str(d), idx)); ud_reset();
}
