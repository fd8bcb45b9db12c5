// C02: objects live exactly as long as they are referenced.
#include "held.hpp"
const char *PROP = "C02";
uint64_t num_cases(bool t) { return t ? 220800 : 36800; }
bool ledger_check() { return true; }
void prop_init() {}

struct Life { int id; ccs_object_type_t type; int ncb = 0; std::vector<int> fired; bool dead = false; int mark; };
struct CbArg { struct World *w; int id, k; };
struct World {
	std::vector<Life> life; std::map<ccs_object_t, int> cur; // address -> live registration
	std::vector<std::unique_ptr<CbArg>> args; std::vector<std::string> problems; std::map<ccs_object_t, int> refs; // caller references
	bool deep = false;
};
// runs inside the library: record, never throw
static void on_destroy(ccs_object_t o, void *ud) {
	CbArg *a = (CbArg *)ud; World *w = a->w; Life &l = w->life[a->id]; l.fired.push_back(a->k); ev("callback");
	auto it = w->cur.find(o); if (it == w->cur.end() || it->second != a->id) { w->problems.push_back("destroy callback called for another object"); return; }
	try {
		ccs_object_type_t t; if (ccs_object_get_type(o, &t) || t != l.type) w->problems.push_back("type not readable in a destroy callback");
		if (w->deep) { std::vector<ccs_object_t> h; held_by(o, h); for (auto x : h) if (!w->cur.count(x)) { /* internal object never seen */ } else if (w->life[w->cur[x]].dead) w->problems.push_back("object destroyed before its holder"); dump(o); ev("read-in-callback"); }
	} catch (Failure &f) { w->problems.push_back("not usable in a destroy callback: " + f.msg); }
	if (a->k == 0) { l.dead = true; w->cur.erase(it); }
}
static void enroll(Rng &r, World &w, ccs_object_t o) {
	if (w.cur.count(o)) return;
	int id = w.life.size(); w.life.emplace_back(); Life &l = w.life.back(); l.id = id; OK(ccs_object_get_type(o, &l.type)); l.ncb = r.range(1, 3);
	for (int k = 0; k < l.ncb; k++) { w.args.emplace_back(new CbArg{&w, id, k}); OK(ccs_object_set_destroy_callback(o, on_destroy, w.args.back().get())); }
	w.cur[o] = id; ev("enrolled");
}
static void check(Rng &r, World &w, const char *when) {
	for (auto &p : w.problems) fail("callback", "%s: %s", when, p.c_str());
	// what the caller's references keep alive
	std::set<ccs_object_t> seen; std::vector<ccs_object_t> todo; for (auto &x : w.refs) if (x.second > 0) todo.push_back(x.first);
	while (!todo.empty()) {
		ccs_object_t o = todo.back(); todo.pop_back(); if (!seen.insert(o).second) continue;
		if (!w.cur.count(o)) { for (auto &l : w.life) (void)l; enroll(r, w, o); }
		CHECK(refcount(o) > 0, "dead-reachable", "%s: a referenced object has %d references", when, refcount(o)); held_by(o, todo);
	}
	for (auto &x : w.refs) if (x.second > 0) CHECK(w.cur.count(x.first), "destroyed-early", "%s: an object of type %d the caller holds %d references on was destroyed", when, 0, x.second);
	for (auto &x : w.cur) CHECK(seen.count(x.first), sfmt("not-destroyed:%d", (int)w.life[x.second].type), "%s: an object of type %d nobody refers to is still alive with %d references", when, (int)w.life[x.second].type, refcount(x.first));
	for (auto &l : w.life) {
		if (!l.dead) CHECK(l.fired.empty(), "early-callback", "%s: destroy callback of a live object ran", when);
		else { CHECK((int)l.fired.size() == l.ncb, "callback-count", "%s: %zu of %d destroy callbacks ran", when, l.fired.size(), l.ncb); for (int k = 0; k < l.ncb; k++) CHECK(l.fired[k] == l.ncb - 1 - k, "callback-order", "%s: destroy callbacks ran in the wrong order", when); }
	}
	ev("checked.objects", seen.size());
}
static ccs_object_t some(Rng &r, World &w) { std::vector<ccs_object_t> v; for (auto &x : w.refs) if (x.second > 0) v.push_back(x.first); return v.empty() ? NULL : r.pick(v); }
static void take(World &w, void *o) { w.refs[(ccs_object_t)o]++; }
static void drop(World &w, ccs_object_t o) { if (--w.refs[o] == 0) w.refs.erase(o); OK(ccs_release_object(o)); }
// an operation that moves references around
template <class T> static T held(Rng &r, World &w, ccs_object_type_t t) { std::vector<ccs_object_t> v; for (auto &x : w.refs) if (x.second > 0) { ccs_object_type_t y; OK(ccs_object_get_type(x.first, &y)); if (y == t) v.push_back(x.first); } return v.empty() ? NULL : (T)r.pick(v); }
static const char *act(Rng &r, World &w) {
	ccs_object_t o = some(r, w); if (!o) return "nothing"; ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); Bag tmp;
	switch (t) {
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: {
		auto cs = (ccs_configuration_space_t)o; size_t n; OK(ccs_configuration_space_get_num_parameters(cs, &n)); int k = r.below(9);
		if (k == 0) { OK(ccs_configuration_space_set_rng(cs, mk_rng(r, tmp))); return "set generator"; }
		if (k == 5) { ccs_rng_t g = held<ccs_rng_t>(r, w, CCS_OBJECT_TYPE_RNG); if (!g || r.below(2)) OK(ccs_configuration_space_get_rng(cs, &g)); OK(ccs_configuration_space_set_rng(cs, g)); ev("set-again"); return "set a generator already held"; }
		if (k == 6 && n) { size_t i = r.below(n), j; ccs_distribution_t d, e = held<ccs_distribution_t>(r, w, CCS_OBJECT_TYPE_DISTRIBUTION); OK(ccs_configuration_space_get_parameter_distribution(cs, i, &d, &j)); if (e && r.below(2)) d = e; size_t dim; OK(ccs_distribution_get_dimension(d, &dim)); std::vector<size_t> ix; for (size_t q = 0; q < dim; q++) ix.push_back(r.chance(1, 8) ? r.below(n + 1) : (i + q) % n); EX(ccs_configuration_space_set_distribution(cs, d, ix.data())); ev("set-again"); return "set a distribution already held"; }
		if (k == 7) { ccs_parameter_t p = r.below(3) ? NULL : held<ccs_parameter_t>(r, w, CCS_OBJECT_TYPE_PARAMETER); bool own = !p; if (own) OK(ccs_create_numerical_parameter(sfmt("x%d", (int)r.below(6)).c_str(), CCS_NUMERIC_TYPE_INT, CCSI(0), CCSI(9), CCSI(0), CCSI(1), &p)); EX(ccs_configuration_space_add_parameter(cs, p, r.below(2) ? held<ccs_distribution_t>(r, w, CCS_OBJECT_TYPE_DISTRIBUTION) : NULL)); if (own) { if (r.below(2)) take(w, p); else ccs_release_object(p); } return "add parameter"; }
		if (k == 8) { ccs_expression_t e = held<ccs_expression_t>(r, w, CCS_OBJECT_TYPE_EXPRESSION); if (!e) return "nothing"; if (r.below(2)) EX(ccs_configuration_space_set_condition(cs, r.below(n + 1), e)); else EX(ccs_configuration_space_add_forbidden_clause(cs, e)); ev("constrain"); return "constrain"; }
		if (k == 1 && n) { size_t i = r.below(n); ccs_parameter_t p; OK(ccs_configuration_space_get_parameter(cs, i, &p)); ccs_distribution_t d; if (EX(ccs_parameter_get_default_distribution(p, &d))) { EX(ccs_configuration_space_set_distribution(cs, d, &i)); if (r.below(2)) take(w, d); else ccs_release_object(d); } return "set distribution"; }
		if (k == 2) { ccs_configuration_t c = NULL; if (EX(ccs_configuration_space_sample(cs, &c))) take(w, c); return "sample"; }
		if (k == 3) { std::vector<ccs_configuration_t> v(3, NULL); EX(ccs_configuration_space_samples(cs, 3, v.data())); for (auto c : v) if (c) take(w, c); return "samples"; }
		ccs_configuration_t c; if (EX(ccs_configuration_space_get_default_configuration(cs, &c))) take(w, c); return "default"; }
	case CCS_OBJECT_TYPE_PARAMETER: { ccs_distribution_t d; if (EX(ccs_parameter_get_default_distribution((ccs_parameter_t)o, &d))) take(w, d); ccs_expression_t e; OK(ccs_create_variable((ccs_parameter_t)o, &e)); take(w, e); return "use parameter"; }
	case CCS_OBJECT_TYPE_DISTRIBUTION: { ccs_distribution_t a[2] = {(ccs_distribution_t)o, (ccs_distribution_t)o}, m = NULL; if (r.below(2)) { if (EX(ccs_create_multivariate_distribution(2, a, &m))) take(w, m); } else { ccs_float_t wt[2] = {1, 2}; if (EX(ccs_create_mixture_distribution(2, a, wt, &m))) take(w, m); } return "combine distribution"; }
	case CCS_OBJECT_TYPE_EXPRESSION: { ccs_expression_t e = NULL; if (EX(ccs_create_unary_expression(CCS_EXPRESSION_TYPE_NOT, ccs_object(o), &e))) take(w, e); e = NULL; ccs_datum_t a = r.below(2) ? ccs_object(o) : ccs_int(1), b = r.below(3) ? ccs_object(o) : ccs_none; if (r.chance(1, 3)) b = ccs_object(NULL); if (EX(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_OR, a, b, &e))) take(w, e); return "build on expression"; }
	case CCS_OBJECT_TYPE_OBJECTIVE_SPACE: { auto os = (ccs_objective_space_t)o; if (r.below(2)) { ccs_parameter_t p = held<ccs_parameter_t>(r, w, CCS_OBJECT_TYPE_PARAMETER); if (p) EX(ccs_objective_space_add_parameter(os, p)); return "add parameter"; } ccs_expression_t e = held<ccs_expression_t>(r, w, CCS_OBJECT_TYPE_EXPRESSION); if (e) EX(ccs_objective_space_add_objective(os, e, r.below(2) ? CCS_OBJECTIVE_TYPE_MINIMIZE : CCS_OBJECTIVE_TYPE_MAXIMIZE)); return "add objective"; }
	case CCS_OBJECT_TYPE_FEATURES_SPACE: { ccs_parameter_t p = held<ccs_parameter_t>(r, w, CCS_OBJECT_TYPE_PARAMETER); if (p) EX(ccs_features_space_add_parameter((ccs_features_space_t)o, p)); return "add parameter"; }
	case CCS_OBJECT_TYPE_TREE_SPACE: { if (r.below(4) == 0) { ccs_rng_t g = held<ccs_rng_t>(r, w, CCS_OBJECT_TYPE_RNG); if (!g || r.below(2)) OK(ccs_tree_space_get_rng((ccs_tree_space_t)o, &g)); OK(ccs_tree_space_set_rng((ccs_tree_space_t)o, g)); ev("set-again"); return "set a generator already held"; } if (r.below(3) == 0) { OK(ccs_tree_space_set_rng((ccs_tree_space_t)o, mk_rng(r, tmp))); return "set generator"; } std::vector<ccs_tree_configuration_t> v(2, NULL); EX(ccs_tree_space_samples((ccs_tree_space_t)o, 2, v.data())); for (auto c : v) if (c) { take(w, c); ccs_bool_t b; EX(ccs_tree_configuration_check(c, &b)); } return "samples"; }
	case CCS_OBJECT_TYPE_TREE: { ccs_tree_t c; if (r.below(3) == 0) { c = held<ccs_tree_t>(r, w, CCS_OBJECT_TYPE_TREE); size_t n; OK(ccs_tree_get_arity((ccs_tree_t)o, &n)); EX(ccs_tree_set_child((ccs_tree_t)o, r.below(n + 1), c)); return "set a child already held"; } OK(ccs_create_tree(r.below(3), ccs_int(7), &c)); size_t n; OK(ccs_tree_get_arity((ccs_tree_t)o, &n)); EX(ccs_tree_set_child((ccs_tree_t)o, r.below(n + 2), c)); if (r.below(2)) take(w, c); else ccs_release_object(c); return "set child"; }
	case CCS_OBJECT_TYPE_TUNER: { auto u = (ccs_tuner_t)o; int k = r.below(3); if (k == 0) { std::vector<ccs_configuration_t> v(2, NULL); EX(ccs_tuner_ask(u, 2, v.data(), NULL)); for (auto c : v) if (c) take(w, c); return "ask"; } if (k == 1) { ccs_configuration_t c = NULL; if (EX(ccs_tuner_suggest(u, &c))) take(w, c); return "suggest"; }
		ccs_objective_space_t os; ccs_configuration_space_t cs; OK(ccs_tuner_get_objective_space(u, &os)); OK(ccs_tuner_get_configuration_space(u, &cs)); ccs_configuration_t c = NULL; if (!EX(ccs_configuration_space_get_default_configuration(cs, &c))) return "nothing"; size_t n; OK(ccs_objective_space_get_num_parameters(os, &n)); DV v; for (size_t i = 0; i < n; i++) { ccs_parameter_t p; ccs_datum_t d; OK(ccs_objective_space_get_parameter(os, i, &p)); OK(ccs_parameter_get_default_value(p, &d)); v.push_back(d); }
		ccs_evaluation_t e = NULL; EX(ccs_create_evaluation(os, c, r.below(3) ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_SYSTEM, n, v.data(), &e)); if (r.below(2)) take(w, c); else ccs_release_object(c); if (e) { EX(ccs_tuner_tell(u, 1, &e)); if (r.below(2)) take(w, e); else ccs_release_object(e); } return "tell"; }
	case CCS_OBJECT_TYPE_FEATURES_TUNER: { auto u = (ccs_features_tuner_t)o; size_t n = 0; OK(ccs_features_tuner_get_history(u, NULL, 0, NULL, &n)); if (!n) return "nothing"; std::vector<ccs_features_evaluation_t> h(n); OK(ccs_features_tuner_get_history(u, NULL, n, h.data(), NULL)); ccs_features_t f; OK(ccs_features_evaluation_get_features(h[0], &f)); if (r.below(2)) { std::vector<ccs_configuration_t> v(2, NULL); EX(ccs_features_tuner_ask(u, f, 2, v.data(), NULL)); for (auto c : v) if (c) take(w, c); } else EX(ccs_features_tuner_tell(u, 1, &h[r.below(n)])); return "features tuner"; }
	case CCS_OBJECT_TYPE_TREE_TUNER: { auto u = (ccs_tree_tuner_t)o; ccs_tree_configuration_t c = NULL; if (EX(ccs_tree_tuner_suggest(u, &c))) take(w, c); std::vector<ccs_tree_configuration_t> v(2, NULL); EX(ccs_tree_tuner_ask(u, 2, v.data(), NULL)); for (auto x : v) if (x) take(w, x); return "tree tuner"; }
	case CCS_OBJECT_TYPE_MAP: { auto m = (ccs_map_t)o; ccs_object_t x = some(r, w); ccs_object_type_t xt; OK(ccs_object_get_type(x, &xt)); if (xt == CCS_OBJECT_TYPE_MAP) return "nothing"; ccs_datum_t k = ccs_int(r.below(4)); int q = r.below(7); if (q == 4) { ccs_datum_t v; ccs_bool_t f; OK(ccs_map_exist(m, k, &f)); if (f) { OK(ccs_map_get(m, k, &v)); OK(ccs_map_set(m, k, v)); ev("set-again"); } return "map set the same value"; } if (q == 5) { OK(ccs_map_set(m, ccs_object(x), ccs_object(x))); return "map object to itself"; } if (q == 6) { if (r.below(3)) EX(ccs_map_del(m, ccs_object(x))); else OK(ccs_map_clear(m)); return "map removal"; } if (q < 2) OK(ccs_map_set(m, k, ccs_object(x))); else if (q == 2) EX(ccs_map_del(m, k)); else OK(ccs_map_set(m, ccs_object(x), k)); return "map"; }
	default: { void *u = NULL; OK(ccs_object_get_user_data(o, &u)); OK(ccs_object_set_user_data(o, &w)); return "user data"; }
	}
}
void run_case(Rng &r, uint64_t idx) {
	ud_reset(); World w; w.deep = r.below(2); Bag bag; ZOpt zo; zo.small = true; ZObj z = zoo(r, idx % Z_COUNT, bag, zo); desc(sfmt("%s %s", zname[z.kind], z.info.substr(0, 100).c_str()));
	std::vector<UD *> uds; if (z.ud) uds.push_back(z.ud);
	if (r.chance(1, 3)) { ccs_map_t m; OK(ccs_create_map(&m)); bag.own(m); OK(ccs_map_set(m, ccs_int(0), ccs_object(z.o))); }
	if (r.chance(1, 3)) { auto b = ser(z.o); Bag nb; UD *u = NULL; zoo_reload_ok(z, b, nb, &u); if (u) uds.push_back(u); for (auto x : nb.v) bag.v.push_back(x); nb.v.clear(); ev("with-reloaded"); } // the handle map keeps references too
	uint64_t h = idx; for (auto o : bag.v) w.refs[o]++; bag.v.clear();
	struct Guard { World &w; ~Guard() { for (auto &x : w.refs) while (x.second-- > 0) ccs_release_object(x.first); } } guard{w};
	for (auto u : uds) for (const char *s : {"get_history", "get_optima", "serialize", "serialize_size", "ask", "tell", "suggest", "deserialize", "get_child"}) u->silent.insert(s);
	check(r, w, "at the start");
	int busy = r.range(0, 24); // operations before the releases prevail
	while (!w.refs.empty()) {
		if (r.chance(1, 25)) { // an error stack is an object like the others
			ccs_clear_thread_error(); ccs_result_t e = ccs_retain_object(NULL); CHECK(e, "accepted", "NULL retained"); ccs_error_stack_t s = ccs_get_thread_error(); CHECK(s, "no-error-stack", "no error stack after a refused call"); take(w, s); ev("error-stack"); check(r, w, "error stack");
			int q = r.below(3);
			if (q == 0) { OK(ccs_set_thread_error(s)); w.refs.erase((ccs_object_t)s); if (r.below(2)) { ccs_result_t f = ccs_retain_object(NULL); CHECK(f, "accepted", "NULL retained"); } ccs_clear_thread_error(); ev("error-stack.given-back"); }
			if (q == 1) { OK(ccs_retain_object(s)); OK(ccs_set_thread_error(s)); if (r.below(2)) { ccs_result_t f = ccs_retain_object(NULL); CHECK(f, "accepted", "NULL retained"); } ccs_clear_thread_error(); ev("error-stack.shared"); }
			check(r, w, "error stack"); }
		int k = r.below(10); const char *what = "release"; if (busy > 0) { busy--; k = r.below(4); if (k == 3 && r.below(3)) k = 0; }
		if (k < 2 && w.life.size() < 150) { what = act(r, w); ccs_clear_thread_error(); ev("operation"); }
		else if (k == 2) { ccs_object_t o = some(r, w); if (r.below(2)) { std::vector<ccs_object_t> h; held_by(o, h); if (!h.empty()) { o = r.pick(h); ev("retain.inner"); } } OK(ccs_retain_object(o)); w.refs[o]++; what = "retain"; ev("retain"); }
		else if (k == 3) { // drop all references of one object at once
			ccs_object_t o = some(r, w); int n = w.refs[o]; while (n--) { drop(w, o); ev("release"); } what = "release all"; }
		else { int n = r.chance(1, 3) ? r.range(2, 6) : 1; while (n-- && !w.refs.empty()) { drop(w, some(r, w)); ev("release"); } }
		note("%s", what); h = mix64(h, k); check(r, w, what);
	}
	for (auto &l : w.life) CHECK(l.dead, "not-destroyed", "an object of type %d outlived every reference", (int)l.type);
	for (auto u : uds) CHECK(u->dels == 1 && !u->after_del && u->hist.empty(), "user-deletion", "user data deleted %d times", u->dels);
	sig(mix64(h, w.life.size())); ev("destroyed", w.life.size());
}
