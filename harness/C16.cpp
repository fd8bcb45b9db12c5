// C16: equality, ordering and hashing of bindings and tree configurations.
#include "zoo.hpp"
const char *PROP = "C16";
uint64_t num_cases(bool th) { return th ? 300000 : 40000; }
bool ledger_check() { return true; }
void prop_init() {}

enum { CONF, FEAT, EVAL, FEVAL, TCONF, TEVAL, NK };
static const char *kname[] = {"configuration", "features", "evaluation", "features evaluation", "tree configuration", "tree evaluation"};
static int cmp_of(int k, ccs_object_t a, ccs_object_t b, int way) {
	int c = 12345; ccs_result_t e;
	if (way && k != TCONF) e = ccs_binding_cmp((ccs_binding_t)a, (ccs_binding_t)b, &c);
	else switch (k) {
	case CONF: e = ccs_configuration_cmp((ccs_configuration_t)a, (ccs_configuration_t)b, &c); break;
	case FEAT: e = ccs_features_cmp((ccs_features_t)a, (ccs_features_t)b, &c); break;
	case EVAL: e = ccs_evaluation_cmp((ccs_evaluation_t)a, (ccs_evaluation_t)b, &c); break;
	case FEVAL: e = ccs_features_evaluation_cmp((ccs_features_evaluation_t)a, (ccs_features_evaluation_t)b, &c); break;
	case TCONF: e = ccs_tree_configuration_cmp((ccs_tree_configuration_t)a, (ccs_tree_configuration_t)b, &c); break;
	default: e = ccs_tree_evaluation_cmp((ccs_tree_evaluation_t)a, (ccs_tree_evaluation_t)b, &c); break;
	}
	OK(e); return c < 0 ? -1 : c > 0 ? 1 : 0;
}
static ccs_hash_t hash_of(int k, ccs_object_t a, int way) {
	ccs_hash_t h = 0; ccs_result_t e;
	if (way && k != TCONF) e = ccs_binding_hash((ccs_binding_t)a, &h);
	else switch (k) {
	case CONF: e = ccs_configuration_hash((ccs_configuration_t)a, &h); break;
	case FEAT: e = ccs_features_hash((ccs_features_t)a, &h); break;
	case EVAL: e = ccs_evaluation_hash((ccs_evaluation_t)a, &h); break;
	case FEVAL: e = ccs_features_evaluation_hash((ccs_features_evaluation_t)a, &h); break;
	case TCONF: e = ccs_tree_configuration_hash((ccs_tree_configuration_t)a, &h); break;
	default: e = ccs_tree_evaluation_hash((ccs_tree_evaluation_t)a, &h); break;
	}
	OK(e); return h;
}
// what an object holds; nested parts by content
struct Content {
	int space = 0; DV v; int res = 0; std::vector<size_t> pos; std::shared_ptr<Content> conf, feat;
	bool operator==(const Content &o) const {
		if (space != o.space || res != o.res || pos != o.pos || v.size() != o.v.size()) return false;
		for (size_t i = 0; i < v.size(); i++) if (!veq(v[i], o.v[i])) return false;
		if (conf && !(*conf == *o.conf)) return false;
		if (feat && !(*feat == *o.feat)) return false;
		return true;
	}
	// apart from the sign of a zero or the payload of a NaN, where equality is not specified
	static bool loose(const ccs_datum_t &a, const ccs_datum_t &b) { return veq(a, b) || (a.type == CCS_DATA_TYPE_FLOAT && b.type == CCS_DATA_TYPE_FLOAT && ((a.value.f == 0 && b.value.f == 0) || (std::isnan(a.value.f) && std::isnan(b.value.f)))); }
	bool open_to(const Content &o) const {
		if (space != o.space || res != o.res || pos != o.pos || v.size() != o.v.size()) return false;
		for (size_t i = 0; i < v.size(); i++) if (!loose(v[i], o.v[i])) return false;
		return (!conf || conf->open_to(*o.conf)) && (!feat || feat->open_to(*o.feat));
	}
	std::string str() const { std::string s = sfmt("{s%d r%d ", space, res); for (auto &d : v) s += dtos(d) + ","; for (size_t x : pos) s += sfmt("%zu.", x); if (conf) s += conf->str(); if (feat) s += feat->str(); return s + "}"; }
};
struct World { Bag bag; std::vector<CSModel> cs; std::vector<FSModel> fs; std::vector<OSModel> os; std::vector<ccs_tree_space_t> ts; std::map<int, std::vector<std::vector<DV>>> pool; std::vector<std::vector<size_t>> posv; };
static const std::vector<PModel> &params(World &w, int k, int space) { return k == CONF ? w.cs[space].ps : k == FEAT ? w.fs[space].ps : w.os[space].ps; }
static ccs_datum_t rv(Rng &r, const PModel &p) {
	ccs_datum_t d = r.chance(1, 10) ? (r.below(2) ? ccs_inactive : ccs_none) : r.chance(1, 8) ? gen_scalar(r) : p.in(r);
	if (r.chance(1, 15)) d = ccs_float(r.pick<double>({0.0, -0.0, NAN, -NAN, INFINITY, -INFINITY}));
	if (d.type == CCS_DATA_TYPE_STRING) d = dstr(d.value.s);
	return d;
}
static std::shared_ptr<Content> gen(Rng &r, World &w, int k, const Content *like) {
	auto c = std::make_shared<Content>(); if (like) *c = *like; else c->space = r.chance(1, 6) ? 1 : 0;
	if (k == TCONF) { if (!like || r.below(2)) c->pos = r.pick(w.posv); else if (!c->pos.empty()) c->pos[r.below(c->pos.size())] = r.below(3); else c->pos.push_back(0); if (r.chance(1, 4)) c->pos.push_back(r.below(3)); return c; }
	auto &ps = params(w, k, c->space);
	if (!like) for (auto &p : ps) c->v.push_back(rv(r, p));
	else if (!ps.empty() && r.chance(3, 4)) { size_t i = r.below(ps.size()); bool f = c->v[i].type == CCS_DATA_TYPE_FLOAT && (c->v[i].value.f == 0 || std::isnan(c->v[i].value.f)); c->v[i] = f && r.below(2) ? ccs_float(-c->v[i].value.f) : rv(r, ps[i]); }
	if (k == EVAL || k == FEVAL || k == TEVAL) {
		if (!like || r.chance(1, 4)) c->res = r.chance(2, 3) ? 0 : r.pick({1, -1, 5});
		int ck = k == TEVAL ? TCONF : CONF;
		if (!like) c->conf = gen(r, w, ck, nullptr); else if (r.chance(1, 3)) c->conf = gen(r, w, ck, like->conf.get());
		if (k == FEVAL) { if (!like) c->feat = gen(r, w, FEAT, nullptr); else if (r.chance(1, 3)) c->feat = gen(r, w, FEAT, like->feat.get()); }
	}
	return c;
}
static void set_values(Rng &r, World &w, int k, ccs_object_t o, const Content &c) { // one value at a time, by every route
	auto &ps = params(w, k, c.space); std::vector<size_t> ord; for (size_t i = 0; i < ps.size(); i++) ord.push_back(i); r.shuffle(ord);
	std::vector<std::unique_ptr<char[]>> st;
	if (r.chance(1, 4) && ps.size()) { DV v = c.v; OK(ccs_binding_set_values((ccs_binding_t)o, v.size(), v.data())); return; }
	for (size_t i : ord) {
		ccs_datum_t d = c.v[i]; if (r.below(2) && ps[i].accepts(d)) d = transient_copy(d, st);
		switch (r.below(4)) {
		case 0: OK(ccs_binding_set_value((ccs_binding_t)o, i, d)); break;
		case 1: OK(ccs_binding_set_value_by_name((ccs_binding_t)o, ps[i].name.c_str(), d)); break;
		case 2: OK(ccs_binding_set_value_by_parameter((ccs_binding_t)o, ps[i].p, d)); break;
		default: OK(k == CONF ? ccs_configuration_set_value((ccs_configuration_t)o, i, d) : k == FEAT ? ccs_features_set_value((ccs_features_t)o, i, d) : k == EVAL ? ccs_evaluation_set_value((ccs_evaluation_t)o, i, d)
			: k == FEVAL ? ccs_features_evaluation_set_value((ccs_features_evaluation_t)o, i, d) : ccs_tree_evaluation_set_value((ccs_tree_evaluation_t)o, i, d));
		}
	}
}
static ccs_object_t make(Rng &r, World &w, int k, const Content &c) {
	ccs_object_t o = NULL; std::vector<std::unique_ptr<char[]>> st;
	if (k == TCONF) { OK(ccs_create_tree_configuration(w.ts[c.space], c.pos.size(), c.pos.data(), (ccs_tree_configuration_t *)&o)); w.bag.own(o); }
	else {
		auto &ps = params(w, k, c.space); bool later = r.below(2); DV v;
		for (size_t i = 0; i < ps.size(); i++) { ccs_datum_t d = c.v[i]; if (later) { d = ps[i].in(r); } if (r.below(2) && ps[i].accepts(d)) d = transient_copy(d, st); v.push_back(d); }
		ccs_object_t cf = c.conf ? make(r, w, k == TEVAL ? TCONF : CONF, *c.conf) : NULL, f = c.feat ? make(r, w, FEAT, *c.feat) : NULL; size_t n = v.size(); int res = later && r.below(2) ? 7 : c.res;
		switch (k) {
		case CONF: if (later && r.below(2)) OK(ccs_configuration_space_get_default_configuration(w.cs[c.space].cs, (ccs_configuration_t *)&o)); else OK(ccs_create_configuration(w.cs[c.space].cs, n, v.data(), (ccs_configuration_t *)&o)); break;
		case FEAT: OK(ccs_create_features(w.fs[c.space].fs, n, v.data(), (ccs_features_t *)&o)); break;
		case EVAL: OK(ccs_create_evaluation(w.os[c.space].os, (ccs_configuration_t)cf, (ccs_evaluation_result_t)res, n, v.data(), (ccs_evaluation_t *)&o)); break;
		case FEVAL: OK(ccs_create_features_evaluation(w.os[c.space].os, (ccs_configuration_t)cf, (ccs_features_t)f, (ccs_evaluation_result_t)res, n, v.data(), (ccs_features_evaluation_t *)&o)); break;
		case TEVAL: OK(ccs_create_tree_evaluation(w.os[c.space].os, (ccs_tree_configuration_t)cf, (ccs_evaluation_result_t)res, n, v.data(), (ccs_tree_evaluation_t *)&o)); break;
		}
		w.bag.own(o);
		if (later) { set_values(r, w, k, o, c); ev("produced.by-setting"); } else ev("produced.whole");
		if (res != c.res && k >= EVAL) OK(k == EVAL ? ccs_evaluation_set_result((ccs_evaluation_t)o, (ccs_evaluation_result_t)c.res) : k == FEVAL ? ccs_features_evaluation_set_result((ccs_features_evaluation_t)o, (ccs_evaluation_result_t)c.res) : ccs_tree_evaluation_set_result((ccs_tree_evaluation_t)o, (ccs_evaluation_result_t)c.res));
	}
	bool back = true; // a string the parameter does not know has no owner after reloading and is refused
	std::function<void(int, const Content &)> chk = [&](int kk, const Content &x) { for (size_t i = 0; i < x.v.size(); i++) if (x.v[i].type == CCS_DATA_TYPE_STRING && !params(w, kk, x.space)[i].accepts(x.v[i])) back = false; if (x.conf) chk(kk == TEVAL ? TCONF : CONF, *x.conf); if (x.feat) chk(FEAT, *x.feat); };
	chk(k, c);
	if (back && r.chance(1, 4)) { // through its saved form, in the same spaces
		auto b = ser(o); ccs_map_t m; OK(ccs_create_map(&m)); auto put = [&](ccs_object_t s) { ccs_datum_t id = ccs_object(s); id.flags = CCS_DATUM_FLAG_ID; OK(ccs_map_set(m, id, ccs_object(s))); };
		for (auto &x : w.cs) put(x.cs); for (auto &x : w.fs) put(x.fs); for (auto &x : w.os) put(x.os); for (auto x : w.ts) put(x);
		o = w.bag.own(deser(b, m)); OK(ccs_release_object(m)); ev("produced.reloaded");
	}
	return o;
}
// a definition twice, as two distinct spaces
template <class F> static void twice(Rng &r, F f) { Rng s = r; f(s); Rng t = r; f(t); r.next(); r = t; }
void run_case(Rng &r, uint64_t idx) {
	ud_reset(); World w; int k = idx % NK; POpt po;
	CSOpt co; co.maxp = 5; co.safe = true;
	twice(r, [&](Rng &q) { w.cs.push_back(gen_cs(q, "cs", w.bag, co)); });
	twice(r, [&](Rng &q) { w.fs.push_back(gen_fs(q, "fs", w.bag, 3)); });
	twice(r, [&](Rng &q) { w.os.push_back(gen_os(q, "os", w.bag, false, 2)); });
	twice(r, [&](Rng &q) { TP t = gen_tree(q, w.bag, 3, 3, false); ccs_tree_space_t s; OK(ccs_create_static_tree_space("ts", t->t, &s)); w.ts.push_back(w.bag.own(s)); });
	for (int i = 0; i < 4; i++) { std::vector<size_t> p; int n = r.below(4); for (int j = 0; j < n; j++) p.push_back(r.chance(1, 5) ? r.pick<size_t>({127, 128, 129, 255, 256, 257, 1ull << 31, 1ull << 32, (1ull << 32) + 1, SIZE_MAX, SIZE_MAX - 1}) : r.below(3)); w.posv.push_back(p); }
	struct O { std::shared_ptr<Content> c; ccs_object_t o; ccs_hash_t h; };
	std::vector<O> os; int n = r.range(4, 9);
	for (int i = 0; i < n; i++) {
		std::shared_ptr<Content> c;
		if (!os.empty() && r.chance(1, 3)) c = r.pick(os).c; else c = gen(r, w, k, !os.empty() && r.below(2) ? r.pick(os).c.get() : nullptr);
		os.push_back({c, make(r, w, k, *c), 0});
	}
	for (auto &x : os) { x.h = hash_of(k, x.o, 0); CHECK(hash_of(k, x.o, 1) == x.h, "hash-route", "%s: hash differs between entry points", kname[k]); }
	std::vector<std::vector<int>> M(n, std::vector<int>(n));
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		M[i][j] = cmp_of(k, os[i].o, os[j].o, 0); int b = cmp_of(k, os[i].o, os[j].o, 1); CHECK(b == M[i][j], "cmp-route", "%s: comparison differs between entry points", kname[k]);
		bool eq = *os[i].c == *os[j].c;
		if (!eq && os[i].c->open_to(*os[j].c)) { if (M[i][j] == 0) CHECK(os[i].h == os[j].h, "hash-equal", "%s: objects comparing equal hash to %u and %u: %s", kname[k], os[i].h, os[j].h, os[i].c->str().c_str()); ev("zeros-or-nans"); continue; }
		CHECK((M[i][j] == 0) == eq, "equality", "%s: %s and %s compare %d", kname[k], os[i].c->str().c_str(), os[j].c->str().c_str(), M[i][j]);
		if (eq) CHECK(os[i].h == os[j].h, "hash-equal", "%s: equal objects hash to %u and %u: %s", kname[k], os[i].h, os[j].h, os[i].c->str().c_str());
		if (i != j) ev(eq ? "equal" : os[i].c->space != os[j].c->space ? "different.space" : "different");
	}
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		CHECK(M[i][j] == -M[j][i], "antisymmetry", "%s: %s and %s compare %d and %d", kname[k], os[i].c->str().c_str(), os[j].c->str().c_str(), M[i][j], M[j][i]);
		for (int l = 0; l < n; l++) if (M[i][j] <= 0 && M[j][l] <= 0) { CHECK(M[i][l] <= 0, "transitivity", "%s: %s <= %s <= %s but compares %d", kname[k], os[i].c->str().c_str(), os[j].c->str().c_str(), os[l].c->str().c_str(), M[i][l]); ev("transitivity"); }
	}
	// every part matters to the hash: at least one of several changes of that part alone changes it
	O &x = os[r.below(os.size())]; auto moves = [&](const char *part, std::function<bool(Content &)> change) {
		int tried = 0, same = 0; for (int i = 0; i < 12 && tried < 4; i++) { Content c = *x.c; if (!change(c) || c.open_to(*x.c)) continue; tried++; if (hash_of(k, make(r, w, k, c), 0) == x.h) same++; }
		if (tried >= 4) { CHECK(same < tried, "hash-part", "%s: hash does not depend on %s: %s", kname[k], part, x.c->str().c_str()); ev("hash.part"); }
	};
	for (size_t i = 0; i < x.c->v.size(); i++) moves("a value", [&](Content &c) { c.v[i] = r.below(2) ? gen_scalar(r) : rv(r, params(w, k, c.space)[i]); return true; });
	for (size_t i = 0; i < x.c->pos.size(); i++) moves("a step", [&](Content &c) { c.pos[i] = r.below(50); return true; });
	if (k == TCONF) moves("the depth", [&](Content &c) { for (int q = r.range(1, 4); q--;) c.pos.push_back(0); return true; });
	if (k == EVAL || k == FEVAL || k == TEVAL) {
		moves("the result", [&](Content &c) { c.res = r.range(-20, 20); return true; });
		moves("the configuration", [&](Content &c) { c.conf = gen(r, w, k == TEVAL ? TCONF : CONF, nullptr); return true; });
		if (k == FEVAL) moves("the features", [&](Content &c) { c.feat = gen(r, w, FEAT, nullptr); return true; });
	}
	{ // hashing does not change anything, and content changes take effect at once
		if (k != TCONF && k != TEVAL && x.c->v.size()) {
			auto c = gen(r, w, k, x.c.get()); c->space = x.c->space; c->res = x.c->res; c->conf = x.c->conf; c->feat = x.c->feat; DV v = c->v; OK(ccs_binding_set_values((ccs_binding_t)x.o, v.size(), v.data()));
			Content old = *x.c; x.c = c; for (auto &y : os) { int b = cmp_of(k, x.o, y.o, r.below(2)); if (!(*x.c == *y.c) && x.c->open_to(*y.c)) continue; CHECK((b == 0) == (*x.c == *y.c), "equality-changed", "%s: after a change %s and %s compare %d", kname[k], x.c->str().c_str(), y.c->str().c_str(), b); }
			ccs_object_t f = make(r, w, k, *c); CHECK(hash_of(k, f, 0) == hash_of(k, x.o, 0), "hash-changed", "%s: hash after a change differs from that of an equal object", kname[k]); ev("changed");
		}
	}
	if (k != TCONF && r.chance(1, 3)) { // bindings of several kinds, over the same space and values where possible
		std::vector<ccs_binding_t> bs; std::vector<int> ks; auto put = [&](int kk, const Content &c) { bs.push_back((ccs_binding_t)make(r, w, kk, c)); ks.push_back(kk); };
		auto e = gen(r, w, FEVAL, nullptr), t = gen(r, w, TEVAL, nullptr); t->space = e->space; t->v = e->v; t->res = e->res; Content pe = *e; pe.feat = nullptr;
		put(EVAL, pe); put(FEVAL, *e); put(TEVAL, *t); put(CONF, *e->conf); put(FEAT, *e->feat); r.shuffle(bs); ks.clear();
		for (auto b : bs) { ccs_object_type_t ty; OK(ccs_object_get_type((ccs_object_t)b, &ty)); ks.push_back(ty); }
		int m[5][5]; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { int c = 12345; OK(ccs_binding_cmp(bs[i], bs[j], &c)); m[i][j] = c < 0 ? -1 : c > 0; CHECK((i == j) == (m[i][j] == 0), "kinds-equal", "bindings of types %d and %d compare %d", ks[i], ks[j], c); }
		for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { CHECK(m[i][j] == -m[j][i], "kinds-antisymmetry", "bindings of types %d and %d compare %d and %d", ks[i], ks[j], m[i][j], m[j][i]); for (int l = 0; l < 5; l++) if (m[i][j] <= 0 && m[j][l] <= 0) CHECK(m[i][l] <= 0, "kinds-transitivity", "bindings of types %d, %d, %d are not ordered transitively", ks[i], ks[j], ks[l]); }
		ev("kinds.compared");
	}
	std::string d = kname[k]; for (auto &y : os) d += " " + y.c->str(); desc(d); sig(hash_str(d));
}
