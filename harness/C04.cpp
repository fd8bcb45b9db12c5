// C04: damaged and truncated streams are handled safely.
#include "exercise.hpp"
#include <unistd.h>
#include <fcntl.h>
const char *PROP = "C04";
uint64_t num_cases(bool t) { return t ? 300000 : 13800; }
bool ledger_check() { return true; }
void prop_init() {}

typedef std::vector<char> Bytes;
struct Watch { // objects that existed before and must stay as they were
	std::vector<ccs_object_t> o; std::vector<std::string> d; std::vector<int> rc;
	void add(ccs_object_t x) { o.push_back(x); dump(x); d.push_back(dump(x)); rc.push_back(refcount(x)); }
	void retake() { for (size_t i = 0; i < o.size(); i++) { d[i] = dump(o[i]); rc[i] = refcount(o[i]); } }
	void check(const char *when) { for (size_t i = 0; i < o.size(); i++) { CHECK(refcount(o[i]) == rc[i], "bystander-refcount", "%s: an existing object went from %d to %d references", when, rc[i], refcount(o[i])); CHECK(dump(o[i]) == d[i], "bystander-changed", "%s: an existing object changed", when); } }
};
static Bytes mutate(Rng &r, const Bytes &b, const Bytes &other) {
	Bytes m = b; int rounds = r.below(3) ? 1 : r.range(2, 6);
	while (rounds--) {
		if (m.empty()) m.push_back(0);
		size_t i = r.below(3) ? r.below(m.size()) : r.below(std::min<size_t>(m.size(), 64));
		switch (r.below(12)) {
		case 0: m[i] ^= 1 << r.below(8); break;
		case 1: m[i] = r.next(); break;
		case 2: m[i] = r.pick({(char)0, (char)1, (char)0x7f, (char)0x80, (char)0xff, (char)2, (char)0xfe}); break;
		case 3: m[i]++; break;
		case 4: m[i]--; break;
		case 5: { size_t n = r.range(1, 16); for (size_t k = i; k < m.size() && k < i + n; k++) m[k] = r.next(); break; }
		case 6: { size_t n = r.range(1, 9); char c = r.pick({(char)0, (char)0xff, (char)0x80, (char)0x7f}); for (size_t k = i; k < m.size() && k < i + n; k++) m[k] = c; break; }
		case 7: { size_t n = std::min<size_t>(r.range(1, 12), m.size() - i); m.erase(m.begin() + i, m.begin() + i + n); break; }
		case 8: { Bytes e(r.range(1, 12)); for (auto &c : e) c = r.below(2) ? r.next() : r.below(4); m.insert(m.begin() + i, e.begin(), e.end()); break; }
		case 9: { size_t j = r.below(m.size()), n = std::min<size_t>(r.range(1, 40), m.size() - std::max(i, j)); for (size_t k = 0; k < n; k++) m[i + k] = m[j + k]; break; } // copy a block over another
		case 10: { if (other.empty()) break; size_t j = r.below(other.size()); m.resize(i); m.insert(m.end(), other.begin() + j, other.end()); break; } // splice
		case 11: { size_t j = r.below(m.size()); std::swap(m[i], m[j]); break; }
		}
	}
	return m;
}
enum { MEM, FIL, FD };
// the parts of a stream that describe objects held by the saved object: [begin, end)
static void subs(ccs_object_t o, std::vector<ccs_object_t> &v, int depth = 0) {
	ccs_object_type_t t; if (!o || depth > 6 || ccs_object_get_type(o, &t)) return;
	auto go = [&](ccs_object_t x) { if (x) { v.push_back(x); subs(x, v, depth + 1); } };
	auto ctx = [&]() { size_t n = 0; OK(ccs_context_get_parameters((ccs_context_t)o, 0, NULL, &n)); std::vector<ccs_parameter_t> p(n); if (n) OK(ccs_context_get_parameters((ccs_context_t)o, n, p.data(), NULL)); for (auto x : p) go(x); return p; };
	switch (t) {
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: {
		auto p = ctx(); ccs_configuration_space_t c = (ccs_configuration_space_t)o;
		for (size_t i = 0; i < p.size(); i++) { ccs_distribution_t d = NULL; size_t k; OK(ccs_configuration_space_get_parameter_distribution(c, i, &d, &k)); go(d); }
		size_t n = 0; OK(ccs_configuration_space_get_forbidden_clauses(c, 0, NULL, &n)); std::vector<ccs_expression_t> f(n); if (n) OK(ccs_configuration_space_get_forbidden_clauses(c, n, f.data(), NULL)); for (auto x : f) go(x);
		std::vector<ccs_expression_t> q(p.size()); if (p.size()) OK(ccs_configuration_space_get_conditions(c, p.size(), q.data(), NULL)); for (auto x : q) go(x);
		break; }
	case CCS_OBJECT_TYPE_OBJECTIVE_SPACE: case CCS_OBJECT_TYPE_FEATURES_SPACE: ctx(); break;
	case CCS_OBJECT_TYPE_EXPRESSION: { size_t n = 0; OK(ccs_expression_get_nodes((ccs_expression_t)o, 0, NULL, &n)); std::vector<ccs_expression_t> f(n); if (n) OK(ccs_expression_get_nodes((ccs_expression_t)o, n, f.data(), NULL)); for (auto x : f) go(x); break; }
	case CCS_OBJECT_TYPE_TREE: { size_t a = 0; OK(ccs_tree_get_children((ccs_tree_t)o, 0, NULL, &a)); std::vector<ccs_tree_t> f(a); if (a) OK(ccs_tree_get_children((ccs_tree_t)o, a, f.data(), NULL)); for (auto x : f) go(x); break; }
	case CCS_OBJECT_TYPE_TUNER: { ccs_tuner_t u = (ccs_tuner_t)o; ccs_configuration_space_t c; ccs_objective_space_t s; OK(ccs_tuner_get_configuration_space(u, &c)); OK(ccs_tuner_get_objective_space(u, &s)); go(c); go(s); size_t n = 0; OK(ccs_tuner_get_history(u, 0, NULL, &n)); std::vector<ccs_evaluation_t> h(n); if (n) OK(ccs_tuner_get_history(u, n, h.data(), NULL)); for (auto x : h) go(x); break; }
	case CCS_OBJECT_TYPE_FEATURES_TUNER: { ccs_features_tuner_t u = (ccs_features_tuner_t)o; ccs_configuration_space_t c; ccs_objective_space_t s; ccs_features_space_t f; OK(ccs_features_tuner_get_configuration_space(u, &c)); OK(ccs_features_tuner_get_objective_space(u, &s)); OK(ccs_features_tuner_get_features_space(u, &f)); go(c); go(s); go(f); size_t n = 0; OK(ccs_features_tuner_get_history(u, NULL, 0, NULL, &n)); std::vector<ccs_features_evaluation_t> h(n); if (n) OK(ccs_features_tuner_get_history(u, NULL, n, h.data(), NULL)); for (auto x : h) go(x); break; }
	case CCS_OBJECT_TYPE_TREE_TUNER: { ccs_tree_tuner_t u = (ccs_tree_tuner_t)o; ccs_tree_space_t c; ccs_objective_space_t s; OK(ccs_tree_tuner_get_tree_space(u, &c)); OK(ccs_tree_tuner_get_objective_space(u, &s)); go(c); go(s); size_t n = 0; OK(ccs_tree_tuner_get_history(u, 0, NULL, &n)); std::vector<ccs_tree_evaluation_t> h(n); if (n) OK(ccs_tree_tuner_get_history(u, n, h.data(), NULL)); for (auto x : h) go(x); break; }
	case CCS_OBJECT_TYPE_EVALUATION: { ccs_configuration_t c; OK(ccs_evaluation_get_configuration((ccs_evaluation_t)o, &c)); go(c); break; }
	case CCS_OBJECT_TYPE_FEATURES_EVALUATION: { ccs_configuration_t c; ccs_features_t f; OK(ccs_features_evaluation_get_configuration((ccs_features_evaluation_t)o, &c)); OK(ccs_features_evaluation_get_features((ccs_features_evaluation_t)o, &f)); go(c); go(f); break; }
	case CCS_OBJECT_TYPE_TREE_EVALUATION: { ccs_tree_configuration_t c; OK(ccs_tree_evaluation_get_configuration((ccs_tree_evaluation_t)o, &c)); go(c); break; }
	case CCS_OBJECT_TYPE_TREE_SPACE: { ccs_tree_t x; OK(ccs_tree_space_get_tree((ccs_tree_space_t)o, &x)); go(x); break; }
	default: break;
	}
}
// where a stream names an object by its handle (an unsigned in groups of seven bits)
static Bytes leb(uint64_t v) { Bytes b; do { uint8_t y = v & 0x7f; v >>= 7; if (v) y |= 0x80; b.push_back((char)y); } while (v); return b; }
struct Ref { size_t at, len; ccs_object_t o; };
static std::vector<Ref> refs_of(const ZObj &z, const Bytes &b) {
	std::vector<ccs_object_t> v{z.o}; subs(z.o, v); for (auto d : z.deps) { v.push_back(d); subs(d, v); }
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	std::vector<Ref> res; for (auto x : v) { Bytes e = leb((uint64_t)(uintptr_t)x); for (auto it = std::search(b.begin(), b.end(), e.begin(), e.end()); it != b.end(); it = std::search(it + 1, b.end(), e.begin(), e.end())) res.push_back({(size_t)(it - b.begin()), e.size(), x}); }
	return res;
}
// let one of the references name another object, or none
static Bytes rewire(Rng &r, const Bytes &b, const std::vector<Ref> &refs, const Bytes &other) {
	const Ref &a = refs[r.below(refs.size())], &c = refs[r.below(refs.size())]; Bytes e = leb(r.chance(1, 8) ? (r.below(2) ? 0 : r.next()) : (uint64_t)(uintptr_t)c.o);
	Bytes m(b.begin(), b.begin() + a.at); m.insert(m.end(), e.begin(), e.end()); m.insert(m.end(), b.begin() + a.at + a.len, b.end());
	return r.chance(1, 6) ? mutate(r, m, other) : m;
}
static std::vector<std::pair<size_t, size_t>> parts_of(ccs_object_t o, const Bytes &b) {
	std::vector<ccs_object_t> v; subs(o, v); std::vector<std::pair<size_t, size_t>> res;
	for (auto x : v) { Bytes s = ser(x); for (size_t h = 12; h <= 14 && h + 6 < s.size(); h++) { auto it = std::search(b.begin(), b.end(), s.begin() + h, s.end()); if (it != b.end()) { res.push_back({it - b.begin(), it - b.begin() + (s.size() - h)}); break; } } }
	return res;
}
// move, repeat or drop whole parts, with the few bytes that follow them
static Bytes graft(Rng &r, const Bytes &b, const std::vector<std::pair<size_t, size_t>> &parts, const Bytes &other) {
	auto p = r.pick(parts), q = r.pick(parts); size_t tail = r.chance(1, 3) ? 0 : r.range(1, 6);
	p.second = std::min(b.size(), p.second + tail); q.second = std::min(b.size(), q.second + (r.below(2) ? tail : r.below(7)));
	Bytes m;
	switch (r.below(5)) {
	case 0: case 1: m.assign(b.begin(), b.begin() + p.first); m.insert(m.end(), b.begin() + q.first, b.begin() + q.second); m.insert(m.end(), b.begin() + p.second, b.end()); break; // q in the place of p
	case 2: m.assign(b.begin(), b.begin() + p.second); m.insert(m.end(), b.begin() + q.first, b.begin() + q.second); m.insert(m.end(), b.begin() + p.second, b.end()); break; // q after p
	case 3: m.assign(b.begin(), b.begin() + p.first); m.insert(m.end(), b.begin() + p.second, b.end()); break; // without p
	default: m = b; if (p.first >= q.second || q.first >= p.second) { if (p.first > q.first) std::swap(p, q); m.assign(b.begin(), b.begin() + p.first); m.insert(m.end(), b.begin() + q.first, b.begin() + q.second); m.insert(m.end(), b.begin() + p.second, b.begin() + q.first); m.insert(m.end(), b.begin() + p.first, b.begin() + p.second); m.insert(m.end(), b.begin() + q.second, b.end()); } break; // exchanged
	}
	if (r.chance(1, 3)) m = mutate(r, m, other);
	else if (r.chance(1, 3)) for (int k = r.range(1, 3); k--;) { size_t i = 13 + r.below(std::min<size_t>(m.size() - 13, 40)); m[i] += r.below(2) ? 1 : -1; } // a count near the start
	return m;
}

static std::string g_trace;
struct Load { ccs_result_t e; ccs_object_t o; UD *ud; };
static ccs_result_t cb(ccs_object_t, size_t n, const char *d, void *) { static volatile char s; for (size_t i = 0; i < n; i++) s = d[i]; (void)s; return CCS_RESULT_SUCCESS; }
static Load load(const ZObj &z, const Bytes &bytes, ccs_map_t map, int how, bool callback) {
	// exact copy so that the sanitizer guards its end
	std::unique_ptr<char[]> p(new char[bytes.size() ? bytes.size() : 1]); memcpy(p.get(), bytes.data(), bytes.size());
	Load l{CCS_RESULT_SUCCESS, (ccs_object_t)(uintptr_t)0x5a5a5a5a, NULL}; void *vec = z.vec, *data = NULL;
	if (vec) { l.ud = ud_new(z.ud->kind, z.ud->seed); l.ud->maxdepth = z.ud->maxdepth; l.ud->maxarity = z.ud->maxarity; l.ud->gen_child = z.ud->gen_child; data = l.ud; }
	static std::string path = std::string("c04-") + std::to_string(getpid()) + ".bin"; int fd = -1;
#define TAIL(...) vec ? (callback ? ccs_object_deserialize(&l.o, CCS_SERIALIZE_FORMAT_BINARY, __VA_ARGS__, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_VECTOR, vec, CCS_DESERIALIZE_OPTION_DATA, data, CCS_DESERIALIZE_OPTION_CALLBACK, cb, NULL, CCS_DESERIALIZE_OPTION_END) \
	: ccs_object_deserialize(&l.o, CCS_SERIALIZE_FORMAT_BINARY, __VA_ARGS__, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_VECTOR, vec, CCS_DESERIALIZE_OPTION_DATA, data, CCS_DESERIALIZE_OPTION_END)) \
	: callback ? ccs_object_deserialize(&l.o, CCS_SERIALIZE_FORMAT_BINARY, __VA_ARGS__, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_CALLBACK, cb, NULL, CCS_DESERIALIZE_OPTION_END) \
	: ccs_object_deserialize(&l.o, CCS_SERIALIZE_FORMAT_BINARY, __VA_ARGS__, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_END)
	if (how != MEM) {
		fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, p.get(), bytes.size()) != (ssize_t)bytes.size()) fail("harness", "scratch file");
		if (how == FIL) { close(fd); l.e = TAIL(CCS_SERIALIZE_OPERATION_FILE, path.c_str()); }
		else { lseek(fd, 0, SEEK_SET); l.e = TAIL(CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd); close(fd); }
		unlink(path.c_str());
	} else l.e = TAIL(CCS_SERIALIZE_OPERATION_MEMORY, bytes.size(), p.get());
	// the bytes are gone from here on
	if (l.e == CCS_RESULT_SUCCESS) CHECK(l.o && l.o != (ccs_object_t)(uintptr_t)0x5a5a5a5a, "success-without-object", "loading reports success without an object");
	else { CHECK(l.e < 0, "odd-result", "loading returned %d", (int)l.e); CHECK(!l.o || l.o == (ccs_object_t)(uintptr_t)0x5a5a5a5a, "error-with-object", "loading failed with %s but returned an object", rname(l.e)); l.o = NULL;
		ccs_error_stack_t es = ccs_get_thread_error(); CHECK(es || z.ud, "no-error-stack", "loading failed with %s without an error stack", rname(l.e));
		g_trace.clear(); size_t n = 0; ccs_error_stack_elem_t *el = NULL; const char *msg = NULL; if (es) ccs_error_stack_get_message(es, &msg); g_trace = msg ? msg : ""; if (es && !ccs_error_stack_get_elems(es, &n, &el)) for (size_t i = 0; i < n; i++) g_trace += sfmt(" <%s:%d>", el[i].func, el[i].line);
		if (es) ccs_release_object(es); ccs_clear_thread_error(); }
	return l;
}
// handles must refer to live, readable objects
static void check_map(ccs_map_t m) { size_t n = 0; OK(ccs_map_get_pairs(m, 0, NULL, NULL, &n)); DV k(n), v(n); if (n) OK(ccs_map_get_pairs(m, n, k.data(), v.data(), NULL)); for (auto &d : v) if (d.type == CCS_DATA_TYPE_OBJECT && d.value.o) CHECK(refcount(d.value.o) > 0, "dangling", "the handle map holds a dead object"); }

// whether the vector given for loading is one for this object
static bool fits(ccs_object_t o, UD *ud) {
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); int k = ud ? ud->kind : -1;
	if (t == CCS_OBJECT_TYPE_TUNER) { ccs_tuner_type_t y; OK(ccs_tuner_get_type((ccs_tuner_t)o, &y)); return y != CCS_TUNER_TYPE_USER_DEFINED || k == 0; }
	if (t == CCS_OBJECT_TYPE_FEATURES_TUNER) { ccs_features_tuner_type_t y; OK(ccs_features_tuner_get_type((ccs_features_tuner_t)o, &y)); return y != CCS_FEATURES_TUNER_TYPE_USER_DEFINED || k == 1; }
	if (t == CCS_OBJECT_TYPE_TREE_TUNER) { ccs_tree_tuner_type_t y; OK(ccs_tree_tuner_get_type((ccs_tree_tuner_t)o, &y)); if (y == CCS_TREE_TUNER_TYPE_USER_DEFINED && k != 2) return false; ccs_tree_space_t ts; OK(ccs_tree_tuner_get_tree_space((ccs_tree_tuner_t)o, &ts)); return fits(ts, ud); }
	if (t == CCS_OBJECT_TYPE_TREE_SPACE) { ccs_tree_space_type_t y; OK(ccs_tree_space_get_type((ccs_tree_space_t)o, &y)); return y != CCS_TREE_SPACE_TYPE_DYNAMIC || k == 3; }
	return true;
}

void run_case(Rng &r, uint64_t idx) {
	ud_reset(); Bag bag; int kind = idx % Z_COUNT; ZOpt zo; zo.small = true; ZObj z = zoo(r, kind, bag, zo);
	if (z.ud) for (const char *s : {"get_history", "get_optima", "serialize", "serialize_size", "deserialize", "ask", "tell", "suggest", "get_child"}) z.ud->silent.insert(s);
	Bytes b = ser(z.o), other; { Bag ob; ZObj y = zoo(r, r.below(Z_COUNT), ob, zo); if (y.ud) y.ud->silent.insert("get_history"); other = ser(y.o); }
	std::set<std::string> states; { std::vector<ccs_rng_t> g; rngs_of(z.o, g); for (auto x : g) states.insert(state_of(x)); }
	sig(mix64(kind, hash_str(std::string(b.begin(), b.end())))); desc(sfmt("%s, %zu bytes", zname[kind], b.size()));
	Watch w; for (auto d : z.deps) w.add(d); { ZObj s = zoo(r, Z_PARAM, bag, zo); w.add(s.o); }
	int mapping = 0; // 1: the handle map lacks or misnames a dependency
	auto attempt = [&](const Bytes &m, const char *what, int how, bool must_fail) {
		note("%s %zu how=%d", what, m.size(), how); ccs_clear_thread_error(); int64_t l0 = led_live(), r0 = led_gsl(); g_trace.clear();
		Bag mb; ccs_map_t map = mb.own(zoo_map(z));
		if (mapping) { // none of the dependencies is there as it should be
			ccs_datum_t bad = r.pick(DV{ccs_int(4), ccs_none, ccs_string("x"), kind == Z_EXPR ? ccs_object(z.o) : ccs_object(w.o.back())});
			for (auto d : z.deps) { ccs_datum_t k = ccs_object(d); k.flags |= CCS_DATUM_FLAG_ID; if (mapping == 1) OK(ccs_map_del(map, k)); else OK(ccs_map_set(map, k, bad)); } }
		for (auto &x : w.rc) x = 0; for (size_t i = 0; i < w.o.size(); i++) w.rc[i] = refcount(w.o[i]);
		Load l = load(z, m, map, how, r.below(2));
		if (must_fail) CHECK(l.e != CCS_RESULT_SUCCESS, std::string(mapping ? "bad-map-accepted:" : "truncation-accepted:") + zname[kind], "a stream of %zu bytes cut to %zu was accepted", b.size(), m.size());
		if (l.o && !fits(l.o, z.ud)) { mb.own(l.o); ev("accepted.other-kind"); }
		else if (l.o) {
			mb.own(l.o); ev("accepted");
			if (l.ud) for (const char *s : {"get_history", "get_optima", "serialize", "serialize_size", "deserialize", "ask", "tell", "suggest", "get_child"}) l.ud->silent.insert(s);
			std::string d1 = dump(l.o), d2 = dump(l.o); if (kind != Z_DTS && kind != Z_TCONF && kind != Z_TEVAL && kind != Z_TTUNER && kind != Z_UTTUNER) CHECK(d1 == d2, "unstable", "two readings of a loaded %s differ", zname[kind]);
			std::vector<ccs_rng_t> g; rngs_of(l.o, g); Exo x; for (auto y : g) if (!states.count(state_of(y))) x.random = false;
			exercise(r, l.o, x); ev(x.random ? "exercised" : "exercised.no-draw");
			// a well formed object can be saved
			size_t n = 0; ccs_result_t e = ccs_object_serialize(l.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END); CHECK(!e, std::string("unsavable:") + zname[kind], "a loaded %s cannot be saved: %s", zname[kind], rname(e));
			Bytes s(n); e = ccs_object_serialize(l.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, s.data(), CCS_SERIALIZE_OPTION_END); CHECK(!e, std::string("unsavable:") + zname[kind], "a loaded %s cannot be saved: %s", zname[kind], rname(e)); ev("saved-again");
		} else { ev((std::string("refused.") + rname(l.e)).c_str()); for (size_t i = 0; i < w.o.size(); i++) CHECK(refcount(w.o[i]) == w.rc[i], "bystander-refcount", "after a refused load an existing object went from %d to %d references [%s]", w.rc[i], refcount(w.o[i]), g_trace.c_str()); }
		if (l.o) w.retake(); else if (r.chance(1, 6)) w.check("after a refused load");
		check_map(map);
		mb.clear(); ccs_clear_thread_error(); if (z.deps.empty()) CHECK(led_live() == l0 && led_gsl() == r0, std::string("leak:") + zname[kind] + (l.e ? ":refused" : ":accepted"), "%lld blocks and %lld generators remain after loading a damaged %s gave %s [%s]", (long long)(led_live() - l0), (long long)(led_gsl() - r0), zname[kind], rname(l.e), g_trace.c_str());
		if (l.ud) CHECK(l.ud->hist.empty() && l.ud->opt.empty() && !l.ud->after_del && l.ud->dels <= 1, "user-data", "user data after release: %zu history, %zu optima, %d deletions", l.ud->hist.size(), l.ud->opt.size(), l.ud->dels);
	};
	int mode = (idx / Z_COUNT) % 2;
	if (mode == 0) { // truncations
		std::vector<size_t> cuts; if (b.size() <= 80) for (size_t i = 0; i < b.size(); i++) cuts.push_back(i); else { for (size_t i = 0; i < 24; i++) cuts.push_back(i); for (int i = 1; i <= 8; i++) cuts.push_back(b.size() - i); for (int i = 0; i < 40; i++) cuts.push_back(r.below(b.size())); }
		for (size_t c : cuts) { Bytes m(b.begin(), b.begin() + c); attempt(m, "cut", r.chance(1, 12) ? 1 + r.below(2) : MEM, true); ev("truncation"); }
		attempt(b, "whole", r.below(3), false); // and the whole stream still loads
	} else { // modifications
		for (int i = 0; i < 60; i++) { attempt(mutate(r, b, other), "mutated", r.chance(1, 15) ? 1 + r.below(2) : MEM, false); ev("mutation"); }
		auto parts = parts_of(z.o, b); if (parts.size()) for (int i = 0; i < 20; i++) { Bytes m = graft(r, b, parts, other); if (m.size() < 14) continue; attempt(m, "grafted", MEM, false); ev("graft"); }
		auto refs = refs_of(z, b); if (refs.size()) for (int i = 0; i < (refs.size() > 8 ? 50 : 15); i++) { attempt(rewire(r, b, refs, other), "rewired", MEM, false); ev("rewired"); }
		if (!z.deps.empty()) for (int i = 0; i < 4; i++) { mapping = 1 + (i > 0); attempt(b, "bad map", MEM, true); ev(mapping == 1 ? "unmapped" : "mismapped"); mapping = 0; }
		if (z.vec && z.kind != Z_TCONF && z.kind != Z_TEVAL) { // the callbacks are missing
			ccs_object_t o = NULL; int64_t l0 = led_live(); note("without vector"); ccs_result_t e = r.below(2) ? ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_END) : ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_DATA, z.ud, CCS_DESERIALIZE_OPTION_END);
			CHECK(e && !o, "no-callbacks-accepted", "a %s was loaded without its callbacks", zname[kind]); ccs_clear_thread_error(); CHECK(led_live() == l0, "leak:no-callbacks", "%lld blocks remain", (long long)(led_live() - l0)); ev("no-callbacks.refused");
		}
		for (int i = 0; i < 4; i++) { // garbage behind a valid header
			Bytes m(b.begin(), b.begin() + std::min<size_t>(b.size(), 16)); size_t n = r.below(200); for (size_t k = 0; k < n; k++) m.push_back(r.below(3) ? r.below(12) : r.next()); attempt(m, "garbage", MEM, false); ev("garbage");
			Bytes q(r.below(100)); for (auto &c : q) c = r.next(); attempt(q, "noise", r.below(3), false);
		}
	}
	for (size_t i = 0; i < w.o.size(); i++) w.rc[i] = refcount(w.o[i]);
	w.check("at the end");
	Bag rb; ccs_map_t map = rb.own(zoo_map(z)); ccs_object_t o = NULL; UD *ud = NULL; ccs_result_t e = zoo_reload(z, b.data(), b.size(), map, &o, &ud); CHECK(!e, "intact-refused", "the intact stream no longer loads: %s", rname(e)); rb.own(o); ev("intact.reloaded");
}
