// C15: a map is a dictionary.  Reference model: association list keyed by type
// and content; every operation is compared, the full content periodically.
#include "h.hpp"
const char *PROP = "C15";
uint64_t num_cases(bool th) { return th ? 172800 : 57600; }
bool ledger_check() { return true; }
void prop_init() {}

struct K { int t; std::string s; int64_t i; double f; ccs_object_t o; };
static bool keq(const ccs_datum_t &a, const ccs_datum_t &b) {
	if (a.type != b.type) return false;
	switch (a.type) {
	case CCS_DATA_TYPE_NONE: case CCS_DATA_TYPE_INACTIVE: return true;
	case CCS_DATA_TYPE_STRING: return a.value.s && b.value.s ? !strcmp(a.value.s, b.value.s) : a.value.s == b.value.s;
	case CCS_DATA_TYPE_FLOAT: return !memcmp(&a.value.f, &b.value.f, 8);
	case CCS_DATA_TYPE_OBJECT: return a.value.o == b.value.o;
	default: return a.value.i == b.value.i;
	}
}
struct Model {
	std::vector<std::pair<ccs_datum_t, ccs_datum_t>> e; // strings interned
	int find(const ccs_datum_t &k) { for (size_t i = 0; i < e.size(); i++) if (keq(e[i].first, k)) return i; return -1; }
};
static std::string rstr(Rng &r, int card) {
	static const char *base[] = {"", "a", "b", "key", "Key", "a b", "\xc3\xa9", "0", "1", "true"};
	if (r.chance(1, 2)) return base[r.below(10)];
	if (r.chance(1, 12)) return std::string(r.range(50, 400), 'x') + std::to_string(r.below(3));
	return "k" + std::to_string(r.below(card));
}
static ccs_datum_t rdatum(Rng &r, int card, std::vector<ccs_object_t> &objs) {
	switch (r.below(10)) {
	case 0: return ccs_none;
	case 1: return ccs_inactive;
	case 2: return ccs_bool(r.below(2) ? CCS_TRUE : CCS_FALSE);
	case 3: return ccs_float((double)r.range(-card, card) / 2);
	case 4: return ccs_float((double)r.range(0, 2));
	case 5: { ccs_datum_t d = ccs_object(objs[r.below(objs.size())]); return d; }
	case 6: case 7: return dstr(rstr(r, card));
	case 8: if (r.chance(1, 6)) return r.pick({ccs_int(INT64_MAX), ccs_int(INT64_MIN), ccs_float(INFINITY), ccs_float(1e-300), ccs_int((int64_t)1 << 32)});
		/* fallthrough */
	default: return ccs_int(r.range(-2, card));
	}
}
static ccs_datum_t given(Rng &r, const ccs_datum_t &d, std::vector<std::unique_ptr<char[]>> &st) {
	if (d.type == CCS_DATA_TYPE_STRING && r.chance(2, 3)) return transient_copy(d, st);
	return d;
}
static void scrub(std::vector<std::unique_ptr<char[]>> &st) {
	for (auto &p : st) { size_t n = strlen(p.get()); memset(p.get(), '#', n); }
	st.clear();
}
static void compare_all(ccs_map_t m, Model &mod, Rng &r) {
	size_t n = 12345;
	OK(ccs_map_get_keys(m, 0, NULL, &n)); CHECK(n == mod.e.size(), "count", "keys: %zu entries, model has %zu", n, mod.e.size());
	n = 0; OK(ccs_map_get_values(m, 0, NULL, &n)); CHECK(n == mod.e.size(), "count", "values: %zu entries, model has %zu", n, mod.e.size());
	n = 0; OK(ccs_map_get_pairs(m, 0, NULL, NULL, &n)); CHECK(n == mod.e.size(), "count", "pairs: %zu entries, model has %zu", n, mod.e.size());
	size_t extra = r.below(3), cap = n + extra;
	if (!cap) return;
	DV k(cap, ccs_int(-77)), v(cap, ccs_int(-77)), pk(cap, ccs_int(-77)), pv(cap, ccs_int(-77));
	size_t c1 = 0, c2 = 0, c3 = 0;
	OK(ccs_map_get_keys(m, cap, k.data(), &c1)); OK(ccs_map_get_values(m, cap, v.data(), &c2)); OK(ccs_map_get_pairs(m, cap, pk.data(), pv.data(), &c3));
	CHECK(c1 == n && c2 == n && c3 == n, "count", "array queries report %zu %zu %zu, expected %zu", c1, c2, c3, n);
	std::vector<bool> seen(n, false);
	for (size_t i = 0; i < n; i++) {
		CHECK(keq(k[i], pk[i]), "listing", "key listing entry %zu is %s, pair listing says %s", i, dtos(k[i]).c_str(), dtos(pk[i]).c_str());
		CHECK(keq(v[i], pv[i]), "listing", "value listing entry %zu is %s, pair listing says %s", i, dtos(v[i]).c_str(), dtos(pv[i]).c_str());
		int x = mod.find(pk[i]);
		CHECK(x >= 0, "content", "unexpected key %s", dtos(pk[i]).c_str());
		CHECK(!seen[x], "content", "key %s listed twice", dtos(pk[i]).c_str());
		seen[x] = true;
		CHECK(keq(mod.e[x].second, pv[i]), "content", "key %s has value %s, expected %s", dtos(pk[i]).c_str(), dtos(pv[i]).c_str(), dtos(mod.e[x].second).c_str());
		if (pv[i].type == CCS_DATA_TYPE_OBJECT) { ccs_object_type_t t; OK(ccs_object_get_type(pv[i].value.o, &t)); }
		if (pk[i].type == CCS_DATA_TYPE_OBJECT) { ccs_object_type_t t; OK(ccs_object_get_type(pk[i].value.o, &t)); }
	}
	for (size_t i = n; i < cap; i++)
		CHECK(k[i].type == CCS_DATA_TYPE_NONE && v[i].type == CCS_DATA_TYPE_NONE && pk[i].type == CCS_DATA_TYPE_NONE && pv[i].type == CCS_DATA_TYPE_NONE, "surplus", "surplus entry %zu not neutral", i);
	if (n) {
		REFUSED(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get_keys(m, n - 1, n > 1 ? k.data() : k.data(), &c1));
		REFUSED(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get_values(m, n - 1, v.data(), &c1));
		REFUSED(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get_pairs(m, n - 1, pk.data(), pv.data(), &c1));
	}
	ev("listing.compared", n);
}
void run_case(Rng &r, uint64_t idx) {
	std::vector<ccs_object_t> objs;          // caller may drop its own references
	std::vector<bool> held;
	int card = r.pick({2, 4, 8, 40, 200});
	int nops = r.chance(1, 10) ? 600 : (int)r.range(5, 120);
	for (int i = 0; i < 4; i++) {
		ccs_object_t o = NULL;
		if (i % 2) { ccs_rng_t g; OK(ccs_create_rng(&g)); o = g; } else { ccs_map_t g; OK(ccs_create_map(&g)); o = g; }
		objs.push_back(o); held.push_back(true);
	}
	ccs_map_t m = NULL;
	OK(ccs_create_map(&m));
	Model mod;
	std::vector<std::unique_ptr<char[]>> st;
	uint64_t h = 0;
	auto stored = [&](ccs_object_t o) { int c = 0; for (auto &p : mod.e) { if (p.first.type == CCS_DATA_TYPE_OBJECT && p.first.value.o == o) c++; if (p.second.type == CCS_DATA_TYPE_OBJECT && p.second.value.o == o) c++; } return c; };
	auto replenish = [&]() { // objects the model no longer stores and the caller dropped are gone: recreate
		for (size_t i = 0; i < objs.size(); i++)
			if (!held[i] && !stored(objs[i])) { ccs_map_t g; OK(ccs_create_map(&g)); objs[i] = g; held[i] = true; }
	};
	bool bykeep = r.chance(1, 2);
	for (int op = 0; op < nops; op++) {
		replenish();
		int w = r.below(100);
		ccs_datum_t key = rdatum(r, card, objs);
		if (!mod.e.empty() && r.chance(1, 3)) key = r.pick(mod.e).first;
		int x = mod.find(key);
		ccs_datum_t gk = given(r, key, st);
		h = mix64(h, w < 45 ? 0 : w < 60 ? 1 : w < 95 ? 2 : 3) + key.type + (x >= 0);
		if (w < 45) {
			ccs_datum_t val = rdatum(r, card, objs);
			if (x >= 0 && r.chance(1, 6)) val = mod.e[x].second;
			note("set %s=%s", dtos(key).c_str(), dtos(val).c_str());
			OK(ccs_map_set(m, gk, given(r, val, st)));
			if (x >= 0) { mod.e.erase(mod.e.begin() + x); ev("set.replace"); } else ev("set.new");
			mod.e.push_back({key, val});
			x = mod.find(key);
		} else if (w < 62) {
			note("del %s", dtos(key).c_str());
			ccs_result_t res = ccs_map_del(m, gk);
			if (x >= 0) { CHECK(res == CCS_RESULT_SUCCESS, "del", "deleting present key %s returned %s", dtos(key).c_str(), rname(res)); mod.e.erase(mod.e.begin() + x); ev("del.present"); }
			else { CHECK(res == CCS_RESULT_ERROR_INVALID_VALUE, "del-absent", "deleting absent key %s returned %s", dtos(key).c_str(), rname(res)); ccs_clear_thread_error(); ev("del.absent"); }
			x = mod.find(key);
		} else if (w < 92) {
			ev(x >= 0 ? "get.present" : "get.absent");
		} else if (w < 94) {
			note("clear"); OK(ccs_map_clear(m)); mod.e.clear(); ev("clear"); x = -1;
		} else if (w < 97 && bykeep) { // caller drops its own reference to an object
			size_t i = r.below(objs.size());
			if (held[i]) { note("drop %zu", i); OK(ccs_release_object(objs[i])); held[i] = false; ev("caller.drop"); replenish(); }
		} else compare_all(m, mod, r);
		scrub(st);
		replenish();
		x = mod.find(key);
		// lookups of the key, through a fresh equal datum
		if (key.type == CCS_DATA_TYPE_OBJECT && x < 0 && !std::count(objs.begin(), objs.end(), key.value.o)) continue;
		ccs_bool_t ex = 7; ccs_datum_t got = ccs_int(-99);
		OK(ccs_map_exist(m, given(r, key, st), &ex));
		OK(ccs_map_get(m, given(r, key, st), &got));
		scrub(st);
		CHECK(ex == (x >= 0 ? CCS_TRUE : CCS_FALSE), "exist", "exist(%s) is %d, expected %d", dtos(key).c_str(), (int)ex, x >= 0);
		if (x >= 0) CHECK(keq(got, mod.e[x].second), "get", "get(%s) is %s, expected %s", dtos(key).c_str(), dtos(got).c_str(), dtos(mod.e[x].second).c_str());
		else CHECK(got.type == CCS_DATA_TYPE_NONE, "get-absent", "get(absent %s) is %s", dtos(key).c_str(), dtos(got).c_str());
		ev("lookup.checked");
		// reference counts of the stored objects
		for (size_t i = 0; i < objs.size(); i++) {
			int32_t c = refcount(objs[i]); int want = (held[i] ? 1 : 0) + stored(objs[i]);
			CHECK(c == want, "object-refs", "object %zu has %d references, expected %d", i, c, want);
		}
	}
	compare_all(m, mod, r);
	desc(sfmt("ops=%d card=%d entries=%zu", nops, card, mod.e.size()));
	sig(mix64(h, mod.e.size()));
	if (r.chance(1, 4)) OK(ccs_map_clear(m));
	for (size_t i = 0; i < objs.size(); i++) if (held[i]) OK(ccs_release_object(objs[i]));
	OK(ccs_release_object(m));
}
