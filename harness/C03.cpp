// C03: serialise/deserialise round trips preserve observable behaviour.
#include "zoo.hpp"
const char *PROP = "C03";
uint64_t num_cases(bool t) { return t ? 324000 : 54000; }
bool ledger_check() { return true; }
void prop_init() { gen_long = 150; }

struct UserData { std::string bytes; void *cbd; /* what the callback must be given */ };
static int g_calls, g_fail_at = -1, g_wrong; // callback invocations: count, the one that fails, those with a wrong pointer
static const ccs_result_t CB_ERR = CCS_RESULT_ERROR_EXTERNAL;
struct Delivered { ccs_object_t obj; std::string bytes; void *cbd; };
static std::vector<Delivered> g_deliv;
static std::vector<std::unique_ptr<UserData>> g_uds2;
static ccs_result_t ser_cb(ccs_object_t object, size_t n, void *data, size_t *nr, void *ud) {
	void *p = NULL; ccs_result_t e = ccs_object_get_user_data(object, &p); if (e) return e;
	UserData *u = (UserData *)p; if (ud != u->cbd) g_wrong++;
	if (g_calls++ == g_fail_at) return CB_ERR;
	if (data) { if (n < u->bytes.size()) return CCS_RESULT_ERROR_NOT_ENOUGH_DATA; memcpy(data, u->bytes.data(), u->bytes.size()); }
	if (nr) *nr = u->bytes.size();
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t deser_cb(ccs_object_t object, size_t n, const char *data, void *ud) {
	if ((int)g_deliv.size() == g_fail_at) return CB_ERR;
	g_deliv.push_back({object, n ? std::string(data, n) : std::string(), ud});
	g_uds2.emplace_back(new UserData{n ? std::string(data, n) : std::string(), NULL});
	return ccs_object_set_user_data(object, g_uds2.back().get());
}
// sub-objects whose user data travels with the object, in a fixed order
static void subs(ccs_object_t o, std::vector<ccs_object_t> &out) {
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t));
	size_t n = 0;
	switch (t) {
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: {
		ccs_rng_t r; OK(ccs_configuration_space_get_rng((ccs_configuration_space_t)o, &r)); out.push_back(r);
	} // fall through
	case CCS_OBJECT_TYPE_OBJECTIVE_SPACE: case CCS_OBJECT_TYPE_FEATURES_SPACE: {
		OK(ccs_context_get_num_parameters((ccs_context_t)o, &n)); std::vector<ccs_parameter_t> v(n); if (n) OK(ccs_context_get_parameters((ccs_context_t)o, n, v.data(), NULL));
		for (auto p : v) out.push_back(p); break;
	}
	case CCS_OBJECT_TYPE_TUNER: {
		ccs_configuration_space_t c; OK(ccs_tuner_get_configuration_space((ccs_tuner_t)o, &c)); out.push_back(c); subs(c, out);
		ccs_objective_space_t s; OK(ccs_tuner_get_objective_space((ccs_tuner_t)o, &s)); out.push_back(s); subs(s, out);
		OK(ccs_tuner_get_history((ccs_tuner_t)o, 0, NULL, &n)); std::vector<ccs_evaluation_t> h(n); if (n) OK(ccs_tuner_get_history((ccs_tuner_t)o, n, h.data(), NULL));
		std::set<void *> seen; for (auto e : h) if (seen.insert(e).second) { out.push_back(e); ccs_configuration_t cf; OK(ccs_evaluation_get_configuration(e, &cf)); if (seen.insert(cf).second) out.push_back(cf); }
		break;
	}
	case CCS_OBJECT_TYPE_TREE: { ccs_tree_t t = (ccs_tree_t)o; OK(ccs_tree_get_arity(t, &n)); for (size_t i = 0; i < n; i++) { ccs_tree_t c = NULL; OK(ccs_tree_get_child(t, i, &c)); if (c) { out.push_back(c); subs(c, out); } } break; }
	case CCS_OBJECT_TYPE_EVALUATION: { ccs_configuration_t c; OK(ccs_evaluation_get_configuration((ccs_evaluation_t)o, &c)); out.push_back(c); break; }
	default: break;
	}
}
// which entries of history and optima are the same object
static std::string identity(ccs_object_t o) {
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); std::vector<ccs_object_t> v; size_t n = 0, m = 0;
	if (t == CCS_OBJECT_TYPE_TUNER) { auto u = (ccs_tuner_t)o; OK(ccs_tuner_get_history(u, 0, NULL, &n)); OK(ccs_tuner_get_optima(u, 0, NULL, &m)); v.resize(n + m); if (n) OK(ccs_tuner_get_history(u, n, (ccs_evaluation_t *)v.data(), NULL)); if (m) OK(ccs_tuner_get_optima(u, m, (ccs_evaluation_t *)v.data() + n, NULL)); }
	else if (t == CCS_OBJECT_TYPE_FEATURES_TUNER) { auto u = (ccs_features_tuner_t)o; OK(ccs_features_tuner_get_history(u, NULL, 0, NULL, &n)); OK(ccs_features_tuner_get_optima(u, NULL, 0, NULL, &m)); v.resize(n + m); if (n) OK(ccs_features_tuner_get_history(u, NULL, n, (ccs_features_evaluation_t *)v.data(), NULL)); if (m) OK(ccs_features_tuner_get_optima(u, NULL, m, (ccs_features_evaluation_t *)v.data() + n, NULL)); }
	else if (t == CCS_OBJECT_TYPE_TREE_TUNER) { auto u = (ccs_tree_tuner_t)o; OK(ccs_tree_tuner_get_history(u, 0, NULL, &n)); OK(ccs_tree_tuner_get_optima(u, 0, NULL, &m)); v.resize(n + m); if (n) OK(ccs_tree_tuner_get_history(u, n, (ccs_tree_evaluation_t *)v.data(), NULL)); if (m) OK(ccs_tree_tuner_get_optima(u, m, (ccs_tree_evaluation_t *)v.data() + n, NULL)); }
	std::map<void *, int> id; std::string s; for (auto x : v) { auto it = id.emplace(x, (int)id.size()).first; s += std::to_string(it->second) + ","; }
	return s;
}
// a few observable steps that consume random state
static std::string behave(ccs_object_t o, Bag &bag, int steps) {
	ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); std::string s;
	for (int i = 0; i < steps; i++) switch (t) {
	case CCS_OBJECT_TYPE_RNG: { unsigned long x; OK(ccs_rng_get((ccs_rng_t)o, &x)); double f; OK(ccs_rng_uniform((ccs_rng_t)o, &f)); s += sfmt("%lu %.17g;", x, f); break; }
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: { ccs_configuration_t c = NULL; ccs_result_t e = ccs_configuration_space_sample((ccs_configuration_space_t)o, &c); s += sfmt("%d", (int)e); if (!e) { s += dump(c); ccs_release_object(c); } else ccs_clear_thread_error(); break; }
	case CCS_OBJECT_TYPE_TREE_SPACE: { ccs_tree_configuration_t c = NULL; ccs_result_t e = ccs_tree_space_sample((ccs_tree_space_t)o, &c); s += sfmt("%d", (int)e); if (!e) { s += dump(c); ccs_release_object(c); } else ccs_clear_thread_error(); break; }
	case CCS_OBJECT_TYPE_DISTRIBUTION: {
		Bag b; ccs_rng_t g; OK(ccs_create_rng(&g)); b.own(g); OK(ccs_rng_set_seed(g, 7 + i)); size_t d; OK(ccs_distribution_get_dimension((ccs_distribution_t)o, &d));
		std::vector<ccs_numeric_t> v(d * 4); OK(ccs_distribution_samples((ccs_distribution_t)o, g, 4, v.data())); s += sfmt("%016llx;", (unsigned long long)hash_str(std::string((char *)v.data(), v.size() * 8))); break;
	}
	case CCS_OBJECT_TYPE_TUNER: { ccs_configuration_t c = NULL; ccs_result_t e = i & 1 ? ccs_tuner_suggest((ccs_tuner_t)o, &c) : ccs_tuner_ask((ccs_tuner_t)o, 1, &c, NULL); s += sfmt("%d", (int)e); if (!e) { s += dump(c); ccs_release_object(c); } else ccs_clear_thread_error(); break; }
	case CCS_OBJECT_TYPE_TREE_TUNER: { ccs_tree_configuration_t c = NULL; ccs_result_t e = i & 1 ? ccs_tree_tuner_suggest((ccs_tree_tuner_t)o, &c) : ccs_tree_tuner_ask((ccs_tree_tuner_t)o, 1, &c, NULL); s += sfmt("%d", (int)e); if (!e) { s += dump(c); ccs_release_object(c); } else ccs_clear_thread_error(); break; }
	default: return s;
	}
	return s;
}
static bool is_binding(int k) { return k == Z_CONF || k == Z_FEAT || k == Z_EVAL || k == Z_FEVAL || k == Z_TCONF || k == Z_TEVAL; }

void run_case(Rng &r, uint64_t idx) {
	ud_reset(); g_deliv.clear(); g_uds2.clear(); g_calls = g_wrong = 0; g_fail_at = -1;
	int kind = idx % Z_COUNT;
	std::vector<std::unique_ptr<UserData>> uds;
	Bag bag; ZObj z = zoo(r, kind, bag);
	std::string K = zname[kind];
	desc(K + " " + z.info);
	// user data on the object and on some parts
	bool with_ud = r.chance(1, 3), option_cb = r.chance(1, 2);
	std::vector<ccs_object_t> parts{z.o}; std::vector<std::string> want;
	if (with_ud) {
		subs(z.o, parts);
		for (auto p : parts) {
			bool on = r.chance(1, 2); int n = r.chance(1, 5) ? 1 : r.chance(1, 60) ? (int)r.range(4000, 20000) : (int)r.range(1, 300);
			if (!on) { want.push_back("-"); continue; }
			std::string b; for (int i = 0; i < n; i++) b += (char)r.below(256);
			uds.emplace_back(new UserData{b, (void *)&bag}); OK(ccs_object_set_user_data(p, uds.back().get()));
			if (!option_cb || r.chance(1, 3)) { uds.back()->cbd = uds.back().get(); OK(ccs_object_set_serialize_callback(p, ser_cb, uds.back().get())); }
			want.push_back("+" + b);
		}
		ev("user-data.objects", parts.size());
	}
	dump(z.o); // reading a dynamic space generates missing children
	std::string d0 = dump(z.o), i0 = identity(z.o);
	// size, exact, larger and smaller buffers
	size_t n = 0;
	auto S = [&](size_t sz, char *b) { return with_ud && option_cb ? ccs_object_serialize(z.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_SERIALIZE_OPTION_CALLBACK, ser_cb, (void *)&bag, CCS_SERIALIZE_OPTION_END) : ccs_object_serialize(z.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_SERIALIZE_OPTION_END); };
	if (with_ud && option_cb) OK(ccs_object_serialize(z.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_CALLBACK, ser_cb, (void *)&bag, CCS_SERIALIZE_OPTION_END));
	else n = ser_size(z.o);
	std::unique_ptr<char[]> a(new char[n]), b(new char[n + 40]);
	memset(a.get(), 0xA5, n); memset(b.get(), 0x5A, n + 40);
	OK(S(n, a.get())); OK(S(n + 17, b.get()));
	CHECK(!memcmp(a.get(), b.get(), n), "size-not-exact:" + K, "the %zu announced bytes are not all produced", n);
	for (size_t i = n; i < n + 40; i++) CHECK(b[i] == 0x5A, "overrun:" + K, "byte %zu past the announced size %zu was written", i, n);
	for (int k = 0; k < 3; k++) {
		size_t m = k == 0 ? n - 1 : r.below(n);
		std::unique_ptr<char[]> c(new char[m ? m : 1]);
		ccs_result_t e = S(m, c.get());
		CHECK(e < CCS_RESULT_SUCCESS, "short-buffer-accepted:" + K, "a buffer of %zu bytes out of %zu is accepted", m, n);
		ccs_clear_thread_error(); ev("short-buffer.refused");
	}
	if (with_ud) {
		CHECK(!g_wrong, "callback-data:" + K, "a serialize callback did not get its own data pointer");
		g_calls = 0; OK(S(n, a.get())); int total = g_calls; // a callback's error is the call's result
		if (total) { g_calls = 0; g_fail_at = r.below(total); std::unique_ptr<char[]> c(new char[n]); ccs_result_t e = S(n, c.get()); g_fail_at = -1; CHECK(e == CB_ERR, "callback-error:" + K, "a serialize callback failed (invocation %d of %d), serialising gives %s", g_calls, total, rname(e)); ccs_clear_thread_error(); ev("callback.error"); }
	}
	CHECK(dump(z.o) == d0, "serialize-changes:" + K, "serialising changed the object");
	// reload, sometimes after the original is gone
	bool gone = z.deps.empty() && r.chance(1, 2);
	std::string beh0; if (!gone || r.below(2)) beh0 = "?";
	ccs_object_t orig = z.o;
	UD *u2 = nullptr; std::string st0 = z.ud ? z.ud->state : "";
	std::string b0; bool cmpb = r.chance(2, 3); int steps = r.range(1, 6);
	Bag nb;
	ccs_map_t map = nb.own(zoo_map(z));
	if (gone) { if (cmpb) b0 = behave(z.o, nb, steps); parts.clear(); bag.clear(); ev("original.released-first"); }
	ccs_object_t o2 = NULL;
	{
		std::unique_ptr<char[]> buf(new char[n]); memcpy(buf.get(), a.get(), n);
		ccs_result_t e;
		auto reload = [&](ccs_map_t map) {
			ccs_result_t e;
			if (z.vec) { u2 = ud_new(z.ud->kind, z.ud->seed); u2->maxdepth = z.ud->maxdepth; u2->gen_child = z.ud->gen_child;
				e = ccs_object_deserialize(&o2, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, buf.get(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_VECTOR, z.vec, CCS_DESERIALIZE_OPTION_DATA, u2, CCS_DESERIALIZE_OPTION_CALLBACK, deser_cb, (void *)&bag, CCS_DESERIALIZE_OPTION_END); }
			else e = ccs_object_deserialize(&o2, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, buf.get(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_CALLBACK, deser_cb, (void *)&bag, CCS_DESERIALIZE_OPTION_END);
			return e;
		};
		if (with_ud) {
			int some = 0; for (auto &x : want) some += x != "-";
			if (some && r.chance(1, 2)) {
				g_deliv.clear(); g_fail_at = r.below(some); Bag fb; e = reload(fb.own(zoo_map(z))); g_fail_at = -1;
				CHECK(e == CB_ERR && o2 == NULL, "callback-error:" + K, "a deserialize callback failed, deserialising gives %s", rname(e)); ccs_clear_thread_error(); ev("callback.deserialize-error"); g_deliv.clear();
			}
			e = reload(map);
		} else if (!z.vec && z.deps.empty() && r.chance(1, 4)) { // no handle map at all
			e = ccs_object_deserialize(&o2, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, buf.get(), CCS_DESERIALIZE_OPTION_END);
			ev("reload.without-map"); map = NULL;
		} else e = zoo_reload(z, buf.get(), n, map, &o2, &u2);
		CHECK(e == CCS_RESULT_SUCCESS, "reload-refused:" + K, "deserializing gives %s", rname(e));
		nb.own(o2);
		memset(buf.get(), 0xEE, n);
	}
	CHECK(o2 != orig || gone, "reload-alias:" + K, "the reloaded object is the original");
	CHECK(refcount(o2) == 1 + (map ? 1 : 0), "reload-refcount:" + K, "reloaded object has %d references", refcount(o2));
	std::string d1 = dump(o2);
	if (d1 != d0) {
		size_t i = 0; while (i < d0.size() && i < d1.size() && d0[i] == d1[i]) i++; size_t f = i > 60 ? i - 60 : 0;
		fail("differs:" + K, "reloaded object differs: original ...%s... reloaded ...%s...", d0.substr(f, 160).c_str(), d1.substr(f, 160).c_str());
	}
	CHECK(identity(o2) == i0, "identity:" + K, "history entries that were one object are no longer: %s vs %s", i0.c_str(), identity(o2).c_str());
	ev(("roundtrip." + K).c_str());
	if (z.ud && (z.vopts & UV_SER) && (z.vopts & UV_DESER)) { CHECK(u2->state == st0, "user-state:" + K, "user state of %zu bytes came back as %zu bytes", st0.size(), u2->state.size()); ev("user-state.compared"); }
	if (u2) CHECK(u2->problems.empty(), "callback-args:" + K, "%s", u2->problems[0].c_str());
	if (with_ud) {
		std::vector<ccs_object_t> p2{o2}; subs(o2, p2);
		CHECK(p2.size() == want.size(), "parts:" + K, "%zu parts, %zu before", p2.size(), want.size());
		size_t cnt = 0;
		for (size_t i = 0; i < p2.size(); i++) {
			void *p = NULL; OK(ccs_object_get_user_data(p2[i], &p));
			std::string got = p ? "+" + ((UserData *)p)->bytes : "-";
			CHECK(got == want[i], "user-data:" + K, "part %zu: user data %s, expected %s", i, p ? "differs" : "missing", want[i] == "-" ? "none" : "some");
			if (want[i] != "-") cnt++;
			for (auto &d : g_deliv) if (d.obj == p2[i]) CHECK(d.cbd == (void *)&bag, "callback-data:" + K, "deserialize callback did not get its own data pointer");
		}
		CHECK(kind == Z_TUNER || kind == Z_UTUNER ? g_deliv.size() >= cnt : g_deliv.size() == cnt, "user-data-deliveries:" + K, "%zu deliveries for %zu objects", g_deliv.size(), cnt);
		ev("user-data.compared", cnt);
	}
	if (cmpb && !(z.ud && z.ud->kind == 1)) {
		if (!gone) b0 = behave(z.o, nb, steps);
		std::string b1 = behave(o2, nb, steps);
		if (!b0.empty()) { CHECK(b0 == b1, "behaviour:" + K, "original and reloaded object behave differently: %s / %s", b0.substr(0, 300).c_str(), b1.substr(0, 300).c_str()); ev("behaviour.compared"); }
	}
	if (is_binding(kind) && !gone) {
		int c = 1; ccs_hash_t h1, h2;
		if (kind == Z_TCONF) { OK(ccs_tree_configuration_cmp((ccs_tree_configuration_t)z.o, (ccs_tree_configuration_t)o2, &c)); OK(ccs_tree_configuration_hash((ccs_tree_configuration_t)z.o, &h1)); OK(ccs_tree_configuration_hash((ccs_tree_configuration_t)o2, &h2)); }
		else { OK(ccs_binding_cmp((ccs_binding_t)z.o, (ccs_binding_t)o2, &c)); OK(ccs_binding_hash((ccs_binding_t)z.o, &h1)); OK(ccs_binding_hash((ccs_binding_t)o2, &h2)); }
		CHECK(c == 0 && h1 == h2, "binding-cmp:" + K, "reloaded binding compares %d, hashes %s", c, h1 == h2 ? "equal" : "differ"); ev("binding.compared");
	}
	if (!is_binding(kind) && kind != Z_EXPR && r.chance(1, 4)) { // second generation
		ZObj z2 = z; z2.o = o2; z2.ud = u2; if (with_ud) for (auto x : std::vector<ccs_object_t>{o2}) { (void)x; }
		if (!with_ud) { if (cmpb) d1 = dump(o2); std::vector<char> bb = ser(o2); ccs_object_t o3 = zoo_reload_ok(z2, bb, nb); CHECK(dump(o3) == d1, "second-generation:" + K, "second round trip differs"); ev("second-generation"); }
	}
	// the handle map given by the caller
	if (map) {
		ccs_datum_t k = ccs_object(orig), v = ccs_none; k.flags |= CCS_DATUM_FLAG_ID; ccs_bool_t ex = CCS_FALSE; OK(ccs_map_exist(map, k, &ex));
		{
			CHECK(ex, "handle-not-mapped:" + K, "the original handle is not in the handle map after the reload");
			OK(ccs_map_get(map, k, &v)); CHECK(v.type == CCS_DATA_TYPE_OBJECT && v.value.o == o2, "handle-mapped-wrong:" + K, "the original handle maps to something else"); ev("handle.mapped");
		}
	}
	sig(mix64(hash_str(d0), kind));
}
