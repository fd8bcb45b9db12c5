// C27: the Kokkos connector, driven through its entry points as Kokkos drives a
// tuning tool.  Time is virtual: it moves only when the workload says so and,
// to make time spent inside the tuner visible, at every library allocation.
#include "h.hpp"
#include <impl/Kokkos_Profiling_C_Interface.h>
#include <time.h>
#include <unordered_set>
#include <sanitizer/allocator_interface.h>
const char *PROP = "C27";
uint64_t num_cases(bool th) { return th ? 40000 : 2400; }
bool ledger_check() { return true; }
typedef Kokkos_Tools_VariableInfo Info;
typedef Kokkos_Tools_VariableValue Val;
extern "C" {
void kokkosp_provide_tool_programming_interface(uint32_t, Kokkos_Tools_ToolProgrammingInterface);
void kokkosp_request_tool_settings(uint32_t, Kokkos_Tools_ToolSettings *);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_finalize_library();
void kokkosp_declare_input_type(const char *, const size_t, Info *);
void kokkosp_declare_output_type(const char *, const size_t, Info *);
void kokkosp_request_values(size_t, size_t, Val *, size_t, Val *);
void kokkosp_begin_context(size_t);
void kokkosp_end_context(size_t);
void kokkosp_begin_parallel_for(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_begin_parallel_scan(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_begin_parallel_reduce(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_reduce(const uint64_t);
int __real_clock_gettime(clockid_t, struct timespec *);
ccs_result_t __real_ccs_features_tuner_tell(ccs_features_tuner_t, size_t, ccs_features_evaluation_t *);
}
// ------------------------------------------------------------ virtual clock
static int64_t vnow = 0, spent = 0, step_off = 0; static uint64_t clock_reads = 0; static bool virt = false;
static int64_t real_now() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
	if (!virt) return __real_clock_gettime(c, t);
	clock_reads++;
	int64_t n = vnow + ((c == CLOCK_REALTIME) ? step_off : 0); // the system time may be set at any moment
	t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
}
static void on_alloc() { vnow += 1000003; spent += 1000003; }
// ------------------------------------------------------------ observed calls
struct Told { ccs_features_tuner_t t; std::vector<std::string> conf, feat; int64_t time; ccs_evaluation_result_t res; };
static bool inside = false, busy = false; static std::vector<Told> told; static std::vector<uint32_t> fences;
extern "C" ccs_result_t __wrap_ccs_features_tuner_tell(ccs_features_tuner_t t, size_t n, ccs_features_evaluation_t *e) {
	auto h = alloc_hook; alloc_hook = nullptr; inside = false; // looking costs no time
	for (size_t i = 0; i < n; i++) {
		Told x; x.t = t; ccs_configuration_t c; ccs_features_t f; size_t k; ccs_datum_t d;
		OK(ccs_features_evaluation_get_configuration(e[i], &c)); OK(ccs_features_evaluation_get_features(e[i], &f));
		OK(ccs_configuration_get_values(c, 0, NULL, &k)); DV v(k); if (k) OK(ccs_configuration_get_values(c, k, v.data(), NULL));
		ccs_configuration_space_t cs; OK(ccs_configuration_get_configuration_space(c, &cs));
		for (size_t j = 0; j < k; j++) { ccs_parameter_t p; const char *nm; OK(ccs_configuration_space_get_parameter(cs, j, &p)); OK(ccs_parameter_get_name(p, &nm)); x.conf.push_back(std::string(nm) + "=" + dtos(v[j])); }
		OK(ccs_features_get_values(f, 0, NULL, &k)); v.resize(k); if (k) OK(ccs_features_get_values(f, k, v.data(), NULL));
		ccs_features_space_t fs; OK(ccs_features_get_features_space(f, &fs));
		for (size_t j = 0; j < k; j++) { ccs_parameter_t p; const char *nm; OK(ccs_features_space_get_parameter(fs, j, &p)); OK(ccs_parameter_get_name(p, &nm)); x.feat.push_back(std::string(nm) + "=" + dtos(v[j])); }
		OK(ccs_features_evaluation_get_objective_value(e[i], 0, &d)); x.time = d.type == CCS_DATA_TYPE_INT ? d.value.i : INT64_MIN; OK(ccs_features_evaluation_get_result(e[i], &x.res));
		std::sort(x.conf.begin(), x.conf.end()); std::sort(x.feat.begin(), x.feat.end()); told.push_back(x);
	}
	alloc_hook = h; inside = true;
	return __real_ccs_features_tuner_tell(t, n, e);
}
// blocks taken inside the connector's entry points and still held (C++ blocks included)
static std::unordered_set<const volatile void *> held;
static void on_malloc(const volatile void *p, size_t) { if (!inside || busy || !p) return; busy = true; held.insert(p); busy = false; }
static void on_free(const volatile void *p) { if (busy || !p || held.empty()) return; busy = true; held.erase(p); busy = false; }
#define IN(call) do { inside = true; call; inside = false; } while (0)
static void fence(const uint32_t dev) { inside = false; fences.push_back(dev); inside = true; }
void prop_init() { held.reserve(1 << 16); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
// ------------------------------------------------------------ variables
struct Var {
	std::string name; size_t id; bool input; Info info; std::vector<int64_t> si; std::vector<double> sd; std::vector<std::string> ss;
	bool lo_open = false, up_open = false; int64_t il = 0, iu = 0, is = 0; double dl = 0, du = 0, ds = 0;
	std::set<std::string> seen; size_t asked = 0;
	bool set() const { return info.valueQuantity == kokkos_value_set; }
	bool range() const { return info.valueQuantity == kokkos_value_range; }
	std::string text() const {
		std::string s = name + (input ? " in" : " out"); const char *ty[] = {"double", "int", "string"}; s += sfmt(" %s", ty[info.type]);
		if (set()) { s += " {"; for (auto x : si) s += sfmt("%lld ", (long long)x); for (auto x : sd) s += sfmt("%.17g ", x); for (auto &x : ss) s += x + " "; s += "}"; }
		else if (range()) s += info.type == kokkos_value_int64 ? sfmt(" %c%lld,%lld%c/%lld", lo_open ? '(' : '[', (long long)il, (long long)iu, up_open ? ')' : ']', (long long)is) : sfmt(" %c%.17g,%.17g%c/%.17g", lo_open ? '(' : '[', dl, du, up_open ? ')' : ']', ds);
		return s;
	}
	// values the declaration allows, when few
	std::vector<std::string> all() const {
		std::vector<std::string> o; for (auto x : si) o.push_back(dtos(ccs_int(x))); for (auto x : sd) o.push_back(dtos(ccs_float(x))); for (auto &x : ss) o.push_back(dtos(ccs_string(x.c_str())));
		if (range() && info.type == kokkos_value_int64) { int64_t st = is ? is : 1, a = il + (lo_open ? st : 0); if ((iu - a) / st < 12) for (int64_t v = a; up_open ? v < iu : v <= iu; v += st) o.push_back(dtos(ccs_int(v))); if (is && up_open && (iu - a) % st) o.clear(); } // a last partial step may be left out
		return o;
	}
};
static std::string word(Rng &r) { static const char *w[] = {"a", "team", "vector", "tile size", "LoopSchedule", "x_0", "\xc3\xa9t\xc3\xa9", ""}; std::string s = w[r.below(8)]; if (r.chance(1, 6)) s = std::string(r.range(50, 63), 'k'); if (r.below(2)) s += sfmt("%d", (int)r.below(1000)); if (s.size() > 63) s.resize(63); return s; }
static Var gen_var(Rng &r, size_t id, bool input, const std::string &name) {
	Var v; v.name = name; v.id = id; v.input = input; memset(&v.info, 0x5a, sizeof v.info); v.info.toolProvidedInfo = NULL;
	int q = r.below(input ? 3 : 2); v.info.valueQuantity = q == 0 ? kokkos_value_set : q == 1 ? kokkos_value_range : kokkos_value_unbounded;
	v.info.type = r.pick({kokkos_value_double, kokkos_value_int64, kokkos_value_string}); v.info.category = r.pick({kokkos_value_categorical, kokkos_value_ordinal, kokkos_value_interval, kokkos_value_ratio});
	if (v.range() && v.info.type == kokkos_value_string) v.info.type = kokkos_value_int64;
	if (v.info.type == kokkos_value_string) v.info.category = r.below(2) ? kokkos_value_categorical : kokkos_value_ordinal;
	if (v.set()) {
		size_t n = r.chance(1, 12) ? r.range(20, 100) : r.range(1, 7); std::set<std::string> u;
		for (size_t i = 0; i < n; i++) {
			if (v.info.type == kokkos_value_int64) { int64_t x = r.chance(1, 6) ? (int64_t)r.next() : r.range(-50, 50); if (u.insert(sfmt("%lld", (long long)x)).second) v.si.push_back(x); }
			else if (v.info.type == kokkos_value_double) { double x = r.chance(1, 6) ? r.real(-1e12, 1e12) : r.range(-40, 40) / 8.0; if (u.insert(sfmt("%a", x)).second) v.sd.push_back(x); }
			else { std::string x = word(r); if (u.insert(x).second) v.ss.push_back(x); }
		}
	} else if (v.range()) {
		v.lo_open = r.below(2); v.up_open = r.below(2);
		if (v.info.type == kokkos_value_int64) {
			v.is = r.below(2) ? 0 : r.range(1, 9); v.il = r.chance(1, 8) ? r.range(-(1ll << 50), 1ll << 50) : r.range(-60, 60); int64_t st = v.is ? v.is : 1, k = r.chance(1, 8) ? r.range(0, 1ll << 40) : r.range(0, 7); // k steps between the ends
			k += v.lo_open + v.up_open; v.iu = v.il + k * st + (r.chance(1, 3) ? r.below(st) : 0); if (v.up_open && st > 1 && r.chance(1, 8)) v.iu = v.il + v.lo_open * st + r.range(1, st - 1); // shorter than a step
		} else {
			v.ds = r.below(2) ? 0 : r.pick({0.1, 0.25, 0.3, 1.0, 2.5, 1e-3}); v.dl = r.chance(1, 3) ? 0 : r.range(-80, 80) / 4.0;
			if (v.ds == 0) { if (r.chance(1, 4)) { v.du = v.dl; for (int i = r.range(0, 3) + v.lo_open + v.up_open; i > 0; i--) v.du = nextafter(v.du, INFINITY); } else v.du = v.dl + r.real(0.5, 20); } // a few representable numbers, or many
			else { int64_t k = r.range(0, 7) + v.lo_open + v.up_open; v.du = v.dl + (k + (r.chance(1, 3) ? r.real(0.05, 0.95) : v.up_open && !k ? 1 : 0)) * v.ds; }
		}
	}
	return v;
}
static void declare(Rng &r, Var &v) {
	std::unique_ptr<char[]> nm(new char[v.name.size() + 1]); strcpy(nm.get(), v.name.c_str());
	std::vector<int64_t> si = v.si; std::vector<double> sd = v.sd; std::unique_ptr<Kokkos_Tools_Tuning_String[]> ss(new Kokkos_Tools_Tuning_String[v.ss.size() + 1]); auto &c = v.info.candidates;
	if (v.set()) {
		c.set.size = v.si.size() + v.sd.size() + v.ss.size();
		if (v.info.type == kokkos_value_int64) c.set.values.int_value = si.data(); else if (v.info.type == kokkos_value_double) c.set.values.double_value = sd.data();
		else { for (size_t i = 0; i < v.ss.size(); i++) { memset(ss[i], '?', 64); strcpy(ss[i], v.ss[i].c_str()); } c.set.values.string_value = ss.get(); }
	} else if (v.range()) {
		memset(&c.range, 0x5a, sizeof c.range); c.range.openLower = v.lo_open; c.range.openUpper = v.up_open;
		if (v.info.type == kokkos_value_int64) { c.range.lower.int_value = v.il; c.range.upper.int_value = v.iu; c.range.step.int_value = v.is; } else { c.range.lower.double_value = v.dl; c.range.upper.double_value = v.du; c.range.step.double_value = v.ds; }
	}
	note("declare %s;", v.text().c_str());
	if (v.input) IN(kokkosp_declare_input_type(nm.get(), v.id, &v.info)); else IN(kokkosp_declare_output_type(nm.get(), v.id, &v.info));
	memset(nm.get(), '!', v.name.size()); memset(&v.info.candidates, 0x77, sizeof v.info.candidates); // the tool keeps its own copy; candidates arrays go with this scope
	ev("declared");
}
// a value the declaration allows, for context variables
static std::string some(Rng &r, Var &v, Val &o) {
	o.type_id = v.id; o.metadata = &v.info; memset(&o.value, '?', sizeof o.value);
	if (v.info.type == kokkos_value_string) { std::string s = v.set() ? r.pick(v.ss) : word(r); strcpy(o.value.string_value, s.c_str()); return v.name + "=" + dtos(ccs_string(s.c_str())); }
	if (v.info.type == kokkos_value_int64) {
		int64_t x; if (v.set()) x = r.pick(v.si); else if (v.range()) { int64_t st = v.is ? v.is : 1, a = v.il + (v.lo_open ? st : 0), b = v.up_open ? v.iu - 1 : v.iu, k = (b - a) / st; x = a + st * (r.chance(1, 3) ? k : r.range(0, std::min<int64_t>(k, 3))); } else x = r.chance(1, 8) ? (int64_t)(r.next() >> 2) : r.range(-5, 5);
		o.value.int_value = x; return v.name + "=" + dtos(ccs_int(x));
	}
	double x; if (v.set()) x = r.pick(v.sd); else if (v.range()) { if (v.ds == 0) { x = r.chance(1, 3) && !v.up_open ? v.du : r.chance(1, 2) && !v.lo_open ? v.dl : v.dl + (v.du - v.dl) / 2; if (v.lo_open && x <= v.dl) x = nextafter(v.dl, INFINITY); if (v.up_open && x >= v.du) x = nextafter(v.du, -INFINITY); } else { double a = v.dl + (v.lo_open ? v.ds : 0); int64_t k = r.below(2); x = a + k * v.ds; if (x > v.du || (v.up_open && x >= v.du)) x = a; } } else x = r.chance(1, 8) ? r.real(-1e100, 1e100) : r.range(-4, 4) / 2.0;
	o.value.double_value = x; return v.name + "=" + dtos(ccs_float(x));
}
// what was proposed for a tuning variable must be one of its declared candidates
static std::string proposed(Var &v, const Val &o) {
	std::string got; bool in = false;
	if (v.info.type == kokkos_value_string) {
		CHECK(memchr(o.value.string_value, 0, 64), "unterminated", "%s: proposed string has no end", v.text().c_str());
		std::string s = o.value.string_value; got = dtos(ccs_string(s.c_str())); in = std::find(v.ss.begin(), v.ss.end(), s) != v.ss.end();
	} else if (v.info.type == kokkos_value_int64) {
		int64_t x = o.value.int_value; got = dtos(ccs_int(x)); if (v.set()) in = std::find(v.si.begin(), v.si.end(), x) != v.si.end();
		else in = (v.lo_open ? x > v.il : x >= v.il) && (v.up_open ? x < v.iu : x <= v.iu) && (!v.is || (uint64_t)(x - v.il) % v.is == 0);
	} else {
		double x = o.value.double_value; got = dtos(ccs_float(x)); if (v.set()) in = std::find(v.sd.begin(), v.sd.end(), x) != v.sd.end();
		else if (v.ds == 0) in = (v.lo_open ? x > v.dl : x >= v.dl) && (v.up_open ? x < v.du : x <= v.du);
		else { double k = (x - v.dl) / v.ds, tol = 1e-9 * (1 + fabs(v.dl / v.ds)); in = fabs(k - round(k)) <= tol && (v.lo_open ? k >= 1 - tol : k >= -tol) && x <= v.du + tol * v.ds && (!v.up_open || x < v.du); }
	}
	CHECK(in, "candidate", "%s: proposed %s, which was not declared", v.text().c_str(), got.c_str());
	v.seen.insert(got); v.asked++; ev("proposed"); return v.name + "=" + got;
}
// ------------------------------------------------------------ sessions
struct Region { std::vector<int> in, out; std::vector<Told> hist; ccs_features_tuner_t t = NULL; std::map<int, size_t> asks; };
struct Ctx { size_t id; int region; bool conv; std::vector<std::string> conf, feat; int64_t v1, r0, r1, vs; uint64_t reads; };
static bool broken = false;
static void session(Rng &r) {
	vnow = (int64_t)r.below(1000000) * 1000000000 + r.pick<int64_t>({0, 1, 999999999, (int64_t)r.below(1000000000)}); step_off = (int64_t)r.below(1ull << 60); told.clear(); fences.clear();
	Kokkos_Tools_ToolProgrammingInterface api; memset(&api, 0, sizeof api); api.fence = fence; Kokkos_Tools_ToolSettings st; memset(&st, 1, sizeof st);
	auto provide = [&] { kokkosp_provide_tool_programming_interface(1, api); kokkosp_request_tool_settings(1, &st); CHECK(!st.requires_global_fencing, "global-fencing", "the tool asks for a fence around every kernel"); };
	bool late = r.below(2); if (!late) provide(); size_t held0 = held.size(); int ver = KOKKOSP_INTERFACE_VERSION + r.below(2); IN(kokkosp_init_library(0, ver, 0, NULL)); if (late) provide();
	std::vector<std::unique_ptr<Var>> vars; int ni = r.range(0, 4), no = r.range(1, 6); std::set<size_t> ids; std::set<std::string> names; uint64_t shape = 0;
	for (int i = 0; i < ni + no; i++) {
		size_t id; do id = r.chance(1, 4) ? r.next() : r.below(40); while (!ids.insert(id).second); std::string nm; do nm = word(r); while (nm.empty() || !names.insert(nm).second);
		vars.push_back(std::make_unique<Var>(gen_var(r, id, i < ni, nm))); shape = mix64(shape, hash_str(vars.back()->text()));
	}
	{ std::vector<int> o; for (int i = 0; i < ni + no; i++) o.push_back(i); r.shuffle(o); for (int i : o) declare(r, *vars[i]); }
	std::vector<Region> regs; std::set<std::set<int>> used;
	for (int t = r.range(1, 4); t--;) { Region g; std::set<int> key; for (int i = 0; i < ni; i++) if (r.below(2)) g.in.push_back(i), key.insert(i); for (int i = ni; i < ni + no; i++) if (r.chance(2, 3)) g.out.push_back(i), key.insert(i); if (g.out.empty()) { g.out.push_back(ni); key.insert(ni); } if (used.insert(key).second) regs.push_back(g); }
	bool longrun = r.chance(1, 3); int target = longrun ? r.range(520, 700) * (regs.size() > 1 && r.below(2) ? 2 : 1) : r.range(3, 60); int fav = r.below(regs.size()); uint64_t trace = shape;
	// a few contexts values are used again and again, so that regions gather evaluations for each
	std::vector<std::vector<Val>> pool(ni); std::vector<std::vector<std::string>> poolt(ni); for (int i = 0; i < ni; i++) for (int k = 0; k < 2; k++) { Val x; poolt[i].push_back(some(r, *vars[i], x)); pool[i].push_back(x); }
	std::vector<Ctx> stack; int begun = 0; std::vector<int64_t> durations; for (int i = 0; i < 12; i++) durations.push_back(r.pick<int64_t>({0, (int64_t)r.below(1000), (int64_t)r.below(1000000000), (int64_t)r.below(5) * 1000000000, (int64_t)r.below(10000000000000ll)}));
	auto kernel = [&] {
		bool expect = false; for (auto &c : stack) if (!c.conv) expect = true;
		uint32_t dev = r.chance(1, 3) ? (uint32_t)r.next() : r.below(4); uint64_t k = 0xdeadbeefdeadbeef; int ty = r.below(3); fences.clear();
		if (ty == 0) kokkosp_begin_parallel_for("k", dev, &k); else if (ty == 1) kokkosp_begin_parallel_scan("k", dev, &k); else kokkosp_begin_parallel_reduce("k", dev, &k);
		auto judge = [&](const char *w) { if (expect) CHECK(fences.size() == 1 && fences[0] == dev, "fence", "%zu fences %s a kernel on device %u while tuning (first on %u)", fences.size(), w, dev, fences.empty() ? 0 : fences[0]); else CHECK(fences.empty(), "fence-needless", "fence %s a kernel although nothing is being tuned", w); fences.clear(); };
		judge("before"); vnow += r.pick(durations);
		if (ty == 0) kokkosp_end_parallel_for(k); else if (ty == 1) kokkosp_end_parallel_scan(k); else kokkosp_end_parallel_reduce(k);
		judge("after"); ev(expect ? "kernel.fenced" : "kernel.free");
	};
	auto begin = [&] {
		size_t id; do id = r.chance(1, 5) ? r.next() : r.below(50); while (std::any_of(stack.begin(), stack.end(), [&](Ctx &c) { return c.id == id; }));
		int gi = r.chance(2, 3) ? fav : r.below(regs.size()); Region &g = regs[gi]; std::vector<int> in = g.in, out = g.out; r.shuffle(in); r.shuffle(out); Ctx c; c.id = id; c.region = gi;
		std::unique_ptr<Val[]> iv(new Val[in.size()]), ov(new Val[out.size()]); // exact sizes
		for (size_t i = 0; i < in.size(); i++) { if (r.chance(9, 10)) { int k = r.below(2); iv[i] = pool[in[i]][k]; c.feat.push_back(poolt[in[i]][k]); } else c.feat.push_back(some(r, *vars[in[i]], iv[i])); }
		for (size_t i = 0; i < out.size(); i++) { ov[i].type_id = vars[out[i]]->id; ov[i].metadata = &vars[out[i]]->info; memset(&ov[i].value, 0xa5, sizeof ov[i].value); }
		std::sort(c.feat.begin(), c.feat.end()); c.conv = g.hist.size() >= 500; kokkosp_begin_context(id); size_t nt = told.size(); step_off += (int64_t)r.below(1ull << 40) - (1ll << 39); c.reads = clock_reads; int64_t s0 = spent; c.r0 = real_now();
		fences.clear(); IN(kokkosp_request_values(id, in.size(), iv.get(), out.size(), ov.get())); c.r1 = real_now(); c.vs = spent - s0; c.v1 = vnow; c.reads = clock_reads - c.reads;
		CHECK(told.size() == nt, "tell-early", "an evaluation was reported when values were requested");
		for (size_t i = 0; i < in.size(); i++) memset(&iv[i], 0xee, sizeof(Val)); // the context's buffers are its own again
		for (size_t i = 0; i < out.size(); i++) { c.conf.push_back(proposed(*vars[out[i]], ov[i])); g.asks[out[i]]++; }
		std::sort(c.conf.begin(), c.conf.end());
		if (c.conv) {
			ev("request.converged"); int64_t best = INT64_MAX; for (auto &t : g.hist) if (t.feat == c.feat) best = std::min(best, t.time);
			if (best != INT64_MAX) { bool ok = false; size_t n = 0; for (auto &t : g.hist) if (t.feat == c.feat) { n++; if (t.time == best && t.conf == c.conf) ok = true; } std::string s; for (auto &x : c.conf) s += x + " "; for (auto &x : c.feat) s += "| " + x; CHECK(ok, "best", "after convergence, %s was proposed, which is not the fastest of the %zu evaluations in this context (%lld ns)", s.c_str(), n, (long long)best); ev("best.checked"); } else ev("best.unseen");
		} else ev("request.tuning");
		begun++; stack.push_back(c);
	};
	auto end = [&] {
		Ctx c = stack.back(); stack.pop_back(); Region &g = regs[c.region]; step_off += (int64_t)r.below(1ull << 40) - (1ll << 39); size_t nt = told.size(); uint64_t cr = clock_reads; int64_t v2 = vnow, r2 = real_now(), s0 = spent; IN(kokkosp_end_context(c.id)); int64_t r3 = real_now(), vs2 = spent - s0; cr = clock_reads - cr;
		if (c.conv) { CHECK(told.size() == nt, "tell-converged", "an evaluation was reported for a context that was not being tuned"); ev("end.converged"); return; }
		CHECK(told.size() == nt + 1, "tell-count", "%zu evaluations reported for one context", told.size() - nt); Told t = told.back();
		auto join = [](const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; };
		CHECK(t.conf == c.conf, "tell-values", "values %s were proposed, an evaluation of %s was reported", join(c.conf).c_str(), join(t.conf).c_str());
		CHECK(t.feat == c.feat, "tell-context", "the context was %s, the evaluation was reported for %s", join(c.feat).c_str(), join(t.feat).c_str());
		CHECK(t.res == CCS_RESULT_SUCCESS, "tell-result", "the evaluation was reported as failed");
		int64_t lo, hi; if (c.reads && cr) { lo = v2 - c.v1; hi = lo + (c.vs + vs2) / 4; ev("time.virtual"); } else { lo = r2 - c.r1; hi = r3 - c.r0; ev("time.real"); }
		CHECK(t.time >= lo && t.time <= hi, "time", "the context ran for %lld ns (at most %lld), %lld were reported", (long long)lo, (long long)hi, (long long)t.time);
		if (g.t) CHECK(g.t == t.t, "tuner", "two tuners for the same variables"); g.t = t.t; for (auto &o : regs) if (&o != &g) CHECK(o.t != t.t, "tuner-shared", "one tuner for different variables");
		g.hist.push_back(t); size_t n; auto h = alloc_hook; OK(ccs_features_tuner_get_history(t.t, NULL, 0, NULL, &n)); alloc_hook = h; CHECK(n == g.hist.size(), "history", "%zu evaluations in the history, %zu were reported", n, g.hist.size());
		trace = mix64(trace, t.time); ev("end.told");
	};
	while (begun < target || !stack.empty()) {
		if (begun < target && stack.size() < 4 && r.chance(stack.empty() ? 9 : 3, 12)) begin();
		else if (!stack.empty() && r.below(2)) { if (r.chance(1, 6)) kernel(); vnow += r.pick(durations); end(); }
		else if (r.chance(1, 4)) kernel();
		else if (r.chance(1, 4)) { size_t id = r.below(50); size_t nt = told.size(); bool dup = std::any_of(stack.begin(), stack.end(), [&](Ctx &c) { return c.id == id; }); if (!dup) { kokkosp_begin_context(id); kernel(); kokkosp_end_context(id); CHECK(told.size() == nt, "tell-plain", "an evaluation was reported for a context that asked for nothing"); ev("context.plain"); } }
	}
	kernel();
	for (auto &g : regs) for (auto &a : g.asks) if (std::min<size_t>(a.second, g.hist.size()) >= 450) { Var &v = *vars[a.first]; auto all = v.all(); if (all.size() && all.size() <= 8) { for (auto &x : all) CHECK(v.seen.count(x), "never", "%s: %s was declared and never proposed in %zu requests", v.text().c_str(), x.c_str(), v.asked); ev("coverage.checked"); } }
	if (longrun) ev("session.long"); ev("session"); sig(trace);
	desc(sfmt("%d inputs, %d outputs, %zu regions, %d contexts", ni, no, regs.size(), begun));
	IN(kokkosp_finalize_library()); fences.clear();
	CHECK(held.size() <= held0 + 4, "held", "%zu blocks taken by the connector are still held after its finalisation", held.size() - held0); ev("held.checked");
}
void run_case(Rng &r, uint64_t) {
	if (broken) return;
	alloc_hook = on_alloc; virt = true; spent = 0;
	try { session(r); } catch (...) { broken = true; alloc_hook = nullptr; virt = false; throw; }
	alloc_hook = nullptr; virt = false;
}
