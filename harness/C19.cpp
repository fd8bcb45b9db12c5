// C19: threads working on unrelated objects behave as if run one after another.
#include "draw.hpp"
#include "refuse.hpp"
#include <thread>
#include <atomic>
#include <sched.h>
#include <time.h>
const char *PROP = "C19";
uint64_t num_cases(bool t) { return t ? 20000 : 2400; }
bool ledger_check() { return true; }
void prop_init() { ud_vector(0, 0); }

// delays injected where the library allocates; nothing here orders the threads
static thread_local Rng *t_delay;
static void delay() {
	if (!t_delay) return; uint64_t k = t_delay->below(4096);
	if (k < 60) sched_yield(); else if (k < 64) { struct timespec t = {0, (long)t_delay->below(60000)}; nanosleep(&t, NULL); } else if (k < 120) { for (volatile int i = 0; i < 300; i = i + 1); }
}
static std::atomic<uint64_t> g_tick{0};
struct T { // one thread's work and what it observed
	uint64_t seed; int jobs; bool threaded = false; std::string out; std::optional<Failure> bad; std::vector<uint64_t> ticks; std::map<std::string, uint64_t> events; int errs = 0, ops = 0;
	void tick() { if (threaded) { ticks.push_back(g_tick.fetch_add(1, std::memory_order_relaxed)); for (int i = 0; i < 3; i++) delay(); } }
};
static std::string take_error() {
	ccs_error_stack_t es = ccs_get_thread_error(); if (!es) return "no error;"; ccs_result_t code; const char *msg; size_t n; ccs_error_stack_elem_t *el; std::string s;
	OK(ccs_error_stack_get_code(es, &code)); OK(ccs_error_stack_get_message(es, &msg)); OK(ccs_error_stack_get_elems(es, &n, &el)); s = sfmt("%s '", rname(code)); for (const char *c = msg ? msg : ""; *c; c++) if (c[0] == '0' && c[1] == 'x') { s += "@"; for (c++; isxdigit((unsigned char)c[1]); c++); } else s += *c; s += "'"; // addresses aside for (size_t i = 0; i < n; i++) s += sfmt(" %s:%d", el[i].func, el[i].line);
	ccs_release_object(es); return s + ";";
}
// refused calls whose errors are picked up later
static void errors(Rng &r, T &t) {
	Bag b; std::string id = sfmt("name-%llx", (unsigned long long)r.next()); ccs_configuration_space_t cs; OK(ccs_create_configuration_space(id.c_str(), &cs)); b.own(cs); ccs_parameter_t p; OK(ccs_create_int_numerical_parameter(id.c_str(), 0, 10, 0, 1, &p)); b.own(p); OK(ccs_configuration_space_add_parameter(cs, p, NULL));
	for (int i = r.range(1, 6); i--;) {
		ccs_result_t e; ccs_object_t x = NULL; ccs_datum_t d; size_t depth = r.below(4); t.tick();
		switch (r.below(7)) {
		case 0: e = ccs_configuration_space_add_parameter(cs, p, NULL); break;
		case 1: e = ccs_create_uniform_distribution(CCS_NUMERIC_TYPE_INT, NI(4), NI(2), CCS_SCALE_TYPE_LINEAR, NI(0), (ccs_distribution_t *)&x); break;
		case 2: { std::string bad(r.below(40), 'x'); e = ccs_object_deserialize(&x, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, bad.size(), bad.data(), CCS_DESERIALIZE_OPTION_END); break; }
		case 3: { ccs_configuration_t c; OK(ccs_configuration_space_get_default_configuration(cs, &c)); b.own(c); e = ccs_configuration_set_value(c, 5 + r.below(10), ccs_int(1)); break; }
		case 4: e = ccs_create_thread_error((ccs_result_t)-(int)r.range(1, 20), "%s %d", id.c_str(), i); if (!e) for (size_t k = 0; k < depth; k++) ccs_thread_error_stack_push("file.c", 10 + k, "function"); break;
		case 5: e = ccs_configuration_get_value_by_name((ccs_configuration_t)p, "no", &d); break;
		default: { ccs_expression_t ex; OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_LESS, ccs_string("a"), ccs_int(1), &ex)); b.own(ex); e = ccs_expression_eval(ex, NULL, NULL, &d); }
		}
		t.tick(); t.tick(); t.out += sfmt("%s:", rname(e)) + take_error(); t.errs++;
		t.tick(); CHECK(!ccs_get_thread_error(), "foreign-error", "a thread without an error of its own finds one");
	}
}
static void work(T &t) {
	CHECK(!ccs_get_thread_error(), "foreign-error", "a fresh thread finds an error");
	for (int j = 0; j < t.jobs; j++) {
		Rng r(mix64(t.seed, j)); ud_reset(); { Bag b; ZOpt zo; zo.small = r.below(4); int kind = r.below(Z_COUNT); ZObj z = zoo(r, kind, b, zo); t.tick(); t.out += zname[kind]; ccs_rng_t g = mk_rng(r, b); dump(z.o); std::string d0 = dump(z.o); t.out += d0; Rng q(r.next());
			for (int i = r.range(2, 6); i--;) {
				t.tick(); t.ops++; int op = r.below(6);
				if (op == 0) errors(q, t);
				else if (op == 1) t.out += draw(z.o, g, q.below(6), q.range(1, 8));
				else if (op == 2) { auto bytes = ser(z.o); t.tick(); if (!(z.vec && !(z.vopts & UV_DESER) && z.kind != Z_DTS)) { Bag nb; ccs_object_t o = zoo_reload_ok(z, bytes, nb); dump(o); t.out += dump(o); Rng x(3); exercise(x, o); } else { Bag nb; nb.own(zoo_map(z)); } }
				else if (op == 3) { Rng x(q.next()); exercise(x, z.o); }
				else if (op == 4) { Bag nb; ccs_rng_t h = mk_rng(q, nb); unsigned long u; auto bytes = ser(h); ccs_rng_t k = (ccs_rng_t)nb.own(deser(bytes)); for (int a = 0; a < 4; a++) { OK(ccs_rng_get(k, &u)); t.out += sfmt("%lu,", u); } }
				else { Bag nb; Rng x(q.next()); ZOpt so; so.small = true; ZObj y = zoo(x, x.below(Z_COUNT), nb, so); t.out += dump(y.o); }
				ccs_clear_thread_error();
			}
			dump(z.o); t.out += dump(z.o);
		}
		ud_reset();
	}
}
static void body(T &t) { try { work(t); } catch (Failure &f) { t.bad = f; } ccs_clear_thread_error(); ud_reset(); }
void run_case(Rng &r, uint64_t idx) {
	int n = r.range(2, 6); std::vector<T> ts(n); bool same = r.chance(1, 3); uint64_t base = r.next(); for (auto &t : ts) { t.seed = same ? base : r.next(); t.jobs = r.range(1, 3); t.threaded = true; } // often the very same work at the same time
	desc(sfmt("%d threads%s", n, same ? ", same work" : "")); g_tick = 0; alloc_hook = delay;
	std::atomic<int> ready{0}; std::vector<std::thread> th; std::vector<uint64_t> ds; for (int i = 0; i < n; i++) ds.push_back(r.next());
	for (int i = 0; i < n; i++) th.emplace_back([&, i] { Rng d(ds[i]); t_delay = &d; ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield(); body(ts[i]); t_delay = nullptr; ev_take(ts[i].events); });
	for (auto &x : th) x.join();
	alloc_hook = nullptr; std::vector<std::pair<uint64_t, int>> order; for (int i = 0; i < n; i++) for (auto k : ts[i].ticks) order.push_back({k, i}); std::sort(order.begin(), order.end()); uint64_t h = n, sw = 0; for (size_t i = 0; i < order.size(); i++) { h = mix64(h, order[i].second); if (i && order[i].second != order[i - 1].second) sw++; } sig(h); ev("switches", sw); ev("steps", order.size());
	for (auto &t : ts) { for (auto &e : t.events) ev(e.first.c_str(), e.second); ev("threads"); ev("errors", t.errs); ev("operations", t.ops); if (t.bad) throw *t.bad; }
	CHECK(!ccs_get_thread_error(), "foreign-error", "errors of other threads are visible in the main thread");
	// the same work, one after another
	std::map<std::pair<uint64_t, int>, std::string> done;
	for (int i = 0; i < n; i++) { T s; s.seed = ts[i].seed; s.jobs = ts[i].jobs; auto key = std::make_pair(s.seed, s.jobs); if (!done.count(key)) { body(s); if (s.bad) throw *s.bad; done[key] = s.out; } auto &o = done[key];
		size_t k = 0; while (k < o.size() && k < ts[i].out.size() && o[k] == ts[i].out[k]) k++;
		CHECK(o == ts[i].out, "differs", "thread %d of %d observed something else than the same work alone, at %zu: '%s' instead of '%s'", i, n, k, ts[i].out.substr(k > 60 ? k - 60 : 0, 200).c_str(), o.substr(k > 60 ? k - 60 : 0, 200).c_str()); ev("compared"); }
}
