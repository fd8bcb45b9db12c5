// Refusal monitor: makes a call that must be refused and watches the returned
// code, the published error stack, the outputs and the objects involved.
#pragma once
#include "zoo.hpp"
#include <type_traits>

struct Watch {
	std::map<ccs_object_t, std::pair<std::string, int32_t>> m;
	void add(ccs_object_t o) { if (o && !m.count(o)) { dump(o); m[o] = {dump(o), refcount(o)}; } }
	void check(ccs_object_t o, const char *what) {
		auto it = m.find(o); if (it == m.end()) return;
		CHECK(refcount(o) == it->second.second, "refcount-changed", "%s: reference count %d became %d", what, it->second.second, refcount(o));
		std::string d = dump(o); CHECK(d == it->second.first, "object-changed", "%s: object changed\nbefore: %s\nafter:  %s", what, it->second.first.substr(0, 1500).c_str(), d.substr(0, 1500).c_str());
	}
	void check_all(const char *what) { for (auto &p : m) check(p.first, what); }
};
static void verify_error(ccs_result_t got, ccs_result_t want, const std::string &what, bool lookup = false) {
	CHECK(got < CCS_RESULT_SUCCESS, "accepted", "%s: accepted (%s), must be refused with %s", what.c_str(), rname(got), rname(want));
	bool match = got == want || want == CCS_RESULT_SUCCESS || (want == CCS_RESULT_ERROR_INVALID_PARAMETER && lookup && got == CCS_RESULT_ERROR_INVALID_OBJECT) || (want == CCS_RESULT_ERROR_INVALID_TREE && got == CCS_RESULT_ERROR_OUT_OF_BOUNDS); // a position out of the tree: the step that leaves it is out of bounds
	CHECK(match, "wrong-code", "%s: refused with %s instead of %s", what.c_str(), rname(got), rname(want));
	ccs_error_stack_t es = ccs_get_thread_error();
	CHECK(es, "no-error-stack", "%s: refused with %s without an error stack", what.c_str(), rname(got));
	ccs_result_t code; const char *msg; size_t n; ccs_error_stack_elem_t *el;
	OK(ccs_error_stack_get_code(es, &code)); OK(ccs_error_stack_get_message(es, &msg)); OK(ccs_error_stack_get_elems(es, &n, &el));
	CHECK(code == got, "stack-code", "%s: returned %s but the error stack holds %s", what.c_str(), rname(got), rname(code));
	CHECK(msg, "stack-message", "%s: error stack without a message", what.c_str());
	CHECK(n > 0, "stack-trace", "%s: error stack with an empty trace", what.c_str());
	for (size_t i = 0; i < n; i++) CHECK(el[i].file && el[i].func && *el[i].file && *el[i].func && el[i].line > 0, "stack-element", "%s: error stack element %zu of %zu is incomplete", what.c_str(), i, n);
	CHECK(!ccs_get_thread_error(), "stack-again", "%s: the error taken by the caller is still owned by the thread", what.c_str());
	ccs_release_object(es);
}

enum AK { A_H, A_HO, A_HA, A_HAO, A_NUM, A_FLT, A_DATUM, A_NUMERIC, A_OUT, A_OUTO, A_IN, A_INO };
struct Arg {
	AK k; ccs_object_t h = NULL; uint32_t mask = 0; // accepted types
	std::vector<ccs_object_t> ha;
	uint64_t u = 0; double f = 0; ccs_datum_t d = ccs_none; ccs_numeric_t nu{};
	void *p = nullptr; size_t bytes = 0; bool data = false; ccs_result_t badh = CCS_RESULT_ERROR_INVALID_OBJECT;
	std::vector<char> buf; // outputs
	// out of line: the sweeps build thousands of these
	__attribute__((noinline)) Arg(AK kk) : k(kk) {}
	__attribute__((noinline)) Arg(const Arg &);
	__attribute__((noinline)) Arg &operator=(const Arg &);
	__attribute__((noinline)) ~Arg();
};
Arg::Arg(const Arg &) = default; Arg &Arg::operator=(const Arg &) = default; Arg::~Arg() = default;
typedef std::vector<Arg> Args;
typedef std::function<ccs_result_t(Args &)> Thunk;
static uint32_t tmask(ccs_object_t o) { ccs_object_type_t t; OK(ccs_object_get_type(o, &t)); return 1u << t; }
enum : uint32_t {
	M_BIND = 1u << CCS_OBJECT_TYPE_CONFIGURATION | 1u << CCS_OBJECT_TYPE_FEATURES | 1u << CCS_OBJECT_TYPE_EVALUATION | 1u << CCS_OBJECT_TYPE_FEATURES_EVALUATION | 1u << CCS_OBJECT_TYPE_TREE_EVALUATION,
	M_CTX = 1u << CCS_OBJECT_TYPE_CONFIGURATION_SPACE | 1u << CCS_OBJECT_TYPE_OBJECTIVE_SPACE | 1u << CCS_OBJECT_TYPE_FEATURES_SPACE,
	M_ANY = ~0u };
static Arg H(void *o, uint32_t mask = 0) { Arg a{A_H}; a.h = o; a.mask = mask ? mask : tmask(o); return a; }
static Arg HO(void *o, uint32_t mask = 0) { Arg a{A_HO}; a.h = o; a.mask = mask ? mask : tmask(o); return a; } // NULL accepted
template <class T> static Arg HA(const std::vector<T> &v, bool opt_elem = false) { Arg a{opt_elem ? A_HAO : A_HA}; for (auto o : v) a.ha.push_back((ccs_object_t)o); a.mask = tmask(a.ha[0]); return a; }
static Arg N(uint64_t u) { Arg a{A_NUM}; a.u = u; return a; }
static Arg F(double f) { Arg a{A_FLT}; a.f = f; return a; }
static Arg D(ccs_datum_t d) { Arg a{A_DATUM}; a.d = d; return a; }
static Arg NU(ccs_numeric_t n) { Arg a{A_NUMERIC}; a.nu = n; return a; }
static Arg O(size_t bytes) { Arg a{A_OUT}; a.bytes = bytes; return a; }   // output, required
static Arg OD(size_t n) { Arg a{A_OUT}; a.bytes = n * sizeof(ccs_datum_t); a.data = true; return a; } // values, required: contents after a refusal are not specified
static Arg HP(void *o) { Arg a{A_H}; a.h = o; a.mask = 1u << CCS_OBJECT_TYPE_PARAMETER; a.badh = CCS_RESULT_ERROR_INVALID_PARAMETER; return a; } // parameter looked up in a space
template <class T> static Arg HPA(const std::vector<T> &v) { Arg a{A_HA}; for (auto o : v) a.ha.push_back((ccs_object_t)o); a.mask = 1u << CCS_OBJECT_TYPE_PARAMETER; a.badh = CCS_RESULT_ERROR_INVALID_PARAMETER; return a; }
static Arg OO(size_t bytes) { Arg a{A_OUTO}; a.bytes = bytes; return a; } // output, may be NULL
static Arg I(const void *p) { Arg a{A_IN}; a.p = (void *)p; return a; }   // input, required
static Arg IO(const void *p) { Arg a{A_INO}; a.p = (void *)p; return a; } // input, may be NULL

template <class P> static P conv(Arg &a) {
	if constexpr (std::is_pointer_v<P>) {
		switch (a.k) {
		case A_H: case A_HO: return (P)(void *)a.h;
		case A_HA: case A_HAO: return (P)(void *)(a.p ? a.ha.data() : NULL);
		case A_OUT: case A_OUTO: return (P)(void *)(a.p ? a.buf.data() : NULL);
		default: return (P)a.p;
		}
	} else if constexpr (std::is_same_v<P, ccs_datum_t>) return a.d;
	else if constexpr (std::is_same_v<P, ccs_numeric_t>) return a.nu;
	else if constexpr (std::is_floating_point_v<P>) return (P)a.f;
	else return (P)a.u;
}
template <class... P, size_t... X> static ccs_result_t thunk_call(ccs_result_t (*fn)(P...), Args &a, std::index_sequence<X...>) { return fn(conv<P>(a[X])...); }
template <class... P> __attribute__((noinline)) static Thunk thunk(ccs_result_t (*fn)(P...), size_t &n) { n = sizeof...(P); return [fn](Args &a) { return thunk_call(fn, a, std::index_sequence_for<P...>{}); }; }
struct Sweep {
	Rng &r; Watch &w; std::vector<ccs_object_t> kinds; // one live object of every type
	size_t calls = 0, funcs = 0; uint32_t seen = 0;
	Sweep(Rng &rr, Watch &ww) : r(rr), w(ww) {}
	void prep(std::vector<Arg> &a) { for (auto &x : a) { if (x.k == A_OUT || x.k == A_OUTO) { x.buf.assign(x.bytes, (char)0xA5); x.p = &x; } if (x.k == A_HA || x.k == A_HAO) x.p = &x; } }
	void refused(const std::string &what, Thunk fn, Args &a, ccs_result_t want) {
		static const char *collect = getenv("COLLECT"); // development aid: list every mismatch
		if (!collect) return refused1(what, fn, a, want);
		try { refused1(what, fn, a, want); } catch (Failure &f) { fprintf(stderr, "COLLECT %s\n", f.msg.substr(0, 300).c_str()); }
	}
	void refused1(const std::string &what, Thunk fn, Args &a, ccs_result_t want) {
		for (auto &x : a) { w.add(x.h); for (auto o : x.ha) w.add(o); }
		ccs_clear_thread_error();
		if (r.below(3) == 0) ccs_create_thread_error(CCS_RESULT_ERROR_EXTERNAL, "older error"); // must not survive
		calls++; note("%s", what.c_str());
		ccs_result_t e = fn(a);
		{ bool lookup = false; for (auto &x : a) lookup |= x.badh == CCS_RESULT_ERROR_INVALID_PARAMETER; verify_error(e, want, what, lookup); }
		for (auto &x : a) if ((x.k == A_OUT || x.k == A_OUTO) && !x.data) for (char c : x.buf) CHECK(c == 0 || c == (char)0xA5, "output-written", "%s: refused, yet wrote in its output", what.c_str());
		for (auto &x : a) { w.check(x.h, what.c_str()); for (auto o : x.ha) w.check(o, what.c_str()); }
		ev("refusals");
	}
	// mode: 'q' the unmodified call is legal and changes nothing; 'c' legal and creates an object in its last output; 'm' not made
	template <class... P> void operator()(char mode, const char *name, ccs_result_t (*fn)(P...), std::initializer_list<Arg> a) { size_t n; Thunk t = thunk(fn, n); run(mode, name, t, n, a); }
	__attribute__((noinline)) void run(char mode, const char *name, Thunk &fn, size_t np, std::initializer_list<Arg> al) {
		Args a = al; CHECK(a.size() == np, "harness", "%s: %zu arguments given, %zu expected", name, a.size(), np); funcs++; ev("functions");
		if (mode != 'm') {
			auto b = a; prep(b); ccs_clear_thread_error(); ccs_result_t e = fn(b); if (e < 0 && getenv("COLLECT")) fprintf(stderr, "COLLECT %s: valid call refused with %s\n", name, rname(e)); else if (e < 0) fail(std::string("valid-refused:") + name, "%s: valid call refused with %s", name, rname(e));
			if (mode == 'c' && e >= 0) { ccs_object_t o; memcpy(&o, b.back().buf.data(), sizeof o); ccs_release_object(o); }
		}
		for (size_t i = 0; i < a.size(); i++) {
			auto &x = a[i]; auto sub = [&](const std::string &how, ccs_result_t want, std::function<void(Arg &)> mod) { auto b = a; prep(b); mod(b[i]); refused(sfmt("%s with argument %zu %s", name, i + 1, how.c_str()), fn, b, want); };
			if (x.k == A_H) sub("NULL", x.badh, [](Arg &y) { y.h = NULL; });
			if ((x.k == A_H || x.k == A_HO) && x.mask != M_ANY) for (int k = 0; k < (tier.thorough ? 6 : 3); k++) { ccs_object_t o = r.pick(kinds); if (x.mask & tmask(o)) continue; sub("of another object type", x.badh, [&](Arg &y) { y.h = o; }); }
			if (x.k == A_HA || x.k == A_HAO) {
				sub("NULL", CCS_RESULT_ERROR_INVALID_VALUE, [](Arg &y) { y.p = NULL; });
				size_t at = 0; // list operations are sequences of single ones: refused at the first element
				if (x.k == A_HA) sub("holding NULL", x.badh, [&](Arg &y) { y.ha[at] = NULL; });
				ccs_object_t o = r.pick(kinds); if (!(x.mask & tmask(o))) sub("holding another object type", x.badh, [&](Arg &y) { y.ha[at] = o; });
			}
			if (x.k == A_OUT || x.k == A_IN) sub("NULL", CCS_RESULT_ERROR_INVALID_VALUE, [](Arg &y) { y.p = NULL; });
		}
	}
	// a refusal with its own cause; objs: objects involved besides handle arguments
	template <class... P> void sem(ccs_result_t want, const char *why, const char *name, ccs_result_t (*fn)(P...), std::initializer_list<Arg> a) { size_t n; Thunk t = thunk(fn, n); run_sem(want, why, name, t, n, a); }
	__attribute__((noinline)) void run_sem(ccs_result_t want, const char *why, const char *name, Thunk &fn, size_t np, std::initializer_list<Arg> al) {
		Args a = al; CHECK(a.size() == np, "harness", "%s: %zu arguments given, %zu expected", name, a.size(), np);
		prep(a); refused(sfmt("%s (%s)", name, why), fn, a, want); ev("semantic-refusals");
	}
};
