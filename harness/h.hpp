// Common runtime-monitoring harness: deterministic case driver, allocation
// ledger, fault injection, event counters, and small helpers over the public
// CCS API.  Everything here judges behaviour through the public interface.
#pragma once
#include <cconfigspace.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <algorithm>
#include <optional>

typedef std::vector<ccs_datum_t> DV;

// ---------------------------------------------------------------- random
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { // inclusive
		return (int64_t)((uint64_t)a + below((uint64_t)b - (uint64_t)a + 1));
	}
	bool chance(int num, int den) { return (int64_t)below(den) < num; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double real(double a, double b) { return a + unit() * (b - a); }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
	template <class T> void shuffle(std::vector<T> &v) {
		for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
	}
};
uint64_t mix64(uint64_t a, uint64_t b);
uint64_t hash_str(const std::string &s);

// ---------------------------------------------------------------- failures
struct Failure { std::string key, msg; };
[[noreturn]] void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
std::string sfmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define CHECK(cond, key, ...)                                                  \
	do {                                                                   \
		if (!(cond))                                                   \
			fail(key, __VA_ARGS__);                                \
	} while (0)

const char *rname(ccs_result_t r);
// call must succeed
#define OK(expr)                                                               \
	do {                                                                   \
		ccs_result_t _r = (expr);                                      \
		if (_r != CCS_RESULT_SUCCESS)                                  \
			fail_call(_r, CCS_RESULT_SUCCESS, #expr, __LINE__);    \
	} while (0)
// call must fail with the given code
#define REFUSED(code, expr)                                                    \
	do {                                                                   \
		ccs_result_t _r = (expr);                                      \
		if (_r != (code))                                              \
			fail_call(_r, code, #expr, __LINE__);                  \
		ccs_clear_thread_error();                                      \
	} while (0)
// call must fail with some error code
#define REFUSED_ANY(expr)                                                      \
	do {                                                                   \
		ccs_result_t _r = (expr);                                      \
		if (_r >= CCS_RESULT_SUCCESS)                                  \
			fail_call(_r, CCS_RESULT_MIN, #expr, __LINE__);        \
		ccs_clear_thread_error();                                      \
	} while (0)
[[noreturn]] void fail_call(ccs_result_t got, ccs_result_t want, const char *expr, int line);

// ---------------------------------------------------------------- monitors
void ev(const char *name, uint64_t n = 1);    // observed event counter
void ev_take(std::map<std::string, uint64_t> &out); // moves the calling thread's counters
void sig(uint64_t h);                         // signature of a non-trivial case
void desc(const std::string &s);              // textual description (samples)
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // op trace, printed on failure

// allocation ledger (library allocations only, through --wrap)
extern "C" {
int64_t led_live(void);        // live library blocks
int64_t led_gsl(void);         // live gsl generators
uint64_t led_count(void);      // allocations so far
void led_fail_at(int64_t n);   // make the n-th allocation from now fail (1-based), 0 = off
extern void (*alloc_hook)(void); // called at every library allocation
int led_fired(void);           // whether the injected failure happened
}
struct IoPlan {                // injected outcomes for read/write made by the library
	std::function<ssize_t(int fd, size_t n, bool wr, int *err)> decide; // returns bytes allowed, 0 = EOF, -1 with *err
};
extern IoPlan *io_plan;
extern uint64_t io_reads, io_writes;

// ---------------------------------------------------------------- objects
// Reference bag: releases everything it owns at scope end.
struct Bag {
	std::vector<ccs_object_t> v;
	template <class T> T own(T o) { if (o) v.push_back((ccs_object_t)o); return o; }
	void clear();
	~Bag();
};
const char *intern(const std::string &s);
ccs_datum_t dstr(const std::string &s);        // interned string datum
std::string dtos(const ccs_datum_t &d);        // printable
bool deq(const ccs_datum_t &a, const ccs_datum_t &b); // strict content equality (bitwise floats, NaN==NaN)
ccs_datum_t transient_copy(const ccs_datum_t &d, std::vector<std::unique_ptr<char[]>> &store);
int32_t refcount(ccs_object_t o);
std::string numstr(ccs_numeric_type_t t, ccs_numeric_t n);
static inline ccs_numeric_t NI(int64_t v) { ccs_numeric_t n; n.i = v; return n; }
static inline ccs_numeric_t NF(double v) { ccs_numeric_t n; n.f = v; return n; }

// a name given in a buffer of its own that goes away after the creating call
struct TName {
	std::string s; std::unique_ptr<char[]> b;
	explicit TName(Rng &r) { size_t n = r.chance(1, 10) ? r.range(60, 300) : r.chance(1, 10) ? 0 : r.range(1, 20); for (size_t i = 0; i < n; i++) s += r.chance(1, 10) ? (char)r.range(-128, -1) : (char)r.range(32, 126); b.reset(new char[n + 1]); memcpy(b.get(), s.c_str(), n + 1); }
	const char *c() { return b.get(); }
	void gone() { if (b) { memset(b.get(), '#', s.size()); b.reset(); } }
	template <class F, class O> void is(F getter, O o, const char *what) { gone(); const char *n = NULL; OK(getter(o, &n)); CHECK(n && s == n, "name", "%s created as '%s' is named '%s'", what, s.c_str(), n ? n : "(none)"); ev("name.checked"); }
};

// serialisation helpers
std::vector<char> ser(ccs_object_t o);
size_t ser_size(ccs_object_t o);
ccs_object_t deser(const std::vector<char> &b, ccs_map_t map = NULL, void *vector = NULL, void *data = NULL);

// ---------------------------------------------------------------- driver
struct Tier { bool thorough; };
extern Tier tier;
extern const char *PROP;
void run_case(Rng &r, uint64_t idx);     // supplied by each property
uint64_t num_cases(bool thorough);       // supplied by each property
bool ledger_check();                     // whether each case must leave no library memory behind
void prop_init();                        // once per process
// largest deviation of a binomial count with this standard deviation that is not an alarm (Bernstein bound, odds below 1e-12)
inline double freq_tol(double sd) { return 10 + std::sqrt(100 + 60 * sd * sd); }
