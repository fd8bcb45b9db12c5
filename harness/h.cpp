#include "h.hpp"
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdarg>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <sys/time.h>
#include <unordered_set>
#include <atomic>
#include <malloc.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_errno.h>

uint64_t mix64(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xff51afd7ed558ccdull + 0x1234567)); r.next(); return r.next(); }
uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

extern "C" int __real_vasprintf(char **, const char *, va_list);
std::string sfmt(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char *p = nullptr; int n = __real_vasprintf(&p, fmt, ap); va_end(ap);
	std::string s = n >= 0 ? std::string(p) : std::string();
	// vasprintf memory comes from libc, not from the library ledger
	extern void harness_free(void *); harness_free(p);
	return s;
}
void fail(const std::string &key, const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char buf[4096]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	throw Failure{key, buf};
}
const char *rname(ccs_result_t r) {
	const char *n = "?";
	if (ccs_get_result_name(r, &n) != CCS_RESULT_SUCCESS) return "?";
	return n;
}
static std::string callee(const char *expr) {
	std::string s(expr); size_t p = s.find('('); return p == std::string::npos ? s : s.substr(0, p);
}
void fail_call(ccs_result_t got, ccs_result_t want, const char *expr, int line) {
	std::string msg;
	ccs_error_stack_t es = ccs_get_thread_error();
	if (es) {
		const char *m = ""; size_t n = 0; ccs_error_stack_elem_t *el = nullptr;
		ccs_error_stack_get_message(es, &m);
		msg = m ? m : "";
		if (ccs_error_stack_get_elems(es, &n, &el) == CCS_RESULT_SUCCESS)
			for (size_t i = 0; i < n; i++) msg += sfmt(" <%s:%d>", el[i].func, el[i].line);
		ccs_release_object(es);
	}
	fail("call:" + callee(expr) + ":" + rname(got), "line %d: %s returned %s, expected %s [%s]", line, expr, rname(got),
	     want == CCS_RESULT_MIN ? "an error" : rname(want), msg.c_str());
}

// ------------------------------------------------------------ ledger
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void *__real_reallocarray(void *, size_t, size_t);
gsl_rng *__real_gsl_rng_alloc(const gsl_rng_type *); void __real_gsl_rng_free(gsl_rng *); gsl_rng *__real_gsl_rng_clone(const gsl_rng *);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);

static std::atomic<int64_t> g_live{0}, g_gsl{0};
static std::atomic<uint64_t> g_count{0};
static std::atomic<int64_t> g_fail{0};
static std::atomic<int> g_fired{0};
int64_t led_live(void) { return g_live.load(std::memory_order_relaxed); }
int64_t led_gsl(void) { return g_gsl.load(std::memory_order_relaxed); }
uint64_t led_count(void) { return g_count; }
void led_fail_at(int64_t n) { g_fired = 0; g_fail = n; }
int led_fired(void) { return g_fired; }
void (*alloc_hook)(void) = nullptr;
static bool inject() {
	if (alloc_hook) alloc_hook();
	g_count.fetch_add(1, std::memory_order_relaxed);
	if (g_fail.load(std::memory_order_relaxed) > 0 && --g_fail == 0) { g_fired = 1; errno = ENOMEM; return true; }
	return false;
}
void *__wrap_malloc(size_t n) { if (inject()) return nullptr; void *p = __real_malloc(n); if (p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (inject()) return nullptr; void *p = __real_calloc(a, b); if (p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
void *__wrap_realloc(void *o, size_t n) {
	if (inject()) return nullptr;
	void *p = __real_realloc(o, n);
	if (!o && p) g_live.fetch_add(1, std::memory_order_relaxed);
	if (o && !p && n == 0) g_live.fetch_sub(1, std::memory_order_relaxed);
	return p;
}
void *__wrap_reallocarray(void *o, size_t a, size_t b) { if (inject()) return nullptr; void *p = __real_reallocarray(o, a, b); if (!o && p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
void __wrap_free(void *p) { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); __real_free(p); }
char *__wrap_strdup(const char *s) { if (inject()) return nullptr; char *p = __real_strdup(s); if (p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
char *__wrap_strndup(const char *s, size_t n) { if (inject()) return nullptr; char *p = __real_strndup(s, n); if (p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
int __wrap_posix_memalign(void **o, size_t a, size_t n) { if (inject()) return ENOMEM; int r = __real_posix_memalign(o, a, n); if (!r) g_live.fetch_add(1, std::memory_order_relaxed); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (inject()) return nullptr; void *p = __real_aligned_alloc(a, n); if (p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
int __real_vasprintf(char **, const char *, va_list);
int __wrap_vasprintf(char **o, const char *f, va_list ap) { if (inject()) { *o = nullptr; return -1; } int r = __real_vasprintf(o, f, ap); if (r >= 0) g_live.fetch_add(1, std::memory_order_relaxed); return r; }
int __wrap_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vasprintf(o, f, ap); va_end(ap); return r; }
gsl_rng *__wrap_gsl_rng_alloc(const gsl_rng_type *t) { if (inject()) return nullptr; gsl_rng *p = __real_gsl_rng_alloc(t); if (p) g_gsl.fetch_add(1, std::memory_order_relaxed); return p; }
gsl_rng *__wrap_gsl_rng_clone(const gsl_rng *t) { if (inject()) return nullptr; gsl_rng *p = __real_gsl_rng_clone(t); if (p) g_gsl.fetch_add(1, std::memory_order_relaxed); return p; }
void __wrap_gsl_rng_free(gsl_rng *r) { if (r) g_gsl.fetch_sub(1, std::memory_order_relaxed); __real_gsl_rng_free(r); }
}
void harness_free(void *p) { __real_free(p); }

IoPlan *io_plan = nullptr;
uint64_t io_reads = 0, io_writes = 0;
extern "C" ssize_t __wrap_read(int fd, void *b, size_t n) {
	if (!io_plan) return __real_read(fd, b, n);
	io_reads++;
	int err = 0; ssize_t k = io_plan->decide(fd, n, false, &err);
	if (k < 0) { errno = err; return -1; }
	if (k == 0) return 0;
	if ((size_t)k > n) k = n;
	return __real_read(fd, b, k);
}
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) {
	if (!io_plan) return __real_write(fd, b, n);
	io_writes++;
	int err = 0; ssize_t k = io_plan->decide(fd, n, true, &err);
	if (k < 0) { errno = err; return -1; }
	if (k == 0) return 0;
	if ((size_t)k > n) k = n;
	return __real_write(fd, b, k);
}

// ------------------------------------------------------------ counters
static thread_local std::map<std::string, uint64_t> g_ev; // per thread: nothing in the monitors orders threads
static std::unordered_set<uint64_t> g_sigs;
static std::vector<std::string> g_samples;
static thread_local std::string g_desc, g_notes;
void ev_take(std::map<std::string, uint64_t> &out) { out.swap(g_ev); g_ev.clear(); }
void ev(const char *name, uint64_t n) { g_ev[name] += n; }
void sig(uint64_t h) { g_sigs.insert(h); }
void desc(const std::string &s) { if (g_desc.size() < 1500) { if (!g_desc.empty()) g_desc += " | "; g_desc += s; } }
void note(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); char buf[512]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	g_notes += buf; g_notes += "; ";
	if (g_notes.size() > 8000) g_notes.erase(0, 4000);
}

// ------------------------------------------------------------ objects
void Bag::clear() { while (!v.empty()) { ccs_object_t o = v.back(); v.pop_back(); ccs_release_object(o); } }
Bag::~Bag() { clear(); }
const char *intern(const std::string &s) { static thread_local auto *pool = new std::set<std::string>; return pool->insert(s).first->c_str(); }
ccs_datum_t dstr(const std::string &s) { return ccs_string(intern(s)); }
std::string dtos(const ccs_datum_t &d) {
	switch (d.type) {
	case CCS_DATA_TYPE_NONE: return "none";
	case CCS_DATA_TYPE_INACTIVE: return "inactive";
	case CCS_DATA_TYPE_INT: return sfmt("%lld", (long long)d.value.i);
	case CCS_DATA_TYPE_FLOAT: return sfmt("%.17g%s", d.value.f, d.value.f == std::floor(d.value.f) ? "f" : "");
	case CCS_DATA_TYPE_BOOL: return d.value.i ? "true" : "false";
	case CCS_DATA_TYPE_STRING: return d.value.s ? sfmt("'%s'", d.value.s) : "NULLSTR";
	case CCS_DATA_TYPE_OBJECT: return "object";
	default: return sfmt("type%d", (int)d.type);
	}
}
bool deq(const ccs_datum_t &a, const ccs_datum_t &b) {
	if (a.type != b.type) return false;
	switch (a.type) {
	case CCS_DATA_TYPE_NONE: case CCS_DATA_TYPE_INACTIVE: return true;
	case CCS_DATA_TYPE_BOOL: case CCS_DATA_TYPE_INT: return a.value.i == b.value.i;
	case CCS_DATA_TYPE_FLOAT: return a.value.f == b.value.f || (a.value.f != a.value.f && b.value.f != b.value.f);
	case CCS_DATA_TYPE_STRING: return (!a.value.s || !b.value.s) ? a.value.s == b.value.s : !strcmp(a.value.s, b.value.s);
	default: return a.value.o == b.value.o;
	}
}
ccs_datum_t transient_copy(const ccs_datum_t &d, std::vector<std::unique_ptr<char[]>> &store) {
	ccs_datum_t r = d;
	if (d.type == CCS_DATA_TYPE_STRING && d.value.s) {
		size_t n = strlen(d.value.s) + 1;
		store.emplace_back(new char[n]); memcpy(store.back().get(), d.value.s, n);
		r.value.s = store.back().get(); r.flags |= CCS_DATUM_FLAG_TRANSIENT;
	}
	return r;
}
int32_t refcount(ccs_object_t o) { int32_t c = -1; OK(ccs_object_get_refcount(o, &c)); return c; }
std::string numstr(ccs_numeric_type_t t, ccs_numeric_t n) { return t == CCS_NUMERIC_TYPE_INT ? sfmt("%lld", (long long)n.i) : sfmt("%.17g", n.f); }

size_t ser_size(ccs_object_t o) {
	size_t n = 0;
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END));
	return n;
}
std::vector<char> ser(ccs_object_t o) {
	std::vector<char> b(ser_size(o));
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_SERIALIZE_OPTION_END));
	return b;
}
ccs_object_t deser(const std::vector<char> &b, ccs_map_t map, void *vector, void *data) {
	ccs_object_t o = NULL;
	if (map && vector)
		OK(ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(),
			CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_VECTOR, vector, CCS_DESERIALIZE_OPTION_DATA, data, CCS_DESERIALIZE_OPTION_END));
	else if (map)
		OK(ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(),
			CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_END));
	else if (vector)
		OK(ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(),
			CCS_DESERIALIZE_OPTION_VECTOR, vector, CCS_DESERIALIZE_OPTION_DATA, data, CCS_DESERIALIZE_OPTION_END));
	else
		OK(ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_END));
	return o;
}

// ------------------------------------------------------------ driver
Tier tier{false};
static uint64_t g_case = 0;
static void say(const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t k = __real_write(1, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } }
static std::string jstr(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += sfmt("\\u%04x", c); else o += c; }
	return o + "\"";
}
static void on_death() {
	char b[64]; snprintf(b, sizeof b, "\nDEATH case=%llu\n", (unsigned long long)g_case);
	(void)!__real_write(1, b, strlen(b));
	std::string n = "NOTES " + g_notes + "\n"; (void)!__real_write(1, n.data(), n.size());
}
static void on_alarm(int) {
	char b[64]; snprintf(b, sizeof b, "\nHANG case=%llu\n", (unsigned long long)g_case);
	(void)!__real_write(1, b, strlen(b));
	(void)!__real_write(1, "NOTES ", 6); (void)!__real_write(1, g_notes.data(), g_notes.size()); (void)!__real_write(1, "\n", 1);
	syscall(SYS_exit_group, 97); // not intercepted: a sanitizer report in progress holds locks
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" void __lsan_do_leak_check(void);
#define HAVE_DEATH 1
#endif
#endif
int main(int argc, char **argv) {
	uint64_t seed = 1, from = 0, to = 0; bool full = false; std::string sigfile;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
		else if (a == "--from") from = strtoull(argv[++i], 0, 10);
		else if (a == "--to") to = strtoull(argv[++i], 0, 10), full = true;
		else if (a == "--case") { from = strtoull(argv[++i], 0, 10); to = from + 1; full = true; }
		else if (a == "--thorough") tier.thorough = true;
		else if (a == "--sigs") sigfile = argv[++i];
		else if (a == "--count") { printf("%llu\n", (unsigned long long)num_cases(tier.thorough)); return 0; }
	}
	if (!full) to = num_cases(tier.thorough);
#ifdef HAVE_DEATH
	__sanitizer_set_death_callback(on_death);
#endif
	signal(SIGALRM, on_alarm);
	signal(SIGPIPE, SIG_IGN);
	unsigned lim = getenv("CASE_LIMIT_S") ? atoi(getenv("CASE_LIMIT_S")) : 60;
	if (ccs_init() != CCS_RESULT_SUCCESS) { say("DEATH case=0 init\n"); return 96; }
	prop_init();
	uint64_t done = 0; std::map<std::string, int> seen; int nfail = 0;
	for (g_case = from; g_case < to; g_case++) {
		Rng r(mix64(mix64(seed, hash_str(PROP)), g_case));
		g_desc.clear(); g_notes.clear();
		int64_t live0 = led_live(), gsl0 = led_gsl();
		alarm(lim);
		try {
			run_case(r, g_case);
			ccs_clear_thread_error();
			if (ledger_check()) {
				if (led_live() != live0) fail("leak", "library blocks live after the case: %lld more than before", (long long)(led_live() - live0));
				if (led_gsl() != gsl0) fail("leak-rng", "generators live after the case: %lld more than before", (long long)(led_gsl() - gsl0));
				ev("ledger.checked");
			}
		} catch (Failure &f) {
			led_fail_at(0); io_plan = nullptr;
			ccs_clear_thread_error();
			nfail++;
			if (seen[f.key]++ < 3)
				say("FAIL " + jstr(f.key) + " case=" + std::to_string(g_case) + " " + f.msg + "\n  DESC " + g_desc + "\n  NOTES " + g_notes + "\n");
			if (nfail > 200) { g_case++; done++; break; }
		}
		alarm(0);
		done++;
		if (g_samples.size() < 2 && !g_desc.empty()) g_samples.push_back(g_desc);
	}
	std::string j = "STATS {\"cases\":" + std::to_string(done) + ",\"next\":" + std::to_string(g_case) + ",\"events\":{";
	bool first = true;
	for (auto &e : g_ev) { if (!first) j += ","; first = false; j += jstr(e.first) + ":" + std::to_string(e.second); }
	j += "},\"samples\":["; first = true;
	for (auto &s : g_samples) { if (!first) j += ","; first = false; j += jstr(s); }
	j += "],\"allocs\":" + std::to_string(led_count()) + "}\n";
	if (!sigfile.empty()) { FILE *f = fopen(sigfile.c_str(), "w"); if (f) { for (auto s : g_sigs) fprintf(f, "%016llx\n", (unsigned long long)s); fclose(f); } }
	say(j);
	fflush(stdout);
#ifdef HAVE_DEATH
	if (getenv("LEAKCHECK")) __lsan_do_leak_check(); // debugging aid: where leaked blocks were allocated
#endif
	_exit(nfail ? 10 : 0);
}
