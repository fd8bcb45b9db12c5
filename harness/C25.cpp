// C25: file and descriptor streaming under partial, interrupted and failing I/O.
#include "zoo.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <unistd.h>
const char *PROP = "C25";
uint64_t num_cases(bool th) { return th ? 150000 : 16000; }
bool ledger_check() { return true; }
static char g_dir[64];
void prop_init() { signal(SIGPIPE, SIG_IGN); strcpy(g_dir, "/tmp/verif-c25-XXXXXX"); if (!mkdtemp(g_dir)) abort(); atexit([] { std::string p = std::string(g_dir) + "/f"; unlink(p.c_str()); rmdir(g_dir); }); }

struct Fd { int f; Fd(int x = -1) : f(x) {} ~Fd() { if (f >= 0) close(f); } Fd(const Fd &) = delete; };
static int scratch() { int f = memfd_create("c25", 0); CHECK(f >= 0, "harness", "memfd_create failed"); return f; }
static std::vector<char> content(int fd) { off_t n = lseek(fd, 0, SEEK_END); std::vector<char> b(n); if (n) CHECK(pread(fd, b.data(), n, 0) == n, "harness", "pread"); lseek(fd, 0, SEEK_SET); return b; }
// a schedule of outcomes for the library's transfers
struct Plan : IoPlan {
	Rng r; int partial = 0, intr = 0, again = 0, stop_err = 0; int64_t stop_at = -1; uint64_t moved = 0, calls = 0, n_intr = 0, n_again = 0, n_partial = 0; bool stopped = false, eof = false; bool again_now = false;
	Plan(Rng &g) : r(g.next()) {
		partial = r.pick({0, 30, 80, 100}); intr = r.pick({0, 0, 20, 50}); again = r.pick({0, 0, 30, 60});
		decide = [this](int, size_t n, bool, int *err) -> ssize_t {
			if (++calls > 2000000) { *err = EIO; return -1; }
			if (stop_at >= 0 && (int64_t)moved >= stop_at) { stopped = true; if (stop_err == 0) { eof = true; return 0; } *err = stop_err; return -1; }
			if ((int)r.below(100) < intr) { n_intr++; *err = EINTR; return -1; }
			if ((int)r.below(100) < again) { n_again++; again_now = true; *err = EAGAIN; return -1; }
			size_t k = n; if ((int)r.below(100) < partial && n > 1) { k = r.below(3) ? 1 + r.below(n) : 1; n_partial++; } if (stop_at >= 0 && moved + k > (uint64_t)stop_at) k = stop_at - moved; if (!k) { stopped = true; if (stop_err == 0) { eof = true; return 0; } *err = stop_err; return -1; }
			moved += k; return k;
		};
	}
	void on() { io_plan = this; again_now = false; }
};
struct Off { ~Off() { io_plan = nullptr; } };
static ccs_result_t wr(ccs_object_t o, int fd, void **st) {
	Off off; return st ? ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_NON_BLOCKING, st, CCS_SERIALIZE_OPTION_END)
		: ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_END);
}
static ccs_result_t rd(const ZObj &z, ccs_map_t m, UD *u, int fd, void **st, ccs_object_t *o) {
	Off off; auto O = CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR; auto F = CCS_SERIALIZE_FORMAT_BINARY;
	if (z.vec) return st ? ccs_object_deserialize(o, F, O, fd, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_VECTOR, z.vec, CCS_DESERIALIZE_OPTION_DATA, u, CCS_DESERIALIZE_OPTION_NON_BLOCKING, st, CCS_DESERIALIZE_OPTION_END)
		: ccs_object_deserialize(o, F, O, fd, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_VECTOR, z.vec, CCS_DESERIALIZE_OPTION_DATA, u, CCS_DESERIALIZE_OPTION_END);
	return st ? ccs_object_deserialize(o, F, O, fd, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_NON_BLOCKING, st, CCS_DESERIALIZE_OPTION_END) : ccs_object_deserialize(o, F, O, fd, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END);
}
static UD *fresh(const ZObj &z) { if (!z.vec) return nullptr; UD *u = ud_new(z.ud->kind, z.ud->seed); u->maxdepth = z.ud->maxdepth; u->maxarity = z.ud->maxarity; u->gen_child = z.ud->gen_child; return u; }
struct Item { ZObj z; std::vector<char> bytes; std::string d; };
// progress of one non-blocking (or blocking) transfer; returns true when finished
struct Writer { Item *it; int fd; bool nb; void *st = NULL; Plan *p = nullptr; bool done = false; int again = 0; bool real = false;
	bool step() {
		if (p) p->on(); ccs_result_t e = wr(it->z.o, fd, nb ? &st : NULL);
		if (e == CCS_RESULT_AGAIN) { CHECK(nb, "again-blocking", "a blocking write returned AGAIN"); CHECK(st, "again-state", "AGAIN returned without a state to resume"); if (p && !real) CHECK(p->again_now || p->n_intr, "again-spurious", "AGAIN although nothing would block"); again++; ev("again.write"); return false; }
		CHECK(e == CCS_RESULT_SUCCESS, "write", "writing a %s failed: %s", zname[it->z.kind], rname(e)); CHECK(!st, "state-left", "state left after the write completed"); if (nb && p) CHECK(!p->again_now, "spun", "a non-blocking write went on after the descriptor would block"); done = true; return true; } };
struct Reader { Item *it; int fd; bool nb; ccs_map_t m; UD *u; void *st = NULL; Plan *p = nullptr; bool done = false; ccs_object_t o = NULL; int again = 0;
	bool step(Bag &b) {
		if (p) p->on(); ccs_object_t out = NULL; ccs_result_t e = rd(it->z, m, u, fd, nb ? &st : NULL, &out);
		if (e == CCS_RESULT_AGAIN) { CHECK(nb, "again-blocking", "a blocking read returned AGAIN"); CHECK(st, "again-state", "AGAIN returned without a state to resume"); if (p) CHECK(p->again_now || p->n_intr, "again-spurious", "AGAIN although nothing would block"); again++; ev("again.read"); return false; }
		CHECK(e == CCS_RESULT_SUCCESS, "read", "reading a %s failed: %s", zname[it->z.kind], rname(e)); CHECK(!st, "state-left", "state left after the read completed"); if (nb && p) CHECK(!p->again_now, "spun", "a non-blocking read went on after the descriptor would block"); o = b.own(out); done = true; return true; } };
static void same(Item &it, ccs_object_t o, Bag &b) { dump(o); std::string d = dump(o); CHECK(d == it.d, "object", "%s read back differs", zname[it.z.kind]); (void)b; ev("read-back"); }
static int open_fds() { int n = 0; for (int i = 0; i < 128; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static bool still_mapped() { Fd f(open("/proc/self/maps", O_RDONLY)); std::string t; char buf[4096]; ssize_t k; while ((k = read(f.f, buf, sizeof buf)) > 0) t.append(buf, k); return t.find(g_dir) != std::string::npos; }
// user data carried with the objects: the callback's answer depends only on the object
struct CbCtx { uint64_t calls = 0, fail_at = UINT64_MAX, blobs = 0; std::multiset<std::string> seen; };
static std::string blob_of(ccs_object_t o) { uint64_t h = mix64((uint64_t)(uintptr_t)o, 77); return std::string(h % 40, (char)('a' + (h >> 8) % 26)); }
static ccs_result_t user_out(ccs_object_t o, size_t n, void *data, size_t *ret, void *vc) { CbCtx *c = (CbCtx *)vc; if (c->calls++ == c->fail_at) return CCS_RESULT_ERROR_EXTERNAL; std::string s = blob_of(o); if (data) { CHECK(n >= s.size(), "callback-room", "the callback is given %zu of the %zu bytes it asked for", n, s.size()); memcpy(data, s.data(), s.size()); } if (ret) *ret = s.size(); return CCS_RESULT_SUCCESS; }
static ccs_result_t user_in(ccs_object_t, size_t n, const char *data, void *vc) { CbCtx *c = (CbCtx *)vc; if (c->calls++ == c->fail_at) return CCS_RESULT_ERROR_EXTERNAL; c->seen.insert(std::string(data, n)); return CCS_RESULT_SUCCESS; }
static void count(Plan &p) { ev("transfers", p.calls); ev("partial", p.n_partial); ev("interrupted", p.n_intr); ev("would-block", p.n_again); }

void run_case(Rng &r, uint64_t idx) {
	ud_reset(); Bag b; std::vector<Item> its(r.range(1, 4)); std::string d; ZOpt zo; zo.small = r.below(2);
	for (size_t i = 0; i < its.size(); i++) { auto &it = its[i]; it.z = zoo(r, i ? r.below(Z_COUNT) : idx % Z_COUNT, b, zo); dump(it.z.o); it.bytes = ser(it.z.o); ccs_object_t c = zoo_reload_ok(it.z, it.bytes, b); dump(c); it.d = dump(c); d += sfmt("%s:%zu ", zname[it.z.kind], it.bytes.size()); }
	int fds = open_fds(); int mode = r.below(6); d += sfmt("mode %d", mode); desc(d); sig(mix64(hash_str(d), idx));
	auto map_of = [&](Item &it) { return b.own(zoo_map(it.z)); };
	int64_t live = 0; auto mark = [&] { ccs_clear_thread_error(); live = led_live(); }; auto balance = [&](const char *w) { ccs_clear_thread_error(); CHECK(led_live() == live, "leak", "%s left %lld library blocks", w, (long long)(led_live() - live)); };
	switch (mode) {
	case 0: { // one after another through a regular descriptor, injected outcomes
		Fd f(scratch()); std::vector<char> all; mark();
		for (auto &it : its) { Plan p(r); Writer w{&it, f.f, (bool)r.below(2)}; w.p = &p; while (!w.step()) CHECK(w.again < 2000000, "no-progress", "write never ends"); count(p); all.insert(all.end(), it.bytes.begin(), it.bytes.end()); }
		balance("writing"); auto got = content(f.f); CHECK(got == all, "bytes", "%zu bytes written, %zu expected%s", got.size(), all.size(), got.size() == all.size() ? ", contents differ" : ""); ev("written");
		uint64_t off = 0; for (auto &it : its) { Plan p(r); Reader q{&it, f.f, (bool)r.below(2), map_of(it), fresh(it.z)}; q.p = &p; while (!q.step(b)) CHECK(q.again < 2000000, "no-progress", "read never ends"); count(p); off += it.bytes.size(); CHECK((uint64_t)lseek(f.f, 0, SEEK_CUR) == off, "consumed", "reading a %s consumed %lld bytes up to %llu", zname[it.z.kind], (long long)lseek(f.f, 0, SEEK_CUR), (unsigned long long)off); same(it, q.o, b); }
		ccs_object_t o = NULL; Item &l = its.back(); REFUSED_ANY(rd(l.z, map_of(l), fresh(l.z), f.f, NULL, &o)); CHECK(!o, "object-at-end", "an object was returned at the end of input"); ev("end"); break; }
	case 1: { // real pipe or socket, both ends non-blocking, several streams interleaved, with or without injection
		struct S { std::unique_ptr<Fd> a, z; size_t iw = 0, ir = 0; Writer w; Reader q; std::unique_ptr<Plan> pw, pr; bool wbusy = false, rbusy = false; std::vector<ccs_object_t> got; }; std::vector<S> ss(r.range(1, 3));
		for (auto &s : ss) { int p[2]; if (r.below(2)) { CHECK(!pipe2(p, O_NONBLOCK), "harness", "pipe"); if (r.below(2)) fcntl(p[1], F_SETPIPE_SZ, 4096); } else { int q[2]; CHECK(!socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, q), "harness", "socketpair"); int sz = 1; setsockopt(q[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); p[0] = q[0]; p[1] = q[1]; } s.z.reset(new Fd(p[0])); s.a.reset(new Fd(p[1])); }
		mark(); size_t left = ss.size() * its.size(), turns = 0;
		while (left) { CHECK(++turns < 5000000, "no-progress", "streams never end"); S &s = ss[r.below(ss.size())]; bool inj = r.below(2);
			if (r.below(2)) { if (s.iw < its.size()) { if (!s.wbusy) { s.w = Writer{&its[s.iw], s.a->f, true}; s.w.real = true; s.pw.reset(inj ? new Plan(r) : nullptr); s.wbusy = true; } s.w.p = s.pw.get(); if (s.w.step()) { s.wbusy = false; s.iw++; if (s.pw) count(*s.pw); } } }
			else if (s.ir < its.size()) { if (!s.rbusy) { s.q = Reader{&its[s.ir], s.z->f, true, zoo_map(its[s.ir].z), fresh(its[s.ir].z)}; b.own(s.q.m); s.pr.reset(nullptr); s.rbusy = true; } s.q.p = s.pr.get(); if (s.q.step(b)) { s.rbusy = false; s.ir++; left--; s.got.push_back(s.q.o); ev("streamed"); } } }
		for (auto &s : ss) { for (size_t i = 0; i < its.size(); i++) same(its[i], s.got[i], b); char c; CHECK(read(s.z->f, &c, 1) == -1 && errno == EAGAIN, "surplus", "bytes remain in the stream after everything was read"); } break; }
	case 2: { // write errors at any point
		auto &it = its[0]; for (int k = r.range(2, 6); k--;) {
			Fd f(scratch()); Plan p(r); p.stop_at = r.below(it.bytes.size()); p.stop_err = r.pick({EIO, ENOSPC, EPIPE, EBADF, EFBIG}); bool nb = r.below(2); void *st = NULL; mark(); ccs_result_t e; int tries = 0;
			do { p.on(); e = wr(it.z.o, f.f, nb ? &st : NULL); } while (e == CCS_RESULT_AGAIN && ++tries < 100000);
			CHECK(e < 0, "write-error", "a write stopped by error %d after %lld of %zu bytes gives %s", p.stop_err, (long long)p.stop_at, it.bytes.size(), rname(e)); CHECK(!st, "state-left", "state left after a failed write"); balance("a failed write"); auto got = content(f.f); CHECK(got.size() <= it.bytes.size() && !memcmp(got.data(), it.bytes.data(), got.size()), "prefix", "bytes written before the error are not a prefix of the object"); count(p); ev("write.error");
			// and again from the start
			Fd g(scratch()); Plan p2(r); Writer w{&it, g.f, nb}; w.p = &p2; while (!w.step()); CHECK(content(g.f) == it.bytes, "bytes", "after a failed write the object is written differently"); count(p2);
		} break; }
	case 3: { // read errors and premature ends at any point
		auto &it = its[0]; for (int k = r.range(2, 6); k--;) {
			Fd f(scratch()); CHECK(write(f.f, it.bytes.data(), it.bytes.size()) == (ssize_t)it.bytes.size(), "harness", "write"); lseek(f.f, 0, SEEK_SET); Plan p(r); p.stop_at = r.chance(1, 4) ? r.below(std::min<size_t>(it.bytes.size(), 24)) : r.below(it.bytes.size()); p.stop_err = r.pick({0, 0, EIO, EBADF, ECONNRESET}); bool nb = r.below(2); void *st = NULL; ccs_map_t m = map_of(it); UD *u = fresh(it.z); mark(); ccs_result_t e; int tries = 0; ccs_object_t o = NULL;
			do { p.on(); e = rd(it.z, m, u, f.f, nb ? &st : NULL, &o); } while (e == CCS_RESULT_AGAIN && ++tries < 100000);
			CHECK(e < 0, "read-error", "a read stopped (%s) after %lld of %zu bytes gives %s", p.stop_err ? "error" : "end of input", (long long)p.stop_at, it.bytes.size(), rname(e)); CHECK(!st, "state-left", "state left after a failed read"); CHECK(!o, "object", "an object was returned by a failed read"); balance("a failed read"); count(p); ev(p.stop_err ? "read.error" : "read.eof");
			// truncated for real
			size_t cut = r.below(it.bytes.size()); CHECK(!ftruncate(f.f, cut), "harness", "ftruncate"); lseek(f.f, 0, SEEK_SET); REFUSED_ANY(rd(it.z, m, fresh(it.z), f.f, NULL, &o)); balance("a truncated read"); ev("read.truncated");
			Fd g(scratch()); CHECK(write(g.f, it.bytes.data(), it.bytes.size()) == (ssize_t)it.bytes.size(), "harness", "write"); lseek(g.f, 0, SEEK_SET); Plan p2(r); Reader q{&it, g.f, nb, map_of(it), fresh(it.z)}; q.p = &p2; while (!q.step(b)); same(it, q.o, b); count(p2);
		} break; }
	case 5: { // user data travels along, and a callback that fails stops the transfer cleanly
		auto &it = its[0]; std::string path = std::string(g_dir) + "/f"; auto F = CCS_SERIALIZE_FORMAT_BINARY; CbCtx c0; size_t n = 0; dump(it.z.o); static int tag; for (auto x : b.v) if (x == (ccs_object_t)it.z.o || r.below(2)) OK(ccs_object_set_user_data(x, &tag));
		OK(ccs_object_serialize(it.z.o, F, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_CALLBACK, user_out, &c0, CCS_SERIALIZE_OPTION_END)); std::vector<char> mem(n); OK(ccs_object_serialize(it.z.o, F, CCS_SERIALIZE_OPERATION_MEMORY, n, mem.data(), CCS_SERIALIZE_OPTION_CALLBACK, user_out, &c0, CCS_SERIALIZE_OPTION_END));
		auto to_file = [&](CbCtx &c) { return ccs_object_serialize(it.z.o, F, CCS_SERIALIZE_OPERATION_FILE, path.c_str(), CCS_SERIALIZE_OPTION_CALLBACK, user_out, &c, CCS_SERIALIZE_OPTION_END); };
		auto to_fd = [&](int fd, Plan &p, bool nb, CbCtx &c) { void *st = NULL; ccs_result_t e; int tries = 0; do { p.on(); Off off; e = nb ? ccs_object_serialize(it.z.o, F, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_NON_BLOCKING, &st, CCS_SERIALIZE_OPTION_CALLBACK, user_out, &c, CCS_SERIALIZE_OPTION_END) : ccs_object_serialize(it.z.o, F, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_CALLBACK, user_out, &c, CCS_SERIALIZE_OPTION_END); } while (e == CCS_RESULT_AGAIN && ++tries < 1000000); CHECK(!st, "state-left", "state left after a write"); return e; };
		auto slurp = [&] { Fd f(open(path.c_str(), O_RDONLY)); CHECK(f.f >= 0, "no-file", "file was not created"); return content(f.f); };
		{ CbCtx c; mark(); OK(to_file(c)); balance("writing a file with user data"); CHECK(slurp() == mem, "file-bytes", "a file with user data differs from memory serialisation"); CbCtx k; Fd f(scratch()); Plan p(r); mark(); OK(to_fd(f.f, p, r.below(2), k)); balance("writing with user data"); CHECK(content(f.f) == mem, "bytes", "a stream with user data differs from memory serialisation"); count(p); ev("user.written", 2); }
		CbCtx ref; auto from = [&](int how, int fd, Plan *p, bool nb, CbCtx &c, ccs_object_t *o) { ccs_map_t m = map_of(it); UD *u = fresh(it.z); mark(); void *st = NULL; ccs_result_t e; int tries = 0; auto opv = it.z.vec ? CCS_DESERIALIZE_OPTION_VECTOR : CCS_DESERIALIZE_OPTION_DATA;
			do { if (p) p->on(); Off off;
				e = how == 0 ? ccs_object_deserialize(o, F, CCS_SERIALIZE_OPERATION_MEMORY, mem.size(), mem.data(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_DATA, u, CCS_DESERIALIZE_OPTION_CALLBACK, user_in, &c, opv, it.z.vec ? (void *)it.z.vec : (void *)u, CCS_DESERIALIZE_OPTION_END)
				: how == 1 ? ccs_object_deserialize(o, F, CCS_SERIALIZE_OPERATION_FILE, path.c_str(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_DATA, u, CCS_DESERIALIZE_OPTION_CALLBACK, user_in, &c, opv, it.z.vec ? (void *)it.z.vec : (void *)u, CCS_DESERIALIZE_OPTION_END)
				: nb ? ccs_object_deserialize(o, F, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_DESERIALIZE_OPTION_NON_BLOCKING, &st, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_DATA, u, CCS_DESERIALIZE_OPTION_CALLBACK, user_in, &c, opv, it.z.vec ? (void *)it.z.vec : (void *)u, CCS_DESERIALIZE_OPTION_END)
				: ccs_object_deserialize(o, F, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_DATA, u, CCS_DESERIALIZE_OPTION_CALLBACK, user_in, &c, opv, it.z.vec ? (void *)it.z.vec : (void *)u, CCS_DESERIALIZE_OPTION_END);
			} while (e == CCS_RESULT_AGAIN && ++tries < 1000000); CHECK(!st, "state-left", "state left after a read"); return e; };
		{ ccs_object_t o = NULL; OK(from(0, -1, nullptr, false, ref, &o)); b.own(o); same(it, o, b); }
		for (int how = 1; how < 3; how++) { Fd f(scratch()); CHECK(write(f.f, mem.data(), n) == (ssize_t)n, "harness", "write"); lseek(f.f, 0, SEEK_SET); Plan p(r); CbCtx c; ccs_object_t o = NULL; OK(from(how, f.f, how == 2 ? &p : nullptr, r.below(2), c, &o)); b.own(o); same(it, o, b); CHECK(c.seen == ref.seen, "user-data", "%zu user data items read back, %zu from memory", c.seen.size(), ref.seen.size()); count(p); ev("user.read"); }
		for (int k = 3; k-- && c0.calls;) { // the callback fails at any of its calls
			CbCtx c; c.fail_at = r.below(c0.calls); ccs_result_t e; mark(); if (r.below(2)) e = to_file(c); else { Fd f(scratch()); Plan p(r); e = to_fd(f.f, p, r.below(2), c); count(p); } CHECK(c.calls <= c.fail_at || e < 0, "callback-error", "a write whose callback failed gives %s", rname(e)); if (e < 0) { balance("a write whose callback failed"); ev("user.write-fails"); } }
		CbCtx wok; OK(to_file(wok)); CHECK(slurp() == mem, "file-bytes", "after a failed write a file with user data differs");
		for (int k = 3; k-- && ref.calls;) { CbCtx c; c.fail_at = r.below(ref.calls); int how = r.below(3); Fd f(scratch()); CHECK(write(f.f, mem.data(), n) == (ssize_t)n, "harness", "write"); lseek(f.f, 0, SEEK_SET); Plan p(r); ccs_object_t o = NULL; ccs_result_t e = from(how, f.f, how == 2 ? &p : nullptr, r.below(2), c, &o); CHECK(e < 0 && !o, "callback-error", "a read whose callback failed gives %s", rname(e)); balance("a read whose callback failed"); ev("user.read-fails"); }
		CHECK(!still_mapped(), "mapping-left", "a file is still mapped"); unlink(path.c_str()); break; }
	default: { // files by path
		std::string path = std::string(g_dir) + "/f"; auto read_file = [&] { Fd f(open(path.c_str(), O_RDONLY)); CHECK(f.f >= 0, "no-file", "file was not created"); return content(f.f); };
		for (auto &it : its) { // an older file of any size is replaced
			mark(); OK(ccs_object_serialize(it.z.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path.c_str(), CCS_SERIALIZE_OPTION_END)); balance("writing a file"); auto got = read_file(); CHECK(got == it.bytes, "file-bytes", "%zu bytes in the file, %zu expected%s", got.size(), it.bytes.size(), got.size() == it.bytes.size() ? ", contents differ" : ""); ev("file.written");
			ccs_map_t m = map_of(it); ccs_object_t o = NULL; UD *u = fresh(it.z); auto load = [&](ccs_map_t mm) { return it.z.vec ? ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path.c_str(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, mm, CCS_DESERIALIZE_OPTION_VECTOR, it.z.vec, CCS_DESERIALIZE_OPTION_DATA, u, CCS_DESERIALIZE_OPTION_END) : ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path.c_str(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, mm, CCS_DESERIALIZE_OPTION_END); };
			OK(load(m)); b.own(o); same(it, o, b);
			for (int k = 3; k--;) { CHECK(!truncate(path.c_str(), k == 2 ? 0 : r.below(got.size())), "harness", "truncate"); ccs_map_t mm = map_of(it); u = fresh(it.z); o = NULL; mark(); REFUSED_ANY(load(mm)); CHECK(!o, "object", "an object was returned by a failed read"); balance("a truncated file"); ev("file.truncated"); OK(ccs_object_serialize(it.z.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path.c_str(), CCS_SERIALIZE_OPTION_END)); CHECK(read_file() == got, "file-bytes", "a file written over another differs"); }
			std::string no = path + "/none"; mark(); REFUSED(CCS_RESULT_ERROR_INVALID_FILE_PATH, ccs_object_serialize(it.z.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, no.c_str(), CCS_SERIALIZE_OPTION_END)); o = NULL; REFUSED(CCS_RESULT_ERROR_INVALID_FILE_PATH, ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, no.c_str(), CCS_DESERIALIZE_OPTION_END)); REFUSED_ANY(ccs_object_serialize(it.z.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, g_dir, CCS_SERIALIZE_OPTION_END)); REFUSED_ANY(ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, g_dir, CCS_DESERIALIZE_OPTION_END)); CHECK(!o, "object", "an object from nowhere"); balance("refused paths"); ev("file.refused");
		} CHECK(!still_mapped(), "mapping-left", "a file is still mapped"); unlink(path.c_str()); }
	}
	CHECK(open_fds() == fds, "descriptor-left", "%d descriptors open, %d before", open_fds(), fds);
	ccs_clear_thread_error(); b.clear(); ud_reset();
}
