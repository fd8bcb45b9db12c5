// C18: interval operations against set semantics.  Integer intervals denote
// sets of integers, float intervals sets of (extended) reals.
#include "gen.hpp"
const char *PROP = "C18";
uint64_t num_cases(bool th) { return th ? 864000 : 432000; }
bool ledger_check() { return false; }
void prop_init() {}
typedef __int128 I;
struct S { bool e; I l, u; double fl, fu; bool li, ui; };
static S norm(const ccs_interval_t &b) {
	S s{};
	if (b.type == CCS_NUMERIC_TYPE_INT) {
		s.l = (I)b.lower.i + (b.lower_included ? 0 : 1); s.u = (I)b.upper.i - (b.upper_included ? 0 : 1); s.e = s.l > s.u;
	} else {
		s.fl = b.lower.f; s.fu = b.upper.f; s.li = b.lower_included; s.ui = b.upper_included;
		s.e = s.fl > s.fu || (s.fl == s.fu && !(s.li && s.ui));
	}
	return s;
}
static bool same(const S &a, const S &b, bool I_) {
	if (a.e || b.e) return a.e && b.e;
	return I_ ? a.l == b.l && a.u == b.u : a.fl == b.fl && a.fu == b.fu && a.li == b.li && a.ui == b.ui;
}
static S meet(const S &a, const S &b, bool I_) {
	S s{}; if (a.e || b.e) { s.e = true; return s; }
	if (I_) { s.l = a.l > b.l ? a.l : b.l; s.u = a.u < b.u ? a.u : b.u; s.e = s.l > s.u; return s; }
	if (a.fl > b.fl) s.fl = a.fl, s.li = a.li; else if (b.fl > a.fl) s.fl = b.fl, s.li = b.li; else s.fl = a.fl, s.li = a.li && b.li;
	if (a.fu < b.fu) s.fu = a.fu, s.ui = a.ui; else if (b.fu < a.fu) s.fu = b.fu, s.ui = b.ui; else s.fu = a.fu, s.ui = a.ui && b.ui;
	s.e = s.fl > s.fu || (s.fl == s.fu && !(s.li && s.ui));
	return s;
}
static S hull(const S &a, const S &b, bool I_) {
	if (a.e) return b; if (b.e) return a; S s{};
	if (I_) { s.l = a.l < b.l ? a.l : b.l; s.u = a.u > b.u ? a.u : b.u; return s; }
	if (a.fl < b.fl) s.fl = a.fl, s.li = a.li; else if (b.fl < a.fl) s.fl = b.fl, s.li = b.li; else s.fl = a.fl, s.li = a.li || b.li;
	if (a.fu > b.fu) s.fu = a.fu, s.ui = a.ui; else if (b.fu > a.fu) s.fu = b.fu, s.ui = b.ui; else s.fu = a.fu, s.ui = a.ui || b.ui;
	return s;
}
static bool member(const S &a, ccs_numeric_t v, bool I_) {
	if (a.e) return false;
	if (I_) return v.i >= a.l && v.i <= a.u;
	return (a.li ? v.f >= a.fl : v.f > a.fl) && (a.ui ? v.f <= a.fu : v.f < a.fu);
}
static int64_t ri(Rng &r) { return r.chance(1, 4) ? r.pick<int64_t>({INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 0, (int64_t)1 << 53, ((int64_t)1 << 53) + 1, -((int64_t)1 << 53) - 1}) : r.range(-3, 3); }
static double rf(Rng &r) { return r.chance(1, 4) ? r.pick({(double)INFINITY, -(double)INFINITY, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 1.0000000000000002, 1e16, 0.1}) : r.range(-3, 3) / (r.chance(1, 2) ? 1.0 : 2.0); }
static ccs_interval_t gen(Rng &r, bool I_) {
	ccs_interval_t b; memset(&b, 0, sizeof b); b.type = I_ ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
	if (I_) b.lower.i = ri(r), b.upper.i = r.chance(1, 4) ? (int64_t)((uint64_t)b.lower.i + (uint64_t)r.range(-1, 2)) : ri(r);
	else b.lower.f = rf(r), b.upper.f = r.chance(1, 4) ? b.lower.f : rf(r);
	b.lower_included = r.below(2) ? CCS_TRUE : CCS_FALSE; b.upper_included = r.below(2) ? CCS_TRUE : CCS_FALSE;
	if (r.chance(2, 3)) { // mostly not reversed
		if (I_ && b.lower.i > b.upper.i) std::swap(b.lower, b.upper);
		if (!I_ && b.lower.f > b.upper.f) std::swap(b.lower, b.upper);
	}
	return b;
}
static std::string str(const ccs_interval_t &b) { return std::string(b.lower_included ? "[" : "]") + numstr(b.type, b.lower) + "," + numstr(b.type, b.upper) + (b.upper_included ? "]" : "["); }
void run_case(Rng &r, uint64_t idx) {
	bool I_ = idx & 1;
	for (int k = 0; k < 12; k++) {
		ccs_interval_t a = gen(r, I_), b = r.chance(1, 8) ? a : gen(r, I_);
		if (r.chance(1, 6)) { b = a; if (r.below(2)) b.lower_included = !b.lower_included; else b.upper_included = !b.upper_included; }
		if (I_ && r.chance(1, 8) && a.lower_included && a.lower.i > INT64_MIN) { b = a; b.lower_included = CCS_FALSE; b.lower.i--; }
		if (I_ && r.chance(1, 8) && a.upper_included && a.upper.i < INT64_MAX) { b = a; b.upper_included = CCS_FALSE; b.upper.i++; }
		std::string d = str(a) + " and " + str(b); if (!k) desc(d);
		note("%s", d.c_str());
		S x = norm(a), y = norm(b);
		sig(mix64(hash_str(sfmt("%d%d%d%d%d%d", I_, x.e, y.e, a.lower_included * 8 + a.upper_included * 4 + b.lower_included * 2 + b.upper_included, (int)same(x, y, I_), (int)meet(x, y, I_).e)), hash_str(d)));
		ccs_bool_t e = 77; OK(ccs_interval_empty(&a, &e)); CHECK(e == (x.e ? CCS_TRUE : CCS_FALSE), "empty", "%s emptiness reported %d", str(a).c_str(), (int)e); ev(x.e ? "empty.true" : "empty.false");
		ccs_interval_t a0 = a, b0 = b, m, u, m2, u2;
		memset(&m, 0x5a, sizeof m); memset(&u, 0x5a, sizeof u); memset(&m2, 0x5a, sizeof m); memset(&u2, 0x5a, sizeof u);
		OK(ccs_interval_intersect(&a, &b, &m)); OK(ccs_interval_intersect(&b, &a, &m2)); OK(ccs_interval_union(&a, &b, &u)); OK(ccs_interval_union(&b, &a, &u2));
		CHECK(!memcmp(&a, &a0, sizeof a) && !memcmp(&b, &b0, sizeof b), "operand-changed", "%s: an operand was modified", d.c_str());
		CHECK(m.type == a.type && u.type == a.type, "type", "%s: result type", d.c_str());
		CHECK(same(norm(m), meet(x, y, I_), I_), "intersect", "%s: intersection gives %s", d.c_str(), str(m).c_str());
		CHECK(same(norm(m2), meet(x, y, I_), I_), "intersect", "%s: swapped intersection gives %s", d.c_str(), str(m2).c_str());
		CHECK(same(norm(u), hull(x, y, I_), I_), "union", "%s: union gives %s", d.c_str(), str(u).c_str());
		CHECK(same(norm(u2), hull(x, y, I_), I_), "union", "%s: swapped union gives %s", d.c_str(), str(u2).c_str());
		ev("intersect", 2); ev("union", 2);
		ccs_bool_t q = 77, q2 = 77; OK(ccs_interval_equal(&a, &b, &q)); OK(ccs_interval_equal(&b, &a, &q2));
		bool s = same(x, y, I_);
		CHECK(q == (s ? CCS_TRUE : CCS_FALSE) && q2 == q, "equal", "%s: equality gives %d / %d", d.c_str(), (int)q, (int)q2); ev(s ? "equal.true" : "equal.false");
		std::vector<ccs_numeric_t> pts;
		for (auto *z : {&a, &b}) for (ccs_numeric_t p : {z->lower, z->upper}) {
			pts.push_back(p);
			if (I_) { if (p.i > INT64_MIN) pts.push_back(NI(p.i - 1)); if (p.i < INT64_MAX) pts.push_back(NI(p.i + 1)); }
			else { pts.push_back(NF(std::nextafter(p.f, INFINITY))); pts.push_back(NF(std::nextafter(p.f, -INFINITY))); }
		}
		pts.push_back(I_ ? NI(ri(r)) : NF(rf(r)));
		for (auto p : pts) {
			bool want = member(x, p, I_), got = ccs_interval_include(&a, p) == CCS_TRUE;
			CHECK(want == got, "include", "%s includes %s: %d", str(a).c_str(), numstr(a.type, p).c_str(), got);
			bool both = want && member(y, p, I_);
			CHECK((ccs_interval_include(&m, p) == CCS_TRUE) == both, "intersect", "%s: membership of %s in the intersection", d.c_str(), numstr(a.type, p).c_str());
			if (want) CHECK(ccs_interval_include(&u, p) == CCS_TRUE, "union", "%s: %s not in the union", d.c_str(), numstr(a.type, p).c_str());
			ev(want ? "include.true" : "include.false");
		}
		if (r.chance(1, 10)) {
			ccs_interval_t o = gen(r, !I_); ccs_interval_t t; ccs_bool_t z;
			REFUSED(CCS_RESULT_ERROR_INVALID_TYPE, ccs_interval_intersect(&a, &o, &t)); REFUSED(CCS_RESULT_ERROR_INVALID_TYPE, ccs_interval_union(&o, &a, &t)); REFUSED(CCS_RESULT_ERROR_INVALID_TYPE, ccs_interval_equal(&a, &o, &z));
			ev("mixed.refused");
		}
	}
}
