// C09: distributions sample within bounds, on their grid, identically through
// every sampling entry point, and in proportion to their declared shape.
#include "gen.hpp"
const char *PROP = "C09";
uint64_t num_cases(bool th) { return th ? 216000 : 108000; }
bool ledger_check() { return true; }
void prop_init() {}
static int SLOT = 0;

static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
// P(X <= t) for one dimension
static double cdf1(const DModel &m, ccs_numeric_t t) {
	switch (m.type) {
	case CCS_DISTRIBUTION_TYPE_UNIFORM:
		if (m.types[0] == CCS_NUMERIC_TYPE_INT) {
			if (t.i < m.lower.i) return 0; if (t.i >= m.upper.i) return 1;
			long double off = (long double)((uint64_t)t.i - (uint64_t)m.lower.i), w = (long double)((uint64_t)m.upper.i - (uint64_t)m.lower.i);
			if (m.scale == CCS_SCALE_TYPE_LINEAR) {
				if (!m.quant.i) return (double)((off + 1) / w);
				long double k = std::floor(w / m.quant.i), j = std::floor(off / m.quant.i);
				return std::min<double>(1, (double)((j + 1) / k));
			}
			long double q = m.quant.i ? m.quant.i : 1;
			long double end = (long double)m.lower.i + (std::floor(off / q) + 1) * q;
			if (end >= (long double)m.upper.i) return 1;
			return (double)((std::log(end) - std::log((long double)m.lower.i)) / (std::log((long double)m.upper.i) - std::log((long double)m.lower.i)));
		} else {
			if (t.f < m.lower.f) return 0; if (t.f >= m.upper.f) return 1;
			double x = t.f;
			if (m.quant.f != 0) x = m.lower.f + (std::floor((t.f - m.lower.f) / m.quant.f) + 1) * m.quant.f;
			if (x >= m.upper.f) return 1;
			if (m.scale == CCS_SCALE_TYPE_LINEAR) return (x - m.lower.f) / (m.upper.f - m.lower.f);
			return (std::log(x) - std::log(m.lower.f)) / (std::log(m.upper.f) - std::log(m.lower.f));
		}
	case CCS_DISTRIBUTION_TYPE_NORMAL: {
		bool I = m.types[0] == CCS_NUMERIC_TYPE_INT;
		double q = I ? (m.quant.i ? (double)m.quant.i : 1.0) : m.quant.f;
		double x = I ? (double)t.i : t.f;
		if (q != 0) x = (std::floor(x / q) + 0.5) * q;   // upper edge of the rounding cell
		if (m.scale == CCS_SCALE_TYPE_LINEAR) return Phi((x - m.mu) / m.sigma);
		if (x <= 0) return 0;
		double p = Phi((std::log(x) - m.mu) / m.sigma);
		if (q == 0) return p;
		double lo = Phi((std::log(q * 0.5) - m.mu) / m.sigma);
		if (lo > 1 - 1e-9) { // deep tail: use complements
			double slo = 0.5 * std::erfc((std::log(q * 0.5) - m.mu) / m.sigma / std::sqrt(2.0)), sx = 0.5 * std::erfc((std::log(x) - m.mu) / m.sigma / std::sqrt(2.0));
			return std::max(0.0, (slo - sx) / slo);
		}
		return std::max(0.0, (p - lo) / (1 - lo));
	}
	default: { // roulette
		if (t.i < 0) return 0;
		double s = 0, c = 0; for (size_t i = 0; i < m.weights.size(); i++) { s += m.weights[i]; if ((int64_t)i <= t.i) c += m.weights[i]; }
		return c / s;
	}
	}
}
static double wsum(const DModel &m) { double s = 0; for (double w : m.weights) s += w; return s; }
static double cdf(const DModel &m, size_t k, ccs_numeric_t t) {
	if (m.type == CCS_DISTRIBUTION_TYPE_MULTIVARIATE) { for (auto &s : m.sub) { if (k < s.dim) return cdf(s, k, t); k -= s.dim; } }
	if (m.type == CCS_DISTRIBUTION_TYPE_MIXTURE) { double p = 0, s = wsum(m); for (size_t i = 0; i < m.sub.size(); i++) p += m.weights[i] / s * cdf(m.sub[i], k, t); return p; }
	return cdf1(m, t);
}
// P(X_a <= ta and X_b <= tb), a < b
static double joint(const DModel &m, size_t a, ccs_numeric_t ta, size_t b, ccs_numeric_t tb) {
	if (m.type == CCS_DISTRIBUTION_TYPE_MIXTURE) { double p = 0, s = wsum(m); for (size_t i = 0; i < m.sub.size(); i++) p += m.weights[i] / s * joint(m.sub[i], a, ta, b, tb); return p; }
	for (auto &s : m.sub) {
		if (b < s.dim) return joint(s, a, ta, b, tb);
		if (a < s.dim) { // different components
			double pa = cdf(s, a, ta); size_t off = s.dim; bool seen = false;
			for (auto &o : m.sub) { if (&o == &s) { seen = true; continue; } if (!seen) continue; if (b - off < o.dim) return pa * cdf(o, b - off, tb); off += o.dim; }
		}
		a -= s.dim; b -= s.dim;
	}
	return -1;
}
static ccs_numeric_t thr(const DModel &m, size_t k, ccs_numeric_t v) { if (m.types[k] == CCS_NUMERIC_TYPE_FLOAT) v.f += 1e-6 * std::max(1.0, std::fabs(v.f)); return v; }
static bool le(ccs_numeric_type_t t, ccs_numeric_t a, ccs_numeric_t b) { return t == CCS_NUMERIC_TYPE_INT ? a.i <= b.i : a.f <= b.f; }
// upper tail of chi-square as a normal deviate (Wilson-Hilferty)
static double chi_z(double x, int df) { double c = 2.0 / (9.0 * df); return (std::cbrt(x / df) - (1 - c)) / std::sqrt(c); }

static void seed(ccs_rng_t g, uint64_t s) { OK(ccs_rng_set_seed(g, (unsigned long)s)); }
static bool extreme_float(const DModel &m) {
	for (auto &s : m.sub) if (extreme_float(s)) return true;
	if (m.type == CCS_DISTRIBUTION_TYPE_UNIFORM && m.types[0] == CCS_NUMERIC_TYPE_FLOAT) return std::fabs(m.lower.f) > 1e6 || std::fabs(m.upper.f) > 1e6 || m.upper.f - m.lower.f < 1e-3;
	if (m.type == CCS_DISTRIBUTION_TYPE_UNIFORM && m.types[0] == CCS_NUMERIC_TYPE_INT && m.scale == CCS_SCALE_TYPE_LOGARITHMIC) return m.lower.i > ((int64_t)1 << 40);
	if (m.type == CCS_DISTRIBUTION_TYPE_NORMAL) return std::fabs(m.mu) > 1e6 || m.sigma > 1e6;
	return false;
}
static void check_values(const DModel &m, const ccs_numeric_t *v, size_t n, const char *how) {
	for (size_t i = 0; i < n; i++) for (size_t k = 0; k < m.dim; k++) {
		ccs_numeric_t x = v[i * m.dim + k];
		CHECK(num_in(m.bounds[k], x), "out-of-bounds", "%s (%s): dimension %zu sampled %s", m.str().c_str(), how, k, numstr(m.types[k], x).c_str());
		CHECK(m.ongrid(k, x), "off-grid", "%s (%s): dimension %zu sampled %s", m.str().c_str(), how, k, numstr(m.types[k], x).c_str());
	}
	ev("samples.checked", n * m.dim);
}
static void meta(Rng &r, const DModel &m) {
	size_t dim = 0; OK(ccs_distribution_get_dimension(m.d, &dim)); CHECK(dim == m.dim, "dimension", "%s: dimension %zu", m.str().c_str(), dim);
	ccs_distribution_type_t t; OK(ccs_distribution_get_type(m.d, &t)); CHECK(t == m.type, "type", "%s: wrong type", m.str().c_str());
	std::vector<ccs_numeric_type_t> ty(dim + 1, (ccs_numeric_type_t)77); OK(ccs_distribution_get_data_types(m.d, ty.data()));
	for (size_t k = 0; k < dim; k++) CHECK(ty[k] == m.types[k], "data-types", "%s: dimension %zu", m.str().c_str(), k);
	CHECK(ty[dim] == 77, "overrun", "data types overrun");
	std::vector<ccs_interval_t> b(dim); OK(ccs_distribution_get_bounds(m.d, b.data()));
	for (size_t k = 0; k < dim; k++)
		CHECK(b[k].type == m.types[k] && b[k].lower.i == m.bounds[k].lower.i && b[k].upper.i == m.bounds[k].upper.i && !b[k].lower_included == !m.bounds[k].lower_included && !b[k].upper_included == !m.bounds[k].upper_included,
		      "bounds", "%s: dimension %zu announces %c%s,%s%c", m.str().c_str(), k, b[k].lower_included ? '[' : '(', numstr(b[k].type, b[k].lower).c_str(), numstr(b[k].type, b[k].upper).c_str(), b[k].upper_included ? ']' : ')');
	// oversampling verdict
	for (int rep = 0; rep < 4; rep++) {
		std::vector<ccs_interval_t> iv(dim); std::vector<ccs_bool_t> o(dim + 1, 99);
		for (size_t k = 0; k < dim; k++) {
			iv[k] = b[k];
			auto sh = [&](ccs_numeric_t x, bool fl) { ccs_numeric_t y = x; int d = (int)r.range(-1, 1); if (r.chance(1, 3)) d *= 1000; if (fl) { if (r.chance(1, 8)) y.f = r.below(2) ? INFINITY : -INFINITY; else y.f = x.f + d; } else if (d > 0 ? x.i <= INT64_MAX - d : x.i >= INT64_MIN - d) y.i = x.i + d; return y; };
			bool fl = b[k].type == CCS_NUMERIC_TYPE_FLOAT;
			if (r.chance(1, 2)) iv[k].lower = sh(iv[k].lower, fl); if (r.chance(1, 2)) iv[k].upper = sh(iv[k].upper, fl);
			if (r.chance(1, 3)) iv[k].lower_included = r.below(2) ? CCS_TRUE : CCS_FALSE; if (r.chance(1, 3)) iv[k].upper_included = r.below(2) ? CCS_TRUE : CCS_FALSE;
		}
		OK(ccs_distribution_check_oversampling(m.d, iv.data(), o.data()));
		CHECK(o[dim] == 99, "overrun", "oversampling verdicts overrun");
		for (size_t k = 0; k < dim; k++) {
			bool inc;
			const ccs_interval_t &A = b[k], &B = iv[k];
			if (A.type == CCS_NUMERIC_TYPE_INT) {
				__int128 al = (__int128)A.lower.i + !A.lower_included, au = (__int128)A.upper.i - !A.upper_included, bl = (__int128)B.lower.i + !B.lower_included, bu = (__int128)B.upper.i - !B.upper_included;
				inc = al >= bl && au <= bu;
			} else {
				bool lo = A.lower.f > B.lower.f || (A.lower.f == B.lower.f && (B.lower_included || !A.lower_included));
				bool hi = A.upper.f < B.upper.f || (A.upper.f == B.upper.f && (B.upper_included || !A.upper_included));
				inc = lo && hi;
			}
			CHECK((o[k] != 0) == !inc, "oversampling", "%s: dimension %zu in %c%s,%s%c judged %d", m.str().c_str(), k, B.lower_included ? '[' : '(', numstr(B.type, B.lower).c_str(), numstr(B.type, B.upper).c_str(), B.upper_included ? ']' : ')', o[k]);
			ev(inc ? "oversampling.no" : "oversampling.yes");
		}
	}
	if (m.type == CCS_DISTRIBUTION_TYPE_UNIFORM) {
		ccs_numeric_t l, u, q; ccs_scale_type_t s; OK(ccs_uniform_distribution_get_properties(m.d, &l, &u, &s, &q));
		CHECK(l.i == m.lower.i && u.i == m.upper.i && q.i == m.quant.i && s == m.scale, "properties", "%s: read back differs", m.str().c_str());
	} else if (m.type == CCS_DISTRIBUTION_TYPE_NORMAL) {
		double mu, si; ccs_scale_type_t s; ccs_numeric_t q; OK(ccs_normal_distribution_get_properties(m.d, &mu, &si, &s, &q));
		CHECK(mu == m.mu && si == m.sigma && s == m.scale && q.i == m.quant.i, "properties", "%s: read back differs", m.str().c_str());
	} else if (m.type == CCS_DISTRIBUTION_TYPE_ROULETTE) {
		std::vector<double> w(m.weights.size()); size_t n; OK(ccs_roulette_distribution_get_areas(m.d, w.size(), w.data(), &n));
		double s = wsum(m); for (size_t i = 0; i < w.size(); i++) CHECK(std::fabs(w[i] - m.weights[i] / s) < 1e-9, "areas", "%s: area %zu reads %g", m.str().c_str(), i, w[i]);
	} else if (m.type == CCS_DISTRIBUTION_TYPE_MIXTURE) {
		std::vector<double> w(m.weights.size()); size_t n; OK(ccs_mixture_distribution_get_weights(m.d, w.size(), w.data(), &n));
		double s = wsum(m); for (size_t i = 0; i < w.size(); i++) CHECK(std::fabs(w[i] - m.weights[i] / s) < 1e-9, "weights", "%s: weight %zu reads %g", m.str().c_str(), i, w[i]);
		std::vector<ccs_distribution_t> d(m.sub.size()); OK(ccs_mixture_distribution_get_distributions(m.d, d.size(), d.data(), NULL));
		for (size_t i = 0; i < d.size(); i++) CHECK(d[i] == m.sub[i].d, "components", "%s: component %zu differs", m.str().c_str(), i);
	} else {
		std::vector<ccs_distribution_t> d(m.sub.size()); OK(ccs_multivariate_distribution_get_distributions(m.d, d.size(), d.data(), NULL));
		for (size_t i = 0; i < d.size(); i++) CHECK(d[i] == m.sub[i].d, "components", "%s: component %zu differs", m.str().c_str(), i);
	}
	for (auto &s : m.sub) meta(r, s);
}
static const ccs_numeric_t CAN = NI(0x5a5a5a5a5a5a5a5all);
static void equivalence(Rng &r, const DModel &m, ccs_rng_t g) {
	uint64_t s = r.next(); size_t D = m.dim, n = r.range(1, 40);
	std::vector<ccs_numeric_t> a(n * D + 2, CAN);
	seed(g, s); OK(ccs_distribution_samples(m.d, g, n, a.data() + 1));
	CHECK(a[0].i == CAN.i && a[n * D + 1].i == CAN.i, "overrun:array", "%s: array sampling wrote outside %zu samples", m.str().c_str(), n);
	check_values(m, a.data() + 1, n, "array");
	size_t stride = D + r.below(4);
	std::vector<ccs_numeric_t> st(n * stride + 2, CAN);
	seed(g, s); OK(ccs_distribution_strided_samples(m.d, g, n, stride, st.data() + 1));
	CHECK(st[0].i == CAN.i && st[n * stride + 1].i == CAN.i, "overrun:strided", "%s: strided sampling overran", m.str().c_str());
	for (size_t i = 0; i < n; i++) for (size_t k = 0; k < stride; k++)
		if (k < D) CHECK(st[1 + i * stride + k].i == a[1 + i * D + k].i, "strided-differs", "%s: strided (%zu) sample %zu dim %zu is %s, array gives %s", m.str().c_str(), stride, i, k, numstr(m.types[k], st[1 + i * stride + k]).c_str(), numstr(m.types[k], a[1 + i * D + k]).c_str());
		else CHECK(st[1 + i * stride + k].i == CAN.i, "overrun:strided", "%s: strided sampling wrote in the gap", m.str().c_str());
	std::vector<std::vector<ccs_numeric_t>> so(D, std::vector<ccs_numeric_t>(n + 2, CAN)); std::vector<ccs_numeric_t *> p; for (auto &c : so) p.push_back(c.data() + 1);
	seed(g, s); OK(ccs_distribution_soa_samples(m.d, g, n, p.data()));
	for (size_t k = 0; k < D; k++) {
		CHECK(so[k][0].i == CAN.i && so[k][n + 1].i == CAN.i, "overrun:soa", "%s: soa sampling overran dim %zu", m.str().c_str(), k);
		for (size_t i = 0; i < n; i++) CHECK(so[k][1 + i].i == a[1 + i * D + k].i, "soa-differs", "%s: soa sample %zu dim %zu is %s, array gives %s", m.str().c_str(), i, k, numstr(m.types[k], so[k][1 + i]).c_str(), numstr(m.types[k], a[1 + i * D + k]).c_str());
	}
	// single equals an array of one
	std::vector<ccs_numeric_t> one(D + 2, CAN), arr(D + 2, CAN);
	seed(g, s); OK(ccs_distribution_sample(m.d, g, one.data() + 1)); seed(g, s); OK(ccs_distribution_samples(m.d, g, 1, arr.data() + 1));
	for (size_t k = 0; k < D + 2; k++) CHECK(one[k].i == arr[k].i, "single-differs", "%s: single sample differs from an array of one", m.str().c_str());
	CHECK(one[0].i == CAN.i && one[D + 1].i == CAN.i, "overrun:single", "%s: single sampling overran", m.str().c_str());
	if (D == 1) { // successive singles equal one array
		seed(g, s); for (size_t i = 0; i < n; i++) { ccs_numeric_t x; OK(ccs_distribution_sample(m.d, g, &x)); CHECK(x.i == a[1 + i].i, "single-differs", "%s: sample %zu drawn alone differs from the array", m.str().c_str(), i); }
		ev("equivalence.singles");
	}
	// absent components are skipped without touching the others
	std::vector<ccs_numeric_t *> pn = p; for (auto &c : so) std::fill(c.begin(), c.end(), CAN);
	bool any = false; for (auto &x : pn) if (r.chance(1, 2)) x = NULL; else any = true;
	seed(g, s); OK(ccs_distribution_soa_samples(m.d, g, n, pn.data()));
	for (size_t k = 0; k < D; k++) for (size_t i = 0; i < n + 2; i++) {
		if (!pn[k] || i == 0 || i == n + 1) CHECK(so[k][i].i == CAN.i, "overrun:soa", "%s: soa sampling with absent components wrote where it should not", m.str().c_str());
		else CHECK(m.ongrid(k, so[k][i]), "off-grid", "%s (soa partial): dim %zu sampled %s", m.str().c_str(), k, numstr(m.types[k], so[k][i]).c_str());
	}
	OK(ccs_distribution_samples(m.d, g, 0, NULL));
	ev("equivalence");
}
static void frequencies(Rng &r, const DModel &m, ccs_rng_t g) {
	size_t D = m.dim, n0 = 400, N = tier.thorough ? 60000 : 12000;
	seed(g, r.next());
	std::vector<ccs_numeric_t> a(n0 * D), v(N * D);
	OK(ccs_distribution_samples(m.d, g, n0, a.data()));
	switch (r.below(3)) {
	case 0: OK(ccs_distribution_samples(m.d, g, N, v.data())); break;
	case 1: for (size_t i = 0; i < N; i++) OK(ccs_distribution_sample(m.d, g, v.data() + i * D)); break;
	default: OK(ccs_distribution_strided_samples(m.d, g, N, D, v.data())); break;
	}
	check_values(m, v.data(), N, "frequencies");
	std::vector<ccs_numeric_t> med(D);
	for (size_t k = 0; k < D; k++) {
		std::vector<ccs_numeric_t> t; for (size_t i = 0; i < n0; i++) t.push_back(thr(m, k, a[i * D + k]));
		auto lt = [&](ccs_numeric_t x, ccs_numeric_t y) { return m.types[k] == CCS_NUMERIC_TYPE_INT ? x.i < y.i : x.f < y.f; };
		std::sort(t.begin(), t.end(), lt);
		med[k] = t[n0 / 2];
		std::vector<ccs_numeric_t> cut; int nb = 16;
		for (int j = 1; j < nb; j++) { ccs_numeric_t x = t[n0 * j / nb]; if (cut.empty() || lt(cut.back(), x)) cut.push_back(x); }
		std::vector<double> exp; std::vector<uint64_t> obs(cut.size() + 1, 0); double prev = 0;
		for (auto &c : cut) { double f = cdf(m, k, c); exp.push_back((f - prev) * N); prev = f; }
		exp.push_back((1 - prev) * N);
		for (size_t i = 0; i < N; i++) { ccs_numeric_t x = v[i * D + k]; size_t b = 0; while (b < cut.size() && !le(m.types[k], x, cut[b])) b++; obs[b]++; }
		double chi = 0; int df = -1; double e = 0, o = 0; std::string tbl;
		for (size_t b = 0; b < exp.size(); b++) {
			e += exp[b]; o += obs[b];
			CHECK(!(exp[b] < 1e-6 && obs[b] > 0), "frequency:impossible", "%s: dimension %zu: %llu samples in a region of probability %g", m.str().c_str(), k, (unsigned long long)obs[b], exp[b] / N);
			if (e >= 20 || b + 1 == exp.size()) { if (e > 5) { chi += (o - e) * (o - e) / e; df++; tbl += sfmt("%.0f/%.1f ", o, e); e = o = 0; } }
		}
		if (df >= 1) {
			double z = chi_z(chi, df);
			CHECK(z < 7.0, "frequency", "%s: dimension %zu: chi-square %.1f on %d degrees of freedom (observed/expected: %s)", m.str().c_str(), k, chi, df, tbl.c_str());
			ev("frequency.tested"); ev("frequency.samples", N);
		}
	}
	for (size_t x = 0; x + 1 < D && x < 3; x++) { // dependence between components
		size_t y = x + 1 + r.below(D - x - 1);
		double p[2][2]; p[0][0] = joint(m, x, med[x], y, med[y]); double px = cdf(m, x, med[x]), py = cdf(m, y, med[y]);
		p[0][1] = px - p[0][0]; p[1][0] = py - p[0][0]; p[1][1] = 1 - px - py + p[0][0];
		double o[2][2] = {{0, 0}, {0, 0}}; for (size_t i = 0; i < N; i++) o[!le(m.types[x], v[i * D + x], med[x])][!le(m.types[y], v[i * D + y], med[y])]++;
		double chi = 0; int df = -1; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (p[i][j] * N > 20) { chi += (o[i][j] - p[i][j] * N) * (o[i][j] - p[i][j] * N) / (p[i][j] * N); df++; }
		if (df >= 1) { double z = chi_z(chi, df); CHECK(z < 7.0, "dependence", "%s: dimensions %zu and %zu: observed %.0f %.0f %.0f %.0f expected %.1f %.1f %.1f %.1f", m.str().c_str(), x, y, o[0][0], o[0][1], o[1][0], o[1][1], p[0][0] * N, p[0][1] * N, p[1][0] * N, p[1][1] * N); ev("dependence.tested"); }
	}
}
// share of raw draws that all the parameters accept
static double acceptance(const DModel &m, ccs_rng_t g, const std::vector<PModel> &ps) {
	size_t N = 600, c = 0; std::vector<ccs_numeric_t> raw(N * m.dim); OK(ccs_distribution_samples(m.d, g, N, raw.data()));
	for (size_t i = 0; i < N; i++) { bool in = true; for (size_t k = 0; k < m.dim; k++) { ccs_numeric_t x = raw[i * m.dim + k]; const PModel &p = ps[k]; in = in && (p.listlike() ? x.i >= 0 && x.i < (int64_t)p.values.size() : p.accepts(m.types[k] == CCS_NUMERIC_TYPE_INT ? ccs_int(x.i) : ccs_float(x.f))); } c += in; }
	return (double)c / N;
}
// distributions of parameters: values come out accepted, in parameter order
static void parameters(Rng &r, const DModel &m, ccs_rng_t g, Bag &bag) {
	std::vector<PModel> ps; std::vector<ccs_parameter_t> pp;
	for (size_t k = 0; k < m.dim; k++) {
		PModel p; p.name = "p" + std::to_string(k); p.nt = m.types[k];
		if (m.types[k] == CCS_NUMERIC_TYPE_INT && r.chance(1, 2)) { POpt po; po.types = 14; p = gen_param(r, p.name, po); }
		else { p.type = CCS_PARAMETER_TYPE_NUMERICAL; int64_t l = r.range(-6, 2), u = r.range(l + 2, 12); if (m.types[k] == CCS_NUMERIC_TYPE_INT) { p.lower = NI(l); p.upper = NI(u); p.quant = NI(0); p.def = ccs_int(l); } else { p.lower = NF(l); p.upper = NF(u); p.quant = NF(0); p.def = ccs_float(l); } OK(make_param(p)); }
		bag.own(p.p); ps.push_back(p); pp.push_back(p.p);
	}
	size_t n = r.chance(1, 12) ? r.range(60, 400) : r.range(1, 20); DV v(n * m.dim + 1, ccs_int(-777));
	// dimensions in which 2000 accepted draws never repeat
	std::vector<bool> fresh(m.dim, false);
	if (n > 10 && (m.dim > 1 || r.chance(1, 3))) {
		size_t N = 2000; std::vector<ccs_numeric_t> raw(N * m.dim); seed(g, r.next()); OK(ccs_distribution_samples(m.d, g, N, raw.data()));
		for (size_t k = 0; k < m.dim; k++) if (ps[k].type == CCS_PARAMETER_TYPE_NUMERICAL) { std::set<int64_t> s; size_t c = 0; for (size_t i = 0; i < N; i++) { ccs_numeric_t x = raw[i * m.dim + k]; if (ps[k].accepts(m.types[k] == CCS_NUMERIC_TYPE_INT ? ccs_int(x.i) : ccs_float(x.f))) { c++; s.insert(x.i); } } fresh[k] = c > 600 && s.size() == c; }
	}
	seed(g, r.next());
	ccs_result_t e = r.chance(1, 4) ? (n = 1, v[m.dim] = ccs_int(-777), ccs_distribution_parameters_sample(m.d, g, pp.data(), v.data())) : ccs_distribution_parameters_samples(m.d, g, pp.data(), n, v.data());
	CHECK(v[n * m.dim].value.i == -777 && v[n * m.dim].type == CCS_DATA_TYPE_INT, "overrun:parameters", "%s: parameter sampling overran", m.str().c_str());
	if (e) { CHECK(e == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "parameters", "%s: sampling parameters failed: %s", m.str().c_str(), rname(e)); ccs_clear_thread_error(); double a = acceptance(m, g, ps); CHECK(a < 0.5, "gave-up", "%s: %zu samples of %zu parameters could not be drawn, yet %g of the draws suit them all", m.str().c_str(), n, m.dim, a); ev("parameters.unsuccessful"); return; }
	for (size_t i = 0; i < n; i++) for (size_t k = 0; k < m.dim; k++) CHECK(ps[k].accepts(v[i * m.dim + k]), "parameters", "%s: sample %zu of %s is %s", m.str().c_str(), i, ps[k].str().c_str(), dtos(v[i * m.dim + k]).c_str());
	for (size_t k = 0; k < m.dim; k++) if (fresh[k] && n > 10) { std::set<int64_t> s; for (size_t i = 0; i < n; i++) s.insert(v[i * m.dim + k].value.i); CHECK(s.size() > n - n / 4, "repeated", "%s: %zu samples of %s hold %zu distinct values only", m.str().c_str(), n, ps[k].str().c_str(), s.size()); ev("parameters.fresh"); }
	ev("parameters.sampled", n);
}
static void creation(Rng &r) {
	ccs_distribution_t d = NULL;
	auto pi = [&]() -> int64_t { return r.chance(1, 6) ? r.pick<int64_t>({INT64_MIN, INT64_MAX}) : r.range(-3, 5); };
	auto pf = [&]() -> double { return r.chance(1, 5) ? r.pick<double>({NAN, INFINITY, -INFINITY, 1e308, -1e308}) : r.range(-4, 8) / 2.0; };
	bool lg = r.below(2); ccs_scale_type_t sc = lg ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR; bool good; ccs_result_t e; std::string what;
	switch (r.below(4)) {
	case 0: { int64_t l = pi(), u = pi(), q = r.chance(1, 2) ? 0 : pi(); __int128 w = (__int128)u - l; good = w > 0 && q >= 0 && q <= w && (!lg || l > 0); e = ccs_create_uniform_int_distribution(l, u, sc, q, &d); what = sfmt("uniform int %lld %lld %lld log=%d", (long long)l, (long long)u, (long long)q, lg); break; }
	case 1: { double l = pf(), u = pf(), q = r.chance(1, 2) ? 0 : pf(); good = l < u && std::isfinite(u - l) && q >= 0 && q <= u - l && (q == 0 || std::isfinite((u - l) / q)) && (!lg || l > 0); e = ccs_create_uniform_float_distribution(l, u, sc, q, &d); what = sfmt("uniform float %g %g %g log=%d", l, u, q, lg); break; }
	case 2: { size_t n = r.below(5); std::vector<double> w(n + 1); double s = 0; good = n > 0; for (size_t i = 0; i < n; i++) { w[i] = r.chance(1, 8) ? r.pick<double>({-1.0, NAN, INFINITY}) : (double)r.below(3); if (!(w[i] >= 0) || std::isinf(w[i])) good = false; s += w[i]; what += sfmt("%g ", w[i]); } if (!(s > 0)) good = false; e = ccs_create_roulette_distribution(n, w.data(), &d); what = "roulette " + what; break; }
	default: { double mu = pf(), si = r.chance(1, 8) ? r.pick<double>({NAN, INFINITY}) : r.range(1, 4), q = r.chance(1, 2) ? 0 : pf(); if (std::fabs(mu) > 1e100) mu = NAN; good = std::isfinite(mu) && std::isfinite(si) && q >= 0; if (std::isinf(q)) return; e = ccs_create_normal_float_distribution(mu, si, sc, q, &d); what = sfmt("normal float %g %g %g", mu, si, q); break; }
	}
	if (good) { CHECK(e == CCS_RESULT_SUCCESS && d, "creation-refused", "%s refused: %s", what.c_str(), rname(e)); OK(ccs_release_object(d)); ev("create.ok"); }
	else { CHECK(e < 0 && !d, "creation-accepted", "%s accepted", what.c_str()); ccs_clear_thread_error(); ev("create.refused"); }
}
void run_case(Rng &r, uint64_t idx) {
	Bag bag; DOpt o; o.extreme = idx % 4 == 1;
	DModel m = gen_dist(r, r.pick({0, 1, 2, 2, 3}), o);
	desc(m.str()); sig(hash_str(m.str()));
	ccs_rng_t g = NULL; OK(ccs_create_rng(&g)); bag.own(g);
	note("%s", m.str().c_str());
	meta(r, m);
	for (int i = 0; i < 3; i++) equivalence(r, m, g);
	if (!extreme_float(m) && idx % 3 == 0) frequencies(r, m, g);
	parameters(r, m, g, bag);
	for (int i = 0; i < 4; i++) creation(r);
	release(m);
}
