#include "gen.hpp"

// ================================================================ parameters
bool veq(const ccs_datum_t &a, const ccs_datum_t &b) {
	if (a.type != b.type) return false;
	switch (a.type) {
	case CCS_DATA_TYPE_NONE: case CCS_DATA_TYPE_INACTIVE: return true;
	case CCS_DATA_TYPE_FLOAT: return !memcmp(&a.value.f, &b.value.f, 8);
	case CCS_DATA_TYPE_STRING: return (!a.value.s || !b.value.s) ? a.value.s == b.value.s : !strcmp(a.value.s, b.value.s);
	case CCS_DATA_TYPE_OBJECT: return a.value.o == b.value.o;
	default: return a.value.i == b.value.i;
	}
}
bool num_in(const ccs_interval_t &b, ccs_numeric_t v) {
	if (b.type == CCS_NUMERIC_TYPE_INT)
		return (b.lower_included ? v.i >= b.lower.i : v.i > b.lower.i) && (b.upper_included ? v.i <= b.upper.i : v.i < b.upper.i);
	return (b.lower_included ? v.f >= b.lower.f : v.f > b.lower.f) && (b.upper_included ? v.f <= b.upper.f : v.f < b.upper.f);
}
int PModel::index_of(const ccs_datum_t &d) const {
	for (size_t i = 0; i < values.size(); i++) if (veq(values[i], d)) return i;
	return -1;
}
bool PModel::accepts(const ccs_datum_t &d) const {
	switch (type) {
	case CCS_PARAMETER_TYPE_NUMERICAL:
		if (nt == CCS_NUMERIC_TYPE_INT) return d.type == CCS_DATA_TYPE_INT && d.value.i >= lower.i && d.value.i < upper.i;
		return d.type == CCS_DATA_TYPE_FLOAT && d.value.f >= lower.f && d.value.f < upper.f;
	case CCS_PARAMETER_TYPE_STRING: return d.type == CCS_DATA_TYPE_STRING;
	default: return index_of(d) >= 0;
	}
}
static const char *WORDS[] = {"", "a", "b", "foo", "bar", "Foo", "foo ", "x1", "true", "1", "\xc3\xa9t\xc3\xa9", "a longer string value than usual, to cross small buffers",
	"a string much longer than any fixed-size field somebody might be tempted to use for it, the end of which says one",
	"a string much longer than any fixed-size field somebody might be tempted to use for it, the end of which says two"};
int gen_long = 0;
ccs_datum_t gen_scalar(Rng &r, int mask) {
	for (;;) switch (r.below(5)) {
	case 0: if (mask & 1) return ccs_none; break;
	case 1: if (mask & 2) return ccs_int(r.chance(1, 10) ? r.pick<int64_t>({INT64_MAX, INT64_MIN, -1, (int64_t)1 << 40, 0}) : r.range(-6, 12)); break;
	case 2: if (mask & 4) return ccs_float(r.chance(1, 10) ? r.pick<double>({1e300, -1e-300, 0.1, 1e16}) : r.range(-12, 24) / 2.0); break;
	case 3: if (mask & 8) return r.below(2) ? ccs_true : ccs_false; break;
	case 4: if ((mask & 16) && gen_long && !r.below(gen_long)) return dstr("L" + std::to_string(r.below(9)) + std::string(r.pick<size_t>({124, 125, 126, 250, 4093, 4094, 4095, 5000, 16382, 66000}), 'x')); if (mask & 16) return dstr(r.chance(1, 6) ? "s" + std::to_string(r.below(50)) : WORDS[r.below(sizeof WORDS / sizeof *WORDS)]); break;
	}
}
ccs_datum_t PModel::in(Rng &r) const {
	switch (type) {
	case CCS_PARAMETER_TYPE_NUMERICAL:
		if (nt == CCS_NUMERIC_TYPE_INT) {
			if (r.chance(1, 8)) return ccs_int(r.chance(1, 2) ? lower.i : upper.i - 1);
			return ccs_int((int64_t)((uint64_t)lower.i + r.below((uint64_t)upper.i - (uint64_t)lower.i)));
		} else {
			double l = std::isinf(lower.f) ? -1e6 : lower.f, u = std::isinf(upper.f) ? 1e6 : upper.f;
			if (l >= u) { if (std::isinf(lower.f)) l = u - 1e6; else u = l + 1e6; }
			if (r.chance(1, 8) && !std::isinf(lower.f)) return ccs_float(lower.f);
			if (r.chance(1, 8) && !std::isinf(upper.f)) return ccs_float(std::nextafter(upper.f, lower.f));
			double v = l * (1 - r.unit()) , f = r.unit(); v = l * (1 - f) + u * f;
			if (r.chance(1, 2)) v = std::floor(v);
			if (!(v >= lower.f)) v = lower.f; if (!(v < upper.f)) v = std::nextafter(upper.f, lower.f);
			if (v == 0) v = 0.0; // no negative zero
			return ccs_float(v);
		}
	case CCS_PARAMETER_TYPE_STRING: return gen_scalar(r, 16);
	default: return values[r.below(values.size())];
	}
}
ccs_datum_t PModel::any(Rng &r) const {
	if (r.chance(1, 2)) return in(r);
	switch (r.below(6)) {
	case 0: return ccs_inactive;
	case 1: if (type == CCS_PARAMETER_TYPE_NUMERICAL) return nt == CCS_NUMERIC_TYPE_INT ? ccs_int(upper.i) : ccs_float(upper.f); break;
	case 2: if (type == CCS_PARAMETER_TYPE_NUMERICAL) {
			if (nt == CCS_NUMERIC_TYPE_INT) return ccs_int(lower.i > INT64_MIN ? lower.i - 1 : INT64_MAX);
			return std::isinf(lower.f) ? ccs_float(lower.f) : ccs_float(std::nextafter(lower.f, -INFINITY));
		} break;
	case 3: if (type == CCS_PARAMETER_TYPE_NUMERICAL) return nt == CCS_NUMERIC_TYPE_INT ? ccs_float((double)lower.i) : ccs_int(0); break;
	case 4: if (listlike()) { // same number, other type; same text, other case
			ccs_datum_t d = values[r.below(values.size())];
			if (d.type == CCS_DATA_TYPE_INT) return ccs_float((double)d.value.i);
			if (d.type == CCS_DATA_TYPE_FLOAT && std::fabs(d.value.f) < 1e9) return ccs_int((int64_t)d.value.f);
			if (d.type == CCS_DATA_TYPE_BOOL) return ccs_int(d.value.i);
			if (d.type == CCS_DATA_TYPE_STRING) return dstr(std::string(d.value.s) + "_");
		} break;
	}
	return gen_scalar(r);
}
std::string PModel::str() const {
	std::string s = name + ":";
	if (type == CCS_PARAMETER_TYPE_NUMERICAL)
		return s + (nt == CCS_NUMERIC_TYPE_INT ? "int[" : "float[") + numstr(nt, lower) + "," + numstr(nt, upper) + ") q=" + numstr(nt, quant) + " def=" + dtos(def);
	if (type == CCS_PARAMETER_TYPE_STRING) return s + "string";
	s += type == CCS_PARAMETER_TYPE_CATEGORICAL ? "cat{" : type == CCS_PARAMETER_TYPE_ORDINAL ? "ord{" : "disc{";
	for (size_t i = 0; i < values.size(); i++) { if (i > 8) { s += ",..."; break; } s += (i ? "," : "") + dtos(values[i]); }
	return s + "} def=" + dtos(def);
}
ccs_result_t make_param(PModel &m) {
	m.p = NULL;
	// strings are handed over in storage that does not outlive the call
	std::vector<std::unique_ptr<char[]>> st;
	DV v; for (auto &d : m.values) v.push_back(transient_copy(d, st));
	std::unique_ptr<char[]> nm(new char[m.name.size() + 1]); memcpy(nm.get(), m.name.c_str(), m.name.size() + 1);
	ccs_result_t e;
	switch (m.type) {
	case CCS_PARAMETER_TYPE_NUMERICAL:
		m.def.flags = 0;
		e = ccs_create_numerical_parameter(nm.get(), m.nt, m.lower, m.upper, m.quant, m.nt == CCS_NUMERIC_TYPE_INT ? NI(m.def.value.i) : NF(m.def.value.f), &m.p); break;
	case CCS_PARAMETER_TYPE_STRING: e = ccs_create_string_parameter(nm.get(), &m.p); break;
	case CCS_PARAMETER_TYPE_CATEGORICAL: e = ccs_create_categorical_parameter(nm.get(), v.size(), v.data(), m.def_index, &m.p); break;
	case CCS_PARAMETER_TYPE_ORDINAL: e = ccs_create_ordinal_parameter(nm.get(), v.size(), v.data(), m.def_index, &m.p); break;
	default: e = ccs_create_discrete_parameter(nm.get(), v.size(), v.data(), m.def_index, &m.p); break;
	}
	return e;
}
PModel gen_param(Rng &r, const std::string &name, const POpt &o) {
	PModel m; m.name = name;
	int k;
	do { k = r.below(o.string ? 5 : 4); } while (k < 4 && !(o.types & (1 << k)));
	m.type = k == 0 ? CCS_PARAMETER_TYPE_NUMERICAL : k == 1 ? CCS_PARAMETER_TYPE_CATEGORICAL : k == 2 ? CCS_PARAMETER_TYPE_ORDINAL : k == 3 ? CCS_PARAMETER_TYPE_DISCRETE : CCS_PARAMETER_TYPE_STRING;
	if (m.type == CCS_PARAMETER_TYPE_NUMERICAL) {
		if (r.below(2)) {
			m.nt = CCS_NUMERIC_TYPE_INT;
			int64_t l = r.range(-10, 10), u = l + r.range(1, r.pick({2, 8, 60}));
			if (o.extreme && r.chance(1, 3)) switch (r.below(5)) {
				case 0: l = INT64_MIN; u = INT64_MAX; break;
				case 1: l = INT64_MIN; u = INT64_MIN + r.range(1, 4); break;
				case 2: u = INT64_MAX; l = u - r.range(1, 4); break;
				case 3: l = -((int64_t)1 << r.range(30, 62)); u = -l; break;
				default: l = 0; u = (int64_t)1 << r.range(31, 62); break;
			}
			m.lower.i = l; m.upper.i = u;
			uint64_t w = (uint64_t)u - (uint64_t)l;
			m.quant.i = r.chance(1, 3) ? (int64_t)std::min<uint64_t>(1 + r.below(w > 1000 && r.below(2) ? w : std::min<uint64_t>(w, 7)), INT64_MAX) : 0;
			m.def = m.in(r);
		} else {
			m.nt = CCS_NUMERIC_TYPE_FLOAT;
			double l = r.range(-20, 20) / 2.0, u = l + r.range(1, r.pick({2, 8, 60})) / 2.0;
			if (o.extreme && r.chance(1, 3)) switch (r.below(4)) {
				case 0: l = -1e300; u = 1e300; break;
				case 1: l = 1e16; u = 1e16 + 4; break;
				case 2: l = 1.0; u = std::nextafter(1.0, 2.0); break;
				default: l = 0; u = 1e-300; break;
			}
			if (!o.finite && r.chance(1, 3)) { if (r.below(2)) u = INFINITY; if (r.below(2)) l = -INFINITY; }
			m.lower.f = l; m.upper.f = u;
			m.quant.f = r.chance(1, 3) && std::isfinite(u - l) ? (u - l) / r.range(1, 9) : 0.0;
			if (m.quant.f > u - l) m.quant.f = 0;
			m.def = m.in(r);
		}
	} else if (m.type == CCS_PARAMETER_TYPE_STRING) {
		m.def = ccs_none;
	} else {
		size_t n = r.range(1, o.maxvals);
		if (o.maxvals >= 6 && r.chance(1, 12)) n = r.range(o.maxvals, 40);
		int guard = 0;
		int mask = m.type == CCS_PARAMETER_TYPE_DISCRETE ? 6 : r.pick({31, 16, 2, 20, 30});
		while (m.values.size() < n && guard++ < 400) { ccs_datum_t d = gen_scalar(r, mask); if (m.index_of(d) < 0) m.values.push_back(d); }
		if (m.values.empty()) m.values.push_back(ccs_int(0));
		m.def_index = r.below(m.values.size());
		m.def = m.values[m.def_index];
	}
	OK(make_param(m));
	if (m.type == CCS_PARAMETER_TYPE_STRING) OK(ccs_parameter_get_default_value(m.p, &m.def));
	return m;
}

// ================================================================ distributions
std::string DModel::str() const {
	switch (type) {
	case CCS_DISTRIBUTION_TYPE_UNIFORM: return sfmt("uniform(%s,%s,%s%s q=%s)", types[0] == CCS_NUMERIC_TYPE_INT ? "int" : "float", numstr(types[0], lower).c_str(), numstr(types[0], upper).c_str(), scale == CCS_SCALE_TYPE_LOGARITHMIC ? " log" : "", numstr(types[0], quant).c_str());
	case CCS_DISTRIBUTION_TYPE_NORMAL: return sfmt("normal(%s,%g,%g%s q=%s)", types[0] == CCS_NUMERIC_TYPE_INT ? "int" : "float", mu, sigma, scale == CCS_SCALE_TYPE_LOGARITHMIC ? " log" : "", numstr(types[0], quant).c_str());
	case CCS_DISTRIBUTION_TYPE_ROULETTE: { std::string s = "roulette("; for (double w : weights) s += sfmt("%g ", w); return s + ")"; }
	default: { std::string s = type == CCS_DISTRIBUTION_TYPE_MIXTURE ? "mixture(" : "multi("; for (size_t i = 0; i < sub.size(); i++) s += (i ? "," : "") + (weights.empty() ? std::string() : sfmt("%g*", weights[i])) + sub[i].str(); return s + ")"; }
	}
}
static ccs_interval_t mkint(ccs_numeric_type_t t, ccs_numeric_t l, ccs_numeric_t u, int li, int ui) {
	ccs_interval_t b; memset(&b, 0, sizeof b); b.type = t; b.lower = l; b.upper = u; b.lower_included = li; b.upper_included = ui; return b;
}
static void make_uniform(DModel &m) {
	m.type = CCS_DISTRIBUTION_TYPE_UNIFORM; m.dim = 1;
	m.bounds = {mkint(m.types[0], m.lower, m.upper, CCS_TRUE, CCS_FALSE)};
	OK(ccs_create_uniform_distribution(m.types[0], m.lower, m.upper, m.scale, m.quant, &m.d));
}
static void make_normal(DModel &m) {
	m.type = CCS_DISTRIBUTION_TYPE_NORMAL; m.dim = 1;
	bool lg = m.scale == CCS_SCALE_TYPE_LOGARITHMIC;
	if (m.types[0] == CCS_NUMERIC_TYPE_FLOAT) {
		if (lg) m.bounds = {m.quant.f != 0 ? mkint(m.types[0], m.quant, NF(INFINITY), CCS_TRUE, CCS_FALSE) : mkint(m.types[0], NF(0), NF(INFINITY), CCS_FALSE, CCS_FALSE)};
		else m.bounds = {mkint(m.types[0], NF(-INFINITY), NF(INFINITY), CCS_FALSE, CCS_FALSE)};
	} else {
		int64_t q = m.quant.i ? m.quant.i : 1;
		m.bounds = {mkint(m.types[0], NI(lg ? q : (INT64_MIN / q) * q), NI((INT64_MAX / q) * q), CCS_TRUE, CCS_TRUE)};
	}
	OK(ccs_create_normal_distribution(m.types[0], m.mu, m.sigma, m.scale, m.quant, &m.d));
}
static void make_roulette(DModel &m) {
	m.type = CCS_DISTRIBUTION_TYPE_ROULETTE; m.dim = 1; m.types = {CCS_NUMERIC_TYPE_INT};
	m.bounds = {mkint(CCS_NUMERIC_TYPE_INT, NI(0), NI((int64_t)m.weights.size()), CCS_TRUE, CCS_FALSE)};
	OK(ccs_create_roulette_distribution(m.weights.size(), m.weights.data(), &m.d));
}
static std::vector<double> gen_weights(Rng &r, size_t n) {
	std::vector<double> w(n); double s = 0;
	for (auto &x : w) { x = r.chance(1, 4) ? 0.0 : r.chance(1, 8) ? r.pick({1e-9, 1e6, 0.1}) : (double)r.range(1, 8); s += x; }
	if (s == 0) w[r.below(n)] = 1;
	return w;
}
DModel gen_dist1(Rng &r, ccs_numeric_type_t t, int64_t lo, int64_t hi, const DOpt &o) {
	DModel m; m.types = {t};
	int k = r.below(t == CCS_NUMERIC_TYPE_INT ? 5 : 4);
	if (k <= 1) { // uniform
		m.scale = r.chance(1, 3) ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
		if (t == CCS_NUMERIC_TYPE_INT) {
			int64_t l = r.range(lo, hi - 1), u = r.range(l + 1, hi);
			if (m.scale == CCS_SCALE_TYPE_LOGARITHMIC && l <= 0) { l = 1; if (u <= l) u = l + r.range(1, 6); }
			if (o.extreme && r.chance(1, 4)) switch (r.below(4)) {
				case 0: l = m.scale == CCS_SCALE_TYPE_LOGARITHMIC ? 1 : INT64_MIN; u = INT64_MAX; break;
				case 1: u = INT64_MAX; l = u - r.range(1, 4); break;
				case 2: l = ((int64_t)1 << 53) + 1; u = l + r.range(1, 5); break;
				default: l = 1; u = (int64_t)1 << r.range(32, 62); break;
			}
			m.lower.i = l; m.upper.i = u;
			m.quant.i = r.chance(1, 3) ? (int64_t)(1 + r.below(std::min<uint64_t>((uint64_t)u - (uint64_t)l, 9))) : 0;
		} else {
			double l = r.range(lo * 2, hi * 2 - 1) / 2.0, u = l + r.range(1, std::max<int64_t>(1, (hi - lo) * 2)) / 2.0;
			if (m.scale == CCS_SCALE_TYPE_LOGARITHMIC && l <= 0) { l = r.pick({0.001, 0.5, 1.0}); if (u <= l) u = l + r.range(1, 6); }
			if (o.extreme && r.chance(1, 4)) switch (r.below(4)) {
				case 0: l = m.scale == CCS_SCALE_TYPE_LOGARITHMIC ? 1e-300 : -1e300; u = 1e300; break;
				case 1: l = 1e16; u = 1e16 + 4; break;
				case 2: l = 1.0; u = std::nextafter(1.0, 2.0); break;
				default: l = 1e-5; u = 1e-5 + 1e-12; break;
			}
			m.lower.f = l; m.upper.f = u;
			m.quant.f = r.chance(1, 3) ? (u - l) / r.range(1, 9) : 0.0;
			if (m.quant.f > u - l || m.quant.f < 0) m.quant.f = 0;
		}
		make_uniform(m);
	} else if (k <= 3) {
		m.scale = r.chance(1, 3) ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
		m.mu = r.real(lo, hi); m.sigma = r.real(0.1, std::max<double>(1, (hi - lo) / 2.0));
		if (m.scale == CCS_SCALE_TYPE_LOGARITHMIC) { m.mu = r.real(-2, 4); m.sigma = r.real(0.1, 1.5); if (r.chance(1, 8)) { m.mu = r.real(-4, 8); m.sigma = r.real(1.5, 9); } }
		if (o.extreme && r.chance(1, 4) && m.scale == CCS_SCALE_TYPE_LINEAR) { m.mu = r.pick({0.0, 9.2e18, -9.2e18, 9.223372036854775e18}); m.sigma = r.pick({1.0, 1e18, 1e15}); }
		if (t == CCS_NUMERIC_TYPE_INT) m.quant.i = r.chance(1, 3) ? r.pick<int64_t>({1, 2, 3, 7}) : 0;
		else m.quant.f = r.chance(1, 3) ? r.pick({0.5, 0.1, 2.0, 1.0}) : 0.0;
		make_normal(m);
	} else {
		int64_t n = std::max<int64_t>(1, hi);
		m.weights = gen_weights(r, r.chance(1, 2) ? std::min<int64_t>(n, 40) : r.range(1, 8));
		make_roulette(m);
	}
	return m;
}
static ccs_interval_t hull(const ccs_interval_t &a, const ccs_interval_t &b) {
	ccs_interval_t u = a;
	bool I = a.type == CCS_NUMERIC_TYPE_INT;
	auto lt = [&](ccs_numeric_t x, ccs_numeric_t y) { return I ? x.i < y.i : x.f < y.f; };
	if (lt(b.lower, a.lower)) { u.lower = b.lower; u.lower_included = b.lower_included; }
	else if (!lt(a.lower, b.lower)) u.lower_included = a.lower_included || b.lower_included;
	if (lt(a.upper, b.upper)) { u.upper = b.upper; u.upper_included = b.upper_included; }
	else if (!lt(b.upper, a.upper)) u.upper_included = a.upper_included || b.upper_included;
	return u;
}
DModel gen_dist(Rng &r, int depth, const DOpt &o) {
	int k = depth <= 0 ? 0 : r.below(4);
	if (k <= 1) return gen_dist1(r, r.below(2) ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT, r.range(-6, 0), r.range(1, 12), o);
	DModel m;
	if (k == 2) {
		m.type = CCS_DISTRIBUTION_TYPE_MULTIVARIATE; m.dim = 0;
		size_t n = r.range(1, 4);
		for (size_t i = 0; i < n; i++) {
			m.sub.push_back(gen_dist(r, depth - 1, o));
			m.dim += m.sub[i].dim;
			m.types.insert(m.types.end(), m.sub[i].types.begin(), m.sub[i].types.end());
			m.bounds.insert(m.bounds.end(), m.sub[i].bounds.begin(), m.sub[i].bounds.end());
		}
		std::vector<ccs_distribution_t> ds; for (auto &s : m.sub) ds.push_back(s.d);
		OK(ccs_create_multivariate_distribution(n, ds.data(), &m.d));
	} else {
		m.type = CCS_DISTRIBUTION_TYPE_MIXTURE;
		size_t n = r.range(1, 4);
		m.sub.push_back(gen_dist(r, depth - 1, o));
		m.dim = m.sub[0].dim; m.types = m.sub[0].types; m.bounds = m.sub[0].bounds;
		while (m.sub.size() < n) { // same layout of types
			DModel s;
			if (m.dim == 1) s = gen_dist1(r, m.types[0], r.range(-6, 0), r.range(1, 12), o);
			else {
				s.type = CCS_DISTRIBUTION_TYPE_MULTIVARIATE; s.dim = m.dim; s.types = m.types;
				std::vector<ccs_distribution_t> ds;
				for (size_t i = 0; i < m.dim; i++) { s.sub.push_back(gen_dist1(r, m.types[i], r.range(-6, 0), r.range(1, 12), o)); s.bounds.push_back(s.sub[i].bounds[0]); ds.push_back(s.sub[i].d); }
				OK(ccs_create_multivariate_distribution(ds.size(), ds.data(), &s.d));
			}
			for (size_t i = 0; i < m.dim; i++) m.bounds[i] = hull(m.bounds[i], s.bounds[i]);
			m.sub.push_back(s);
		}
		m.weights = gen_weights(r, n);
		std::vector<ccs_distribution_t> ds; for (auto &s : m.sub) ds.push_back(s.d);
		OK(ccs_create_mixture_distribution(n, ds.data(), m.weights.data(), &m.d));
	}
	return m;
}
DModel gen_dist_for(Rng &r, const PModel &p) {
	if (p.listlike()) {
		int64_t n = p.values.size();
		return gen_dist1(r, CCS_NUMERIC_TYPE_INT, r.chance(1, 3) ? -1 : 0, n + (r.chance(1, 3) ? 1 : 0));
	}
	double l = p.nt == CCS_NUMERIC_TYPE_INT ? (double)p.lower.i : p.lower.f, u = p.nt == CCS_NUMERIC_TYPE_INT ? (double)p.upper.i : p.upper.f;
	if (!(std::fabs(l) < 1e6 && std::fabs(u) < 1e6)) {
		DModel m; m.types = {p.nt}; m.lower = p.lower; m.upper = p.upper; make_uniform(m); return m;
	}
	int64_t L = std::floor(l), U = std::ceil(u); if (U <= L) U = L + 1;
	return gen_dist1(r, p.nt, L - (r.chance(1, 3) ? 1 : 0), U + (r.chance(1, 3) ? 1 : 0));
}
void release(DModel &d) { for (auto &s : d.sub) release(s); if (d.d) ccs_release_object(d.d); d.d = NULL; }
bool DModel::ongrid(size_t k, ccs_numeric_t v) const {
	if (!num_in(bounds[k], v)) return false;
	switch (type) {
	case CCS_DISTRIBUTION_TYPE_UNIFORM:
		if (types[0] == CCS_NUMERIC_TYPE_INT) return !quant.i || ((uint64_t)v.i - (uint64_t)lower.i) % (uint64_t)quant.i == 0;
		if (quant.f == 0) return true;
		{ double x = (v.f - lower.f) / quant.f; return std::fabs(x - std::round(x)) <= 1e-6 * std::max(1.0, std::fabs(x)) || std::fabs(lower.f) > 1e10; }
	case CCS_DISTRIBUTION_TYPE_NORMAL:
		if (types[0] == CCS_NUMERIC_TYPE_INT) return !quant.i || v.i % quant.i == 0;
		if (quant.f == 0) return true;
		{ double x = v.f / quant.f; return std::fabs(x - std::round(x)) <= 1e-6 * std::max(1.0, std::fabs(x)); }
	case CCS_DISTRIBUTION_TYPE_ROULETTE: return weights[v.i] > 0;
	case CCS_DISTRIBUTION_TYPE_MULTIVARIATE:
		for (auto &s : sub) { if (k < s.dim) return s.ongrid(k, v); k -= s.dim; }
		return false;
	default:
		for (size_t i = 0; i < sub.size(); i++) if (weights[i] > 0 && sub[i].ongrid(k, v)) return true;
		return false;
	}
}

// ================================================================ expressions
EP e_lit(ccs_datum_t d) { EP e = std::make_shared<Expr>(); e->type = CCS_EXPRESSION_TYPE_LITERAL; e->lit = d; return e; }
EP e_var(int i) { EP e = std::make_shared<Expr>(); e->type = CCS_EXPRESSION_TYPE_VARIABLE; e->var = i; return e; }
EP e_op(ccs_expression_type_t t, std::vector<EP> n) { EP e = std::make_shared<Expr>(); e->type = t; e->n = n; return e; }
std::string Expr::str() const {
	static const char *sy[] = {"||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "+", "-", "!", "#", "list"};
	if (type == CCS_EXPRESSION_TYPE_LITERAL) return dtos(lit);
	if (type == CCS_EXPRESSION_TYPE_VARIABLE) return "p" + std::to_string(var);
	if (type == CCS_EXPRESSION_TYPE_LIST) { std::string s = "["; for (size_t i = 0; i < n.size(); i++) s += (i ? "," : "") + n[i]->str(); return s + "]"; }
	if (n.size() == 1) return std::string(sy[type]) + "(" + n[0]->str() + ")";
	return "(" + n[0]->str() + " " + sy[type] + " " + n[1]->str() + ")";
}
static EVal E(ccs_result_t e) { EVal v; v.err = e; return v; }
thread_local bool eval_nan = false;
static EVal V(ccs_datum_t d) { EVal v; v.v = d; if (d.type == CCS_DATA_TYPE_FLOAT && std::isnan(d.value.f)) eval_nan = true; return v; }
static bool isnum(const ccs_datum_t &d) { return d.type == CCS_DATA_TYPE_INT || d.type == CCS_DATA_TYPE_FLOAT; }
static double num(const ccs_datum_t &d) { return d.type == CCS_DATA_TYPE_INT ? (double)d.value.i : d.value.f; }
static bool inact(const EVal &v) { return v.v.type == CCS_DATA_TYPE_INACTIVE; }
static const ccs_result_t BAD = CCS_RESULT_ERROR_INVALID_VALUE;
static bool compatible(const Expr &node, const ccs_datum_t &other, const std::vector<PModel> &ps) {
	if (node.type != CCS_EXPRESSION_TYPE_VARIABLE) return true;
	const PModel &p = ps[node.var];
	switch (p.type) {
	case CCS_PARAMETER_TYPE_ORDINAL: case CCS_PARAMETER_TYPE_CATEGORICAL: return p.accepts(other);
	case CCS_PARAMETER_TYPE_NUMERICAL: case CCS_PARAMETER_TYPE_DISCRETE: return isnum(other);
	default: return true;
	}
}
// 1 equal, 0 different, -1 not comparable types
static int equal_gen(const ccs_datum_t &a, const ccs_datum_t &b) {
	if (isnum(a) && isnum(b)) { if (a.type == CCS_DATA_TYPE_INT && b.type == CCS_DATA_TYPE_INT) return a.value.i == b.value.i; return num(a) == num(b); }
	if (a.type != b.type) return -1;
	if (a.type == CCS_DATA_TYPE_STRING) return !strcmp(a.value.s, b.value.s);
	if (a.type == CCS_DATA_TYPE_NONE) return 1;
	return a.value.i == b.value.i;
}
EVal eval_ref(const Expr &e, const std::vector<PModel> &ps, const DV &vals) {
	auto isvar = [](const Expr &x) { return x.type == CCS_EXPRESSION_TYPE_VARIABLE; };
	switch (e.type) {
	case CCS_EXPRESSION_TYPE_LITERAL: return V(e.lit);
	case CCS_EXPRESSION_TYPE_VARIABLE: return V(vals[e.var]);
	case CCS_EXPRESSION_TYPE_LIST: return E(CCS_RESULT_ERROR_UNSUPPORTED_OPERATION);
	case CCS_EXPRESSION_TYPE_IN: {
		if (e.n[1]->type != CCS_EXPRESSION_TYPE_LIST) return E(BAD);
		EVal l = eval_ref(*e.n[0], ps, vals);
		if (!l.ok() || inact(l)) return l;
		bool any = false;
		for (auto &x : e.n[1]->n) {
			EVal r = eval_ref(*x, ps, vals);
			if (!r.ok()) return r;
			if (inact(r)) { any = true; continue; }
			if (!compatible(*e.n[0], r.v, ps)) return E(BAD);
			if (equal_gen(l.v, r.v) == 1) return V(ccs_true);
		}
		return V(any ? ccs_inactive : ccs_false);
	}
	default: break;
	}
	EVal l = eval_ref(*e.n[0], ps, vals);
	if (!l.ok()) return l;
	if (e.n.size() == 1) {
		if (inact(l)) return l;
		if (e.type == CCS_EXPRESSION_TYPE_NOT) return l.v.type == CCS_DATA_TYPE_BOOL ? V(l.v.value.i ? ccs_false : ccs_true) : E(BAD);
		if (!isnum(l.v)) return E(BAD);
		if (e.type == CCS_EXPRESSION_TYPE_POSITIVE) return V(l.v);
		return l.v.type == CCS_DATA_TYPE_INT ? V(ccs_int((int64_t)(0 - (uint64_t)l.v.value.i))) : V(ccs_float(-l.v.value.f));
	}
	EVal r = eval_ref(*e.n[1], ps, vals);
	if (!r.ok()) return r;
	const ccs_datum_t &a = l.v, &b = r.v;
	switch (e.type) {
	case CCS_EXPRESSION_TYPE_OR: {
		auto okk = [](const ccs_datum_t &d) { return d.type == CCS_DATA_TYPE_BOOL || d.type == CCS_DATA_TYPE_INACTIVE; };
		if (!okk(a) || !okk(b)) return E(BAD);
		if ((a.type == CCS_DATA_TYPE_BOOL && a.value.i) || (b.type == CCS_DATA_TYPE_BOOL && b.value.i)) return V(ccs_true);
		if (inact(l) || inact(r)) return V(ccs_inactive);
		return V(ccs_false);
	}
	case CCS_EXPRESSION_TYPE_AND:
		if (inact(l) || inact(r)) return V(ccs_inactive);
		if (a.type != CCS_DATA_TYPE_BOOL || b.type != CCS_DATA_TYPE_BOOL) return E(BAD);
		return V(a.value.i && b.value.i ? ccs_true : ccs_false);
	case CCS_EXPRESSION_TYPE_EQUAL: case CCS_EXPRESSION_TYPE_NOT_EQUAL: {
		if (inact(l) || inact(r)) return V(ccs_inactive);
		if (!compatible(*e.n[0], b, ps) || !compatible(*e.n[1], a, ps)) return E(BAD);
		int q = equal_gen(a, b);
		if (q < 0) { if (!isvar(*e.n[0]) && !isvar(*e.n[1])) return E(BAD); q = 0; }
		return V((q == 1) == (e.type == CCS_EXPRESSION_TYPE_EQUAL) ? ccs_true : ccs_false);
	}
	case CCS_EXPRESSION_TYPE_LESS: case CCS_EXPRESSION_TYPE_GREATER: case CCS_EXPRESSION_TYPE_LESS_OR_EQUAL: case CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL: {
		for (int k = 0; k < 2; k++) if (isvar(*e.n[k]) && ps[e.n[k]->var].type == CCS_PARAMETER_TYPE_CATEGORICAL) return E(BAD);
		if (inact(l) || inact(r)) return V(ccs_inactive);
		if (!compatible(*e.n[0], b, ps) || !compatible(*e.n[1], a, ps)) return E(BAD);
		int c = 0; bool done = false;
		for (int k = 0; k < 2 && !done; k++) if (isvar(*e.n[k]) && ps[e.n[k]->var].type == CCS_PARAMETER_TYPE_ORDINAL) {
			int i = ps[e.n[k]->var].index_of(a), j = ps[e.n[k]->var].index_of(b);
			if (i < 0 || j < 0) return E(BAD);
			c = i < j ? -1 : i > j; done = true;
		}
		if (!done) {
			if (isnum(a) && isnum(b)) { if (a.type == CCS_DATA_TYPE_INT && b.type == CCS_DATA_TYPE_INT) c = a.value.i < b.value.i ? -1 : a.value.i > b.value.i; else c = num(a) < num(b) ? -1 : num(a) > num(b); }
			else if (a.type == CCS_DATA_TYPE_STRING && b.type == CCS_DATA_TYPE_STRING) c = strcmp(a.value.s, b.value.s);
			else return E(BAD);
		}
		bool t = e.type == CCS_EXPRESSION_TYPE_LESS ? c < 0 : e.type == CCS_EXPRESSION_TYPE_GREATER ? c > 0 : e.type == CCS_EXPRESSION_TYPE_LESS_OR_EQUAL ? c <= 0 : c >= 0;
		return V(t ? ccs_true : ccs_false);
	}
	default: break;
	}
	if (inact(l) || inact(r)) return V(ccs_inactive);
	if (!isnum(a) || !isnum(b)) return E(BAD);
	bool ii = a.type == CCS_DATA_TYPE_INT && b.type == CCS_DATA_TYPE_INT;
	uint64_t x = a.value.i, y = b.value.i;
	switch (e.type) {
	case CCS_EXPRESSION_TYPE_ADD: return V(ii ? ccs_int((int64_t)(x + y)) : ccs_float(num(a) + num(b)));
	case CCS_EXPRESSION_TYPE_SUBSTRACT: return V(ii ? ccs_int((int64_t)(x - y)) : ccs_float(num(a) - num(b)));
	case CCS_EXPRESSION_TYPE_MULTIPLY: return V(ii ? ccs_int((int64_t)(x * y)) : ccs_float(num(a) * num(b)));
	case CCS_EXPRESSION_TYPE_DIVIDE:
		if (num(b) == 0) return E(BAD);
		if (ii) return V(ccs_int(b.value.i == -1 ? (int64_t)(0 - x) : a.value.i / b.value.i));
		return V(ccs_float(num(a) / num(b)));
	default: // modulo
		if (num(b) == 0) return E(BAD);
		if (ii) return V(ccs_int(b.value.i == -1 ? 0 : a.value.i % b.value.i));
		return V(ccs_float(std::fmod(num(a), num(b))));
	}
}
void vars_of(const Expr &e, std::set<int> &s) { if (e.type == CCS_EXPRESSION_TYPE_VARIABLE) s.insert(e.var); for (auto &x : e.n) vars_of(*x, s); }

ccs_expression_t build_expr(Rng *r, const Expr &e, const std::vector<PModel> &ps) {
	ccs_expression_t o = NULL;
	std::vector<std::unique_ptr<char[]>> st;
	if (e.type == CCS_EXPRESSION_TYPE_LITERAL) { OK(ccs_create_literal(transient_copy(e.lit, st), &o)); return o; }
	if (e.type == CCS_EXPRESSION_TYPE_VARIABLE) { OK(ccs_create_variable(ps[e.var].p, &o)); return o; }
	DV n; Bag b;
	for (auto &x : e.n) {
		bool direct = r && r->chance(1, 2);
		if (direct && x->type == CCS_EXPRESSION_TYPE_LITERAL) n.push_back(transient_copy(x->lit, st));
		else if (direct && x->type == CCS_EXPRESSION_TYPE_VARIABLE) n.push_back(ccs_object(ps[x->var].p));
		else n.push_back(ccs_object(b.own(build_expr(r, *x, ps))));
	}
	if (r && n.size() == 2 && e.type != CCS_EXPRESSION_TYPE_LIST && r->chance(1, 2)) OK(ccs_create_binary_expression(e.type, n[0], n[1], &o));
	else if (r && n.size() == 1 && e.type != CCS_EXPRESSION_TYPE_LIST && r->chance(1, 2)) OK(ccs_create_unary_expression(e.type, n[0], &o));
	else OK(ccs_create_expression(e.type, n.size(), n.data(), &o));
	return o;
}
EP gen_num(Rng &r, const std::vector<PModel> &ps, const std::vector<int> &vars, int depth) {
	std::vector<int> nv;
	for (int v : vars) if (ps[v].type == CCS_PARAMETER_TYPE_NUMERICAL || ps[v].type == CCS_PARAMETER_TYPE_DISCRETE) nv.push_back(v);
	if (depth <= 0 || r.chance(1, 4)) {
		if (!nv.empty() && r.chance(2, 3)) return e_var(r.pick(nv));
		return e_lit(r.below(2) ? ccs_int(r.range(-4, 9)) : ccs_float(r.range(-8, 16) / 2.0));
	}
	if (r.chance(1, 5)) return e_op(r.below(2) ? CCS_EXPRESSION_TYPE_POSITIVE : CCS_EXPRESSION_TYPE_NEGATIVE, {gen_num(r, ps, vars, depth - 1)});
	ccs_expression_type_t t = r.pick({CCS_EXPRESSION_TYPE_ADD, CCS_EXPRESSION_TYPE_SUBSTRACT, CCS_EXPRESSION_TYPE_MULTIPLY, CCS_EXPRESSION_TYPE_DIVIDE, CCS_EXPRESSION_TYPE_MODULO, CCS_EXPRESSION_TYPE_ADD, CCS_EXPRESSION_TYPE_SUBSTRACT});
	return e_op(t, {gen_num(r, ps, vars, depth - 1), gen_num(r, ps, vars, depth - 1)});
}
EP gen_bool(Rng &r, const std::vector<PModel> &ps, const std::vector<int> &vars, int depth) {
	if (depth > 0 && r.chance(1, 2)) {
		if (r.chance(1, 4)) return e_op(CCS_EXPRESSION_TYPE_NOT, {gen_bool(r, ps, vars, depth - 1)});
		return e_op(r.below(2) ? CCS_EXPRESSION_TYPE_OR : CCS_EXPRESSION_TYPE_AND, {gen_bool(r, ps, vars, depth - 1), gen_bool(r, ps, vars, depth - 1)});
	}
	static const ccs_expression_type_t cmp[] = {CCS_EXPRESSION_TYPE_LESS, CCS_EXPRESSION_TYPE_GREATER, CCS_EXPRESSION_TYPE_LESS_OR_EQUAL, CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL};
	if (vars.empty()) return e_lit(r.below(2) ? ccs_true : ccs_false);
	int v = r.pick(vars); const PModel &p = ps[v];
	int k = r.below(10);
	if (k < 3) {
		EP a = e_var(v), b = e_lit(p.in(r));
		if (r.chance(1, 3)) std::swap(a, b);
		return e_op(r.below(3) ? CCS_EXPRESSION_TYPE_EQUAL : CCS_EXPRESSION_TYPE_NOT_EQUAL, {a, b});
	}
	if (k < 5) {
		std::vector<EP> l; int n = r.range(0, 4);
		for (int i = 0; i < n; i++) l.push_back(e_lit(p.in(r)));
		return e_op(CCS_EXPRESSION_TYPE_IN, {e_var(v), e_op(CCS_EXPRESSION_TYPE_LIST, l)});
	}
	if (k < 8 && p.type != CCS_PARAMETER_TYPE_CATEGORICAL) {
		EP a = e_var(v), b = e_lit(p.in(r));
		if (r.chance(1, 3)) std::swap(a, b);
		return e_op(cmp[r.below(4)], {a, b});
	}
	if (k < 9) {
		EP a = gen_num(r, ps, vars, 2), b = gen_num(r, ps, vars, 1);
		return e_op(r.chance(1, 3) ? CCS_EXPRESSION_TYPE_NOT_EQUAL : cmp[r.below(4)], {a, b});
	}
	return e_op(CCS_EXPRESSION_TYPE_EQUAL, {e_var(v), e_lit(p.in(r))});
}
EP gen_wild(Rng &r, const std::vector<PModel> &ps, const std::vector<int> &vars, int depth) {
	if (depth <= 0 || r.chance(1, 5)) {
		if (!vars.empty() && r.chance(1, 2)) return e_var(r.pick(vars));
		return e_lit(gen_scalar(r));
	}
	int k = r.below(19);
	if (k < 13) return e_op((ccs_expression_type_t)(CCS_EXPRESSION_TYPE_OR + k), {gen_wild(r, ps, vars, depth - 1), gen_wild(r, ps, vars, depth - 1)});
	if (k < 16) return e_op(r.pick({CCS_EXPRESSION_TYPE_POSITIVE, CCS_EXPRESSION_TYPE_NEGATIVE, CCS_EXPRESSION_TYPE_NOT}), {gen_wild(r, ps, vars, depth - 1)});
	std::vector<EP> l; int n = r.range(0, 5);
	for (int i = 0; i < n; i++) l.push_back(gen_wild(r, ps, vars, r.chance(1, 4) ? depth - 1 : 0));
	EP li = e_op(CCS_EXPRESSION_TYPE_LIST, l);
	if (k < 18) return e_op(CCS_EXPRESSION_TYPE_IN, {gen_wild(r, ps, vars, depth - 1), li});
	return li;
}
EP read_expr(ccs_expression_t e, const std::vector<PModel> &ps) {
	ccs_expression_type_t t; OK(ccs_expression_get_type(e, &t));
	EP x = std::make_shared<Expr>(); x->type = t;
	if (t == CCS_EXPRESSION_TYPE_LITERAL) { OK(ccs_literal_get_value(e, &x->lit)); return x; }
	if (t == CCS_EXPRESSION_TYPE_VARIABLE) {
		ccs_parameter_t p; OK(ccs_variable_get_parameter(e, &p));
		for (size_t i = 0; i < ps.size(); i++) if (ps[i].p == p) x->var = i;
		return x;
	}
	size_t n = 0; OK(ccs_expression_get_num_nodes(e, &n));
	std::vector<ccs_expression_t> v(n + 1);
	if (n) OK(ccs_expression_get_nodes(e, n, v.data(), NULL));
	for (size_t i = 0; i < n; i++) x->n.push_back(read_expr(v[i], ps));
	return x;
}
bool same_expr(const Expr &a, const Expr &b) {
	if (a.type != b.type || a.var != b.var || a.n.size() != b.n.size()) return false;
	if (a.type == CCS_EXPRESSION_TYPE_LITERAL && !veq(a.lit, b.lit)) return false;
	for (size_t i = 0; i < a.n.size(); i++) if (!same_expr(*a.n[i], *b.n[i])) return false;
	return true;
}

// ================================================================ configuration spaces
std::vector<int> CSModel::topo() const {
	std::vector<int> out; std::vector<bool> done(ps.size(), false);
	bool prog = true;
	while (prog && out.size() < ps.size()) {
		prog = false;
		for (size_t i = 0; i < ps.size(); i++) {
			if (done[i]) continue;
			bool ready = true;
			if (cond[i]) { std::set<int> s; vars_of(*cond[i], s); for (int v : s) if (!done[v]) ready = false; }
			if (ready) { done[i] = true; out.push_back(i); prog = true; }
		}
	}
	return out;
}
bool CSModel::resolve(DV &v) const {
	for (int i : topo()) if (cond[i]) {
		EVal e = eval_ref(*cond[i], ps, v);
		if (!e.ok()) return false;
		if (!(e.v.type == CCS_DATA_TYPE_BOOL && e.v.value.i)) v[i] = ccs_inactive;
	}
	return true;
}
DV CSModel::defaults() const { DV v; for (auto &p : ps) v.push_back(p.def); resolve(v); return v; }
int CSModel::verdict(const DV &v) const {
	for (int i : topo()) {
		bool active = true;
		if (cond[i]) {
			EVal e = eval_ref(*cond[i], ps, v);
			if (!e.ok()) return e.err;
			active = e.v.type == CCS_DATA_TYPE_BOOL && e.v.value.i;
		}
		if (active != (v[i].type != CCS_DATA_TYPE_INACTIVE)) return 0;
		if (active && !ps[i].accepts(v[i])) return 0;
	}
	for (auto &f : forb) {
		EVal e = eval_ref(*f, ps, v);
		if (!e.ok()) return e.err;
		if (e.v.type == CCS_DATA_TYPE_BOOL && e.v.value.i) return 0;
	}
	return 1;
}
std::string CSModel::str() const {
	std::string s;
	for (size_t i = 0; i < ps.size(); i++) s += ps[i].str() + (cond[i] ? " if " + cond[i]->str() : "") + "; ";
	for (auto &f : forb) s += "forbid " + f->str() + "; ";
	return s;
}
static bool may_fail(const Expr &e) {
	if (e.type == CCS_EXPRESSION_TYPE_DIVIDE || e.type == CCS_EXPRESSION_TYPE_MODULO) return true;
	for (auto &n : e.n) if (may_fail(*n)) return true;
	return false;
}
// a few spaces use long names that differ only at their end
std::string name_stem(Rng &r, const char *s) { return r.chance(1, 16) ? std::string(r.pick({64, 255, 256, 300, 1100}), 'n') + s : std::string(s); }
static size_t batch(Rng &r, size_t n) { return r.below(2) ? 1 : 1 + r.below(n); }
CSModel gen_cs(Rng &r, const std::string &name, Bag &bag, const CSOpt &o) {
	CSModel m; m.name = name;
	OK(ccs_create_configuration_space(name.c_str(), &m.cs)); bag.own(m.cs);
	int n = o.maxp >= 5 && r.chance(1, 40) ? r.range(o.maxp, std::max(40, o.maxp)) : r.range(o.minp, o.maxp); std::string stem = name_stem(r, "p");
	std::vector<ccs_parameter_t> add_p; std::vector<ccs_distribution_t> add_d; std::vector<DModel> add_m;
	for (int i = 0; i < n; i++) {
		PModel p = gen_param(r, stem + std::to_string(i), o.po); bag.own(p.p);
		ccs_distribution_t d = NULL; DModel dm;
		if (o.dists && r.chance(1, 3)) { dm = gen_dist_for(r, p); d = dm.d; }
		add_p.push_back(p.p); add_d.push_back(d); add_m.push_back(dm);
		m.ps.push_back(p); m.cond.push_back(nullptr); m.cond_o.push_back(NULL);
	}
	for (size_t i = 0, k; i < add_p.size(); i += k) { // one at a time or several together
		k = batch(r, add_p.size() - i); bool any = false; for (size_t j = i; j < i + k; j++) any |= add_d[j] != NULL;
		if (k == 1 && r.below(2)) OK(ccs_configuration_space_add_parameter(m.cs, add_p[i], add_d[i]));
		else OK(ccs_configuration_space_add_parameters(m.cs, k, add_p.data() + i, any || r.below(2) ? add_d.data() + i : NULL));
	}
	for (auto &dm : add_m) if (dm.d) release(dm);
	// conditions only refer to earlier parameters in a hidden order, so that they are mostly acyclic
	std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i);
	r.shuffle(ord);
	if (o.conds) for (int k = 1; k < n; k++) if (r.chance(1, 2)) {
		std::vector<int> vars(ord.begin(), ord.begin() + k);
		EP e = gen_bool(r, m.ps, vars, 2);
		if (o.safe && may_fail(*e)) continue;
		// only keep conditions that evaluate without error on plausible values
		bool bad = false;
		for (int t = 0; t < 12 && !bad; t++) {
			DV v; for (auto &p : m.ps) v.push_back(p.in(r));
			if (t) m.resolve(v);
			if (!eval_ref(*e, m.ps, v).ok()) bad = true;
		}
		if (!bad) { // nor on the default configuration
			m.cond[ord[k]] = e;
			DV v; for (auto &p : m.ps) v.push_back(p.def);
			bad = !m.resolve(v);
			m.cond[ord[k]] = nullptr;
		}
		if (bad) continue;
		ccs_expression_t x = bag.own(build_expr(&r, *e, m.ps));
		OK(ccs_configuration_space_set_condition(m.cs, ord[k], x));
		m.cond[ord[k]] = e; m.cond_o[ord[k]] = x;
	}
	if (o.forb) { int nf = r.below(3); for (int k = 0; k < nf; k++) {
		std::vector<int> vars; for (int i = 0; i < n; i++) vars.push_back(i);
		EP e = gen_bool(r, m.ps, vars, 2);
		if (o.safe && may_fail(*e)) continue;
		EVal d = eval_ref(*e, m.ps, m.defaults());
		if (!d.ok() || (d.v.type == CCS_DATA_TYPE_BOOL && d.v.value.i)) continue;
		bool bad = false; int hit = 0;
		for (int t = 0; t < 30 && !bad; t++) {
			DV v; for (auto &p : m.ps) v.push_back(p.in(r));
			m.resolve(v);
			EVal z = eval_ref(*e, m.ps, v);
			if (!z.ok()) bad = true; else if (z.v.type == CCS_DATA_TYPE_BOOL && z.v.value.i) hit++;
		}
		if (bad || hit > 20) continue;
		ccs_expression_t x = bag.own(build_expr(&r, *e, m.ps));
		m.forb.push_back(e); m.forb_o.push_back(x);
	}
	for (size_t i = 0, k; i < m.forb_o.size(); i += k) {
		k = batch(r, m.forb_o.size() - i);
		if (k == 1 && r.below(2)) OK(ccs_configuration_space_add_forbidden_clause(m.cs, m.forb_o[i])); else OK(ccs_configuration_space_add_forbidden_clauses(m.cs, k, m.forb_o.data() + i));
	} }
	return m;
}

// ================================================================ objectives, features
// objective values are ordered when both are of the same numerical type
static bool cmp_datum(const ccs_datum_t &a, const ccs_datum_t &b, int &c) {
	if (!isnum(a) || a.type != b.type) return false;
	if (a.type == CCS_DATA_TYPE_INT) c = a.value.i < b.value.i ? -1 : a.value.i > b.value.i; else c = a.value.f < b.value.f ? -1 : a.value.f > b.value.f;
	return true;
}
int OSModel::compare(const DV &a, const DV &b) const {
	int cur = CCS_COMPARISON_EQUIVALENT;
	for (size_t i = 0; i < obj.size(); i++) {
		EVal x = objective(i, a), y = objective(i, b);
		if (!x.ok()) return x.err - 1000;
		if (!y.ok()) return y.err - 1000;
		int c;
		if (!cmp_datum(x.v, y.v, c)) return CCS_COMPARISON_NOT_COMPARABLE;
		if (dir[i] == CCS_OBJECTIVE_TYPE_MAXIMIZE) c = -c;
		if (!c) continue;
		int w = c < 0 ? CCS_COMPARISON_BETTER : CCS_COMPARISON_WORSE;
		if (cur == CCS_COMPARISON_EQUIVALENT) cur = w;
		else if (cur != w) return CCS_COMPARISON_NOT_COMPARABLE;
	}
	return cur;
}
OSModel gen_os(Rng &r, const std::string &name, Bag &bag, bool simple, int maxobj) {
	OSModel m; std::vector<ccs_parameter_t> add_p; std::vector<ccs_expression_t> add_x;
	OK(ccs_create_objective_space(name.c_str(), &m.os)); bag.own(m.os);
	bool big = maxobj >= 3 && r.chance(1, 40); int n = big ? r.range(5, 20) : r.range(1, 4); std::string stem = name_stem(r, "v");
	for (int i = 0; i < n; i++) {
		POpt po; po.types = simple ? 1 : 15; po.string = !simple; po.finite = r.chance(1, 2);
		PModel p = gen_param(r, stem + std::to_string(i), po);
		if (simple) { // small grids so that equivalences and dominance both occur
			ccs_release_object(p.p);
			p = PModel(); p.name = stem + std::to_string(i); p.type = CCS_PARAMETER_TYPE_NUMERICAL; p.nt = r.below(2) ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
			if (p.nt == CCS_NUMERIC_TYPE_INT) { p.lower.i = 0; p.upper.i = r.range(2, 8); p.quant.i = 0; p.def = ccs_int(0); }
			else { p.lower.f = -INFINITY; p.upper.f = INFINITY; p.quant.f = 0; p.def = ccs_float(0.5); }
			OK(make_param(p));
		}
		bag.own(p.p);
		m.ps.push_back(p); add_p.push_back(p.p);
	}
	for (size_t i = 0, k; i < add_p.size(); i += k) { k = batch(r, add_p.size() - i); if (k == 1 && r.below(2)) OK(ccs_objective_space_add_parameter(m.os, add_p[i])); else OK(ccs_objective_space_add_parameters(m.os, k, add_p.data() + i)); }
	std::vector<int> vars; for (int i = 0; i < n; i++) vars.push_back(i);
	int no = big ? r.range(4, 20) : r.range(1, maxobj);
	for (int i = 0; i < no; i++) {
		EP e = simple ? (r.chance(2, 3) ? e_var(r.below(n)) : e_op(r.pick({CCS_EXPRESSION_TYPE_ADD, CCS_EXPRESSION_TYPE_SUBSTRACT}), {e_var(r.below(n)), e_var(r.below(n))}))
		              : (r.chance(1, 2) ? e_var(r.below(n)) : gen_num(r, m.ps, vars, 2));
		ccs_objective_type_t d = r.below(2) ? CCS_OBJECTIVE_TYPE_MINIMIZE : CCS_OBJECTIVE_TYPE_MAXIMIZE;
		ccs_expression_t x = !add_x.empty() && r.chance(1, 10) ? (e = m.obj.back(), add_x.back()) : bag.own(build_expr(&r, *e, m.ps)); // at times the same expression again
		m.obj.push_back(e); m.dir.push_back(d); add_x.push_back(x);
	}
	for (size_t i = 0, k; i < add_x.size(); i += k) { k = batch(r, add_x.size() - i); if (k == 1 && r.below(2)) OK(ccs_objective_space_add_objective(m.os, add_x[i], m.dir[i])); else OK(ccs_objective_space_add_objectives(m.os, k, add_x.data() + i, m.dir.data() + i)); }
	return m;
}
FSModel gen_fs(Rng &r, const std::string &name, Bag &bag, int maxp, bool may_be_empty) {
	FSModel m; std::vector<ccs_parameter_t> add_p;
	OK(ccs_create_features_space(name.c_str(), &m.fs)); bag.own(m.fs);
	int n = may_be_empty && r.chance(1, 30) ? 0 : r.range(1, maxp); std::string stem = name_stem(r, "f");
	for (int i = 0; i < n; i++) {
		POpt po; po.string = true; po.maxvals = 3;
		PModel p = gen_param(r, stem + std::to_string(i), po); bag.own(p.p);
		m.ps.push_back(p); add_p.push_back(p.p);
	}
	for (size_t i = 0, k; i < add_p.size(); i += k) { k = batch(r, add_p.size() - i); if (k == 1 && r.below(2)) OK(ccs_features_space_add_parameter(m.fs, add_p[i])); else OK(ccs_features_space_add_parameters(m.fs, k, add_p.data() + i)); }
	return m;
}

// ================================================================ trees
TP gen_tree(Rng &r, Bag &bag, int depth, int maxarity, bool weights) {
	TP t = std::make_shared<TModel>();
	t->arity = depth > 0 ? r.range(0, maxarity) : 0;
	bool wide = depth >= 3 && r.chance(1, 24); // many branches, few of them present
	if (wide) t->arity = r.pick({129, 257, 300});
	t->value = gen_scalar(r);
	OK(ccs_create_tree(t->arity, t->value, &t->t)); bag.own(t->t);
	if (weights && r.chance(1, 2)) { t->weight = r.pick({0.0, 0.5, 1.0, 3.0}); OK(ccs_tree_set_weight(t->t, t->weight)); }
	if (weights && r.chance(1, 2)) { t->bias = r.pick({0.0, 0.5, 1.0, 4.0}); OK(ccs_tree_set_bias(t->t, t->bias)); }
	t->ch.resize(t->arity);
	for (size_t i = 0; i < t->arity; i++) if (wide ? r.chance(1, 16) : r.chance(4, 5)) {
		t->ch[i] = gen_tree(r, bag, depth - 1, maxarity, weights);
		OK(ccs_tree_set_child(t->t, i, t->ch[i]->t));
		t->ch[i]->parent = t.get(); t->ch[i]->index = i;
	}
	return t;
}
DV tree_path_values(const TModel *t) { DV v; for (; t; t = t->parent) v.insert(v.begin(), t->value); return v; }
std::vector<size_t> tree_path(const TModel *t) { std::vector<size_t> v; for (; t->parent; t = t->parent) v.insert(v.begin(), t->index); return v; }
void tree_nodes(const TP &t, std::vector<TP> &out) { out.push_back(t); for (auto &c : t->ch) if (c) tree_nodes(c, out); }
