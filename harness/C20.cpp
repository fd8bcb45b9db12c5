// C20: parameters accept, convert and default exactly per their definition.
#include "gen.hpp"
const char *PROP = "C20";
uint64_t num_cases(bool th) { return th ? 400000 : 180000; }
bool ledger_check() { return true; }
void prop_init() {}

static bool in_own(const PModel &m, const ccs_datum_t &d) { return m.accepts(d); }
// candidate values around the definition
static DV probes(Rng &r, const PModel &m) {
	DV v;
	for (int i = 0; i < 10; i++) v.push_back(m.any(r));
	if (m.type == CCS_PARAMETER_TYPE_NUMERICAL) {
		if (m.nt == CCS_NUMERIC_TYPE_INT) {
			v.push_back(ccs_int(m.lower.i)); v.push_back(ccs_int(m.upper.i)); v.push_back(ccs_int(m.upper.i - 1));
			if (m.lower.i > INT64_MIN) v.push_back(ccs_int(m.lower.i - 1));
			if (m.upper.i < INT64_MAX) v.push_back(ccs_int(m.upper.i + 1));
			v.push_back(ccs_int(INT64_MIN)); v.push_back(ccs_int(INT64_MAX)); v.push_back(ccs_float((double)m.lower.i));
		} else {
			v.push_back(ccs_float(m.lower.f)); v.push_back(ccs_float(m.upper.f)); v.push_back(ccs_float(std::nextafter(m.upper.f, -INFINITY)));
			v.push_back(ccs_float(std::nextafter(m.lower.f, -INFINITY))); v.push_back(ccs_float(std::nextafter(m.upper.f, INFINITY)));
			v.push_back(ccs_float(NAN)); v.push_back(ccs_float(INFINITY)); v.push_back(ccs_float(-INFINITY));
			v.push_back(ccs_int(1));
		}
	} else for (auto &d : m.values) { v.push_back(d); }
	v.push_back(ccs_none); v.push_back(ccs_inactive); v.push_back(ccs_true); v.push_back(ccs_false); v.push_back(dstr("foo"));
	r.shuffle(v);
	return v;
}
static void check_accept(Rng &r, const PModel &m) {
	DV v = probes(r, m);
	size_t n = v.size();
	std::vector<ccs_bool_t> exp(n);
	for (size_t i = 0; i < n; i++) exp[i] = in_own(m, v[i]) ? CCS_TRUE : CCS_FALSE;
	std::vector<std::unique_ptr<char[]>> st;
	DV g; for (auto &d : v) g.push_back(r.chance(1, 2) ? transient_copy(d, st) : d);
	std::vector<ccs_bool_t> b1(n, 9), b2(n, 9), b3(n, 9), b4(n, 9);
	DV o2(n, ccs_int(-77)), o4(n, ccs_int(-77));
	OK(ccs_parameter_check_values(m.p, n, g.data(), b1.data()));
	OK(ccs_parameter_validate_values(m.p, n, g.data(), o2.data(), b2.data()));
	for (size_t i = 0; i < n; i++) {
		OK(ccs_parameter_check_value(m.p, g[i], &b3[i]));
		OK(ccs_parameter_validate_value(m.p, g[i], &o4[i], &b4[i]));
	}
	// destroy the caller's copies: returned values must be the parameter's own
	for (auto &p : st) memset(p.get(), '#', strlen(p.get()));
	st.clear();
	for (size_t i = 0; i < n; i++) {
		CHECK(b1[i] == exp[i] && b3[i] == exp[i], "check-value", "%s: value %s checked %d (bulk) %d (single), expected %d", m.str().c_str(), dtos(v[i]).c_str(), b1[i], b3[i], exp[i]);
		CHECK(b2[i] == exp[i] && b4[i] == exp[i], "validate-value", "%s: value %s validated %d (bulk) %d (single), expected %d", m.str().c_str(), dtos(v[i]).c_str(), b2[i], b4[i], exp[i]);
		if (exp[i]) {
			CHECK(veq(o2[i], v[i]) && veq(o4[i], v[i]), "validated-content", "%s: validating %s gave %s / %s", m.str().c_str(), dtos(v[i]).c_str(), dtos(o2[i]).c_str(), dtos(o4[i]).c_str());
			CHECK(!(o2[i].flags & CCS_DATUM_FLAG_TRANSIENT) && !(o4[i].flags & CCS_DATUM_FLAG_TRANSIENT), "validated-transient", "%s: validated %s still flagged transient", m.str().c_str(), dtos(v[i]).c_str());
			if (v[i].type == CCS_DATA_TYPE_STRING) CHECK(o2[i].value.s == o4[i].value.s && o2[i].value.s != g[i].value.s, "own-copy", "%s: validating %s did not return the parameter's own copy", m.str().c_str(), dtos(v[i]).c_str());
			ev("accepted");
		} else {
			CHECK(o2[i].type == CCS_DATA_TYPE_INACTIVE && o4[i].type == CCS_DATA_TYPE_INACTIVE, "rejected-output", "%s: rejected %s gave %s / %s", m.str().c_str(), dtos(v[i]).c_str(), dtos(o2[i]).c_str(), dtos(o4[i]).c_str());
			ev("rejected");
		}
	}
}
static void check_meta(Rng &r, const PModel &m) {
	const char *nm = NULL; OK(ccs_parameter_get_name(m.p, &nm));
	CHECK(m.name == nm, "name", "name is '%s', expected '%s'", nm, m.name.c_str());
	ccs_parameter_type_t t; OK(ccs_parameter_get_type(m.p, &t)); CHECK(t == m.type, "type", "type %d expected %d", t, m.type);
	ccs_datum_t d; OK(ccs_parameter_get_default_value(m.p, &d));
	if (m.type != CCS_PARAMETER_TYPE_STRING) {
		CHECK(veq(d, m.def), "default", "%s: default is %s", m.str().c_str(), dtos(d).c_str());
		ccs_bool_t b = 9; OK(ccs_parameter_check_value(m.p, d, &b)); CHECK(b == CCS_TRUE, "default-accepted", "%s: default not accepted", m.str().c_str());
	}
	ccs_interval_t itv; OK(ccs_parameter_sampling_interval(m.p, &itv));
	if (m.type == CCS_PARAMETER_TYPE_NUMERICAL) {
		ccs_numeric_type_t nt; ccs_numeric_t l, u, q;
		OK(ccs_numerical_parameter_get_properties(m.p, &nt, &l, &u, &q));
		CHECK(nt == m.nt && l.i == m.lower.i && u.i == m.upper.i && q.i == m.quant.i, "properties", "%s: properties read back differ", m.str().c_str());
		CHECK(itv.type == m.nt && itv.lower.i == m.lower.i && itv.upper.i == m.upper.i && itv.lower_included && !itv.upper_included, "sampling-interval", "%s: wrong sampling interval", m.str().c_str());
	} else if (m.listlike()) {
		CHECK(itv.type == CCS_NUMERIC_TYPE_INT && itv.lower.i == 0 && itv.upper.i == (int64_t)m.values.size() && itv.lower_included && !itv.upper_included, "sampling-interval", "%s: wrong sampling interval", m.str().c_str());
		auto get = m.type == CCS_PARAMETER_TYPE_CATEGORICAL ? ccs_categorical_parameter_get_values : m.type == CCS_PARAMETER_TYPE_ORDINAL ? ccs_ordinal_parameter_get_values : ccs_discrete_parameter_get_values;
		size_t n = 0; OK(get(m.p, 0, NULL, &n));
		CHECK(n == m.values.size(), "values-count", "%s: %zu values", m.str().c_str(), n);
		DV v(n, ccs_int(-77)); OK(get(m.p, n, v.data(), NULL));
		for (size_t i = 0; i < n; i++) CHECK(veq(v[i], m.values[i]), "values-order", "%s: value %zu is %s", m.str().c_str(), i, dtos(v[i]).c_str());
		ev("listing");
		// wrong kind of listing is refused
		if (m.type != CCS_PARAMETER_TYPE_CATEGORICAL) REFUSED(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_categorical_parameter_get_values(m.p, 0, NULL, &n));
		if (m.type != CCS_PARAMETER_TYPE_DISCRETE) REFUSED(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_discrete_parameter_get_values(m.p, 0, NULL, &n));
	}
	if (m.type == CCS_PARAMETER_TYPE_ORDINAL) {
		for (int k = 0; k < 8; k++) {
			ccs_datum_t a = m.any(r), b = m.any(r); int ia = m.index_of(a), ib = m.index_of(b);
			std::vector<std::unique_ptr<char[]>> st;
			ccs_int_t c = 99; ccs_result_t e = ccs_ordinal_parameter_compare_values(m.p, transient_copy(a, st), transient_copy(b, st), &c);
			if (ia < 0 || ib < 0) { CHECK(e == CCS_RESULT_ERROR_INVALID_VALUE && c == 99, "ordinal-refuse", "%s: comparing %s and %s gave %s", m.str().c_str(), dtos(a).c_str(), dtos(b).c_str(), rname(e)); ccs_clear_thread_error(); ev("ordinal.refused"); }
			else { CHECK(e == CCS_RESULT_SUCCESS && (c > 0) - (c < 0) == (ia > ib) - (ia < ib), "ordinal-order", "%s: compare(%s,%s) is %lld", m.str().c_str(), dtos(a).c_str(), dtos(b).c_str(), (long long)c); ev("ordinal.compared"); }
		}
	} else { ccs_int_t c; REFUSED(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_ordinal_parameter_compare_values(m.p, ccs_none, ccs_none, &c)); }
}
static void check_sampling(Rng &r, const PModel &m, Bag &bag) {
	ccs_rng_t g = NULL; OK(ccs_create_rng(&g)); bag.own(g); OK(ccs_rng_set_seed(g, (unsigned long)r.next()));
	ccs_datum_t sv = ccs_int(-77);
	if (m.type == CCS_PARAMETER_TYPE_STRING) {
		ccs_distribution_t d = NULL; OK(ccs_create_uniform_int_distribution(0, 2, CCS_SCALE_TYPE_LINEAR, 0, &d)); bag.own(d);
		REFUSED(CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, ccs_parameter_sample(m.p, d, g, &sv));
		ccs_distribution_t dd = NULL; REFUSED(CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, ccs_parameter_get_default_distribution(m.p, &dd));
		return;
	}
	DModel dm; ccs_distribution_t d = NULL; bool deflt = r.chance(1, 3);
	bool finite = m.type != CCS_PARAMETER_TYPE_NUMERICAL || m.nt == CCS_NUMERIC_TYPE_INT || (std::isfinite(m.upper.f - m.lower.f));
	if (deflt || !finite) {
		ccs_result_t e = ccs_parameter_get_default_distribution(m.p, &d);
		if (!finite) { CHECK(e != CCS_RESULT_SUCCESS || d, "default-dist", "no default distribution"); if (e) { ccs_clear_thread_error(); return; } }
		else if (e != CCS_RESULT_SUCCESS) { CHECK(m.nt == CCS_NUMERIC_TYPE_FLOAT && m.quant.f != 0, "default-dist", "%s: no default distribution: %s", m.str().c_str(), rname(e)); ccs_clear_thread_error(); return; }
		bag.own(d);
		// always samples inside the parameter
		ccs_interval_t itv; OK(ccs_parameter_sampling_interval(m.p, &itv));
		ccs_bool_t over = 9; OK(ccs_distribution_check_oversampling(d, &itv, &over));
		CHECK(over == CCS_FALSE, "default-dist-over", "%s: the default distribution oversamples the parameter", m.str().c_str());
		// and leaves out none of its values
		ccs_interval_t db; OK(ccs_distribution_get_bounds(d, &db));
		if (finite && (m.type != CCS_PARAMETER_TYPE_NUMERICAL || m.quant.i == 0)) {
			bool same = itv.type == CCS_NUMERIC_TYPE_INT ? db.lower.i == itv.lower.i && db.upper.i == itv.upper.i : db.lower.f == itv.lower.f && db.upper.f == itv.upper.f;
			CHECK(db.type == itv.type && same && db.lower_included == itv.lower_included && db.upper_included == itv.upper_included, "default-dist-bounds", "%s: the default distribution covers %s..%s only", m.str().c_str(), numstr(db.type, db.lower).c_str(), numstr(db.type, db.upper).c_str());
			ev("default-bounds");
		}
		if (m.listlike() && r.chance(1, 4)) {
			size_t N = 60 * m.values.size() + 40; DV all(N, ccs_none); OK(ccs_parameter_samples(m.p, d, g, N, all.data()));
			for (auto &x : m.values) { bool f = false; for (auto &y : all) if (veq(x, y)) { f = true; break; } CHECK(f, "default-dist-misses", "%s: %zu default samples never gave %s", m.str().c_str(), N, dtos(x).c_str()); }
			ev("default-all-values");
		}
		dm.type = CCS_DISTRIBUTION_TYPE_UNIFORM; dm.types = {m.type == CCS_PARAMETER_TYPE_NUMERICAL ? m.nt : CCS_NUMERIC_TYPE_INT};
		ev("default-distribution");
	} else {
		dm = gen_dist_for(r, m); d = bag.own(dm.d);
	}
	ccs_numeric_type_t want = m.type == CCS_PARAMETER_TYPE_NUMERICAL ? m.nt : CCS_NUMERIC_TYPE_INT;
	std::set<std::string> seen;
	if (dm.types[0] != want) return;
	int n = r.range(1, 60);
	DV v(n + 1, ccs_int(-777));
	ccs_result_t e = ccs_parameter_samples(m.p, d, g, n, v.data());
	CHECK(v[n].type == CCS_DATA_TYPE_INT && v[n].value.i == -777, "overrun", "%s: sampling wrote past the requested values", m.str().c_str());
	if (e == CCS_RESULT_SUCCESS) {
		for (int i = 0; i < n; i++) { CHECK(m.accepts(v[i]), "sample-invalid", "%s: sample %s from %s is not accepted", m.str().c_str(), dtos(v[i]).c_str(), deflt ? "default" : dm.str().c_str());
			ccs_bool_t b = 9; OK(ccs_parameter_check_value(m.p, v[i], &b)); CHECK(b == CCS_TRUE, "sample-refused", "%s: sample %s refused", m.str().c_str(), dtos(v[i]).c_str()); ev("sampled");
			if (m.type == CCS_PARAMETER_TYPE_NUMERICAL && (deflt || !finite)) { // default distribution: on the grid
				if (m.nt == CCS_NUMERIC_TYPE_INT && m.quant.i) CHECK(((uint64_t)v[i].value.i - (uint64_t)m.lower.i) % (uint64_t)m.quant.i == 0, "default-grid", "%s: default sample %s off the quantisation grid", m.str().c_str(), dtos(v[i]).c_str());
			}
		}
		for (int i = 0; i < n; i++) seen.insert(dtos(v[i]));
	} else { CHECK(e == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "sample-error", "%s: sampling with %s failed with %s", m.str().c_str(), dm.str().c_str(), rname(e)); CHECK(!deflt, "sample-error", "default sampling failed"); ccs_clear_thread_error(); std::vector<ccs_numeric_t> raw(600); OK(ccs_distribution_samples(d, g, 600, raw.data())); size_t c = 0; for (auto x : raw) c += m.listlike() ? x.i >= 0 && x.i < (int64_t)m.values.size() : m.accepts(want == CCS_NUMERIC_TYPE_INT ? ccs_int(x.i) : ccs_float(x.f)); CHECK(c < 300, "gave-up", "%s: %d samples could not be drawn from %s, yet %zu of 600 draws suit it", m.str().c_str(), n, dm.str().c_str(), c); ev("sample.unsuccessful"); }
	e = ccs_parameter_sample(m.p, d, g, &sv);
	if (e == CCS_RESULT_SUCCESS) { CHECK(m.accepts(sv), "sample-invalid", "%s: single sample %s not accepted", m.str().c_str(), dtos(sv).c_str()); ev("sampled.single"); }
	else { CHECK(e == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "sample-error", "%s: single sampling failed with %s", m.str().c_str(), rname(e)); ccs_clear_thread_error(); }
	// distribution of the other number type, or of several dimensions, is not compatible
	if (r.chance(1, 6)) {
		DModel w = gen_dist1(r, want == CCS_NUMERIC_TYPE_INT ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT, 0, 4); bag.own(w.d);
		if (w.types[0] != want) { REFUSED_ANY(ccs_parameter_sample(m.p, w.d, g, &sv)); REFUSED_ANY(ccs_parameter_samples(m.p, w.d, g, n, v.data())); ev("incompatible.refused"); }
		ccs_distribution_t two[2] = {d, d}, mv = NULL; OK(ccs_create_multivariate_distribution(2, two, &mv)); bag.own(mv);
		REFUSED(CCS_RESULT_ERROR_INVALID_DISTRIBUTION, ccs_parameter_sample(m.p, mv, g, &sv));
	}
}
static void check_convert(Rng &r, const PModel &m) {
	if (m.type == CCS_PARAMETER_TYPE_STRING) return;
	size_t n = r.range(1, 12); std::vector<ccs_numeric_t> v(n);
	bool over = r.chance(1, 2);
	DV exp(n), out(n + 1, ccs_int(-777));
	for (size_t i = 0; i < n; i++) {
		if (m.type == CCS_PARAMETER_TYPE_NUMERICAL) {
			ccs_datum_t d = over ? m.any(r) : m.in(r);
			if (m.nt == CCS_NUMERIC_TYPE_INT) { if (d.type != CCS_DATA_TYPE_INT) d = ccs_int(r.next()); if (!over && !m.accepts(d)) d = m.in(r); v[i].i = d.value.i; }
			else { if (d.type != CCS_DATA_TYPE_FLOAT) d = ccs_float(r.pick<double>({INFINITY, -INFINITY, 0.0, NAN})); if (!over && !m.accepts(d)) d = m.in(r); v[i].f = d.value.f; }
			exp[i] = m.accepts(d) ? d : ccs_inactive;
		} else {
			v[i].i = over ? r.pick<int64_t>({-1, 0, (int64_t)m.values.size(), (int64_t)m.values.size() - 1, INT64_MIN, INT64_MAX, (int64_t)1 << 32, (int64_t)r.below(m.values.size())}) : (int64_t)r.below(m.values.size());
			exp[i] = v[i].i >= 0 && v[i].i < (int64_t)m.values.size() ? m.values[v[i].i] : ccs_inactive;
		}
	}
	OK(ccs_parameter_convert_samples(m.p, over ? CCS_TRUE : CCS_FALSE, n, v.data(), out.data()));
	for (size_t i = 0; i < n; i++) CHECK(veq(out[i], exp[i]), "convert", "%s: converting %s gave %s, expected %s", m.str().c_str(), numstr(m.type == CCS_PARAMETER_TYPE_NUMERICAL ? m.nt : CCS_NUMERIC_TYPE_INT, v[i]).c_str(), dtos(out[i]).c_str(), dtos(exp[i]).c_str());
	CHECK(out[n].value.i == -777, "overrun", "conversion wrote past the end");
	ev(over ? "convert.over" : "convert", n);
}
// a binding keeps, for a value given as transient, what the parameter validated: its own copy
static void check_binding(Rng &r, const PModel &m, Bag &bag) {
	bool cf = m.type != CCS_PARAMETER_TYPE_STRING && r.below(2);
	ccs_object_t sp; ccs_binding_t b = NULL;
	ccs_parameter_t pad = NULL; OK(ccs_create_string_parameter("pad", &pad)); bag.own(pad); ccs_parameter_t qad = NULL; OK(ccs_create_numerical_parameter("pad", CCS_NUMERIC_TYPE_INT, CCSI(0), CCSI(9), CCSI(0), CCSI(0), &qad)); bag.own(qad);
	bool first = r.below(2);
	size_t at = first ? 0 : 1; ccs_parameter_t both[2]; both[at] = m.p; both[!at] = cf ? qad : pad;
	auto padv = [&] { return cf ? ccs_int(r.below(9)) : dstr("pad" + std::to_string(r.below(3))); };
	if (cf) { ccs_configuration_space_t c = NULL; OK(ccs_create_configuration_space("c", &c)); bag.own(c); sp = c; for (auto p : both) if (ccs_configuration_space_add_parameter(c, p, NULL)) { ccs_clear_thread_error(); return; } } // no default distribution
	else { ccs_features_space_t c = NULL; OK(ccs_create_features_space("f", &c)); bag.own(c); sp = c; for (auto p : both) OK(ccs_features_space_add_parameter(c, p)); }
	DV cur(2); cur[at] = m.in(r); cur[!at] = padv();
	auto readback = [&](const char *how) {
		for (size_t i = 0; i < 2; i++) {
			ccs_datum_t g = ccs_int(-77); OK(ccs_binding_get_value(b, i, &g));
			CHECK(veq(g, cur[i]) && !(g.flags & CCS_DATUM_FLAG_TRANSIENT), "binding-own-copy", "%s: %s of transient %s reads back as %s once the caller's copy is gone", m.str().c_str(), how, dtos(cur[i]).c_str(), dtos(g).c_str());
			if (g.type == CCS_DATA_TYPE_STRING) { ccs_datum_t o = ccs_none; ccs_bool_t ok = 9; OK(ccs_parameter_validate_value(both[i], g, &o, &ok)); CHECK(ok == CCS_TRUE && o.value.s == g.value.s, "binding-own-copy", "%s: %s does not keep the parameter's copy of %s", m.str().c_str(), how, dtos(g).c_str()); }
		}
		ev("binding.transient");
	};
	{
		std::vector<std::unique_ptr<char[]>> st; DV g; for (auto &d : cur) g.push_back(transient_copy(d, st));
		if (cf) { ccs_configuration_t c = NULL; OK(ccs_create_configuration((ccs_configuration_space_t)sp, 2, g.data(), &c)); b = (ccs_binding_t)bag.own(c); }
		else { ccs_features_t c = NULL; OK(ccs_create_features((ccs_features_space_t)sp, 2, g.data(), &c)); b = (ccs_binding_t)bag.own(c); }
	}
	readback("creation with values");
	for (int k = 0; k < 4; k++) {
		const char *how; size_t i = r.below(2); ccs_datum_t d = i == at ? m.in(r) : padv();
		{
			std::vector<std::unique_ptr<char[]>> st; ccs_datum_t g = transient_copy(d, st); const char *nm; OK(ccs_parameter_get_name(both[i], &nm));
			switch (r.below(4)) {
			case 0: how = "ccs_binding_set_value"; OK(ccs_binding_set_value(b, i, g)); break;
			case 1: how = "ccs_binding_set_value_by_name"; OK(ccs_binding_set_value_by_name(b, nm, g)); break;
			case 2: how = "ccs_binding_set_value_by_parameter"; OK(ccs_binding_set_value_by_parameter(b, both[i], g)); break;
			default: { how = "ccs_binding_set_values"; DV all(2); all[i] = g; all[!i] = transient_copy(cur[!i], st); OK(ccs_binding_set_values(b, 2, all.data())); }
			}
			cur[i] = d;
		}
		readback(how);
	}
}
// creation with definitions that may be inconsistent
static void check_creation(Rng &r) {
	PModel m; m.name = "p"; bool good = true;
	int k = r.below(4);
	if (k == 0) {
		m.type = CCS_PARAMETER_TYPE_NUMERICAL;
		auto pi = [&]() -> int64_t { return r.chance(1, 5) ? r.pick<int64_t>({INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_MAX - 1}) : r.range(-4, 4); };
		auto pf = [&]() -> double { return r.chance(1, 5) ? r.pick<double>({NAN, INFINITY, -INFINITY, 1e308, -1e308}) : r.range(-4, 4) / 2.0; };
		if (r.below(2)) {
			m.nt = CCS_NUMERIC_TYPE_INT; m.lower.i = pi(); m.upper.i = pi(); m.quant.i = r.chance(2, 3) ? 0 : pi(); m.def = ccs_int(r.chance(1, 3) ? m.lower.i : r.chance(1, 4) ? m.upper.i : pi());
			__int128 w = (__int128)m.upper.i - m.lower.i;
			good = w > 0 && m.quant.i >= 0 && (__int128)m.quant.i <= w && m.def.value.i >= m.lower.i && m.def.value.i < m.upper.i;
		} else {
			m.nt = CCS_NUMERIC_TYPE_FLOAT; m.lower.f = pf(); m.upper.f = pf(); m.quant.f = r.chance(2, 3) ? 0 : pf(); m.def = ccs_float(r.chance(1, 3) ? m.lower.f : r.chance(1, 4) ? m.upper.f : pf());
			good = m.lower.f < m.upper.f && m.quant.f >= 0 && !(m.quant.f > m.upper.f - m.lower.f) && m.def.value.f >= m.lower.f && m.def.value.f < m.upper.f;
		}
	} else {
		m.type = k == 1 ? CCS_PARAMETER_TYPE_CATEGORICAL : k == 2 ? CCS_PARAMETER_TYPE_ORDINAL : CCS_PARAMETER_TYPE_DISCRETE;
		size_t n = r.below(6); int mask = k == 3 ? (r.chance(1, 5) ? 31 : 6) : 31;
		for (size_t i = 0; i < n; i++) m.values.push_back(gen_scalar(r, mask));
		if (n && r.chance(1, 10)) m.values[r.below(n)] = ccs_inactive;
		if (n > 1 && r.chance(1, 4)) m.values[r.below(n)] = m.values[r.below(n)];
		m.def_index = r.chance(1, 6) ? r.pick<size_t>({n, n + 1, SIZE_MAX, (size_t)1 << 32}) : r.below(n ? n : 1);
		good = n > 0 && m.def_index < n;
		for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < i; j++) if (veq(m.values[i], m.values[j])) good = false; if (k == 3 && m.values[i].type != CCS_DATA_TYPE_INT && m.values[i].type != CCS_DATA_TYPE_FLOAT) good = false; }
		if (good) m.def = m.values[m.def_index];
		bool inact = false; for (auto &d : m.values) inact |= d.type == CCS_DATA_TYPE_INACTIVE;
		if (inact) return; // not specified
	}
	ccs_result_t e = make_param(m);
	if (good) { CHECK(e == CCS_RESULT_SUCCESS, "creation-refused", "%s: consistent definition refused with %s", m.str().c_str(), rname(e)); check_meta(r, m); check_accept(r, m); OK(ccs_release_object(m.p)); ev("create.ok"); }
	else {
		CHECK(e == CCS_RESULT_ERROR_INVALID_VALUE, "creation-accepted", "%s: inconsistent definition gave %s", m.str().c_str(), rname(e));
		CHECK(m.p == NULL, "creation-output", "refused creation set the output"); ccs_clear_thread_error(); ev("create.refused");
	}
}
void run_case(Rng &r, uint64_t idx) {
	if (idx % 3 == 0) { for (int i = 0; i < 12; i++) check_creation(r); }
	Bag bag; POpt o; o.string = true; o.extreme = true; o.finite = false; o.maxvals = r.pick({3, 6, 12, 12, 40});
	PModel m = gen_param(r, r.chance(1, 8) ? "" : "p" + std::to_string(r.below(99)), o);
	desc(m.str());
	check_meta(r, m); check_accept(r, m); check_convert(r, m); check_sampling(r, m, bag); if (m.name != "pad") check_binding(r, m, bag);
	check_accept(r, m); check_meta(r, m);
	sig(hash_str(m.str()));
	OK(ccs_release_object(m.p));
}
