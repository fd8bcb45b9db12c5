// C07: expressions evaluate to their defined meaning.
#include "gen.hpp"
const char *PROP = "C07";
uint64_t num_cases(bool th) { return th ? 600000 : 120000; }
bool ledger_check() { return true; }
void prop_init() {}

static const char *opn[] = {"or", "and", "equal", "not_equal", "less", "greater", "less_or_equal", "greater_or_equal", "add", "substract", "multiply", "divide", "modulo", "positive", "negative", "not", "in", "list", "literal", "variable"};
// operator applications whose operands were all defined, by operand types
static void count_ops(const Expr &e, const std::vector<PModel> &ps, const DV &v) {
	for (auto &x : e.n) count_ops(*x, ps, v);
	if (e.type >= CCS_EXPRESSION_TYPE_LITERAL) return;
	EVal r = eval_ref(e, ps, v);
	ev((std::string(opn[e.type]) + (r.ok() ? (r.v.type == CCS_DATA_TYPE_INACTIVE ? ".inactive" : ".value") : ".error")).c_str());
}
static ccs_datum_t edge(Rng &r) {
	switch (r.below(7)) {
	case 0: return ccs_int(r.pick<int64_t>({INT64_MIN, INT64_MAX, INT64_MIN + 1, -1, 0, 1, (int64_t)1 << 53, ((int64_t)1 << 53) + 1, 3037000500ll}));
	case 1: return ccs_float(r.pick<double>({1e308, -1e308, 5e-324, 0.1, 9007199254740993.0, 0.0, 1.0, -1.0, 9.2233720368547758e18}));
	default: return gen_scalar(r);
	}
}
static EP gen_edge(Rng &r, const std::vector<PModel> &ps, const std::vector<int> &vars, int depth) {
	// operators over literals and variables drawn so that operand types often match
	auto leaf = [&]() -> EP { if (!vars.empty() && r.chance(1, 2)) return e_var(r.pick(vars)); return e_lit(edge(r)); };
	auto num = [&]() -> EP { return e_lit(r.below(2) ? ccs_int(r.chance(1, 3) ? r.pick<int64_t>({INT64_MIN, INT64_MAX, -1, 0, 1}) : r.range(-9, 9)) : ccs_float(r.chance(1, 4) ? r.pick<double>({0.0, 1e308, 0.1, 2.5}) : r.range(-9, 9) / 2.0)); };
	auto boo = [&]() -> EP { return depth > 0 && r.chance(1, 2) ? gen_edge(r, ps, vars, depth - 1) : e_lit(r.below(2) ? ccs_true : ccs_false); };
	int k = r.below(17);
	if (k < 2) return e_op((ccs_expression_type_t)k, {r.chance(1, 6) ? leaf() : boo(), r.chance(1, 6) ? leaf() : boo()});
	if (k < 8) { // comparisons
		if (r.chance(1, 3)) return e_op((ccs_expression_type_t)k, {r.chance(1, 2) ? num() : leaf(), num()});
		if (!vars.empty() && r.chance(1, 2)) { int v = r.pick(vars); EP a = e_var(v), b = r.chance(1, 4) ? e_var(r.pick(vars)) : e_lit(r.chance(1, 5) ? ps[v].any(r) : ps[v].in(r)); if (b->type == CCS_EXPRESSION_TYPE_LITERAL && b->lit.type == CCS_DATA_TYPE_INACTIVE) b = e_lit(ccs_none); if (r.below(2)) std::swap(a, b); return e_op((ccs_expression_type_t)k, {a, b}); }
		if (r.chance(1, 3)) return e_op((ccs_expression_type_t)k, {e_lit(gen_scalar(r, 16)), e_lit(gen_scalar(r, 16))});
		return e_op((ccs_expression_type_t)k, {leaf(), leaf()});
	}
	if (k < 13) return e_op((ccs_expression_type_t)k, {r.chance(1, 3) ? leaf() : num(), r.chance(1, 3) ? leaf() : num()});
	if (k < 15) return e_op((ccs_expression_type_t)k, {r.chance(1, 4) ? leaf() : num()});
	if (k == 15) return e_op(CCS_EXPRESSION_TYPE_NOT, {r.chance(1, 6) ? leaf() : boo()});
	std::vector<EP> l; int n = r.range(0, 5);
	EP a = leaf();
	for (int i = 0; i < n; i++) {
		if (a->type == CCS_EXPRESSION_TYPE_VARIABLE && r.chance(3, 4)) l.push_back(e_lit(ps[a->var].in(r)));
		else if (a->type == CCS_EXPRESSION_TYPE_LITERAL && r.chance(1, 3)) l.push_back(e_lit(a->lit));
		else l.push_back(leaf());
	}
	return e_op(CCS_EXPRESSION_TYPE_IN, {a, e_op(CCS_EXPRESSION_TYPE_LIST, l)});
}
void run_case(Rng &r, uint64_t idx) {
	Bag bag;
	std::vector<PModel> ps; int np = r.range(1, 6);
	bool fs = r.chance(1, 2);
	POpt po; po.string = fs; po.extreme = r.chance(1, 4);
	for (int i = 0; i < np; i++) { ps.push_back(gen_param(r, "p" + std::to_string(i), po)); bag.own(ps.back().p); }
	PModel foreign = gen_param(r, "zz", POpt()); bag.own(foreign.p);
	ccs_context_t ctx = NULL;
	std::vector<ccs_parameter_t> pp; for (auto &p : ps) pp.push_back(p.p);
	if (fs) { ccs_features_space_t s = NULL; OK(ccs_create_features_space("f", &s)); ctx = (ccs_context_t)bag.own(s); OK(ccs_features_space_add_parameters(s, pp.size(), pp.data())); }
	else { ccs_configuration_space_t s = NULL; OK(ccs_create_configuration_space("c", &s)); ctx = (ccs_context_t)bag.own(s); OK(ccs_configuration_space_add_parameters(s, pp.size(), pp.data(), NULL)); }
	std::vector<int> vars; for (int i = 0; i < np; i++) vars.push_back(i);
	int ne = 6;
	for (int q = 0; q < ne; q++) {
		EP e; int kind = r.below(5); int depth = r.chance(1, 20) ? 7 : r.range(0, 4);
		e = kind == 0 ? gen_bool(r, ps, vars, depth) : kind == 1 ? gen_num(r, ps, vars, depth) : kind == 2 ? gen_wild(r, ps, vars, depth) : gen_edge(r, ps, vars, depth);
		ccs_expression_t x = bag.own(build_expr(&r, *e, ps));
		// the expression reads back as built
		EP back = read_expr(x, ps);
		CHECK(same_expr(*e, *back), "structure", "built %s, read back %s", e->str().c_str(), back->str().c_str());
		// reported variables
		std::set<int> vs; vars_of(*e, vs);
		size_t n = 77; OK(ccs_expression_get_parameters(x, 0, NULL, &n));
		CHECK(n == vs.size(), "variables", "%s: %zu variables reported, expected %zu", e->str().c_str(), n, vs.size());
		std::vector<ccs_parameter_t> got(n + 2, (ccs_parameter_t)1); OK(ccs_expression_get_parameters(x, n + 2, got.data(), NULL));
		std::set<ccs_parameter_t> gs(got.begin(), got.begin() + n), es; for (int v : vs) es.insert(ps[v].p);
		CHECK(gs == es && !got[n] && !got[n + 1], "variables", "%s: wrong variables reported", e->str().c_str());
		OK(ccs_expression_check_context(x, ctx));
		ev("variables.checked");
		std::string es_str = e->str();
		sig(hash_str(es_str));
		if (q == 0) desc(es_str);
		std::string dctx; bool deep = r.chance(1, 8); if (deep) dctx = dump(x) + dump((ccs_object_t)ctx);
		int32_t rx = refcount(x), rc = refcount((ccs_object_t)ctx);
		for (int k = 0; k < 6; k++) {
			DV v; for (auto &p : ps) v.push_back(r.chance(1, 6) ? ccs_inactive : p.in(r));
			DV keep = v;
			eval_nan = false;
			EVal ref = eval_ref(*e, ps, v);
			if (eval_nan) { ev("skipped.nan"); continue; }
			count_ops(*e, ps, v);
			ccs_datum_t res = ccs_int(-7777);
			note("eval %s", es_str.c_str());
			ccs_result_t err = ccs_expression_eval(x, ctx, v.data(), &res);
			std::string vals; for (auto &d : v) vals += dtos(d) + " ";
			if (ref.ok()) {
				CHECK(err == CCS_RESULT_SUCCESS, std::string("refused:") + opn[e->type], "%s on [%s] returned %s, expected %s", es_str.c_str(), vals.c_str(), rname(err), dtos(ref.v).c_str());
				CHECK(deq(res, ref.v), std::string("value:") + opn[e->type], "%s on [%s] is %s, expected %s", es_str.c_str(), vals.c_str(), dtos(res).c_str(), dtos(ref.v).c_str());
				ev("evaluated");
			} else {
				CHECK(err == ref.err, std::string("error:") + opn[e->type], "%s on [%s] returned %s %s, expected %s", es_str.c_str(), vals.c_str(), rname(err), dtos(res).c_str(), rname(ref.err));
				ccs_clear_thread_error(); ev("refused");
			}
			for (size_t i = 0; i < v.size(); i++) CHECK(deq(v[i], keep[i]), "values-changed", "evaluation changed the values");
			// values of other variables do not matter, repetition neither
			for (size_t i = 0; i < v.size(); i++) if (!vs.count(i)) v[i] = r.chance(1, 3) ? ccs_inactive : ps[i].in(r);
			ccs_datum_t res2 = ccs_int(-8888); ccs_result_t err2 = ccs_expression_eval(x, ctx, v.data(), &res2);
			CHECK(err == err2 && (err || deq(res, res2)), "dependence", "%s: second evaluation differs", es_str.c_str());
			ccs_clear_thread_error();
		}
		if (vs.empty()) { // no context needed
			eval_nan = false; EVal ref = eval_ref(*e, ps, {}); ccs_datum_t res = ccs_int(-7777);
			ccs_result_t err = ccs_expression_eval(x, NULL, NULL, &res);
			if (!eval_nan) CHECK(err == ref.err && (err || deq(res, ref.v)), "no-context", "%s without context: %s %s", es_str.c_str(), rname(err), dtos(res).c_str());
			OK(ccs_expression_check_context(x, NULL)); ccs_clear_thread_error(); ev("no-context");
		}
		CHECK(refcount(x) == rx && refcount((ccs_object_t)ctx) == rc, "side-effect", "%s: evaluation changed reference counts", es_str.c_str());
		if (deep) { CHECK(dctx == dump(x) + dump((ccs_object_t)ctx), "side-effect", "%s: evaluation changed an object", es_str.c_str()); ev("side-effect.checked"); }
		if (e->type == CCS_EXPRESSION_TYPE_LIST) {
			DV v; for (auto &p : ps) v.push_back(p.in(r));
			for (size_t i = 0; i < e->n.size(); i++) {
				eval_nan = false; EVal ref = eval_ref(*e->n[i], ps, v); ccs_datum_t res; ccs_result_t err = ccs_expression_list_eval_node(x, ctx, v.data(), i, &res);
				if (!eval_nan) CHECK(err == ref.err && (err || deq(res, ref.v)), "list-node", "element %zu of %s: %s", i, es_str.c_str(), rname(err));
				ccs_clear_thread_error(); ev("list.element");
			}
			ccs_datum_t res; REFUSED(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_expression_list_eval_node(x, ctx, v.data(), e->n.size(), &res));
		}
	}
	// a variable that is not part of the context
	ccs_expression_t fx = NULL; OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(foreign.p), ccs_object(foreign.p), &fx)); bag.own(fx);
	DV v; for (auto &p : ps) v.push_back(p.in(r)); ccs_datum_t res;
	REFUSED_ANY(ccs_expression_eval(fx, ctx, v.data(), &res)); REFUSED_ANY(ccs_expression_check_context(fx, ctx)); REFUSED_ANY(ccs_expression_eval(fx, NULL, NULL, &res));
	ev("foreign.refused");
}
