// Generators of library objects together with independent reference models of
// what they mean.  The models are written from the public documentation.
#pragma once
#include "h.hpp"

// ---------------------------------------------------------------- parameters
struct PModel {
	ccs_parameter_t p = NULL;
	ccs_parameter_type_t type;
	std::string name;
	ccs_numeric_type_t nt = CCS_NUMERIC_TYPE_INT;
	ccs_numeric_t lower{}, upper{}, quant{};
	DV values;                 // list-like parameters
	size_t def_index = 0;
	ccs_datum_t def;
	bool accepts(const ccs_datum_t &d) const;
	int index_of(const ccs_datum_t &d) const;
	bool listlike() const { return type == CCS_PARAMETER_TYPE_CATEGORICAL || type == CCS_PARAMETER_TYPE_ORDINAL || type == CCS_PARAMETER_TYPE_DISCRETE; }
	ccs_datum_t in(Rng &r) const;       // accepted value
	ccs_datum_t any(Rng &r) const;      // accepted or not
	std::string str() const;
};
bool veq(const ccs_datum_t &a, const ccs_datum_t &b); // same type and content (bitwise floats)
// a value next to the given one, or one of a pair only exact arithmetic tells apart
inline ccs_datum_t nudge(Rng &r, ccs_datum_t d) {
	if (d.type == CCS_DATA_TYPE_INT) {
		static const int64_t B[] = {0, 1ll << 31, 1ll << 32, 1ll << 53, (1ll << 53) + 2, 1ll << 62, INT64_MAX - 1, INT64_MIN + 1, -(1ll << 53), -(1ll << 31)};
		int64_t x = d.value.i; if (r.chance(1, 2)) x = B[r.below(10)]; if (x < INT64_MAX - 2 && x > INT64_MIN + 2) x += r.range(-1, 1); d.value.i = x; return d;
	}
	if (d.type == CCS_DATA_TYPE_FLOAT) {
		static const double B[] = {0.5, 1.0, 1e300, -1e300, 1e-300, 5e-324, -5e-324, 9007199254740992.0, 1.7976931348623157e308, 16777216.0};
		double x = d.value.f; if (r.chance(1, 2)) x = B[r.below(10)]; int k = r.below(3); if (k && std::isfinite(x)) { double y = std::nextafter(x, k == 1 ? INFINITY : -INFINITY); if (std::isfinite(y)) x = y; } if (x == 0) x = 0.0; d.value.f = x; return d;
	}
	return d;
}
extern int gen_long; // one string in that many is long
ccs_datum_t gen_scalar(Rng &r, int mask = 31);         // 1 none 2 int 4 float 8 bool 16 string
struct POpt { bool string = false; bool extreme = false; int maxvals = 6; int types = 15; bool finite = true; };
std::string name_stem(Rng &r, const char *s);
PModel gen_param(Rng &r, const std::string &name, const POpt &o = POpt());
ccs_result_t make_param(PModel &m);                    // creates m.p from the definition

// ---------------------------------------------------------------- distributions
struct DModel {
	ccs_distribution_t d = NULL;
	ccs_distribution_type_t type;
	size_t dim = 1;
	std::vector<ccs_numeric_type_t> types;
	std::vector<ccs_interval_t> bounds;
	ccs_numeric_t lower{}, upper{}, quant{};
	ccs_scale_type_t scale = CCS_SCALE_TYPE_LINEAR;
	double mu = 0, sigma = 1;
	std::vector<double> weights;            // as given
	std::vector<DModel> sub;
	std::string str() const;
	bool ongrid(size_t dim, ccs_numeric_t v) const; // value possible for this dimension (bounds and quantisation)
};
struct DOpt { bool extreme = false; };
DModel gen_dist1(Rng &r, ccs_numeric_type_t t, int64_t lo, int64_t hi, const DOpt &o = DOpt()); // roughly around [lo,hi)
DModel gen_dist(Rng &r, int depth, const DOpt &o = DOpt());                                     // any shape, any dimension
DModel gen_dist_for(Rng &r, const PModel &p);   // one-dimensional, compatible with the parameter
void release(DModel &d);                        // drops the references the model holds (all levels)
bool num_in(const ccs_interval_t &b, ccs_numeric_t v);

// ---------------------------------------------------------------- expressions
struct Expr;
typedef std::shared_ptr<Expr> EP;
struct Expr {
	ccs_expression_type_t type;
	std::vector<EP> n;
	ccs_datum_t lit = ccs_none;
	int var = -1;              // index in the parameter table
	std::string str() const;
};
struct EVal { ccs_result_t err = CCS_RESULT_SUCCESS; ccs_datum_t v = ccs_none; bool ok() const { return err == CCS_RESULT_SUCCESS; } };
extern thread_local bool eval_nan; // set when a reference evaluation met a NaN (comparisons are then unspecified)
EVal eval_ref(const Expr &e, const std::vector<PModel> &ps, const DV &vals);
void vars_of(const Expr &e, std::set<int> &s);
ccs_expression_t build_expr(Rng *r, const Expr &e, const std::vector<PModel> &ps); // random choice between literal and wrapped nodes
EP e_lit(ccs_datum_t d);
EP e_var(int i);
EP e_op(ccs_expression_type_t t, std::vector<EP> n);
EP gen_bool(Rng &r, const std::vector<PModel> &ps, const std::vector<int> &vars, int depth); // mostly well typed
EP gen_num(Rng &r, const std::vector<PModel> &ps, const std::vector<int> &vars, int depth);
EP gen_wild(Rng &r, const std::vector<PModel> &ps, const std::vector<int> &vars, int depth); // any typing
// reads an expression object back into a model (parameters by identity)
EP read_expr(ccs_expression_t e, const std::vector<PModel> &ps);
bool same_expr(const Expr &a, const Expr &b);

// ---------------------------------------------------------------- configuration spaces
struct CSModel {
	ccs_configuration_space_t cs = NULL;
	std::string name;
	std::vector<PModel> ps;
	std::vector<EP> cond;      // per parameter, may be null
	std::vector<EP> forb;
	std::vector<ccs_expression_t> cond_o, forb_o; // objects set (not owned)
	// verdict of the definition for a full value vector: 1 valid, 0 invalid, <0 the error of evaluating an expression
	int verdict(const DV &v) const;
	// applies conditions in dependency order: inactive parameters are overwritten; returns false on evaluation error
	bool resolve(DV &v) const;
	DV defaults() const;
	std::vector<int> topo() const;
	std::string str() const;
};
struct CSOpt { int minp = 1, maxp = 6; bool conds = true, forb = true, dists = true; POpt po; bool safe = false; /* no expression whose evaluation may fail */ };
// builds a random space through the public interface; refused conditions and clauses are skipped
CSModel gen_cs(Rng &r, const std::string &name, Bag &bag, const CSOpt &o = CSOpt());

// ---------------------------------------------------------------- objective and feature spaces
struct OSModel {
	ccs_objective_space_t os = NULL;
	std::vector<PModel> ps;
	std::vector<EP> obj;
	std::vector<ccs_objective_type_t> dir;
	bool valid(const DV &v) const { for (size_t i = 0; i < v.size(); i++) if (!ps[i].accepts(v[i])) return false; return v.size() == ps.size(); }
	DV rand_values(Rng &r) const { DV v; for (auto &p : ps) v.push_back(p.in(r)); return v; }
	EVal objective(size_t i, const DV &v) const { return eval_ref(*obj[i], ps, v); }
	// Pareto comparison: BETTER/EQUIVALENT/WORSE/NOT_COMPARABLE, or error code
	int compare(const DV &a, const DV &b) const;
};
OSModel gen_os(Rng &r, const std::string &name, Bag &bag, bool simple, int maxobj = 3);
struct FSModel {
	ccs_features_space_t fs = NULL;
	std::vector<PModel> ps;
	DV rand_values(Rng &r) const { DV v; for (auto &p : ps) v.push_back(p.in(r)); return v; }
};
FSModel gen_fs(Rng &r, const std::string &name, Bag &bag, int maxp = 3, bool may_be_empty = false);

// ---------------------------------------------------------------- trees
struct TModel {
	ccs_tree_t t = NULL;
	size_t arity = 0;
	ccs_datum_t value = ccs_none;
	double weight = 1, bias = 1;
	std::vector<std::shared_ptr<TModel>> ch; // arity entries, may be null
	TModel *parent = nullptr;
	size_t index = 0;
	size_t count() const { size_t n = 1; for (auto &c : ch) if (c) n += c->count(); return n; }
};
typedef std::shared_ptr<TModel> TP;
TP gen_tree(Rng &r, Bag &bag, int depth, int maxarity, bool weights);
DV tree_path_values(const TModel *t);           // root to node
std::vector<size_t> tree_path(const TModel *t); // root to node
void tree_nodes(const TP &t, std::vector<TP> &out);

// full public dump of an object, used to compare originals with reloaded ones
// and states before and after a call
std::string dump(ccs_object_t o, int depth = 0);
