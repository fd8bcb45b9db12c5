// Random instances of every kind of library object, with what is needed to
// reload them, and a reference implementation of the user-defined callbacks
// that records every delivery.
#pragma once
#include "gen.hpp"

struct UCall {
	std::string op;
	ccs_object_t self = NULL, feat = NULL;
	size_t n = 0, m = 0;
	const void *arr = nullptr, *arr2 = nullptr, *nret = nullptr;
	std::vector<ccs_object_t> elems, elems2;
	std::string bytes;
	ccs_result_t ret = CCS_RESULT_SUCCESS;
};
// data of one user-defined tuner or dynamic space; owned by the harness
struct UD {
	int kind = 0;              // 0 plain, 1 features, 2 tree, 3 dynamic space
	std::vector<ccs_object_t> hist, opt;   // retained
	std::string state;         // user state saved and restored
	std::vector<UCall> log;
	std::map<std::string, ccs_result_t> fail; // callback -> error to return
	std::set<std::string> silent;             // operations not logged
	bool short_ask = false;    // ask returns one configuration less than asked
	int dels = 0;
	bool after_del = false;    // a callback ran after deletion
	std::vector<std::string> problems;
	uint64_t seed = 1; int maxdepth = 3; int maxarity = 3;
	int children = 0;          // children generated
	std::function<ccs_result_t(UD *, ccs_tree_t, size_t, ccs_tree_t *)> gen_child;
	void drop() { for (auto o : hist) ccs_release_object(o); for (auto o : opt) ccs_release_object(o); hist.clear(); opt.clear(); }
};
UD *ud_new(int kind, uint64_t seed = 1);
void ud_reset();               // forget all (call when no library object refers to them)
enum { UV_SUGGEST = 1, UV_SER = 2, UV_DESER = 4 };
void *ud_vector(int kind, int opts); // callback vector with the chosen optional entries
// default child generator of dynamic spaces: depends on the path only
ccs_result_t ud_default_child(UD *u, ccs_tree_t parent, size_t idx, ccs_tree_t *out);

enum ZKind { Z_RNG, Z_DIST, Z_PARAM, Z_EXPR, Z_CS, Z_OS, Z_FS, Z_CONF, Z_FEAT, Z_EVAL, Z_FEVAL, Z_TUNER, Z_UTUNER, Z_FTUNER, Z_UFTUNER,
	Z_TREE, Z_STS, Z_DTS, Z_TCONF, Z_TEVAL, Z_TTUNER, Z_UTTUNER, Z_MAP, Z_COUNT };
extern const char *zname[];
struct ZObj {
	ccs_object_t o = NULL;
	int kind = 0;
	std::vector<ccs_object_t> deps;  // objects the reload needs in its handle map
	void *vec = nullptr; int vopts = 0; UD *ud = nullptr; // user-defined
	std::string info;
};
struct ZOpt { bool small = false; bool lean = false; };
ZObj zoo(Rng &r, int kind, Bag &bag, const ZOpt &o = ZOpt());
// handle map holding the dependencies of an object
ccs_map_t zoo_map(const ZObj &z);
// reload from bytes (always with a handle map); user-defined objects get fresh data, returned in *ud
ccs_result_t zoo_reload(const ZObj &z, const char *b, size_t n, ccs_map_t map, ccs_object_t *out, UD **ud = nullptr);
ccs_object_t zoo_reload_ok(const ZObj &z, const std::vector<char> &b, Bag &bag, UD **ud = nullptr);

// evaluation builders
ccs_evaluation_t mk_eval(const OSModel &os, ccs_configuration_t c, int res, const DV &v, Bag &bag);
ccs_features_evaluation_t mk_feval(const OSModel &os, ccs_configuration_t c, ccs_features_t f, int res, const DV &v, Bag &bag);
ccs_tree_evaluation_t mk_teval(const OSModel &os, ccs_tree_configuration_t c, int res, const DV &v, Bag &bag);
ccs_rng_t mk_rng(Rng &r, Bag &bag);
