// C10: equal random state gives equal results, including after reload.
#include "draw.hpp"
const char *PROP = "C10";
uint64_t num_cases(bool t) { return t ? 150000 : 36000; }
bool ledger_check() { return true; }
static const gsl_rng_type **TYPES; static size_t NTYPES;
void prop_init() { TYPES = gsl_rng_types_setup(); while (TYPES[NTYPES]) NTYPES++; }

static std::string states(ccs_object_t o) { std::vector<ccs_rng_t> g; rngs_of(o, g); std::string s; for (auto x : g) s += state_of(x); return s; }
static const int KINDS[] = {Z_RNG, Z_DIST, Z_PARAM, Z_CS, Z_CS, Z_CS, Z_TUNER, Z_UTUNER, Z_FTUNER, Z_UFTUNER, Z_TREE, Z_STS, Z_STS, Z_DTS, Z_TTUNER, Z_UTTUNER};

// the generator interface against generators used directly
static void rng_case(Rng &r) {
	Bag bag; const gsl_rng_type *t = TYPES[r.below(NTYPES)]; ccs_rng_t a = NULL; bool dflt = r.chance(1, 5); if (dflt) OK(ccs_create_rng(&a)); else OK(ccs_create_rng_with_type(t, &a)); bag.own(a);
	const gsl_rng_type *q; OK(ccs_rng_get_type(a, &q)); if (!dflt) CHECK(q == t, "type", "generator of type %s reports %s", t->name, q->name);
	struct G { gsl_rng *g; G(const gsl_rng_type *t) : g(gsl_rng_alloc(t)) {} ~G() { gsl_rng_free(g); } } m(q);
	if (dflt && gsl_rng_default_seed) gsl_rng_set(m.g, gsl_rng_default_seed);
	unsigned long u, seed; double f; note("%s", q->name); desc(sfmt("generator %s", q->name));
	for (int i = 0; i < 40; i++) switch (r.below(8)) {
	case 0: seed = r.below(3) ? r.below(100000) : r.below(2147483647); // larger seeds make some GSL generators read out of their tables
		 OK(ccs_rng_set_seed(a, seed)); gsl_rng_set(m.g, seed); note("seed %lu", seed); break;
	case 1: case 2: OK(ccs_rng_get(a, &u)); CHECK(u == gsl_rng_get(m.g), "raw", "%s: raw value differs from the generator's", q->name); ev("drawn.raw"); break;
	case 3: case 4: OK(ccs_rng_uniform(a, &f)); CHECK(f == gsl_rng_uniform(m.g), "uniform", "%s: uniform value differs from the generator's", q->name); ev("drawn.raw"); break;
	case 5: OK(ccs_rng_min(a, &u)); CHECK(u == gsl_rng_min(m.g), "min", "%s", q->name); OK(ccs_rng_max(a, &u)); CHECK(u == gsl_rng_max(m.g), "max", "%s", q->name); dump(a); break;
	case 6: { // continue on a restored copy
		auto b = ser(a); Bag nb; ccs_rng_t c = (ccs_rng_t)nb.own(deser(b)); const gsl_rng_type *ct; OK(ccs_rng_get_type(c, &ct)); CHECK(ct == q, "restored-type", "restored generator has type %s instead of %s", ct->name, q->name);
		unsigned long cmin, cmax, amin, amax; OK(ccs_rng_min(c, &cmin)); OK(ccs_rng_max(c, &cmax)); OK(ccs_rng_min(a, &amin)); OK(ccs_rng_max(a, &amax)); CHECK(cmin == amin && cmax == amax, "restored-range", "%s", q->name);
		CHECK(state_of(a) == std::string((char *)gsl_rng_state(m.g), gsl_rng_size(m.g)), "advanced", "%s: saving advanced the generator", q->name);
		if (r.below(2)) { ccs_release_object(a); for (auto &x : bag.v) if (x == (ccs_object_t)a) x = (ccs_object_t)c; nb.v.clear(); a = c; } // go on with the copy alone
		else for (int k = 0; k < 5; k++) { gsl_rng *mc = NULL; (void)mc; unsigned long x; OK(ccs_rng_get(c, &x)); if (k == 0) { G h(q); gsl_rng_memcpy(h.g, m.g); CHECK(x == gsl_rng_get(h.g), "restored", "%s: a restored generator does not continue where the original was", q->name); } }
		ev("restored.rng"); break; }
	case 7: { G h(q); gsl_rng_memcpy(h.g, m.g); for (int k = 0; k < 3; k++) gsl_rng_get(h.g); break; }
	}
	CHECK(state_of(a) == std::string((char *)gsl_rng_state(m.g), gsl_rng_size(m.g)), "state", "%s: generator state differs", q->name);
}
void run_case(Rng &r, uint64_t idx) {
	ud_reset(); if (idx % 12 == 11) { sig(r.s); rng_case(r); return; }
	int kind = KINDS[idx % (sizeof KINDS / sizeof *KINDS)]; Bag A, B; ZOpt zo; zo.small = r.below(2);
	Rng ra = r, rb = r; ZObj a = zoo(ra, kind, A, zo);
	// the second is built from the same description among other objects
	Rng rj(r.next()); Bag junk; for (int i = rj.below(4); i > 0; i--) zoo(rj, rj.below(Z_COUNT), junk, zo); if (rj.below(2)) junk.clear();
	ZObj b = zoo(rb, kind, B, zo);
	auto name = zname[kind]; desc(sfmt("%s; %s", name, a.info.substr(0, 160).c_str())); std::string da = dump(a.o); da = dump(a.o); std::string db = dump(b.o); db = dump(b.o);
	CHECK(da == db, std::string("twin:") + name, "two %s built alike read differently", name); sig(mix64(kind, hash_str(da)));
	r = Rng(r.next() ^ idx);
	// equally seeded generators
	const gsl_rng_type *t = TYPES[r.below(NTYPES)]; ccs_rng_t ga, gb; unsigned long seed = r.below(1000000); OK(ccs_create_rng_with_type(t, &ga)); A.own(ga); OK(ccs_create_rng_with_type(t, &gb)); B.own(gb); OK(ccs_rng_set_seed(ga, seed)); OK(ccs_rng_set_seed(gb, seed));
	auto setg = [&](ccs_object_t o, ccs_rng_t g) -> bool { if (kind == Z_CS) OK(ccs_configuration_space_set_rng((ccs_configuration_space_t)o, g)); else if (kind == Z_STS || kind == Z_DTS) OK(ccs_tree_space_set_rng((ccs_tree_space_t)o, g)); else return false; return true; };
	if (r.below(2)) {
		ccs_rng_t ha, hb; OK(ccs_create_rng_with_type(t, &ha)); A.own(ha); OK(ccs_create_rng_with_type(t, &hb)); B.own(hb); OK(ccs_rng_set_seed(ha, seed)); OK(ccs_rng_set_seed(hb, seed));
		std::vector<ccs_rng_t> oa; rngs_of(a.o, oa); Bag keep; for (auto x : oa) { OK(ccs_retain_object(x)); keep.own(x); } std::string olds; for (auto x : oa) olds += state_of(x);
		if (setg(a.o, ha)) { setg(b.o, hb); draw(a.o, ga, 1, 3); draw(b.o, gb, 1, 3); std::string now; for (auto x : oa) now += state_of(x); CHECK(now == olds, "replaced", "drawing from a %s advanced the generator it no longer uses", name); CHECK(states(a.o) == states(b.o) && states(a.o) == state_of(ha), "set-rng", "%s does not use the generator it was given", name); ev("generator.replaced"); }
	} else { std::vector<ccs_rng_t> va, vb; rngs_of(a.o, va); rngs_of(b.o, vb); for (auto x : va) OK(ccs_rng_set_seed(x, seed)); for (auto x : vb) OK(ccs_rng_set_seed(x, seed)); }
	Bag cb; ZObj by = zoo(r, KINDS[r.below(sizeof KINDS / sizeof *KINDS)], cb, zo); ccs_rng_t gby = mk_rng(r, cb);
	if (kind == Z_UTUNER || kind == Z_UFTUNER || kind == Z_UTTUNER) for (auto u : {a.ud, b.ud}) for (const char *s : {"get_history", "get_optima", "serialize", "serialize_size", "ask", "tell", "suggest", "deserialize"}) u->silent.insert(s);
	bool dyn = a.ud && a.ud->kind == 3; int steps = r.range(4, 10); bool reload = false;
	for (int i = 0; i < steps; i++) {
		int op = r.below(6); size_t n = r.chance(1, 8) ? r.range(20, 60) : r.range(1, 5); note("draw op=%d n=%zu", op, n);
		// readings, on one twin only
		if (r.chance(2, 3)) {
			std::string s0 = states(a.o), g0 = state_of(ga); int how = r.below(3);
			if (dyn) { dump(a.o); dump(b.o); } // reading generates children, which later draws can reach
			else if (how == 0) dump(a.o); else if (how == 1) { ser(a.o); ser_size(a.o); } else { bool tells = kind == Z_TUNER || kind == Z_UTUNER || kind == Z_FTUNER || kind == Z_UFTUNER || kind == Z_TTUNER || kind == Z_UTTUNER; if (!tells) { Exo x; x.random = false; exercise(r, a.o, x); } }
			CHECK(states(a.o) == s0 && state_of(ga) == g0, std::string("reading-advances:") + name, "reading a %s (%s) advanced a generator", name, how == 0 ? "querying" : how == 1 ? "saving" : "checking"); ev("reading");
		}
		if (r.chance(1, 3)) { // another object draws in between
			std::string s0 = states(a.o), g0 = state_of(ga), t0 = states(b.o); draw(by.o, gby, r.below(6), r.range(1, 6)); CHECK(states(a.o) == s0 && state_of(ga) == g0 && states(b.o) == t0, "interference", "drawing from a %s advanced the generator of an unrelated %s", zname[by.kind], name); ev("bystander.draw");
		}
		std::string y0 = states(by.o), yg = state_of(gby);
		std::string x = draw(a.o, ga, op, n), y = draw(b.o, gb, op, n);
		CHECK(x == y, std::string(reload ? "after-reload:" : "differs:") + name, "%s with equal generators, draw %d: '%s' and '%s'", reload ? "original and reloaded object" : "two objects built alike", i, x.substr(0, 300).c_str(), y.substr(0, 300).c_str());
		CHECK(states(a.o) == states(b.o) && state_of(ga) == state_of(gb), std::string(reload ? "after-reload-state:" : "state-differs:") + name, "generators of two equal %s differ after the same draws", name);
		CHECK(states(by.o) == y0 && state_of(gby) == yg, "interference", "drawing from a %s advanced the generator of an unrelated %s", name, zname[by.kind]);
		ev("compared");
		// from here on the second is a restored copy
		if (r.chance(1, 4) && !(a.vec && !(a.vopts & UV_DESER) && a.kind != Z_DTS)) {
			auto bytes = ser(a.o); Bag nb; UD *ud = NULL; ccs_object_t o = zoo_reload_ok(a, bytes, nb, &ud); if (ud) for (const char *s : {"get_history", "get_optima", "serialize", "serialize_size", "ask", "tell", "suggest", "deserialize"}) ud->silent.insert(s);
			auto gbytes = ser(ga); gb = (ccs_rng_t)nb.own(deser(gbytes)); b.o = o; for (auto q : nb.v) { OK(ccs_retain_object(q)); B.own(q); } reload = true; ev("reloaded");
		}
		if (r.chance(1, 8)) { unsigned long s = r.below(1000); std::vector<ccs_rng_t> va, vb; rngs_of(a.o, va); rngs_of(b.o, vb); for (auto q : va) OK(ccs_rng_set_seed(q, s)); for (auto q : vb) OK(ccs_rng_set_seed(q, s)); ev("reseeded"); }
	}
}
