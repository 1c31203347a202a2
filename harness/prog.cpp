// C17: programs of assignments; the bundle after every expression against a model.
#include "progmodel.h"

static void random_case(Ctx &c) {
	Rng &r = c.rng;
	Bundle b = gx_bundle(r, 0, 6);
	b.tt = r.flip() ? 0 : r.u64();
	if (r.chance(1, 3)) { Msg m; m.addr = "/ref"; m.a = {A_s(r.chance(1, 8) ? Str("/gone") : Str(GX_ADDR[r.below(GX_NADDR)]))}; if (r.chance(1, 16)) m.a = {A_s("bad address")}; b.m.insert(b.m.begin() + r.below(b.m.size() + 1), m); }
	// messages no program names: they must survive untouched, whatever they hold
	int extra = r.range(0, 3);
	for (int i = 0; i < extra; i++) { GenOpt o; o.max_depth = 1; o.max_args = 4; Msg m = gen_msg(r, o, 0); m.addr = sf("/other/%d", i); b.m.insert(b.m.begin() + r.below(b.m.size() + 1), m); }
	if (r.chance(1, 8) && !b.m.empty()) { Msg m = b.m[r.below(b.m.size())]; if (m.addr[1] != 'o') { m.a = {A_i(77)}; b.m.push_back(m); c.cover("duplicate address"); } }
	PI in; in.b = b;
	int n = r.range(1, 6);
	std::vector<P> prog;
	Str text;
	Bundle known = b;
	// statements are generated against the bundle as the model predicts it at that point
	std::vector<Step> want;
	bool stopped = false;
	for (int i = 0; i < n; i++) {
		PGen g(r, in.b, c);
		P s = g.stmt();
		fix(s);
		prog.push_back(s);
		if (i) text += r.flip() ? "," : r.flip() ? " ,\n" : ", ";
		text += stmt(r, s, r.chance(1, 4));
		if (stopped) continue;
		Step w; w.kind = 0;
		try { w.v = in.ev(s); } catch (EvErr &e) { w.kind = 1; w.why = e.why; } catch (Unspec &e) { w.kind = 2; w.why = e.why; }
		w.b = in.b;
		c.cover(w.kind == 0 ? "statement judged" : w.kind == 1 ? "statement fails" : "not judged: " + w.why);
		want.push_back(w);
		if (w.kind) stopped = true;
	}
	run_prog(c, b, text, want, in.assigns > 0);
	for (auto &s : prog) { static const char *nm[] = {"lit", "addr", "list", "bin", "un", "tern", "call", "assign", "compound", "nth", "range", "index", "index range", "preinc", "postinc", "coal", "coaleq"}; if (s->k <= COALEQ) c.cover(Str("statement:") + nm[s->k]); }
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "prog";
		s.random = random_case;
		osc_error_setHandler(count_report);
	}
	return s;
}
