// C15: operator expressions against a reference evaluator.
#include "exprgen.h"

static void ops_of(const P &n, Ctx &c, std::set<Str> &s) {
	if (n->k == BIN || n->k == UN) { c.cover("op:" + n->s); s.insert(n->s); }
	if (n->k == TERN) c.cover("op:?:");
	if (n->k == NTH) c.cover("op:[[]]");
	if (n->k == COAL) c.cover("op:??");
	for (auto &x : n->c) ops_of(x, c, s);
}
static void judge(Ctx &c, const P &n, const Bundle &b) {
	Rng &r = c.rng;
	Str bytes = enc_bundle(b);
	Str text = stmt(r, n, true);
	c.in(text + "  on  " + show(b));
	Interp in; in.b = b;
	Val want; int kind = 0; Str why;
	try { want = in.ev(n); } catch (EvErr &e) { kind = 1; why = e.why; } catch (Unspec &e) { kind = 2; why = e.why; }
	c.cover(kind == 0 ? "judged value" : kind == 1 ? "judged error" : "not judged: " + why);
	Exact t(Str(text.c_str(), text.size() + 1));
	t_osc_expr *f = nullptr;
	int pe = lib_parse(t.p, &f);
	if (pe) fail("parse", "the expression was rejected: " + text);
	Run a, a2, a3;
	run_list(f, bytes, a);
	run_list(f, bytes, a2);
	t_osc_expr *g = nullptr;
	if (kind != 1) { osc_expr_copy(&g, f); osc_expr_free(f); f = g; run_list(f, bytes, a3); }
	osc_expr_free(f);
	if (kind == 0) {
		c.nontrivial = true;
		std::set<Str> ops;
		ops_of(n, c, ops);
		Str op = ops.size() == 1 ? *ops.begin() : "mixed";
		if (a.eval) fail("value:" + op, "evaluation failed with error " + sf("%d", a.eval) + " instead of giving " + showv(want) + ": " + text);
		CHECK(a.has_out, "value:" + op, "no value: " + text);
		if (types(a.out) != types(want)) fail("type:" + op, "evaluated to " + showv(a.out) + ", expected " + showv(want) + ": " + text);
		if (!closev(a.out, want)) fail("value:" + op, "evaluated to " + showv(a.out) + ", expected " + showv(want) + ": " + text);
		if (a3.eval || !closev(a3.out, want)) fail("copy", "a copy of the expression evaluated to " + showv(a3.out) + ", expected " + showv(want) + ": " + text);
	} else if (kind == 1) {
		if (!a.eval) fail("noerror", "evaluated to " + showv(a.out) + " without an error (" + why + "): " + text);
	}
	if (a2.eval != a.eval || !closev(a2.out, a.out)) fail("again", "a second evaluation gave " + showv(a2.out) + " after " + showv(a.out) + ": " + text);
	if (a.bytes != bytes) fail("bundle", "evaluation without assignments changed the bundle: " + text);
}

static void random_case(Ctx &c) {
	Rng &r = c.rng;
	Bundle b = gx_bundle(r);
	Gen g(r, b, c);
	static const int ks[] = {0, 0, 0, 0, 1, 2, 2, 3};
	judge(c, g.gen(r.range(1, 4), ks[r.below(8)]), b);
}

// every operator over every pair of operand types, with edge values
static void pair(Ctx &c, const Str &op) {
	static const char *T = "cCuUiIhHfdTFsNt";
	Rng &r = c.rng;
	for (const char *x = T; *x; x++) for (const char *y = T; *y; y++) for (int k = 0; k < 6; k++) {
		Bundle b;
		Msg m; m.addr = "/x"; m.a = {*x == 's' ? A_s(gx_word(r)) : *x == 'N' ? A_tag('N') : *x == 't' ? gx_tt(r) : gx_num(r, Str(1, *x).c_str())};
		b.m.push_back(m);
		m.addr = "/y"; m.a = {*y == 's' ? A_s(gx_word(r)) : *y == 'N' ? A_tag('N') : *y == 't' ? gx_tt(r) : gx_num(r, Str(1, *y).c_str())};
		if (*x == *y && k == 5) m.a = b.m[0].a; // the same value twice
		else if (k == 4 && is_num(*x) && is_num(*y) && !is_bool(*y) && dval(b.m[0].a[0]) == floor(dval(b.m[0].a[0])) && fabs(dval(b.m[0].a[0])) < (is_unsigned(*y) ? 250 : 120) && dval(b.m[0].a[0]) >= (is_unsigned(*y) ? 0 : -120)) {
			int v = (int)dval(b.m[0].a[0]);
			m.a = {*y == 'd' ? A_d(v) : *y == 'f' ? A_f((float)v) : mk_int(*y, v)}; // the same number in another type
		}
		b.m.push_back(m);
		c.input.clear();
		judge(c, mk(BIN, op, {mk(ADDR, "/x"), mk(ADDR, "/y")}), b);
	}
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "expr";
		static const char *ops[] = {"+", "-", "*", "/", "%", "^", "==", "!=", "<", ">", "<=", ">=", "&", "|"};
		for (const char *o : ops) s.directed.push_back({Str("pairs ") + o, [o](Ctx &c) { pair(c, o); }});
		s.directed.push_back({"division overflow", [](Ctx &c) {
			for (char t : Str("ih")) { Bundle b; Msg m; m.addr = "/x"; m.a = {mk_int(t, (Big)1 << (bits(t) - 1))}; b.m = {m}; m.addr = "/y"; m.a = {mk_int(t, -1)}; b.m.push_back(m);
				judge(c, mk(BIN, "/", {mk(ADDR, "/x"), mk(ADDR, "/y")}), b); judge(c, mk(BIN, "%", {mk(ADDR, "/x"), mk(ADDR, "/y")}), b); }
		}});
		s.random = random_case;
		osc_error_setHandler(count_report);
	}
	return s;
}
