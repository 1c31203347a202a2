// C23: the compiled form of a program: its structure, its printed form, copies, and expressions built from parts.
#include "hofmodel.h"
extern "C" {
#include "osc_expr_rec.h"
}
enum { T_ATOM = 0x8, T_LIST = 0x2, T_EXPR = 0x10, T_ADDR = 0x20, T_FUNC = 0x80 };

static Str atom_text(t_osc_atom_u *a) {
	long n = osc_atom_u_nformat(nullptr, 0, a, 0);
	Str s((size_t)n + 1, 0);
	osc_atom_u_nformat(&s[0], n + 1, a, 0);
	s.resize((size_t)n);
	return s;
}
struct Stats { int nodes = 0, depth = 0, lambdas = 0; };
// what a node should print as, through the accessors
static Str walk(t_osc_expr *e, Stats &st, int d = 1) {
	st.nodes++;
	st.depth = std::max(st.depth, d);
	t_osc_expr_rec *r = osc_expr_getRec(e);
	CHECK(r, "node", "an expression without a function");
	Str s = Str("(") + osc_expr_rec_getName(r);
	long n = 0;
	for (t_osc_expr_arg *a = osc_expr_getArgs(e); a; a = osc_expr_arg_next(a)) {
		n++;
		switch (osc_expr_arg_getType(a)) {
		case T_ATOM: s += " " + atom_text(osc_expr_arg_getOSCAtom(a)); break;
		case T_ADDR: { char *p = osc_expr_arg_getOSCAddress(a); CHECK(p, "node", "an address argument without address"); s += Str(" ") + p; } break;
		case T_EXPR: s += " " + walk(osc_expr_arg_getExpr(a), st, d + 1); break;
		case T_FUNC: {
			t_osc_expr_rec *f = osc_expr_arg_getFunction(a);
			CHECK(f, "node", "a function argument without function");
			st.lambdas++;
			s += " (lambda (";
			for (int i = 0; i < osc_expr_rec_getNumRequiredArgs(f); i++) s += (i ? ", " : "") + Str(osc_expr_rec_getRequiredArgsNames(f)[i]);
			s += ") ";
			for (t_osc_expr *b = (t_osc_expr *)osc_expr_rec_getExtra(f); b; b = osc_expr_next(b)) s += walk(b, st, d + 1) + " ";
			s += ")";
		} break;
		default: fail("node", sf("an argument of type %d", osc_expr_arg_getType(a)));
		}
	}
	if (osc_expr_getArgCount(e) != n) fail("argcount", sf("%s has %ld arguments and says %ld", osc_expr_rec_getName(r), n, osc_expr_getArgCount(e)));
	// without arguments the name ends at the closing parenthesis
	return s + ")";
}
static Str walk_all(t_osc_expr *f, Stats &st) { Str s; for (; f; f = osc_expr_next(f)) s += walk(f, st) + " \n"; return s; }
static Str printed(t_osc_expr *f, Rng &r) {
	long n = -1;
	char *p = nullptr;
	if (r.chance(1, 4)) { p = (char *)osc_mem_alloc(512); memset(p, 'q', 512); }
	osc_expr_format(f, &n, &p);
	CHECK(p, "print", "nothing was printed");
	CHECK(n == (long)strlen(p), "print:length", sf("a text of %zu bytes was said to have %ld", strlen(p), n));
	Str s(p);
	osc_mem_free(p);
	return s;
}

// ---------------------------------------------------------------- structure of the text
struct Skip {};
static Str sx(const P &n);
static Str sxs(const P &n, const char *leaf) {
	if (n->k == LIT || n->k == ADDR || n->k == VAR || n->k == BARESTR) return Str("(") + leaf + " " + sx(n) + ")";
	return sx(n);
}
static Str sargs(const std::vector<P> &c, size_t from = 0) { Str s; for (size_t i = from; i < c.size(); i++) s += " " + sx(c[i]); return s; }
static Str sx(const P &n) {
	switch (n->k) {
	case LIT: { Rng r; r.seed(1, 2, 3); t_osc_atom_u *a = mk_atom(r, n->a); Str s = atom_text(a); osc_atom_u_free(a); return s; }
	case ADDR: return n->s;
	case VAR: case BARESTR: return "\"" + n->s + "\"";
	case LIST: return "(list" + sargs(n->c) + ")";
	case BIN: if (n->s == "^") return "(pow" + sargs(n->c) + ")"; return "(" + n->s + sargs(n->c) + ")";
	case UN: if (n->s == "-") return "(- 0" + sargs(n->c) + ")"; return "(" + n->s + sargs(n->c) + ")";
	case TERN: return "(if" + sargs(n->c) + ")";
	case CALL: return "(" + n->s + sargs(n->c) + ")";
	case ASSIGN: return "(assign " + n->s + sargs(n->c) + ")";
	case NTH: return "(nth" + sargs(n->c) + ")";
	case LAMBDA: { Str s = "(lambda ("; for (size_t i = 0; i < n->params.size(); i++) s += (i ? ", " : "") + n->params[i]; s += ") "; for (auto &x : n->c) s += sxs(x, "prog1") + " "; return s + ")"; }
	case LAMCALL: return "(apply" + sargs(n->c) + ")";
	default: throw Skip();
	}
}

// ---------------------------------------------------------------- rebuilding from parts
static char *dup(const char *s) { char *p = (char *)osc_mem_alloc(strlen(s) + 1); strcpy(p, s); return p; }
static t_osc_expr *rebuild_all(Rng &r, t_osc_expr *f);
static t_osc_expr_arg *rebuild_arg(Rng &r, t_osc_expr_arg *a) {
	t_osc_expr_arg *n = nullptr;
	if (r.chance(1, 5)) { osc_expr_arg_copy(&n, a); return n; }
	n = osc_expr_arg_alloc();
	switch (osc_expr_arg_getType(a)) {
	case T_ATOM: osc_expr_arg_setOSCAtom(n, osc_atom_u_copy(osc_expr_arg_getOSCAtom(a))); break;
	case T_ADDR: osc_expr_arg_setOSCAddress(n, dup(osc_expr_arg_getOSCAddress(a))); break;
	case T_EXPR: osc_expr_arg_setExpr(n, rebuild_all(r, osc_expr_arg_getExpr(a))); break;
	case T_FUNC: {
		t_osc_expr_rec *f = osc_expr_arg_getFunction(a);
		t_osc_expr_rec *g = osc_expr_rec_alloc();
		if (osc_expr_rec_getName(f)) osc_expr_rec_setName(g, osc_expr_rec_getName(f));
		if (osc_expr_rec_getSignature(f)) osc_expr_rec_setSignature(g, osc_expr_rec_getSignature(f));
		osc_expr_rec_setRequiredArgs(g, osc_expr_rec_getNumRequiredArgs(f), osc_expr_rec_getRequiredArgsNames(f), osc_expr_rec_getRequiredArgsTypes(f));
		if (osc_expr_rec_getNumOptionalArgs(f)) osc_expr_rec_setOptionalArgs(g, osc_expr_rec_getNumOptionalArgs(f), osc_expr_rec_getOptionalArgsNames(f), osc_expr_rec_getOptionalArgsTypes(f));
		osc_expr_rec_setFunction(g, osc_expr_rec_getFunction(f));
		osc_expr_rec_setExtra(g, rebuild_all(r, (t_osc_expr *)osc_expr_rec_getExtra(f)));
		osc_expr_arg_setFunction(n, g);
	} break;
	}
	return n;
}
static t_osc_expr *rebuild(Rng &r, t_osc_expr *e) {
	t_osc_expr *n = osc_expr_alloc();
	t_osc_expr_rec *rec = osc_expr_getRec(e);
	// the function by its name, as a caller would get it
	t_osc_expr_rec *byname = osc_expr_lookupFunction(osc_expr_rec_getName(rec));
	osc_expr_setRec(n, byname ? byname : rec);
	std::vector<t_osc_expr_arg *> as;
	for (t_osc_expr_arg *a = osc_expr_getArgs(e); a; a = osc_expr_arg_next(a)) as.push_back(rebuild_arg(r, a));
	if (as.empty()) return n;
	switch (r.below(4)) {
	case 0: for (auto a : as) osc_expr_appendArg(n, a); break;
	case 1: for (size_t i = as.size(); i-- > 0;) osc_expr_prependArg(n, as[i]); break;
	case 2: for (size_t i = 1; i < as.size(); i++) { if (r.flip()) osc_expr_arg_append(as[0], as[i]); else osc_expr_arg_setNext(as[i - 1], as[i]); } osc_expr_setArg(n, as[0]); break;
	default: { // two chains
		size_t k = r.below(as.size());
		for (size_t i = 1; i < as.size(); i++) if (i != k) osc_expr_arg_setNext(as[i - 1], as[i]);
		if (!k) { if (r.flip()) osc_expr_appendArg(n, as[0]); else osc_expr_prependArg(n, as[0]); }
		else if (r.flip()) { osc_expr_appendArg(n, as[0]); osc_expr_appendArg(n, as[k]); }
		else { osc_expr_prependArg(n, as[k]); osc_expr_prependArg(n, as[0]); }
	}
	}
	return n;
}
static t_osc_expr *rebuild_all(Rng &r, t_osc_expr *f) {
	t_osc_expr *first = nullptr, *last = nullptr;
	for (; f; f = osc_expr_next(f)) {
		t_osc_expr *n = rebuild(r, f);
		if (!first) first = n;
		else if (r.flip()) osc_expr_appendExpr(first, n);
		else osc_expr_setNext(last, n);
		last = n;
	}
	return first;
}
static void same_run(const Run &a, const Run &b, const char *what, const Str &text) {
	if (a.eval != b.eval || a.nexpr != b.nexpr || !closev(a.out, b.out) || a.bytes != b.bytes) fail(Str("meaning:") + what, Str(what) + " of the expression evaluated to " + showv(b.out) + sf(" (%d)", b.eval) + " instead of " + showv(a.out) + sf(" (%d): ", a.eval) + text);
}
// the case of a text: its structure (if known), printed form, copy and reconstruction
static void judge(Ctx &c, const Str &text, const Str &want, const Bundle &b, bool run) {
	Rng &r = c.rng;
	Exact t(Str(text.c_str(), text.size() + 1));
	t_osc_expr *f = nullptr;
	int pe = lib_parse(t.p, &f);
	if (pe) fail("parse", "the program was rejected: " + text);
	CHECK(f, "parse", "no expression: " + text);
	Stats st;
	Str got = walk_all(f, st);
	c.cover("nodes", st.nodes);
	if (st.lambdas) c.cover("with lambdas");
	if (st.depth > 4) c.cover("deeper than four");
	if (got.size() > 700) c.cover("longer than 700 bytes");
	c.nontrivial = true;
	if (!want.empty()) { c.cover("structure judged"); if (got != want) fail("structure", "compiled to " + got.substr(0, 600) + " instead of " + want.substr(0, 600) + ": " + text.substr(0, 600)); }
	Str p = printed(f, r);
	// an empty argument list is printed like any other
	if (p != got) fail("print", "printed as " + p.substr(0, 600) + " instead of " + got.substr(0, 600));
	t_osc_expr *g = nullptr, *h = rebuild_all(r, f);
	if (osc_expr_next(f) || r.flip()) osc_expr_copyAllLinked(&g, f); else osc_expr_copy(&g, f);
	Run a, k, m;
	Str bytes = enc_bundle(b);
	if (run) run_list(f, bytes, a);
	if (r.flip()) { osc_expr_free(f); f = nullptr; }
	Stats x;
	Str gs = walk_all(g, x), hs = walk_all(h, x);
	if (gs != got) fail("copy", "a copy has the structure " + gs.substr(0, 600) + " instead of " + got.substr(0, 600));
	if (hs != got) fail("built", "the same parts give " + hs.substr(0, 600) + " instead of " + got.substr(0, 600));
	if (printed(g, r) != got) fail("copy", "a copy prints differently: " + got.substr(0, 600));
	if (printed(h, r) != got) fail("built", "an expression built from parts prints differently: " + got.substr(0, 600));
	if (run) {
		c.cover("evaluated");
		run_list(g, bytes, k);
		run_list(h, bytes, m);
		same_run(a, k, "a copy", text);
		same_run(a, m, "a reconstruction", text);
	}
	osc_expr_free(g);
	osc_expr_free(h);
	if (f) osc_expr_free(f);
}

// call-only programs of any size
static P big(Rng &r, int d) {
	if (d <= 0 || r.chance(1, 8)) {
		switch (r.below(6)) {
		case 0: { Str s; int n = r.chance(1, 6) ? r.range(200, 3000) : r.range(0, 30); for (int i = 0; i < n; i++) s += (char)r.range('a', 'z'); return mkl(A_s(s), quote_lit(s)); }
		case 1: { Str s; int k = r.chance(1, 8) ? r.range(20, 200) : r.range(1, 4); for (int i = 0; i < k; i++) { s += "/"; int n = r.range(1, 9); for (int j = 0; j < n; j++) s += (char)r.range('a', 'z'); } return mk(ADDR, s); }
		case 2: return mk(ADDR, GX_ADDR[r.below(GX_NADDR)]);
		default: return gx_lit(r, 3);
		}
	}
	if (r.chance(1, 10)) { P l = mk(LIST, ""); int n = r.chance(1, 10) ? r.range(60, 300) : r.range(1, 6); for (int i = 0; i < n; i++) l->c.push_back(big(r, n > 10 ? 0 : d - 1)); return l; }
	static const struct { const char *n; int a; } F[] = {{"add", 2}, {"sum", 1}, {"list", 9}, {"progn", 9}, {"atan2", 2}, {"pi", 0}, {"if", 3}, {"getmsgcount", 0}, {"length", 1}, {"reverse", 1}, {"twelfth_root_of_2", 0}, {"nth", 2}, {"interleave", 2}, {"scale", 5}};
	auto &x = F[r.below(14)];
	if (r.chance(1, 6)) { static const char *o[] = {"+", "-", "*", "/", "%", "^", "<", "<=", "==", "!=", "&", "|", "&&", "||"}; return mk(BIN, o[r.below(14)], {big(r, d - 1), big(r, d - 1)}); }
	P n = mk(CALL, x.n);
	int k = x.a == 9 ? r.range(1, 5) : x.a;
	for (int i = 0; i < k; i++) n->c.push_back(big(r, d - 1));
	return n;
}
static void random_case(Ctx &c) {
	Rng &r = c.rng;
	if (r.chance(1, 3)) {
		Str text, want;
		int n = r.range(1, 4);
		for (int i = 0; i < n; i++) {
			P p = r.chance(1, 3) ? mk(ASSIGN, GX_ADDR[r.below(GX_NADDR)], {big(r, r.range(0, 4))}) : big(r, r.range(1, 4));
			if (p->k == LIT && p->a.t == 's') p = mk(LIST, "", {p});
			text += (i ? ", " : "") + stmt(r, p, r.flip());
			want += sxs(p, "progn") + " \n";
		}
		c.in(text);
		judge(c, text, want, Bundle(), false);
		return;
	}
	Bundle b = gx_bundle(r, 1, 6);
	HI in;
	in.b = b;
	Str text, want;
	bool known = true, run = true;
	int n = r.range(1, 4);
	for (int i = 0; i < n; i++) {
		HGen g(r, in.b, c, in);
		P s = r.chance(1, 4) ? g.gen(r.range(1, 3), (int)r.below(4)) : g.hstmt();
		fix(s);
		if (s->k == LAMBDA || s->k == VAR) { continue; }
		if (s->k == LIT && s->a.t == 's') s = mk(LIST, "", {s});
		try { in.ev(s); } catch (TooBig &) { run = false; } catch (EvErr &) { } catch (Unspec &) { if (folds(s)) run = false; }
		in.steps = 0;
		text += (text.empty() ? "" : ", ") + stmt(r, s, r.flip());
		try { want += sxs(s, "progn") + " \n"; } catch (Skip &) { known = false; }
	}
	if (text.empty()) { c.in("nothing to compile"); return; }
	c.in(text + "  on  " + show(b));
	judge(c, text, known ? want : "", b, run);
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "tree";
		s.random = random_case;
		s.directed.push_back({"long texts", [](Ctx &c) { for (int n : {100, 240, 255, 256, 257, 480, 500, 511, 512, 513, 700, 767, 768, 769, 1023, 5000, 2000000}) { P p = mk(CALL, "strlen", {mkl(A_s(Str((size_t)n, 'x')), quote_lit(Str((size_t)n, 'x')))}); judge(c, stmt(c.rng, p, false), sx(p) + " \n", Bundle(), true); } }});
		s.directed.push_back({"many expressions", [](Ctx &c) { Str t, w; for (int i = 0; i < 400; i++) { t += (i ? ", " : "") + sf("/a = %d", i); w += sf("(assign /a %d) \n", i); judge(c, t, w, Bundle(), i % 50 == 0); if (i > 20) i += 18; } }});
		s.directed.push_back({"many arguments", [](Ctx &c) { P p = mk(LIST, ""); for (int i = 0; i < 3000; i++) p->c.push_back(gx_lit_i(c.rng, i)); judge(c, stmt(c.rng, p, false), sx(p) + " \n", Bundle(), true); }});
		s.directed.push_back({"deep nesting", [](Ctx &c) { P p = gx_lit_i(c.rng, 1); for (int i = 0; i < 300; i++) p = i & 1 ? mk(BIN, "+", {p, gx_lit_i(c.rng, i)}) : mk(CALL, "add", {gx_lit_i(c.rng, i), p}); judge(c, stmt(c.rng, p, false), sx(p) + " \n", Bundle(), true); }});
		s.directed.push_back({"no parameters", [](Ctx &c) { judge(c, "apply(lambda([], 1), 2)", "(apply (lambda () (prog1 1) ) 2) \n", Bundle(), false); }});
		s.directed.push_back({"null expression", [](Ctx &c) { long n = -1; char *p = nullptr; osc_expr_format(nullptr, &n, &p); CHECK(p && n == 0 && !*p, "print", "no expression was printed as something"); osc_mem_free(p); c.in("no expression"); }});
		s.directed.push_back({"precedence", [](Ctx &c) {
			static const char *tx[][2] = {{"1 + 2 * 3", "(+ 1 (* 2 3))"}, {"1 - 2 - 3", "(- (- 1 2) 3)"}, {"2 ^ 3 ^ 2", "(pow (pow 2 3) 2)"}, {"1 || 0 && 1", "(|| 1 (&& 0 1))"}, {"1 < 2 == 1", "(== (< 1 2) 1)"}, {"/a = /b = 3", "(assign /a (assign /b 3))"}, {"1 ? 2 : 3 ? 4 : 5", "(if 1 2 (if 3 4 5))"}, {"!1 && 0", "(&& (! 1) 0)"}, {"-2 ^ 2", "(pow (- 0 2) 2)"}, {"1 + 2 < 4 % 3", "(< (+ 1 2) (% 4 3))"}, {"/a[[1]] * 2", "(* (nth /a 1) 2)"}, {"(1 + 2) * 3", "(* (+ 1 2) 3)"}};
			for (auto &x : tx) judge(c, x[0], Str(x[1]) + " \n", Bundle(), false); }});
		osc_error_setHandler(count_report);
	}
	return s;
}
