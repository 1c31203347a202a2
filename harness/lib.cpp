// C16: every library function against a reference model of its documentation.
#include "libmodel.h"

static const std::map<Str, LibFn> &table() { static std::map<Str, LibFn> t = lib_table(); return t; }

// ---------------------------------------------------------------- arguments
static Atom mod_num(Rng &r) { // a number of moderate size
	switch (r.below(6)) {
	case 0: return A_d(r.range(-64, 64) / 8.);
	case 1: return A_f(r.range(-64, 64) / 4.f);
	case 2: return A_d(r.range(-3000, 3000) / 100.);
	default: { static const char *t = "cCuUiiiIhH"; char ty = *r.pickc(t); return mk_int(ty, r.range(is_unsigned(ty) ? 0 : -12, 12)); }
	}
}
static Atom pos_num(Rng &r) { switch (r.below(4)) { case 0: return A_d(r.range(1, 4000) / 16.); case 1: return A_f(r.range(1, 400) / 4.f); default: { static const char *t = "cCuUiiiIhH"; return mk_int(*r.pickc(t), r.range(1, 100)); } } }
static Atom int_of(Rng &r, int lo, int hi) { static const char *t = "iiiiicCuUIhH"; return mk_int(*r.pickc(t), r.range(lo, hi)); }
static Str fword(Rng &r, int lo, int hi) { Str s; int n = r.range(lo, hi); for (int i = 0; i < n; i++) s += r.chance(1, 12) ? 'c' : r.flip() ? 'a' : 'b'; return s; }
static Val gen_arg(Rng &r, char k) {
	auto many = [&](int lo, int hi, std::function<Atom()> f) { Val v; int n = r.chance(1, 4) ? 1 : r.range(lo, hi); for (int i = 0; i < n; i++) v.push_back(f()); return v; };
	switch (k) {
	case 'n': case 'y': { Str ty = r.chance(1, 3) ? Str(1, *r.pickc("cCuUiIhHfd")) : r.chance(1, 3) ? "cCuUiIhH" : "cCuUiiiIhHffdddTF"; bool small = r.flip(); return many(1, 7, [&] { Atom a = gx_num(r, ty.c_str()); if (small && is_int(a.t)) a = mk_int(a.t, r.range(is_unsigned(a.t) ? 0 : -20, 20)); return a; }); }
	case 'm': return many(1, 6, [&] { return mod_num(r); });
	case 'r': return many(1, 5, [&] { return r.chance(1, 4) ? A_i(r.range(-1, 1)) : A_d(r.range(-63, 63) / 64.); });
	case 'p': return many(1, 6, [&] { return pos_num(r); });
	case 'P': return {pos_num(r)};
	case 'x': return {mod_num(r)};
	case 'z': return {int_of(r, 0, r.chance(1, 4) ? 12 : 4)};
	case 'k': return many(1, 7, [&] { return r.chance(1, 3) ? (r.flip() ? A_i(0) : A_d(r.flip() ? 0. : -0.)) : r.chance(1, 4) ? A_tag(r.flip() ? 'T' : 'F') : r.chance(1, 4) ? A_d(.25) : mod_num(r); });
	case 'N': return {r.chance(1, 8) ? gx_num(r, "iIhd") : mod_num(r)};
	case 'V': return many(1, 6, [&] { return r.chance(1, 10) ? A_s(gx_word(r)) : r.chance(1, 14) ? A_tag(*r.pickc("TFN")) : r.chance(1, 12) ? gx_num(r, "iIhUd") : mod_num(r); });
	case 'v': if (r.chance(1, 40)) return {}; return many(1, 6, [&] { return gx_atom(r); });
	case 'o': { int kind = (int)r.below(3); return many(1, r.chance(1, 8) ? 40 : 8, [&] { return kind == 0 || (kind == 2 && r.flip()) ? (r.chance(1, 4) ? gx_num(r, "iIhHd") : mod_num(r)) : A_s(r.flip() ? gx_word(r) : fword(r, 0, 3)); }); }
	case '3': { Str ty = r.flip() ? Str(1, *r.pickc("cCuUiIhHfd")) : "iiuhfd"; Val v; int n = r.chance(1, 12) ? r.range(1, 4) : 3; for (int i = 0; i < n; i++) { Atom a = gx_num(r, ty.c_str()); if (r.chance(5, 6) && is_int(a.t)) a = mk_int(a.t, r.range(is_unsigned(a.t) ? 0 : -10, 10)); v.push_back(a); } return v; }
	case 'q': return {r.chance(1, 4) ? A_d(r.range(-40, 40) / 4.) : r.chance(1, 5) ? int_of(r, 0, 30) : A_i(r.range(-20, 30))};
	case 'Q': return {r.chance(1, 3) ? A_d(r.range(-12, 12) / 8.) : A_i(r.chance(1, 12) ? 0 : r.range(1, 4) * (r.chance(1, 3) ? -1 : 1))};
	case 'S': return many(1, 4, [&] { return A_s(r.flip() ? gx_word(r) : fword(r, 5, 12)); });
	case 's': return {A_s(gx_word(r))};
	case '1': { static const char *s[] = {"/", ",", " ", "", "-", ".", "--"}; return {A_s(s[r.below(7)])}; }
	case 'f': return {A_s(fword(r, r.chance(1, 20) ? 0 : 1, r.flip() ? 3 : 24))};
	case 'W': { if (r.chance(1, 4)) { Str s, sep(1, *r.pickc("/, -.")); int n = r.flip() ? r.range(14, 20) : r.range(28, 70); for (int i = 0; i < n; i++) { if (i || r.chance(1, 4)) s += sep; s += gx_word(r); } return {A_s(s)}; }
		Str s; int n = r.chance(1, 10) ? r.range(10, 60) : r.range(0, 8); for (int i = 0; i < n; i++) { if (r.flip()) s += *r.pickc("/, -."); s += gx_word(r); } return {A_s(s)}; }
	case 'J': return many(1, 5, [&] { return r.chance(1, 3) ? mod_num(r) : r.chance(1, 6) ? A_c((int8_t)r.range(32, 126)) : A_s(gx_word(r)); });
	case 'b': { Atom a = gx_num(r, "cCuUiIhH"); return {r.chance(1, 30) ? A_d(1.5) : a}; }
	case 'O': return many(1, 5, [&] { return r.chance(1, 8) ? A_b(fword(r, 0, 9) + (r.chance(1, 4) ? Str("\0z", 2) : "")) : r.chance(1, 3) ? A_s(gx_word(r)) : r.chance(1, 4) ? gx_num(r, "cC") : r.chance(1, 3) ? mod_num(r) : gx_num(r, "uUiIhHfd"); });
	case 'B': if (r.chance(1, 8)) { GenOpt o; o.max_depth = 1; o.max_msgs = 3; return {A_bndl(gen_bundle(r, o))}; } return many(1, 13, [&] { return int_of(r, 0, 127); });
	case 'T': { if (r.chance(1, 3)) return {A_s(Str(1, *r.pickc("cCuUiIhHfds")))}; if (r.flip()) return {A_c(*r.pickc("cCuUiIhHfds"))}; Val v; int n = r.range(1, 8); for (int i = 0; i < n; i++) v.push_back(A_c(*r.pickc("cCuUiIhHfds"))); return v; }
	case 'w': return many(1, 5, [&] { return gx_num(r, "cCuUiiII"); });
	case 'i': return many(1, 5, [&] { return gx_num(r, "cCuUiIhhHH"); });
	case 'F': return {r.flip() ? A_d(r.below(1ull << 40) / 256.) : A_f((float)r.range(0, 100000) / 8)};
	case '8': { Str s = sf("%04d-%02d-%02dT%02d:%02d:%02d", r.range(1970, 2035), r.range(1, 12), r.range(1, 28), r.range(0, 23), r.range(0, 59), r.range(0, 59)); if (r.flip()) s += sf(".%d", r.range(0, 9999)); s += "Z"; return {A_s(s)}; }
	case 'M': return many(1, 3, [&] { static const char *s[] = {"/a", "/*", "/a/*", "/a/b", "/?", "/[ab]/x", "/{a,foo}/b", "/foo", "/foo/*/x", "/a*"}; return A_s(s[r.below(10)]); });
	case 'A': return many(1, 6, [&] { static const char *s[] = {"/a", "/b", "/a/b", "/a/x", "/foo", "/foo/b", "/foo/b/x", "/ab", "/foo/q", "/c/b"}; return A_s(s[r.below(10)]); });
	case 'l': if (r.chance(1, 6)) return {A_b(fword(r, 0, 12))}; return gen_arg(r, 'v');
	case 'j': return many(1, 4, [&] { return int_of(r, 0, r.chance(1, 6) ? 9 : 3); });
	}
	return {};
}
static Args gen_args(Rng &r, const Str &spec) {
	Args a;
	if (spec == "D") { // a square matrix
		int n = r.range(2, 6);
		bool sing = r.chance(1, 5);
		for (int i = 0; i < n; i++) { Val v; for (int j = 0; j < n; j++) v.push_back(r.chance(1, 4) ? A_i(0) : r.flip() ? A_i(r.range(-9, 9)) : A_d(r.range(-80, 80) / 8.)); a.push_back(v); }
		if (sing) { if (r.flip()) a[n - 1] = a[0]; else { int c = (int)r.below(n); for (auto &v : a) v[c] = A_i(0); } }
		if (r.chance(1, 30)) a[r.below(n)].pop_back();
		return a;
	}
	if (spec == "1W" && r.chance(2, 3)) { // a text whose parts are separated by what is asked for, around the sizes at which results grow
		Str s, sep(1, *r.pickc("/, -."));
		int n = r.flip() ? r.range(0, 12) : r.range(1, 4) * 16 + r.range(-1, 2);
		for (int i = 0; i < n; i++) { if (i || r.chance(1, 4)) s += sep; if (!r.chance(1, 30)) s += "w" + std::to_string(i); }
		if (r.chance(1, 4)) s += sep;
		return {{A_s(sep)}, {A_s(s)}};
	}
	if (spec == "G") { // what a bundle can be made from
		GenOpt o; o.max_depth = 1; o.max_msgs = 3; o.max_args = 3;
		switch (r.below(4)) {
		case 0: { Str w = enc_bundle(gen_bundle(r, o)); if (r.chance(1, 6)) w[r.below(8)] ^= 1; return {{A_b(w)}}; }
		case 1: { Str w = enc_bundle(gen_bundle(r, o)); Val v; for (char ch : w) v.push_back(A_i((uint8_t)ch)); return {v}; }
		case 2: return {{A_s("/" + gx_word(r))}};
		default: { int n = r.range(2, 6); for (int i = 0; i < n; i++) if (i & 1) { Val v; int k = r.range(0, 3); for (int j = 0; j < k; j++) v.push_back(gx_atom(r)); a.push_back(v); } else a.push_back({r.chance(1, 20) ? A_i(4) : A_s("/" + gx_word(r))}); return a; }
		}
	}
	if (spec == "H") {
		int n = r.range(3, 12);
		Val x, y, xy;
		std::set<int> used;
		for (int i = 0; i < n; i++) { int v; do v = r.range(-300, 300); while (!used.insert(v).second); Atom p = A_d(v / 4.), q = A_d(r.range(-300, 300) / 4.); if (r.chance(1, 4)) { p = A_i(v); q = A_i(r.range(-40, 40)); } x.push_back(p); y.push_back(q); xy.push_back(p); xy.push_back(q); }
		if (r.flip()) return {xy};
		return {x, y};
	}
	for (size_t i = 0; i < spec.size(); i++) {
		if (spec[i] == '?') { i++; if (r.flip()) a.push_back(gen_arg(r, spec[i])); }
		else if (spec[i] == '*') { i++; int n = r.chance(1, 2) ? 0 : r.range(1, 3); while (n--) a.push_back(gen_arg(r, spec[i])); }
		else a.push_back(gen_arg(r, spec[i]));
	}
	return a;
}
// a literal of this atom, if the language has one
static P lit_of(const Atom &a) {
	switch (a.t) {
	case 'i': if ((int32_t)a.v >= 0) return mkl(a, sf("%d", (int32_t)a.v)); break;
	case 'd': { double d = atom_d(a); if (d >= 0 && !std::signbit(d) && d < 1e6 && d * 64 == floor(d * 64)) return mkl(a, sf("%.6f", d)); break; }
	case 's': { bool ok = true; for (unsigned char c : a.s) if (c < 32 || c == '\\' || c > 126) ok = false; if (ok) return mkl(a, quote_lit(a.s)); break; }
	case 'T': return mkl(a, "true"); case 'F': return mkl(a, "false"); case 'N': return mkl(a, "nil");
	case 'c': if (isalnum((int)(int8_t)a.v)) return mkl(a, Str("'") + (char)a.v + "'"); break;
	case 'I': return mkl(a, sf("0x%X", (uint32_t)a.v));
	}
	return nullptr;
}

struct Built { P n; Bundle b; };
static P arg_node(Ctx &c, Bundle &b, const Val &v) {
	Rng &r = c.rng;
	if (!v.empty() && r.chance(2, 5)) {
		std::vector<P> l;
		for (auto &a : v) { P p = lit_of(a); if (!p) break; l.push_back(p); }
		if (l.size() == v.size()) { c.cover("literal argument"); return l.size() == 1 && r.flip() ? l[0] : mk(LIST, "", l); }
	}
	Msg m;
	m.addr = sf("/p/%d", (int)b.m.size());
	m.a = v;
	b.m.push_back(m);
	return mk(ADDR, m.addr);
}
static P call_node(Ctx &c, Bundle &b, const Str &name, const Args &a, int depth);
// functions from a list to a list, to be composed
static P arg_or_call(Ctx &c, Bundle &b, const Val &v, int depth) {
	Rng &r = c.rng;
	if (depth > 0 && r.chance(1, 5)) {
		static const char *f[] = {"reverse", "rev", "list", "identity", "progn", "prog1", "first", "last", "rest", "butlast", "sort"};
		Str n = f[r.below(11)];
		return call_node(c, b, n, {v}, depth - 1);
	}
	return arg_node(c, b, v);
}
static P call_node(Ctx &c, Bundle &b, const Str &name, const Args &a, int depth) {
	P n = mk(CALL, name);
	for (auto &v : a) n->c.push_back(arg_or_call(c, b, v, depth));
	return n;
}

static void run_case(Ctx &c, const Str &name, int mode) { // mode 0: in the domain; 1: anything
	Rng &r = c.rng;
	const LibFn &L = table().at(name);
	Bundle b;
	Args args;
	if (mode == 0) args = gen_args(r, L.args);
	else {
		Args like = gen_args(r, L.args); // the right number of arguments, of anything
		GenOpt o; o.max_depth = 1; o.max_msgs = 3; o.max_args = 3;
		for (auto &v : like) {
			if (r.chance(1, 3) && name != "nfill" && name != "aseq" && name != "jn" && name != "yn") { v.clear(); int n = r.range(0, 4); for (int i = 0; i < n; i++) v.push_back(gen_atom(r, o)); }
			else if (r.chance(1, 4)) v.clear();
			else if (r.chance(1, 4) && !v.empty()) v.pop_back();
			else if (r.chance(1, 4) && !v.empty()) v[r.below(v.size())] = A_d(r.flip() ? NAN : r.flip() ? INFINITY : -INFINITY);
		}
		args = like;
	}
	if (r.chance(1, 2)) { GenOpt o; o.max_depth = 1; o.max_args = 3; Msg m = gen_msg(r, o, 0); m.addr = "/other"; b.m.push_back(m); }
	P n = call_node(c, b, name, args, mode == 0 && r.chance(1, 3) ? 2 : 0);
	bool asg = r.flip() && mode == 0;
	P st = asg ? mk(ASSIGN, "/r", {n}) : n;
	Str text = stmt(r, st, r.chance(1, 4));
	c.in(text + "  on  " + show(b));
	// the model: the outermost call is judged on its arguments' values
	Interp in; in.b = b;
	for (auto &k : table()) in.fn[k.first] = k.second.fn;
	lib_tol = 0;
	Val want; int kind = mode; Str why;
	Args got;
	if (mode == 0) {
		try { for (auto &x : n->c) got.push_back(in.ev(x)); lib_tol = 0; want = L.fn(got); }
		catch (EvErr &e) { kind = 3; why = e.why; } catch (Unspec &e) { kind = 2; why = e.why; }
	}
	double tol = lib_tol;
	c.cover(kind == 0 ? "judged:" + name : kind == 3 ? "error:" + name : kind == 2 ? "not judged:" + name + ":" + why : "hostile:" + name);
	Str bytes = enc_bundle(b);
	Exact t(Str(text.c_str(), text.size() + 1));
	t_osc_expr *f = nullptr;
	int pe = lib_parse(t.p, &f);
	if (pe) fail("parse", "the call was rejected: " + text);
	Run a, a2;
	run_list(f, bytes, a);
	run_list(f, bytes, a2);
	osc_expr_free(f);
	Str head = name + ": " + text + "  on  " + show(b) + ": ";
	if (a2.eval != a.eval || !closev(a2.out, a.out) || a2.bytes != a.bytes) fail("again:" + name, head + "a second evaluation gave " + showv(a2.out) + " after " + showv(a.out));
	for (auto &x : a.out) CHECK(strchr("cCuUiIhHfdsbtTFN.", x.t) && x.t, "type:" + name, head + sf("an element has the type tag %d", x.t));
	if (kind == 0) {
		c.nontrivial = true;
		if (a.eval) fail("value:" + name, head + sf("failed with error %d", a.eval) + ", expected " + showv(want));
		if (L.judge) { Str e = L.judge(got, a.out); if (!e.empty()) fail("value:" + name, head + "gave " + showv(a.out) + ": " + e); }
		else if (!close_tol(a.out, want, tol)) fail("value:" + name, head + "gave " + showv(a.out) + ", expected " + showv(want));
		Bundle exp = b;
		if (asg) { Msg m; m.addr = "/r"; m.a = a.out; exp.m.push_back(m); }
		Str eb = enc_bundle(exp);
		if (a.bytes != eb) { Bundle d; Str w; bool ok = dec_bundle(a.bytes, d, w); fail("bundle:" + name, head + "the bundle is " + (ok ? show(d) : "malformed: " + w) + ", expected " + show(exp)); }
	} else if (kind == 3) {
		if (!a.eval) fail("noerror:" + name, head + "gave " + showv(a.out) + " without an error (" + why + ")");
		if (a.bytes != bytes) fail("failed-changed:" + name, head + "failed but changed the bundle");
	} else {
		Bundle d; Str w;
		CHECK(dec_bundle(a.bytes, d, w), "wellformed:" + name, head + "the bundle is malformed: " + w);
	}
}

static std::vector<Str> names() { std::vector<Str> v; for (auto &k : table()) v.push_back(k.first); return v; }
static void random_case(Ctx &c) {
	static const std::vector<Str> n = names();
	run_case(c, c.rng.pick(n), c.rng.chance(1, 6) ? 1 : 0);
}
// the wrong number of arguments is refused before anything runs
static void arity(Ctx &c) {
	Rng &r = c.rng;
	for (auto &k : table()) {
		int req = 0, opt = 0;
		const Str &s = k.second.args;
		if (s == "D" || s == "H" || s == "G") continue;
		for (size_t i = 0; i < s.size(); i++) { if (s[i] == '?') { opt++; i++; } else if (s[i] == '*') { opt = 1000; i++; } else req++; }
		for (int n : {req - 1, req + opt + 1}) {
			if (n < 0 || n > 20) continue;
			if (k.first == "prog2" || k.first == "list") continue;
			P p = mk(CALL, k.first);
			for (int i = 0; i < n; i++) p->c.push_back(gx_lit_i(r, 1));
			Str text = stmt(r, p, false);
			Run a = run_text(text, enc_bundle(Bundle()));
			c.input.clear(); c.in(text);
			if (!a.parse && !a.eval) fail("arity:" + k.first, "accepted with the wrong number of arguments: " + text);
			c.cover("wrong argument count refused");
		}
	}
	c.nontrivial = true;
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "lib";
		for (auto &n : names()) s.directed.push_back({"fn " + n, [n](Ctx &c) { for (int i = 0; i < 40; i++) { c.input.clear(); run_case(c, n, 0); } }});
		s.directed.push_back({"argument counts", arity});
		s.random = random_case;
		osc_error_setHandler(count_report);
	}
	return s;
}
