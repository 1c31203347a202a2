// C18: lambdas, higher-order functions, conditionals, quoting and nested bundles against a model.
#include "hofmodel.h"

// tokens of a printed expression, as tokenize() gives them
static Val tokens(const std::vector<Str> &t) {
	Val v;
	for (auto &s : t) {
		if (s[0] == '"') { Str o; for (size_t i = 1; i + 1 < s.size(); i++) { if (s[i] == '\\' && s[i + 1] == '"' && i + 2 < s.size()) i++; o += s[i]; } v.push_back(A_s(o)); }
		else if (s[0] == '\'') v.push_back(A_c(s[1]));
		else if (isdigit((unsigned char)s[0]) || (s[0] == '.' && s.size() > 1)) {
			if (s.size() > 1 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && s.find('p') == Str::npos) { uint64_t x = strtoull(s.c_str(), nullptr, 16); v.push_back(s.size() > 10 ? A_H(x) : A_I((uint32_t)x)); }
			else if (s.find_first_not_of("0123456789") == Str::npos) v.push_back(A_i(atoi(s.c_str())));
			else v.push_back(A_d(strtod(s.c_str(), nullptr)));
		}
		else if (s == "true" || s == "True" || s == "TRUE") v.push_back(A_tag('T'));
		else if (s == "false" || s == "False" || s == "FALSE") v.push_back(A_tag('F'));
		else if (s == "nil" || s == "Nil" || s == "NIL") v.push_back(A_tag('N'));
		else v.push_back(A_s(s));
	}
	return v;
}
// quote(text) where the text allows it, an address holding it, or a literal
static P text_arg(Rng &r, const Str &t) {
	if (r.chance(1, 4) && t.find(' ') != Str::npos) { // its words, in a list
		P l = mk(LIST, "");
		Str w;
		for (char ch : t) if (ch == ' ' && r.chance(1, 3)) { l->c.push_back(mkl(A_s(w), quote_lit(w))); w.clear(); } else w += ch;
		l->c.push_back(mkl(A_s(w), quote_lit(w)));
		return l;
	}
	if (balanced(t) && r.chance(2, 3)) { P q = mk(QUOTE, t); q->a = A_s(t); return q; }
	return mkl(A_s(t), quote_lit(t));
}

static void random_case(Ctx &c) {
	Rng &r = c.rng;
	Bundle b = gx_bundle(r, 1, 6);
	b.tt = r.flip() ? 0 : r.u64();
	for (auto &m : b.m) for (auto &a : m.a) if (a.t == 's' && r.chance(1, 4)) a.s = PARAM[r.below(NPARAM)]; // values spelled like a parameter stay values
	HI in;
	{ // functions written as text, and bundles within
		HGen g(r, b, c, in);
		g.calls = false;
		int nf = r.range(0, 2);
		for (int i = 0; i < nf; i++) {
			std::set<Str> was = in.names;
			P l = g.lambda(2, std::vector<int>(r.range(1, 2), 0), 0, true, r.chance(1, 5) ? 2 : 1);
			fix(l);
			if (clash(l, in.names)) continue;
			Printer p(r);
			p.put(l);
			Str t = p.text(false);
			in.texts[t] = l;
			Msg m; m.addr = sf("/fn%d", i + 1); m.a = {A_s(t)};
			b.m.push_back(m);
		}
		if (r.chance(1, 4)) { Msg m; m.addr = "/fn3"; m.a = {A_s(r.pick(std::vector<Str>{"sqrt", "+", "no_such_function", "list"}))}; b.m.push_back(m); }
		for (const char *ad : {"/bx", "/by"}) if (r.flip()) {
			Msg m; m.addr = ad;
			Bundle x = gx_bundle(r, 0, 4); x.tt = 0;
			for (auto &y : x.m) if (r.chance(1, 6)) y.a.clear();
			m.a = {A_bndl(x)};
			if (r.chance(1, 6)) m.a.push_back(gx_atom(r));
			b.m.push_back(m);
			if (r.chance(1, 3)) { Msg q; q.addr = Str("/ref") + ad[2]; q.a = {A_s(ad)}; if (r.chance(1, 3)) q.a.push_back(gx_atom(r)); b.m.push_back(q); }
		}
	}
	in.b = b;
	bool small = r.flip();
	int n = small ? 1 : r.range(1, 5);
	std::vector<Step> want;
	Str text;
	bool stopped = false;
	for (int i = 0; i < n; i++) {
		HGen g(r, in.b, c, in);
		if (small) g.depth = r.range(1, 2);
		P s;
		Step w; w.kind = 0;
		int how = (int)r.below(12);
		if (how == 0) { // text evaluated
			int k = r.range(1, 2);
			P prog = mk(LIST, "");
			Str t;
			for (int j = 0; j < k; j++) { P x = r.chance(1, 6) ? g.PGen::stmt() : g.hstmt(); fix(x); prog->c.push_back(x); if (j) t += ", "; t += stmt(r, x, false); }
			if (t.find('\\') != Str::npos) continue; // no literal can hold an escape
			in.texts[t] = prog;
			s = mk(CALL, "eval", {text_arg(r, t)});
			c.cover("eval");
			w.same = [](const Val &v) { return v.size() == 1 && v[0].t == 'i' && v[0].v != 0; };
		} else if (how == 1) { // text taken apart
			PGen pg(r, in.b, c);
			P x = pg.base(r.range(1, r.chance(1, 8) ? 7 : 4), 3);
			if (r.chance(1, 3)) x = mk(ASSIGN, "/a", {x});
			fix(x);
			Printer p(r);
			p.put(x);
			Str t = p.text(r.chance(1, 4));
			if (t.find('#') != Str::npos && t.find('\n') == Str::npos) t += "\n";
			if (t.find('\\') != Str::npos) continue;
			Val tv = tokens(p.t);
			s = mk(CALL, "tokenize", {text_arg(r, t)});
			c.cover(tv.size() >= 64 ? "tokenize of 64 tokens or more" : "tokenize");
			if (stopped) continue;
			Step ww; ww.kind = 0; ww.v = tv; ww.b = in.b;
			want.push_back(ww);
			in.assigns++;
			if (!text.empty()) text += ", ";
			text += stmt(r, s, false);
			continue;
		} else if (how == 2) { PGen pg(r, in.b, c); P x = pg.base(2, 3); fix(x); Str t = stmt(r, x, false); if (t.find('\\') != Str::npos) continue; P q = text_arg(r, t); s = mk(ASSIGN, "/s", {q}); c.cover("quote"); }
		else s = g.hstmt();
		fix(s);
		Bundle was = in.b;
		if (stopped) continue;
		if (clash(s, in.names)) { w.kind = 2; w.why = "a literal spelled like a parameter"; }
		else try { w.v = in.ev(s); if (has_r(w.v)) throw Unspec{"a function as a result"}; } catch (EvErr &e) { w.kind = 1; w.why = e.why; } catch (TooBig &e) { w.kind = 3; w.why = e.why; } catch (Unspec &e) { w.kind = 2; w.why = e.why; }
		in.steps = 0;
		if (w.kind == 3 || (w.kind == 2 && folds(s))) { c.cover("not run: " + w.why); in.b = was; in.scope.clear(); continue; }
		if (!text.empty()) text += r.flip() ? "," : ", ";
		text += stmt(r, s, r.chance(1, 4));
		if (!(w.kind == 0 && w.v.size() == 1 && w.v[0].t == '?')) w.same = nullptr;
		else c.cover("eval of a program that fails");
		if (s->k == MEMASSIGN) w.v.clear();
		w.b = in.b;
		c.cover(w.kind == 0 ? "statement judged" : w.kind == 1 ? "statement fails" : "not judged: " + w.why);
		want.push_back(w);
		if (w.kind) stopped = true;
	}
	if (text.empty()) { c.in("nothing to run"); return; }
	run_prog(c, b, text, want, in.assigns > 0);
}

// text against expected values and bundle
static void direct(Ctx &c, const Str &text, const Bundle &b, const std::vector<Val> &vals, const Bundle &after, bool last_fails = false) {
	std::vector<Step> want;
	for (auto &v : vals) { Step w; w.kind = 0; w.v = v; want.push_back(w); }
	for (auto &w : want) w.b = after;
	if (last_fails) want.back().kind = 1;
	run_prog(c, b, text, want, true);
}
static Bundle one(const Str &addr, const Val &v) { Bundle b; Msg m; m.addr = addr; m.a = v; b.m = {m}; return b; }

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "hof";
		s.random = random_case;
		s.directed.push_back({"recursion through an address", [](Ctx &c) { Bundle b = one("/fact", {A_s("lambda([n], n <= 1 ? 1 : n * /fact(n - 1))")}); direct(c, "/fact(10)", b, {{A_i(3628800)}}, b); direct(c, "map(/fact, [1, 2, 3, 4])", b, {{A_i(1), A_i(2), A_i(6), A_i(24)}}, b); }});
		s.directed.push_back({"fold order", [](Ctx &c) { Bundle b = one("/z", {A_i(0)});
			direct(c, "lreduce(\"-\", [10, 3, 2])", b, {{A_i(5)}}, b); direct(c, "rreduce(\"-\", [10, 3, 2])", b, {{A_i(9)}}, b);
			direct(c, "lreduce(\"-\", [10, 3, 2], 1)", b, {{A_i(-14)}}, b); direct(c, "rreduce(\"-\", [10, 3, 2], 1)", b, {{A_i(8)}}, b);
			direct(c, "lreduce(lambda([a, b], a + b), [\"x\", \"y\", \"z\"])", b, {{A_s("xyz")}}, b); direct(c, "rreduce(lambda([a, b], b + a), [\"x\", \"y\", \"z\"])", b, {{A_s("zyx")}}, b); }});
		s.directed.push_back({"shadowing", [](Ctx &c) { Bundle b = one("/z", {A_i(0)});
			direct(c, "(lambda([x], (lambda([x], x * 10), x + 1) + x), 3)", b, {{A_i(43)}}, b);
			direct(c, "(lambda([x], x), 3) + (lambda([y], x == \"x\"), 1)", b, {{A_i(4)}}, b);
			direct(c, "(lambda([x], [x, (lambda([y], [x, y]), x + 1), x]), 1)", b, {{A_i(1), A_i(1), A_i(2), A_i(1)}}, b); }});
		s.directed.push_back({"scope gone afterwards", [](Ctx &c) { Bundle b = one("/z", {A_i(0)});
			direct(c, "(lambda([x], x), 3), [x]", b, {{A_i(3)}, {A_s("x")}}, b);
			direct(c, "[(lambda([x], x), 3), x]", b, {{A_i(3), A_s("x")}}, b);
			direct(c, "map(lambda([x], x + 1), [1, 2]), [x]", b, {{A_i(2), A_i(3)}, {A_s("x")}}, b); }});
		s.directed.push_back({"wrong number of arguments by name", [](Ctx &c) { Bundle b = one("/z", {A_i(0)}); for (const char *t : {"apply(sqrt, 1, 2)", "apply(\"+\", 1)", "map(\"atan2\", [1, 2])", "apply(nosuch, 1)", "apply(\"nosuch\", 1)", "apply(/z, 1)", "apply(/nowhere, 1)", "map(/nowhere, [1])", "lreduce(\"+\", /nowhere)", "map(sqrt, /nowhere)", "apply(3, 4)"}) direct(c, t, b, {{}}, b, true); }});
		s.directed.push_back({"failing eval", [](Ctx &c) { Bundle b = one("/z", {A_i(0)});
			for (const char *t : {"eval(\"/q = /nowhere\")", "eval(\"1 +\")", "eval(\"/nowhere\")", "eval(\"nosuch(1)\")", "eval(\"[1][[4]]\")", "eval([\"1\", \"+\"])", "eval([\"/q =\", \"/nowhere\"])"}) {
				Step w; w.kind = 0; w.b = b; w.v = {A_tag('?')}; w.same = [](const Val &v) { return v.size() == 1 && v[0].t == 'i' && v[0].v != 0; };
				std::vector<Step> ws = {w}; run_prog(c, b, t, ws, true); } }});
		s.directed.push_back({"many tokens", [](Ctx &c) { for (int n : {1, 63, 64, 65, 127, 128, 129, 500}) { Bundle b = one("/z", {A_i(0)}); Str t; Val v; for (int i = 0; i < n; i++) { t += i & 1 ? "+ " : "1 "; v.push_back(i & 1 ? A_s("+") : A_i(1)); } direct(c, "tokenize(quote(" + t + "))", b, {v}, b); } }});
		s.directed.push_back({"long lists", [](Ctx &c) { Bundle b = one("/l", {}); Val sum, dbl; int32_t t = 0; for (int i = 0; i < 3000; i++) { b.m[0].a.push_back(A_i(i * 7 % 1000)); dbl.push_back(A_i(i * 7 % 1000 * 2)); t += i * 7 % 1000; }
			direct(c, "map(lambda([x], x * 2), /l)", b, {dbl}, b); direct(c, "lreduce(\"+\", /l)", b, {{A_i(t)}}, b); direct(c, "rreduce(lambda([x, y], x + y), /l)", b, {{A_i(t)}}, b); }});
		s.directed.push_back({"long members", [](Ctx &c) { for (int n : {64, 65, 128, 129, 256, 257, 513}) { Bundle b = one("/l", {}), in; Msg a, k; a.addr = "/a"; k.addr = "/c"; k.a = {A_i(3)};
			for (int i = 0; i < n; i++) a.a.push_back(i % 5 == 4 ? A_s("w" + std::to_string(i)) : A_i(i)); b.m[0].a = a.a; in.m = {a, k};
			direct(c, "{/a : /l, /c : 3}", b, {{A_bndl(in)}}, b);
			Bundle z = b; Msg x; x.addr = "/x"; x.a = {A_bndl(in)}; z.m.push_back(x); direct(c, "/x = {/a : /l, /c : 3}", b, {{A_bndl(in)}}, z); direct(c, "/x./a", z, {a.a}, z); direct(c, "length(/x./a)", z, {{A_i(n)}}, z);
			Bundle y = one("/l", {}); y.m[0].a = a.a; Bundle in2; Msg k2 = k; k2.addr = "/a"; in2.m = {k2}; x.a = {A_bndl(in2)}; y.m.push_back(x); Bundle w = y, i3; i3.m = {a}; w.m[1].a = {A_bndl(i3)}; direct(c, "/x./a = /l", y, {w.m[1].a}, w); } }});
		s.directed.push_back({"strings of megabytes", [](Ctx &c) { Bundle b = one("/s", {A_s(Str(6000000, 'x'))}); b.m[0].a[0].s[5] = 'y'; Str d = b.m[0].a[0].s + b.m[0].a[0].s; Bundle z = b; Msg m; m.addr = "/n"; m.a = {A_h(12000000)}; z.m.push_back(m); direct(c, "/n = strlen(/s + /s)", b, {{A_h(12000000)}}, z); direct(c, "/s + /s", b, {{A_s(d)}}, b); direct(c, "/s * 2", b, {{}}, b, true); }});
		s.directed.push_back({"a function is not a value of a bundle", [](Ctx &c) { Bundle b = one("/z", {A_i(0), A_i(1)}); for (const char *t : {"/f = lambda([x], x)", "/z[[0]] = lambda([x], x)", "/f = {/a : lambda([x], x)}", "/f ??= lambda([x], x)", "/y./a = lambda([x], x)"}) direct(c, t, b, {{}}, b, true); }});
		osc_error_setHandler(count_report);
	}
	return s;
}
