// Model and generator of programs of assignments.
#pragma once
#include "exprgen.h"

// addresses that would be patterns if looked up: assignment means them as they are
static const char *const PATTERN_LIKE[] = {"/?", "/*", "/[ab]", "/{a,b}", "/a*", "/new/?", "/*/b", "/?*"};
static bool pattern_like(const Str &t) { for (auto p : PATTERN_LIKE) if (t == p) return true; return false; }
struct PI : Interp {
	Val call(const P &n) override {
		const Str &f = n->s;
		auto target = [&](const P &a) { return a->k == ADDR ? a->s : a->k == LIT ? a->a.s : Str(); };
		if (f == "exists" || f == "bound") {
			bool e = false;
			Str t = target(n->c[0]);
			if (n->c[0]->k == BIN) { Val v = ev(n->c[0]); t = v[0].s; if (t.empty() || t[0] != '/') throw EvErr{"not an address: " + t}; }
			if (!t.empty() && t[0] == '/') for (auto &m : b.m) if (ref_match(t, m.addr).r == 3 && (f == "exists" || !m.a.empty())) e = true;
			return {A_bool(e)};
		}
		if (f == "getmsgcount") return {A_i((int)b.m.size())};
		if (f == "getaddresses") { Val v; for (auto &m : b.m) v.push_back(A_s(m.addr)); return v; }
		if (f == "emptybundle") return {A_bool(b.m.empty())};
		if (f == "gettimetag") return {A_t(b.tt)};
		if (f == "value") {
			Str a;
			if (n->c[0]->k == LIT) a = n->c[0]->a.s;
			else {
				Val v = look(n->c[0]->s);
				if (v.empty() || v[0].t != 's') throw Unspec{"value of a non-address"};
				a = v[0].s;
			}
			const Msg *m = full(a);
			return m ? m->a : Val(); // nothing there: no value
		}
		if (f == "settimetag") {
			Val v = ev(n->c[0]);
			if (v.empty() || v[0].t != 't') throw Unspec{"a time tag that is not a time tag"};
			b.tt = v[0].v; assigns++;
			return {};
		}
		if (f == "delete") {
			for (auto &a : n->c) { Str t = target(a); std::vector<Msg> k; for (auto &m : b.m) if (m.addr != t) k.push_back(m); else assigns++; b.m = k; }
			return {};
		}
		if (f == "assign") {
			Str t = target(n->c[0]);
			const P &a = n->c[0];
			if (a->k == CALL && a->s == "value") { // the address held there
				Val v = look(a->c[0]->s);
				if (v.size() != 1 || v[0].t != 's') throw Unspec{"assignment through something else"};
				t = v[0].s;
			} else if (a->k == BIN) { Val v = ev(a); t = v[0].s; }
			if (t.empty() || t[0] != '/') throw EvErr{"not an address: " + t};
			if (!plain_addr(t) && !pattern_like(t)) throw Unspec{"an address of unusual characters"};
			Val v = ev(n->c[1]); assign(t, v); return v;
		}
		if (f == "progn") { Val v; for (auto &x : n->c) v = ev(x); return v; }
		return Interp::call(n);
	}
};

struct PGen : Gen {
	PGen(Rng &rr, const Bundle &bb, Ctx &cc) : Gen(rr, bb, cc) {}
	static bool plain(const Str &a) { for (char ch : a) if (!isalnum((unsigned char)ch) && ch != '/' && ch != '_') return false; return a[1] != 'o'; }
	Str target() { if (!b.m.empty() && r.chance(2, 3)) { Str a = b.m[r.below(b.m.size())].addr; if (plain(a)) return a; } return r.chance(1, 6) ? Str("/new/") + char('a' + r.below(3)) : Str(GX_ADDR[r.below(GX_NADDR)]); }
	Str bound_target() { std::vector<Str> k; for (auto &m : b.m) if (!m.a.empty() && plain(m.addr)) k.push_back(m.addr); return k.empty() ? target() : r.pick(k); }
	int kind() { static const int k[] = {0, 0, 0, 1, 2, 3}; return k[r.below(6)]; }
	// an assignment of any sort
	P asg(int d) {
		switch (r.below(12)) {
		case 0: case 1: { // compound
			static const char *o = "+-*/%^";
			return mk(CASSIGN, Str(1, *r.pickc(o)) + bound_target(), {gen(d - 1, 0)});
		}
		case 2: case 3: { // indexed
			P n = mk(ASGIDX, bound_target());
			int k = r.range(1, 3);
			for (int i = 0; i < k; i++) n->c.push_back(r.chance(1, 6) ? gen(1, 0) : gx_lit_i(r, (int)r.below(4)));
			n->c.push_back(d > 1 && r.chance(1, 6) ? asg(d - 1) : gen(d - 1, kind()));
			return n;
		}
		case 4: { // indexed by a range
			P n = mk(ASGRANGE, bound_target());
			n->c.push_back(gx_lit_i(r, (int)r.below(4)));
			if (r.flip()) n->c.push_back(r.chance(1, 4) ? mk(UN, "-", {gx_lit_i(r, 1)}) : gx_lit_i(r, r.range(1, 2)));
			n->c.push_back(gx_lit_i(r, (int)r.below(5)));
			n->c.push_back(gen(d - 1, 0));
			return n;
		}
		case 5: return mk(PREINC, Str(r.flip() ? "++" : "--") + bound_target());
		case 6: return mk(POSTINC, Str(r.flip() ? "++" : "--") + bound_target());
		case 7: return mk(COALEQ, target(), {gen(d - 1, kind())});
		case 8: if (d > 1) return mk(ASSIGN, target(), {r.flip() ? asg(d - 1) : mk(BIN, "+", {asg(d - 1), gen(1, 0)})});
			// fall through
		case 9: if (d > 1) { P n = mk(LIST, ""); int k = r.range(1, 3); for (int i = 0; i < k; i++) n->c.push_back(r.flip() ? asg(d - 1) : gen(1, 0)); return mk(ASSIGN, target(), {n}); }
			// fall through
		case 10: if (r.chance(1, 2)) { // assignment to an address computed or looked up
				P a = r.flip() ? mk(CALL, "value", {mk(ADDR, "/ref")}) : mk(BIN, "+", {mkl(A_s("/"), "\"/\""), mkl(A_s("c"), "\"c\"")});
				if (r.chance(1, 10)) a = mkl(A_s("nope"), "\"nope\"");
				else if (r.chance(1, 4)) a = mkl(A_s(PATTERN_LIKE[r.below(8)]), "");
				return mk(CALL, "assign", {a, gen(d - 1, kind())});
			}
			// fall through
		default: return r.chance(1, 8) ? mk(CALL, "assign", {r.flip() ? mk(ADDR, target()) : mkl(A_s(target()), ""), gen(d - 1, kind())}) : mk(ASSIGN, target(), {gen(d - 1, kind())});
		}
	}
	P stmt() {
		switch (r.below(16)) {
		case 0: { P n = mk(CALL, "delete"); int k = r.range(1, 2); for (int i = 0; i < k; i++) { if (r.chance(1, 6)) { n->c.push_back(mkl(A_s(PATTERN_LIKE[r.below(8)]), "")); continue; } Str t = target(); n->c.push_back(r.flip() ? mk(ADDR, t) : mkl(A_s(t), quote_lit(t))); } return n; }
		case 1: { if (r.chance(1, 4)) return mk(CALL, r.flip() ? "exists" : "bound", {mkl(A_s(PATTERN_LIKE[r.below(8)]), "")});
			Str t = target(); return mk(CALL, r.flip() ? "exists" : "bound", {r.chance(2, 3) ? mk(ADDR, t) : mkl(A_s(t), quote_lit(t))}); }
		case 9: return mk(CALL, r.flip() ? "exists" : "bound", {r.chance(1, 8) ? mk(BIN, "+", {mkl(A_s("x"), "\"x\""), gx_lit_i(r, 1)}) : mk(BIN, "+", {mkl(A_s("/"), "\"/\""), mkl(A_s(r.flip() ? "a" : "list"), "")})});
		case 10: return mk(CALL, "settimetag", {mk(ADDR, "/t")});
		case 11: return mk(CALL, "value", {mk(ADDR, "/ref")});
		case 2: { static const char *f[] = {"getmsgcount", "getaddresses", "emptybundle", "gettimetag"}; return mk(CALL, f[r.below(4)]); }
		case 3: { Str t = bound_target(); return mk(CALL, "value", {mkl(A_s(t), quote_lit(t))}); }
		case 4: return mk(ASSIGN, target(), {stmt_value()});
		case 5: { // fails
			switch (r.below(5)) {
			case 0: return mk(ASSIGN, target(), {mk(ADDR, "/nowhere")});
			case 1: return mk(ASSIGN, target(), {mk(BIN, "+", {asg(2), mk(ADDR, "/nowhere")})});
			case 2: return mk(ASSIGN, target(), {mk(NTH, "", {gen(1, 0), gx_lit_i(r, 99)})});
			case 3: return mk(CASSIGN, "+/nowhere", {gx_lit_i(r, 1)});
			default: return mk(ASSIGN, target(), {mk(BIN, "*", {gx_lit_i(r, 2), mkl(A_s("x"), "\"x\"")})});
			}
		}
		case 6: { P n = mk(TERN, "", {gen(1, 2), asg(2), asg(2)}); return n; }
		case 7: { P n = mk(CALL, "progn"); int k = r.range(1, 3); for (int i = 0; i < k; i++) n->c.push_back(asg(2)); return n; }
		case 8: return gen(2, kind());
		default: return asg(r.range(1, 3));
		}
	}
	P stmt_value() { switch (r.below(3)) { case 0: return mk(CALL, "getmsgcount"); case 1: return mk(CALL, "getaddresses"); default: { Str t = bound_target(); return mk(CALL, "value", {mkl(A_s(t), quote_lit(t))}); } } }
};

static void fix(const P &n) { for (auto &x : n->c) { if (x->k == LIT && x->s.empty()) x->s = quote_lit(x->a.s); fix(x); } }

// what the model predicts of one expression: kind 0 a value, 1 an error, 2 not defined
struct Step { int kind; Val v; Bundle b; Str why; std::function<bool(const Val &)> same; };
// runs the program against a copy of b and compares every step
// Which of two NaNs a sum or product passes on is the compiler's choice: a computed NaN equals any other, an untouched message is exact.
static bool same_but_nan(Bundle d, const Bundle &want, const Bundle &given) {
	if (d.m.size() != want.m.size()) return false;
	for (size_t i = 0; i < d.m.size(); i++) {
		Msg &x = d.m[i];
		const Msg &y = want.m[i];
		if (x.addr != y.addr || x.a.size() != y.a.size()) return false;
		bool untouched = false;
		for (auto &g : given.m) if (g.addr == y.addr && g == y) untouched = true;
		if (untouched) continue;
		for (size_t j = 0; j < x.a.size(); j++) {
			if (x.a[j].t == 'd' && y.a[j].t == 'd' && std::isnan(atom_d(x.a[j])) && std::isnan(atom_d(y.a[j]))) x.a[j] = y.a[j];
			if (x.a[j].t == 'f' && y.a[j].t == 'f' && std::isnan(atom_f(x.a[j])) && std::isnan(atom_f(y.a[j]))) x.a[j] = y.a[j];
		}
	}
	return enc_bundle(d) == enc_bundle(want);
}
static void run_prog(Ctx &c, const Bundle &b, const Str &text, std::vector<Step> &want, bool changes) {
	c.in(text + "   on   " + show(b));
	Exact t(Str(text.c_str(), text.size() + 1));
	t_osc_expr *f = nullptr;
	int pe = lib_parse(t.p, &f);
	if (pe) fail("parse", "the program was rejected: " + text);
	int times = c.rng.chance(1, 4) ? 2 : 1; // a compiled program run again on the same input gives the same
	for (int k = 0; k < times; k++) {
		Str bytes = enc_bundle(b), before = bytes;
		long len = (long)bytes.size();
		char *p = (char *)osc_mem_alloc(len);
		memcpy(p, bytes.data(), len);
		size_t i = 0;
		for (t_osc_expr *e = f; e && i < want.size(); e = osc_expr_next(e), i++) {
			Step &w = want[i];
			t_osc_atom_ar_u *o = nullptr;
			int err = lib_eval(e, &len, &p, &o);
			Val out;
			if (o) { if (!err) out = take_out(o); osc_atom_array_u_free(o); }
			Str now(p, len);
			Str at = sf(" after expression %zu of: ", i + 1) + text;
			if (w.kind == 2) { Bundle d; Str why; CHECK(dec_bundle(now, d, why), "wellformed", "the bundle is not well-formed (" + why + ")" + at); break; }
			if (w.kind == 1) {
				CHECK(err, "noerror", "no error (" + w.why + ")" + at);
			} else {
				if (err) fail("error", sf("evaluation failed with error %d", err) + at);
				if (!w.v.empty() && !(w.same ? w.same(out) : closev(out, w.v))) fail("value", "the value is " + showv(out) + ", expected " + showv(w.v) + at);
			}
			Str exp = enc_bundle(w.b);
			if (now != exp) {
				Bundle d; Str why;
				bool ok = dec_bundle(now, d, why);
				if (!ok || !same_but_nan(d, w.b, b)) fail(ok ? (w.kind ? "failed-changed" : "bundle") : "wellformed", "the bundle is " + (ok ? show(d) : "malformed: " + why) + ", expected " + show(w.b) + at);
			}
			if (changes) c.nontrivial = true;
			if (w.kind) break;
		}
		osc_mem_free(p);
	}
	osc_expr_free(f);
}
