// Reference interpreter and generator of higher-order programs.
#pragma once
#include "progmodel.h"
#include "libmodel.h"

static inline const std::map<Str, LibFn> &table() { static std::map<Str, LibFn> t = lib_table(); return t; }
static inline Atom A_r(long i) { Atom a; a.t = 'r'; a.v = (uint64_t)i; return a; }
static inline bool has_r(const Val &v) { for (auto &a : v) if (a.t == 'r') return true; return false; }

static inline const std::map<Str, Str> &op_names() {
	static const std::map<Str, Str> m = {{"+", "+"}, {"-", "-"}, {"*", "*"}, {"/", "/"}, {"%", "%"}, {"<", "<"}, {"<=", "<="}, {">", ">"}, {">=", ">="}, {"==", "=="}, {"!=", "!="}, {"&", "&"}, {"|", "|"}, {"&&", "&&"}, {"||", "||"},
		{"add", "+"}, {"sub", "-"}, {"mul", "*"}, {"div", "/"}, {"lt", "<"}, {"le", "<="}, {"gt", ">"}, {"ge", ">="}, {"eq", "=="}, {"ne", "!="}, {"and", "&"}, {"or", "|"}, {"andalso", "&&"}, {"orelse", "||"}, {"mod", "%"}, {"pow", "^"}};
	return m;
}

struct HI : PI {
	std::vector<P> closures;
	std::map<Str, P> texts; // functions written as text
	std::set<Str> names;    // every parameter of the program
	bool builtin(const Str &s) { return op_names().count(s) || table().count(s) || s == "if" || s == "apply" || s == "map" || s == "lreduce" || s == "rreduce"; }
	static P val(const Atom &a) { return mkl(a, "\1"); }
	static Str mlook(const Bundle &b, const Str &addr, Val &out) { for (auto &m : b.m) if (ref_match(addr, m.addr).r == 3) { out = m.a; return ""; } return "unbound"; }
	void assign(const Str &addr, const Val &v) override { if (has_r(v)) throw EvErr{"a function in a bundle"}; Interp::assign(addr, v); }

	Val body(const P &l) { Val v; for (auto &x : l->c) v = ev(x); return v; }
	Val invoke(P l, const std::vector<P> &args, size_t from = 0) { // by value: what holds it may change while the arguments are evaluated
		if (args.size() - from != l->params.size()) throw Unspec{"a lambda with another number of arguments"};
		std::map<Str, Val> m;
		for (size_t i = 0; i < l->params.size(); i++) m[l->params[i]] = ev(args[from + i]);
		if (scope.size() > 40) throw TooBig{"deep recursion"};
		scope.push_back(m);
		try { Val v = body(l); scope.pop_back(); return v; } catch (...) { scope.pop_back(); throw; }
	}
	Val named(const Str &f, const std::vector<P> &args) {
		auto o = op_names().find(f);
		if (o != op_names().end()) {
			if (args.size() != 2) throw EvErr{"wrong number of arguments"};
			return ev(mk(BIN, o->second, args));
		}
		auto fn = table().find(f);
		if (fn != table().end()) { // an address may come to hold the name of a function that takes another number of arguments
			const Str &spec = fn->second.args;
			size_t lo = 0, hi = 0;
			for (size_t i = 0; i < spec.size(); i++) {
				if (spec[i] == '?') { i++; hi++; }
				else if (spec[i] == '*') { i++; hi = 1000; }
				else lo++, hi++;
			}
			if (args.size() < lo || args.size() > hi) throw Unspec{"another number of arguments"};
		}
		return ev(mk(CALL, f, args));
	}
	const Val *binding(const Str &s) { for (size_t i = scope.size(); i-- > 0;) { auto x = scope[i].find(s); if (x != scope[i].end()) return &x->second; } return nullptr; }
	Val apply(const P &f, const std::vector<P> &args) {
		switch (f->k) {
		case LAMBDA: return invoke(f, args);
		case LIT: case BARESTR: case VAR: {
			Str s = f->k == LIT ? f->a.s : f->s;
			if (f->k == LIT && f->a.t != 's') throw EvErr{"not a function"};
			if (builtin(s)) return named(s, args);
			const Val *v = binding(s);
			if (v && v->size() == 1 && (*v)[0].t == 'r') return invoke(closures[(*v)[0].v], args);
			if (v) throw Unspec{"applying a value by name"};
			throw EvErr{"no such function"};
		}
		default: {
			Val v = ev(f);
			if (v.size() != 1) throw EvErr{"not the name of a function"};
			if (v[0].t == 'r') throw Unspec{"a computed function"};
			if (v[0].t != 's') throw EvErr{"not the name of a function"};
			if (builtin(v[0].s)) return named(v[0].s, args);
			auto t = texts.find(v[0].s);
			if (t == texts.end()) throw EvErr{"no such function"};
			Val r = invoke(t->second, args);
			if (has_r(r)) throw EvErr{"a function that outlives its text"};
			return r;
		}
		}
	}
	Val call(const P &n) override {
		const Str &f = n->s;
		if (f == "if") {
			Val t = ev(n->c[0]);
			if (t.size() != 1) throw Unspec{"a list as a condition"};
			bool yes = truth(t[0]);
			if (!yes && n->c.size() < 3) return {};
			return ev(n->c[yes ? 1 : 2]);
		}
		if (f == "apply") return apply(n->c[0], std::vector<P>(n->c.begin() + 1, n->c.end()));
		if (f == "map") {
			std::vector<Val> a;
			for (size_t i = 1; i < n->c.size(); i++) a.push_back(ev(n->c[i]));
			size_t len = a[0].size();
			for (auto &v : a) len = std::min(len, v.size());
			Val r;
			for (size_t i = 0; i < len; i++) {
				std::vector<P> x;
				for (auto &v : a) x.push_back(val(v[i]));
				Val v = apply(n->c[0], x);
				r.insert(r.end(), v.begin(), v.end());
			}
			return r;
		}
		if (f == "lreduce" || f == "rreduce") {
			Val l = ev(n->c[1]);
			if (f == "rreduce") std::reverse(l.begin(), l.end());
			Val acc;
			size_t i = 0;
			if (n->c.size() > 2) { acc = ev(n->c[2]); if (acc.empty()) throw EvErr{"no start value"}; if (acc.size() > 1) throw Unspec{"a list as the start value"}; }
			else if (!l.empty()) { acc = {l[0]}; i = 1; }
			for (; i < l.size(); i++) {
				if (acc.empty()) throw EvErr{"the function returned nothing"};
				if (acc.size() > 1) throw Unspec{"a fold through lists"};
				acc = f == "lreduce" ? apply(n->c[0], {val(acc[0]), val(l[i])}) : apply(n->c[0], {val(l[i]), val(acc[0])});
			}
			return acc;
		}
		if (f == "eval") {
			Val v;
			P prog = texts_of(n->c[0], v);
			std::vector<std::map<Str, Val>> none;
			std::swap(none, scope);
			Val out = {A_i(0)};
			try { for (auto &s : prog->c) { Val x = ev(s); if (has_r(x)) throw Unspec{"a function"}; } } catch (EvErr &) { out = {A_tag('?')}; } catch (...) { std::swap(none, scope); throw; }
			std::swap(none, scope);
			return out;
		}
		if ((f == "getaddresses" || f == "emptybundle") && !n->c.empty()) {
			Val v = ev(n->c[0]);
			if (f == "emptybundle") return {A_bool(v.empty() || v[0].t != '.' || v[0].b->m.empty())};
			if (v.empty()) throw Unspec{"addresses of nothing"};
			if (v[0].t != '.') throw EvErr{"not a bundle"};
			Val r;
			for (auto &m : v[0].b->m) r.push_back(A_s(m.addr));
			return r;
		}
		if ((f == "exists" || f == "bound") && n->c[0]->k == MEMBER) {
			Val v;
			try { v = ev(n->c[0]); } catch (EvErr &) { return {A_bool(false)}; }
			return {A_bool(f == "exists" || !v.empty())};
		}
		auto t = table().find(f);
		if (t != table().end()) {
			if (t->second.judge) throw Unspec{"several results are right"};
			std::vector<Val> a;
			for (auto &x : n->c) a.push_back(ev(x));
			for (auto &v : a) if (has_r(v)) throw Unspec{"a function as a value"};
			lib_tol = 0;
			Val r = t->second.fn(a);
			if (lib_tol) throw Unspec{"a function that rounds"};
			return r;
		}
		return PI::call(n);
	}
	// the program a text argument of eval holds
	P texts_of(const P &a, Val &v) {
		v = ev(a);
		if (v.empty()) throw Unspec{"eval of nothing"};
		for (auto &x : v) if (x.t != 's') throw Unspec{"eval of something else"};
		for (size_t i = 1; i < v.size(); i++) v[0].s += " " + v[i].s; // the words of a text
		v.resize(1);
		auto t = texts.find(v[0].s);
		if (t == texts.end()) throw Unspec{"eval of an unknown text"};
		return t->second;
	}
	Val other(const P &n) override {
		switch (n->k) {
		case LAMBDA: closures.push_back(n); return {A_r((long)closures.size() - 1)};
		case BARESTR: return {A_s(n->s)};
		case QUOTE: return {n->a};
		case LAMCALL: return invoke(n->c[0], n->c, 1);
		case ADDRCALL: return apply(mk(ADDR, n->s), n->c);
		case BUNDLE: {
			Bundle x;
			std::vector<Val> vs;
			for (auto &e : n->c) { vs.push_back(ev(e)); }
			for (size_t i = 0; i < n->c.size(); i++) { if (has_r(vs[i])) throw EvErr{"a function in a bundle"}; Msg m; m.addr = n->params[i]; m.a = vs[i]; x.m.push_back(m); }
			return {A_bndl(x)};
		}
		case MEMBER: {
			Val v = n->s[0] == '"' ? Val{A_s(n->s.substr(1, n->s.size() - 2))} : look(n->s), r;
			if (v.empty()) throw EvErr{"not a bundle"};
			if (v[0].t == 's') { // the bundle at the address the string names
				if (!plain_addr(v[0].s)) throw Unspec{"a member of what no plain address names"};
				const Msg *m = full(v[0].s);
				if (!m) throw EvErr{"no such address"};
				v = m->a;
				if (v.empty()) throw EvErr{"not a bundle"};
			}
			if (v[0].t != '.') throw EvErr{"not a bundle"};
			if (!mlook(*v[0].b, n->params[0], r).empty()) throw EvErr{"no such member"};
			return r;
		}
		case MEMASSIGN: {
			Val x = ev(n->c[0]);
			if (has_r(x)) throw EvErr{"a function in a bundle"};
			Val v;
			const Msg *m = full(n->s);
			if (m) v = m->a; else v = {A_bndl(Bundle())};
			if (v.empty()) throw EvErr{"not a bundle"};
			if (v[0].t == 's') throw Unspec{"a member of what an address names"};
			if (v[0].t != '.') throw EvErr{"not a bundle"};
			Bundle b2 = *v[0].b;
			bool found = false;
			for (auto &mm : b2.m) if (mm.addr == n->params[0]) { mm.a = x; found = true; break; }
			if (!found) { Msg mm; mm.addr = n->params[0]; mm.a = x; b2.m.push_back(mm); }
			b2.tt = 0;
			v[0] = A_bndl(b2);
			assign(n->s, v);
			return v;
		}
		default: return PI::other(n);
		}
	}
};

static const char *PARAM[] = {"x", "y", "k", "n", "acc", "value_1", "X", "pn", "longer_parameter_name", "xx"};
static const int NPARAM = 10;

struct HGen : PGen {
	typedef std::vector<std::pair<Str, int>> Scope; // kind 0..3, or 11, 12: a function of one, two numbers
	Scope sc;
	HI &in;
	int depth = 3;
	bool calls = true; // functions kept as text may be called: not from such a text, which would recur
	HGen(Rng &rr, const Bundle &bb, Ctx &cc, HI &i) : PGen(rr, bb, cc), in(i) {}
	P leaf(int kind) override {
		std::vector<Str> ok;
		std::set<Str> seen;
		for (size_t i = sc.size(); i-- > 0;) if (seen.insert(sc[i].first).second && (sc[i].second == kind || kind == 3) && sc[i].second < 10) ok.push_back(sc[i].first);
		if (!ok.empty() && r.chance(2, 3)) return mk(VAR, r.pick(ok));
		P p = PGen::leaf(kind);
		if (p->k == LIT && p->a.t == 's') for (auto &s : sc) if (s.first == p->a.s) return gx_lit_i(r, 1);
		return p;
	}
	P gen(int d, int kind) override {
		if (d > 0 && r.chance(3, 10)) { int k = kind == 3 ? (int)r.below(3) : kind; P p = hof(d, k); if (p) return p; }
		return base(d, kind);
	}
	P lambda(int d, const std::vector<int> &kinds, int kind, bool closed, int body = 0) {
		P l = mk(LAMBDA, "");
		Scope was = sc;
		if (closed) sc.clear();
		for (size_t i = 0; i < kinds.size(); i++) {
			Str nm;
			do nm = PARAM[r.below(NPARAM)]; while (std::count(l->params.begin(), l->params.end(), nm));
			l->params.push_back(nm);
			in.names.insert(nm);
		}
		for (size_t i = 0; i < kinds.size(); i++) sc.push_back({l->params[i], kinds[i]});
		int n = body ? body : r.chance(1, 4) ? r.range(2, 3) : 1;
		for (int i = 0; i < n; i++) {
			if (i + 1 < n) l->c.push_back(r.flip() ? asg(std::max(d - 1, 1)) : gen(d - 1, 3));
			else l->c.push_back(gen(std::max(d - 1, 1), kind));
		}
		sc = was;
		return l;
	}
	// a function of numbers (or the kinds given) for the first argument of apply, map and the reductions
	P func(int d, const std::vector<int> &kinds, int kind) {
		bool nums = kind == 0;
		for (int k : kinds) if (k != 0) nums = false;
		for (int tries = 0; tries < 3; tries++) switch (r.below(6)) {
		case 0: case 1: if (nums && kinds.size() <= 2) { // a function of the library
				static const char *f1[] = {"sqrt", "abs", "floor", "ceil", "sign", "not", "first", "last", "identity", "int32", "float64", "length", "list", "uint8", "int64", "min", "max", "sum", "reverse", "rest"};
				static const char *f2[] = {"+", "-", "*", "/", "%", "add", "sub", "mul", "div", "list", "prog1", "mod", "pow", "lt", "eq", ">="};
				Str f = kinds.size() == 1 ? f1[r.below(20)] : f2[r.below(16)];
				c.cover("function by name");
				if (isalpha((unsigned char)f[0]) && r.flip()) return mk(BARESTR, f);
				return mkl(A_s(f), quote_lit(f));
			}
			break;
		case 2: { std::vector<Str> ok; std::set<Str> seen; for (size_t i = sc.size(); i-- > 0;) if (seen.insert(sc[i].first).second && sc[i].second == 10 + (int)kinds.size() && nums) ok.push_back(sc[i].first); if (!ok.empty()) { c.cover("function in a parameter"); return mk(VAR, r.pick(ok)); } } break;
		case 3: if (nums && calls) { std::vector<Str> ok; for (auto &m : b.m) if (plain(m.addr) && m.a.size() == 1 && m.a[0].t == 's') { auto t = in.texts.find(m.a[0].s); if (t != in.texts.end() && t->second->k == LAMBDA && t->second->params.size() == kinds.size()) ok.push_back(m.addr); } if (!ok.empty()) { c.cover("function written as text"); return mk(ADDR, r.pick(ok)); } } break;
		default: break;
		}
		return lambda(d, kinds, kind, false);
	}
	P hof(int d, int kind) {
		auto kinds = [&](int lo, int hi) { std::vector<int> k; int n = r.range(lo, hi); for (int i = 0; i < n; i++) k.push_back(r.chance(3, 4) ? kind : (int)r.below(3)); return k; };
		switch (r.below(14)) {
		case 0: case 1: case 2: {
			auto k = kinds(1, 3);
			if (r.chance(1, 4)) k[r.below(k.size())] = r.flip() ? 11 : 12;
			P n = mk(LAMCALL, "", {lambda(d, k, kind, false)});
			for (int x : k) n->c.push_back(x == 11 ? lambda(d - 1, {0}, 0, true) : x == 12 ? lambda(d - 1, {0, 0}, 0, true) : r.chance(1, 8) && d > 1 ? asg(d - 1) : gen(d - 1, x));
			c.cover("lambda applied");
			return n;
		}
		case 3: case 4: {
			auto k = r.flip() ? std::vector<int>(r.range(1, 2), 0) : kinds(1, 3);
			P n = mk(CALL, "apply", {func(d, k, kind)});
			for (int x : k) n->c.push_back(gen(d - 1, x));
			c.cover("apply");
			return n;
		}
		case 5: case 6: case 7: {
			auto k = r.flip() ? std::vector<int>(r.range(1, 2), 0) : kinds(1, 3);
			P n = mk(CALL, "map", {func(d, k, kind)});
			for (int x : k) { P l; if (r.flip()) l = gen(d - 1, x); else { l = mk(LIST, ""); int m = r.range(r.chance(1, 8) ? 0 : 1, 4); for (int i = 0; i < m; i++) l->c.push_back(gen(d - 2, x)); } n->c.push_back(l); }
			c.cover("map");
			return n;
		}
		case 8: case 9: {
			P n = mk(CALL, r.flip() ? "lreduce" : "rreduce", {func(d, {kind, kind}, kind)});
			P l; if (r.flip()) l = gen(d - 1, kind); else { l = mk(LIST, ""); int m = r.range(r.chance(1, 8) ? 0 : 1, 5); for (int i = 0; i < m; i++) l->c.push_back(gen(d - 2, kind)); }
			n->c.push_back(l);
			if (r.chance(1, 3)) n->c.push_back(gx_lit(r, kind));
			c.cover("reduce");
			return n;
		}
		case 10: { // only the selected branch is evaluated
			c.cover("if");
			P y = d > 1 && r.flip() ? asg(d - 1) : gen(d - 1, kind), z = d > 1 && r.flip() ? asg(d - 1) : gen(d - 1, kind);
			P t = gen(d - 1, r.flip() ? 2 : 0);
			return r.flip() ? mk(CALL, "if", {t, y, z}) : mk(TERN, "", {t, y, z});
		}
		case 11: { std::vector<std::pair<Str, Str>> ok; for (auto &m : b.m) if (!m.a.empty() && m.a[0].t == '.' && plain(m.addr)) for (auto &x : m.a[0].b->m) { bool fit = plain_addr(x.addr); for (auto &a : x.a) if (kind == 0 ? !is_num(a.t) : kind == 1 ? a.t != 's' : !is_bool(a.t)) fit = false; if (fit) ok.push_back({m.addr, x.addr}); }
			if (ok.empty()) return nullptr;
			auto p = r.pick(ok);
			P n = mk(MEMBER, p.first); n->params = {p.second};
			if (r.chance(1, 4)) { // by the name of its address, itself written or held
				std::vector<Str> refs;
				for (auto &m : b.m) if (plain(m.addr) && !m.a.empty() && m.a[0].t == 's' && m.a[0].s == p.first) refs.push_back(m.addr);
				n->s = refs.empty() || r.flip() ? "\"" + p.first + "\"" : r.pick(refs);
				c.cover("member by name");
				return n;
			}
			c.cover("member");
			return n; }
		case 12: if (kind == 0 && calls) { std::vector<Str> ok; std::vector<P> fs; for (auto &m : b.m) if (plain(m.addr) && m.a.size() == 1 && m.a[0].t == 's') { auto t = in.texts.find(m.a[0].s); if (t != in.texts.end() && t->second->k == LAMBDA) { ok.push_back(m.addr); fs.push_back(t->second); } }
				if (ok.empty()) return nullptr;
				size_t i = r.below(ok.size());
				P n = mk(ADDRCALL, ok[i]);
				for (size_t k = 0; k < fs[i]->params.size(); k++) n->c.push_back(gen(d - 1, 0));
				c.cover("call through an address");
				return n; }
			return nullptr;
		default: if (kind == 2 && r.chance(1, 3)) { c.cover("bundles compared"); return mk(BIN, r.flip() ? "==" : "!=", {bval(d), bval(d)}); }
			if (kind == 2 && r.chance(1, 3)) {
				P m = mk(MEMBER, bx()); m->params = {GX_ADDR[r.below(GX_NADDR)]};
				for (auto &x : b.m) if (x.addr == m->s && x.a.size() && x.a[0].t == '.' && x.a[0].b->m.size() && r.chance(2, 3)) { Str a = r.pick(x.a[0].b->m).addr; if (plain_addr(a)) m->params = {a}; }
				if (r.chance(1, 5)) m->s = "\"" + m->s + "\"";
				c.cover("member tested");
				return r.chance(1, 3) ? mk(CALL, "emptybundle", {r.chance(1, 4) ? gen(1, 0) : bval(d)}) : mk(CALL, r.flip() ? "exists" : "bound", {m});
			}
			if (kind == 2) { // the right side only when the left does not decide
				c.cover("and/or with effects");
				P y = d > 1 ? mk(BIN, "==", {asg(d - 1), gen(1, 0)}) : gen(d - 1, 2);
				return mk(BIN, r.flip() ? "&&" : "||", {gen(d - 1, 2), y});
			}
			return nullptr;
		}
	}
	// a bundle, often one that equals or nearly equals another
	P bval(int d) {
		std::vector<const Msg *> ok;
		for (auto &m : b.m) if (m.a.size() == 1 && m.a[0].t == '.' && plain(m.addr)) ok.push_back(&m);
		if (ok.empty() || r.chance(1, 5)) return bndl(d > 1 ? 2 : 1);
		const Msg *m = r.pick(ok);
		if (r.flip()) return mk(ADDR, m->addr);
		P n = mk(BUNDLE, "");
		for (auto &x : m->a[0].b->m) {
			if (!plain_addr(x.addr)) return mk(ADDR, m->addr);
			if (r.chance(1, 12)) continue;
			n->params.push_back(x.addr);
			P e = mk(MEMBER, m->addr);
			e->params = {x.addr};
			bool sum = !x.a.empty();
			for (auto &a : x.a) if (!is_num(a.t) && a.t != 's') sum = false;
			n->c.push_back(r.chance(1, 12) ? gen(1, 0) : sum && r.chance(1, 5) ? mk(BIN, "+", {e, mkl(A_i(1), "1")}) : e); // equal in size, unequal in a byte or two
		}
		return n;
	}
	P bndl(int d) {
		P n = mk(BUNDLE, "");
		int k = r.range(0, 4);
		for (int i = 0; i < k; i++) { n->params.push_back(GX_ADDR[r.below(GX_NADDR)]); n->c.push_back(d > 1 && r.chance(1, 4) ? bndl(d - 1) : r.chance(1, 6) ? asg(std::max(d - 1, 1)) : gen(d - 1, (int)r.below(4))); }
		return n;
	}
	Str bx() { std::vector<Str> ok; for (auto &m : b.m) if (!m.a.empty() && m.a[0].t == '.' && plain(m.addr)) ok.push_back(m.addr); if (ok.empty() || r.chance(1, 8)) return r.flip() ? "/bx" : target(); return r.pick(ok); }
	P hstmt() {
		switch (r.below(12)) {
		case 0: c.cover("bundle literal"); return mk(ASSIGN, r.flip() ? "/bx" : "/by", {bndl(2)});
		case 1: case 2: { P n = mk(MEMASSIGN, bx(), {r.chance(1, 5) ? asg(2) : r.chance(1, 6) ? bndl(2) : gen(2, (int)r.below(4))}); n->params = {GX_ADDR[r.below(GX_NADDR)]}; if (r.chance(1, 6)) { P m = mk(MEMASSIGN, n->s, {gen(1, 0)}); m->params = {GX_ADDR[r.below(GX_NADDR)]}; n->c[0] = m; } c.cover("member assigned"); return n; }
		case 3: { P n = mk(MEMBER, bx()); n->params = {GX_ADDR[r.below(GX_NADDR)]}; return n; }
		case 4: c.cover("if without else"); return mk(CALL, "if", {gen(2, 2), asg(2)});
		case 5: return mk(ASSIGN, target(), {bndl(2)});
		case 6: if (r.chance(1, 6)) return r.chance(1, 3) ? mk(CALL, "getaddresses", {r.chance(1, 5) ? mk(ADDR, target()) : bval(2)}) : mk(ASSIGN, target(), {mk(CALL, "getaddresses", {bval(2)})});
			if (r.chance(1, 6)) { c.cover("function assigned"); return mk(ASSIGN, target(), {lambda(1, {0}, 0, true)}); }
			// fall through
		case 7: { P h = hof(depth, (int)r.below(3)); return h && h->k != LIT ? mk(ASSIGN, target(), {h}) : asg(2); }
		case 8: return PGen::stmt();
		default: return asg(r.range(std::max(1, depth - 1), depth));
		}
	}
};

// literals spelled like a parameter would be looked up: the model does not say
static inline bool clash(const P &n, const std::set<Str> &names) { if (n->k == LIT && n->a.t == 's' && names.count(n->a.s)) return true; for (auto &x : n->c) if (clash(x, names)) return true; return false; }
// growth the model did not follow is not bounded
static inline bool folds(const P &n) { if (n->k == LAMBDA || n->k == LAMCALL || n->k == ADDRCALL || n->k == QUOTE || (n->k == CALL && (n->s == "map" || n->s == "lreduce" || n->s == "rreduce" || n->s == "apply" || n->s == "eval"))) return true; for (auto &x : n->c) if (folds(x)) return true; return false; }
static inline bool balanced(const Str &s) { int d = 0; for (char ch : s) { if (ch == '(') d++; if (ch == ')' && --d < 0) return false; } return d == 0 && s.find('\\') == Str::npos; }

