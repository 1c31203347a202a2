// Generators shared by the expression suites.
#pragma once
#include "exprmodel.h"

// values a bundle's addresses hold
static inline Atom gx_num(Rng &r, const char *types) {
	char t = *r.pickc(types);
	switch (t) {
	case 'f': { static const float v[] = {0, 1, -1, 0.5f, -2.25f, 3.75f, 1e6f, -0.0f, 100.125f}; return A_f(r.chance(1, 4) ? (float)(r.range(-1000, 1000) / 8.) : v[r.below(9)]); }
	case 'd': if (r.chance(1, 12)) { static const double v[] = {1e-40, -1e-40, 1 + 1e-12, 1 - 1e-12, 3 + 1e-9, 3 - 1e-9, 1e-300, -1 - 1e-11}; return A_d(v[r.below(8)]); } // what a float cannot tell apart
	{ static const double v[] = {0, 1, -1, 0.5, -2.25, 3.75, 1e9, -0.0, 1e-3, 7.1}; return A_d(r.chance(1, 4) ? r.range(-100000, 100000) / 64. : v[r.below(10)]); }
	case 'T': case 'F': return A_tag(t);
	default: {
		int b = bits(t);
		uint64_t v;
		switch (r.below(6)) {
		case 0: { uint64_t edge[] = {0, 1, (uint64_t)-1, 1ull << (b - 1), (1ull << (b - 1)) - 1, (uint64_t)-2}; v = edge[r.below(6)]; } break;
		case 1: v = r.u64(); break;
		default: v = (uint64_t)(int64_t)r.range(is_unsigned(t) ? 0 : -12, 12);
		}
		return mk_int(t, (Big)(int64_t)v);
	}
	}
}
static inline Atom gx_tt(Rng &r) { return A_t(((uint64_t)r.range(1, 5000) << 32) | (r.flip() ? 0 : r.u64() & 0xffff0000)); }
static inline Str gx_word(Rng &r) {
	static const char *w[] = {"a", "b", "ab", "abc", "foo", "bar", "Foo", "", "zed", "10", "1.5", "x y", "hello world", "quux_long_string_value", "-3", "a,b", "a\\b\"c", "say \"\""};
	return w[r.below(r.chance(1, 6) ? 18 : 16)];
}
static inline Atom gx_atom(Rng &r) {
	switch (r.below(12)) {
	case 0: case 1: return A_s(gx_word(r));
	case 2: return gx_tt(r);
	case 3: return A_tag('N');
	case 4: return A_tag(r.flip() ? 'T' : 'F');
	default: return gx_num(r, "cCuUiiiIhHffdddTF");
	}
}
static inline Str quote_lit(const Str &s) { // scanner: only \" is an escape
	Str o = "\"";
	for (char c : s) { if (c == '"') o += '\\'; o += c; }
	return o + "\"";
}
static inline P gx_lit_i(Rng &, int32_t v) { return mkl(A_i(v), sf("%d", v)); }
static inline P gx_lit(Rng &r, int kind) { // kind 0 number, 1 string, 2 bool, 3 any
	if (kind == 3) kind = (int)r.below(4);
	switch (kind) {
	case 1: { Str s = gx_word(r); return mkl(A_s(s), quote_lit(s)); }
	case 2: { static const char *t[] = {"true", "True", "TRUE", "false", "False", "FALSE"}; int k = (int)r.below(6); return mkl(A_tag(k < 3 ? 'T' : 'F'), t[k]); }
	case 3: { static const char *t[] = {"nil", "Nil", "NIL"}; return mkl(A_tag('N'), t[r.below(3)]); }
	}
	switch (r.below(10)) {
	case 0: { static const char *t[] = {"0.5", "1.", ".25", "2.5e2", "1e3", "3.75", "0.0", "1E-2", "0x1p4", "100.125"}; static const double v[] = {.5, 1, .25, 250, 1000, 3.75, 0, .01, 16, 100.125}; int k = (int)r.below(10); return mkl(A_d(v[k]), t[k]); }
	case 1: { uint32_t v = r.flip() ? (uint32_t)r.below(20) : (uint32_t)r.u64(); return mkl(A_I(v), sf("0x%X", v)); }
	case 2: { uint64_t v = r.u64() | (1ull << 63); return r.flip() ? mkl(A_H(v), sf("0x%llx", (unsigned long long)v)) : mkl(A_H(5), "0x000000005"); }
	case 3: { static const char cs[] = "azAZ 09(,~"; char ch = cs[r.below(10)]; return mkl(A_c(ch), Str("'") + ch + "'"); }
	case 4: { double v = r.range(0, 4000) / 16.; Str s = sf("%.6f", v); return mkl(A_d(v), s); }
	case 5: { static const int32_t v[] = {0, 1, 2, 2147483647, 65536, 255}; return gx_lit_i(r, v[r.below(6)]); }
	default: return gx_lit_i(r, r.range(0, 12));
	}
}
static const char *GX_ADDR[] = {"/a", "/b", "/c", "/n/x", "/n/y", "/foo", "/list", "/s", "/t", "/z1", "/n", "/foo/b"};
static const int GX_NADDR = 12;
// a bundle with distinct literal addresses
static inline Bundle gx_bundle(Rng &r, int lo = 0, int hi = 7) {
	Bundle b;
	int n = r.range(lo, hi);
	std::set<Str> seen;
	for (int i = 0; i < n; i++) {
		Msg m;
		m.addr = GX_ADDR[r.below(GX_NADDR)];
		if (!seen.insert(m.addr).second) continue;
		int k = r.chance(1, 3) ? 1 : r.chance(1, 400) ? r.range(60, 600) : r.range(1, 5); // now and then longer than any buffer or counter kept small
		if (m.addr == "/s") for (int j = 0; j < k; j++) { m.a.push_back(A_s(gx_word(r))); if (k < 6 && r.chance(1, 100)) { Str w; int n = r.pick(std::vector<int>{130, 255, 256, 300, 520, 1100}); while ((int)w.size() < n) w += gx_word(r) + "."; m.a.back() = A_s(w); } }
		else if (m.addr == "/t") for (int j = 0; j < k; j++) m.a.push_back(gx_tt(r));
		else if (m.addr == "/z1") for (int j = 0; j < k; j++) m.a.push_back(gx_atom(r));
		else for (int j = 0; j < k; j++) m.a.push_back(gx_num(r, "cCuUiiIhHffddTF"));
		b.m.push_back(m);
	}
	return b;
}

static inline bool plain_addr(const Str &a) { for (char ch : a) if (!isalnum((unsigned char)ch) && ch != '/' && ch != '_') return false; return a.size() > 1; }
// typed random expressions (kind 0 number, 1 string, 2 bool, 3 any)
struct Gen {
	virtual ~Gen() {}
	Gen(Rng &rr, const Bundle &bb, Ctx &cc) : r(rr), b(bb), c(cc) {}
	Rng &r; const Bundle &b; Ctx &c;
	P addr(int kind) {
		if (b.m.empty() || r.chance(1, 60)) return mk(ADDR, r.chance(1, 2) ? "/nowhere" : GX_ADDR[r.below(GX_NADDR)]);
		std::vector<Str> ok;
		for (auto &m : b.m) {
			bool fit = plain_addr(m.addr);
			for (auto &a : m.a) { if (kind == 0) fit = fit && is_num(a.t); if (kind == 1) fit = fit && a.t == 's'; if (kind == 2) fit = fit && is_bool(a.t); }
			if (fit) ok.push_back(m.addr);
		}
		if (ok.empty()) return gx_lit(r, kind);
		Str a = r.pick(ok);
		return mk(ADDR, a);
	}
	virtual P leaf(int kind) { if (r.chance(45, 100)) return addr(kind); return gx_lit(r, kind); }
	virtual P gen(int d, int kind) { return base(d, kind); }
	P base(int d, int kind) {
		if (d <= 0 || r.chance(12, 100)) return leaf(kind);
		if (r.chance(4, 100)) kind = (int)r.below(4);
		switch (r.below(20)) {
		case 0: { P n = mk(LIST, ""); int k = r.range(1, 4); for (int i = 0; i < k; i++) n->c.push_back(gen(d - 1, kind)); return n; }
		case 1: return mk(TERN, "", {gen(d - 1, r.flip() ? 2 : 0), gen(d - 1, kind), gen(d - 1, kind)});
		case 2: return mk(COAL, r.flip() ? Str(GX_ADDR[r.below(GX_NADDR)]) : Str("/nowhere"), {gen(d - 1, kind)});
		case 3: { P n = mk(NTH, ""); n->c.push_back(gen(d - 1, kind)); int k = r.range(1, 2); for (int i = 0; i < k; i++) n->c.push_back(r.chance(9, 10) ? gx_lit_i(r, (int)r.below(3)) : gen(1, 0)); return n; }
		}
		if (kind == 3) kind = (int)r.below(3);
		if (kind == 1) {
			if (r.chance(1, 3)) return r.flip() ? mk(BIN, "+", {gen(d - 1, 1), gen(d - 1, 0)}) : mk(BIN, "+", {gen(d - 1, 0), gen(d - 1, 1)});
			return mk(BIN, "+", {gen(d - 1, 1), gen(d - 1, 1)});
		}
		if (kind == 2) {
			switch (r.below(8)) {
			case 0: return mk(UN, "!", {gen(d - 1, r.flip() ? 2 : 0)});
			case 1: return mk(BIN, r.flip() ? "&&" : "||", {gen(d - 1, 2), gen(d - 1, 2)});
			case 2: { int k = r.flip() ? 2 : 0; return mk(BIN, r.flip() ? "&" : "|", {gen(d - 1, k), gen(d - 1, k)}); }
			default: {
				static const char *o[] = {"==", "!=", "<", ">", "<=", ">="};
				int k = r.chance(1, 4) ? 1 : r.chance(1, 8) ? 2 : 0;
				P lhs = gen(d - 1, k);
				if (r.chance(1, 10)) return mk(BIN, o[r.below(6)], {lhs, lhs}); // equal operands
				return mk(BIN, o[r.below(6)], {lhs, gen(d - 1, r.chance(1, 12) ? 1 - (k & 1) : k)});
			}
			}
		}
		switch (r.below(14)) {
		case 0: return mk(UN, "-", {gen(d - 1, 0)});
		case 1: return mk(UN, "!", {gen(d - 1, 0)});
		case 2: return mk(BIN, "^", {gen(d - 1, 0), gen(d - 1, 0)});
		case 3: case 4: return mk(BIN, "%", {gen(d - 1, 0), gen(d - 1, 0)});
		case 5: { static const char *o[] = {"==", "!=", "<", ">", "<=", ">=", "&", "|"}; return mk(BIN, o[r.below(8)], {gen(d - 1, 0), gen(d - 1, 0)}); }
		case 6: if (!b.m.empty() && r.flip()) { // time arithmetic and text with numbers
				return r.flip() ? mk(BIN, r.flip() ? "+" : "-", {mk(ADDR, "/t"), r.flip() ? gen(d - 1, 0) : mk(ADDR, "/t")}) : mk(BIN, r.pick(std::vector<Str>{"==", "!=", "<", ">", "<=", ">="}), {mk(ADDR, "/t"), r.chance(1, 3) ? mk(ADDR, "/t") : gen(d - 1, 0)});
			} // fall through
		default: { static const char *o[] = {"+", "-", "*", "/"}; return mk(BIN, o[r.below(4)], {gen(d - 1, 0), gen(d - 1, 0)}); }
		}
	}
};

static inline Str types(const Val &v) { Str s; for (auto &a : v) s += a.t; return s; }

static inline Str stmt(Rng &r, const P &n, bool fancy) {
	Printer p(r);
	P m = n;
	if (n->k == LIT && n->a.t == 's') m = mk(LIST, "", {n}); // a bare string is not a statement
	p.put(m);
	return p.text(fancy);
}

