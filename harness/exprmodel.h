// Independent model of the expression language: syntax trees, a printer and a reference interpreter.
#pragma once
#include "refmatch.h"
extern "C" {
#include "osc_expr.h"
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *context);
}

typedef std::vector<Atom> Val;

struct Unspec { Str why; };   // the language does not define this: the case is not judged
struct TooBig : Unspec { TooBig(const Str &w) : Unspec{w} {} }; // and the case is not even run: values out of bounds
struct EvErr { Str why; };    // evaluation must report an error

enum NK { LIT, ADDR, LIST, BIN, UN, TERN, CALL, ASSIGN, CASSIGN, NTH, RANGE, ASGIDX, ASGRANGE, PREINC, POSTINC, COAL, COALEQ,
	LAMBDA, VAR, LAMCALL, ADDRCALL, BUNDLE, MEMBER, MEMASSIGN, QUOTE, VALUEOF, BARESTR };

struct Node;
typedef std::shared_ptr<Node> P;
struct Node {
	NK k;
	Str s;                  // operator, function name, address, variable or text of a literal
	Atom a;                 // literal
	std::vector<P> c;
	std::vector<Str> params; // lambda; addresses of a bundle literal
};
static inline P mk(NK k, const Str &s, std::vector<P> c = {}) { P p = std::make_shared<Node>(); p->k = k; p->s = s; p->c = c; return p; }
static inline P mkl(const Atom &a, const Str &text) { P p = mk(LIT, text); p->a = a; return p; }

// ---------------------------------------------------------------- printing
static inline int prec(const P &n) {
	switch (n->k) {
	case ASSIGN: case CASSIGN: case ASGIDX: case ASGRANGE: case MEMASSIGN: return 1;
	case TERN: return 2;
	case BIN: {
		const Str &o = n->s;
		if (o == "|" || o == "||") return 3;
		if (o == "&" || o == "&&") return 4;
		if (o == "==" || o == "!=") return 5;
		if (o == "<" || o == ">" || o == "<=" || o == ">=") return 6;
		if (o == "+" || o == "-") return 7;
		if (o == "*" || o == "/" || o == "%") return 8;
		return 9; // ^
	}
	case COAL: case COALEQ: case UN: return 10;
	default: return 12;
	}
}
struct Printer {
	Rng &r;
	std::vector<Str> t;
	int extra = 8;          // chance in 100 of redundant parentheses
	explicit Printer(Rng &rr) : r(rr) {}
	bool leaf(const P &n) { return n->k == LIT || n->k == ADDR || n->k == VAR || n->k == LAMBDA || n->k == BARESTR; }
	void o(const Str &s) { t.push_back(s); }
	void paren(const P &n, bool need) {
		if (leaf(n)) { put(n); return; }
		int k = need ? 1 : 0;
		while (r.chance(extra, 100) && k < 3) k++;
		for (int i = 0; i < k; i++) o("(");
		put(n);
		for (int i = 0; i < k; i++) o(")");
	}
	void args(const std::vector<P> &c, size_t from = 0) {
		for (size_t i = from; i < c.size(); i++) { if (i > from) o(","); paren(c[i], false); }
	}
	void put(const P &n) {
		int p = prec(n);
		switch (n->k) {
		case LIT: case ADDR: case VAR: case BARESTR: o(n->s); break;
		case LIST: o("["); args(n->c); o("]"); break;
		case BIN:
			paren(n->c[0], prec(n->c[0]) < p);
			o(n->s);
			paren(n->c[1], prec(n->c[1]) <= p);
			break;
		case UN: o(n->s); paren(n->c[0], prec(n->c[0]) < p); break;
		case TERN:
			paren(n->c[0], prec(n->c[0]) <= p);
			o("?");
			paren(n->c[1], prec(n->c[1]) <= p);
			o(":");
			paren(n->c[2], prec(n->c[2]) < p);
			break;
		case CALL: o(n->s); o("("); args(n->c); o(")"); break;
		case ASSIGN: o(n->s); o("="); paren(n->c[0], false); break;
		case CASSIGN: o(n->s.substr(1)); o(n->s.substr(0, 1) + "="); paren(n->c[0], false); break;
		case COALEQ: o(n->s); o("??="); paren(n->c[0], prec(n->c[0]) < 11); break;
		case COAL: o(n->s); o("??"); paren(n->c[0], prec(n->c[0]) < 11); break;
		case NTH: paren(n->c[0], prec(n->c[0]) < 12 || n->c[0]->k == LAMCALL || n->c[0]->k == ADDRCALL); o("[["); args(n->c, 1); o("]]"); break;
		case ASGIDX: o(n->s); o("[["); args(std::vector<P>(n->c.begin(), n->c.end() - 1)); o("]]"); o("="); paren(n->c.back(), false); break;
		case ASGRANGE:
			o(n->s); o("[[");
			for (size_t i = 0; i + 1 < n->c.size(); i++) { if (i) o(":"); paren(n->c[i], prec(n->c[i]) <= 2); }
			o("]]"); o("="); paren(n->c.back(), false);
			break;
		case PREINC: o(n->s.substr(0, 2)); o(n->s.substr(2)); break;
		case POSTINC: o(n->s.substr(2)); o(n->s.substr(0, 2)); break;
		case LAMBDA:
			o("lambda"); o("(");
			if (n->params.size() == 1 && r.flip()) { o(n->params[0]); }
			else { o("["); for (size_t i = 0; i < n->params.size(); i++) { if (i) o(","); o(n->params[i]); } o("]"); }
			o(","); args(n->c); o(")");
			break;
		case LAMCALL: o("("); put(n->c[0]); o(","); args(n->c, 1); o(")"); break;
		case ADDRCALL: o(n->s); o("("); args(n->c); o(")"); break;
		case BUNDLE:
			o("{");
			for (size_t i = 0; i < n->c.size(); i++) { if (i) o(","); o(n->params[i]); o(":"); paren(n->c[i], false); }
			o("}");
			break;
		case MEMBER: o(n->s); o("."); o(n->params[0]); break;
		case MEMASSIGN: o(n->s); o("."); o(n->params[0]); o("="); paren(n->c[0], false); break;
		case QUOTE: o("quote(" + n->s + ")"); break;
		case VALUEOF: o("`"); o(n->s); o("`"); break;
		case RANGE: break;
		}
	}
	static bool word(char c) { return isalnum((unsigned char)c) || c == '_' || c == '\'' || c == '"' || c == '.' || c == '/' || c == '#' || c == '*' || c == '?' || c == '[' || c == ']' || c == '{' || c == '}' || (unsigned char)c >= 0x80; }
	Str text(bool fancy = true) {
		Str s;
		for (size_t i = 0; i < t.size(); i++) {
			if (i) {
				char l = t[i - 1].back(), n = t[i][0];
				static const std::set<Str> ops = {"+", "*", "%", "^", "==", "!=", "<", ">", "<=", ">=", "&", "|", "&&", "||"};
				auto solid = [](char c) { return isalnum((unsigned char)c) || c == '"' || c == '\'' || c == '(' || c == ')' || c == '/'; };
				bool tight = (i + 1 < t.size() && ops.count(t[i]) && solid(l) && l != '/' && solid(t[i + 1][0]) && r.chance(1, 3)) || (i > 1 && ops.count(t[i - 1]) && solid(n) && !isspace((unsigned char)s.back()) && s.back() == l && r.chance(1, 2)) || (l == '(' || l == ')' || l == ',' || n == '(' || n == ')' || n == ',') && !(n == '(' && t[i - 1] == "quote");
				if (tight && (fancy ? r.chance(3, 4) : true)) { }
				else if (!fancy) s += " ";
				else switch (r.below(20)) {
				case 0: s += "  "; break;
				case 1: s += "\t"; break;
				case 2: s += "\n"; break;
				case 3: s += " # note, (1 + \"x\n"; break;
				default: s += " ";
				}
			}
			s += t[i];
		}
		return s;
	}
};

// ---------------------------------------------------------------- reference arithmetic
static inline bool is_float(char t) { return t == 'f' || t == 'd'; }
static inline bool is_int(char t) { return strchr("cCuUiIhH", t) && t; }
static inline bool is_bool(char t) { return t == 'T' || t == 'F'; }
static inline bool is_num(char t) { return is_float(t) || is_int(t) || is_bool(t); }
static inline int width(char t) { static const char *o = "cCuUiIhHfd"; const char *p = strchr(o, t); return p ? (int)(p - o) + 1 : 0; }
static inline int bits(char t) { switch (t) { case 'c': case 'C': return 8; case 'u': case 'U': return 16; case 'i': case 'I': return 32; default: return 64; } }
static inline bool is_unsigned(char t) { return t == 'C' || t == 'U' || t == 'I' || t == 'H'; }
typedef __int128 Big;
// the value of an integer-like atom
static inline Big ival(const Atom &a) {
	switch (a.t) {
	case 'c': return (int8_t)a.v; case 'C': return (uint8_t)a.v; case 'u': return (int16_t)a.v; case 'U': return (uint16_t)a.v;
	case 'i': return (int32_t)a.v; case 'I': return (uint32_t)a.v; case 'h': return (int64_t)a.v; case 'H': return (Big)(uint64_t)a.v;
	case 'T': return 1;
	default: return 0;
	}
}
static inline Big wrap(Big v, char t) {
	unsigned __int128 m = ((unsigned __int128)1 << bits(t)) - 1;
	Big x = (Big)((unsigned __int128)v & m);
	if (!is_unsigned(t) && (x >> (bits(t) - 1)) & 1) x -= (Big)1 << bits(t);
	return x;
}
static inline Atom mk_int(char t, Big v) {
	v = wrap(v, t);
	switch (t) {
	case 'c': return A_c((int8_t)v); case 'C': return A_C((uint8_t)v); case 'u': return A_u((int16_t)v); case 'U': return A_U((uint16_t)v);
	case 'i': return A_i((int32_t)v); case 'I': return A_I((uint32_t)v); case 'h': return A_h((int64_t)v); default: return A_H((uint64_t)v);
	}
}
static inline double dval(const Atom &a) {
	if (a.t == 'd') return atom_d(a);
	if (a.t == 'f') return atom_f(a);
	if (a.t == 'H') return (double)(uint64_t)a.v;
	if (is_int(a.t) || is_bool(a.t)) return (double)(int64_t)ival(a);
	throw Unspec{"number expected"};
}
static inline Atom A_bool(bool b) { return A_tag(b ? 'T' : 'F'); }
static inline bool truth(const Atom &a) {
	if (is_num(a.t)) {
		double d = dval(a);
		if (is_float(a.t) && (d != floor(d) || fabs(d) > 1e9)) throw Unspec{"truth of a fraction"};
		if ((a.t == 'h' || a.t == 'H') && fabs(d) > 2e9) throw Unspec{"truth of a wide integer"};
		return d != 0;
	}
	if (a.t == 'N') return false;
	throw Unspec{"truth of a non-number"};
}
static inline Str to_str(const Atom &a) { // C08 judges the conversion itself
	Rng r; r.seed(1, 2, 3);
	t_osc_atom_u *x = mk_atom(r, a);
	char *p = nullptr;
	osc_atom_u_getString(x, 0, &p);
	Str s = p ? p : "";
	osc_mem_free(p);
	osc_atom_u_free(x);
	return s;
}
static inline char wider(char x, char y) { char t = width(x) >= width(y) ? x : y; return is_bool(t) ? 'i' : t; }

static inline t_osc_timetag num_tt(const Atom &a) {
	double d = dval(a);
	if (!(d >= 0 && d < 4e9)) throw Unspec{"time from a number out of range"};
	return osc_timetag_floatToTimetag(d);
}
static inline bool nan_in(const Atom &x, const Atom &y) { return (is_float(x.t) && std::isnan(dval(x))) || (is_float(y.t) && std::isnan(dval(y))); }

// one element of a binary operator
static inline Atom op2(const Str &o, const Atom &x, const Atom &y) {
	bool nn = is_num(x.t) && is_num(y.t);
	if (o == "^") {
		if (!nn) throw Unspec{"power of a non-number"};
		return A_d(pow(dval(x), dval(y)));
	}
	if (o == "+") {
		if (x.t == 's' && y.t == 's') return A_s(x.s + y.s);
		if (x.t == 's' && is_num(y.t)) return A_s(x.s + to_str(y));
		if (y.t == 's' && is_num(x.t)) return A_s(to_str(x) + y.s);
		if (x.t == 't' && y.t == 't') return A_t(x.v + y.v);
		if (x.t == 't' && is_num(y.t)) return A_t(x.v + tt_val(num_tt(y)));
		if (y.t == 't' && is_num(x.t)) return A_t(tt_val(num_tt(x)) + y.v);
	}
	if (o == "-") {
		if (x.t == 't' && y.t == 't') { if (x.v < y.v) throw Unspec{"negative duration"}; return A_d(osc_timetag_timetagToFloat(osc_timetag_subtract(mk_tt(x.v), mk_tt(y.v)))); }
		if (x.t == 't' && is_num(y.t)) { uint64_t v = tt_val(num_tt(y)); if (v > x.v) throw Unspec{"negative time"}; return A_t(x.v - v); }
		if (y.t == 't' && is_num(x.t)) { uint64_t v = tt_val(num_tt(x)); if (v < y.v) throw Unspec{"negative time"}; return A_t(v - y.v); }
	}
	if (o == "+" || o == "-" || o == "*" || o == "/") {
		if (!nn) {
			if (x.t == 't' || y.t == 't') throw Unspec{"arithmetic on a time"};
			throw EvErr{"arithmetic on a non-number"};
		}
		if (is_float(x.t) || is_float(y.t)) {
			double a = dval(x), b = dval(y);
			if (o == "+") return A_d(a + b);
			if (o == "-") return A_d(a - b);
			if (o == "*") return A_d(a * b);
			if (b == 0) return A_s("Inf");
			return A_d(a / b);
		}
		char t = wider(x.t, y.t);
		Big a = wrap(ival(x), t), b = wrap(ival(y), t);
		if (o == "+") return mk_int(t, a + b);
		if (o == "-") return mk_int(t, a - b);
		if (o == "*") return mk_int(t, (Big)((unsigned __int128)a * (unsigned __int128)b));
		if (b == 0) return A_s("Inf");
		return mk_int(t, a / b);
	}
	if (o == "%") {
		if (!nn) throw Unspec{"modulo of a non-number"};
		double b = dval(y);
		if (b == 0) return x;
		if (is_float(x.t) || is_float(y.t)) {
			double a = dval(x);
			if (!std::isfinite(a) || !std::isfinite(b)) throw Unspec{"modulo of an infinity"};
			double q = floor(a / fabs(b));
			if (fabs(q) > 1e15) throw Unspec{"modulo beyond the precision of a double"};
			return A_d(a - fabs(b) * q);
		}
		Big a = ival(x), m = ival(y);
		if (m < 0) m = -m;
		if (a > ((Big)1 << 50) || a < -((Big)1 << 50) || m > ((Big)1 << 50)) throw Unspec{"modulo of a wide integer"};
		Big v = a % m;
		if (v < 0) v += m;
		char t = wider(x.t, y.t);
		if (width(t) < width('i')) t = 'i';
		return mk_int(t, v);
	}
	if (o == "<" || o == "<=" || o == ">" || o == ">=") {
		int c;
		if (x.t == 's' && y.t == 's') c = strcmp(x.s.c_str(), y.s.c_str());
		else if (x.t == 's' && is_num(y.t)) c = 1;
		else if (y.t == 's' && is_num(x.t)) c = -1;
		else if (nn) {
			if (nan_in(x, y)) return A_bool(false);
			double a = dval(x), b = dval(y); c = a < b ? -1 : a > b;
		}
		else if ((x.t == 't' || is_num(x.t)) && (y.t == 't' || is_num(y.t))) {
			uint64_t a = x.t == 't' ? x.v : tt_val(num_tt(x)), b = y.t == 't' ? y.v : tt_val(num_tt(y));
			c = a < b ? -1 : a > b;
		} else throw EvErr{"comparison of a non-number"};
		return A_bool(o == "<" ? c < 0 : o == "<=" ? c <= 0 : o == ">" ? c > 0 : c >= 0);
	}
	if (o == "==" || o == "!=") {
		bool e;
		if (x.t == 's' && y.t == 's') e = !strcmp(x.s.c_str(), y.s.c_str());
		else if (nn) e = dval(x) == dval(y);
		else if ((x.t == 't' || is_num(x.t)) && (y.t == 't' || is_num(y.t))) {
			uint64_t a = x.t == 't' ? x.v : tt_val(num_tt(x)), b = y.t == 't' ? y.v : tt_val(num_tt(y));
			e = a == b;
		} else if (x.t == 'N' || y.t == 'N') e = x.t == y.t;
		else if (x.t == '.' && y.t == '.') e = enc_bundle(*x.b) == enc_bundle(*y.b);
		else throw Unspec{"equality of different kinds"};
		return A_bool(e == (o == "=="));
	}
	if (o == "&" || o == "|") {
		bool a = truth(x), b = truth(y);
		return A_bool(o == "&" ? a && b : a || b);
	}
	throw Unspec{"operator " + o};
}
static inline Val broadcast(const Str &o, const Val &x, const Val &y) {
	if (x.empty() || y.empty()) throw Unspec{"an operator on an empty list"};
	size_t n = x.size() == 1 || y.size() == 1 ? std::max(x.size(), y.size()) : std::min(x.size(), y.size());
	Val r;
	for (size_t i = 0; i < n; i++) r.push_back(op2(o, x[x.size() == 1 ? 0 : i], y[y.size() == 1 ? 0 : i]));
	return r;
}

static inline bool closev(const Atom &x, const Atom &y) { // NaNs compare equal whatever their payload
	if (x.t != y.t) return false;
	if (x.t == 'd' && std::isnan(atom_d(x)) && std::isnan(atom_d(y))) return true;
	if (x.t == 'f' && std::isnan(atom_f(x)) && std::isnan(atom_f(y))) return true;
	return x == y;
}
static inline bool closev(const Val &x, const Val &y) {
	if (x.size() != y.size()) return false;
	for (size_t i = 0; i < x.size(); i++) if (!closev(x[i], y[i])) return false;
	return true;
}
static inline Str showv(const Val &v) { Str s = "["; for (auto &a : v) { if (s.size() > 1) s += ", "; s += show(a); } return s + "]"; }

// ---------------------------------------------------------------- reference interpreter
struct Interp {
	Bundle b;
	std::vector<std::map<Str, Val>> scope;
	std::map<Str, std::function<Val(const std::vector<Val> &)>> fn; // library functions a suite adds
	long assigns = 0, evals = 0;
	int steps = 0;

	const Msg *full(const Str &addr) { // first full match: addresses looked up may be patterns
		if (addr.empty() || addr[0] != '/') return nullptr;
		for (auto &m : b.m) {
			if (ref_match(addr, m.addr).r == 3) return &m;
		}
		return nullptr;
	}
	Val look(const Str &addr) {
		const Msg *m = full(addr);
		if (!m) throw EvErr{"unbound " + addr};
		return m->a;
	}
	bool bound(const Str &addr) { for (auto &m : b.m) if (ref_match(addr, m.addr).r == 3 && !m.a.empty()) return true; return false; }
	virtual void assign(const Str &addr, const Val &v) {
		assigns++;
		for (auto &m : b.m) if (m.addr == addr) { m.a = v; return; }
		Msg m; m.addr = addr; m.a = v;
		b.m.push_back(m);
	}
	Val evals_of(const P &n, size_t i) { return ev(n->c[i]); }
	static long index_of(const Atom &a) {
		if (!is_num(a.t)) throw Unspec{"index"};
		double d = dval(a);
		if (fabs(d) > 1e9) throw Unspec{"index out of all bounds"};
		return (long)d;
	}
	static Val aseq(const Val &lo, const Val &hi, const Val *st) {
		if (lo.size() != 1 || hi.size() != 1 || (st && st->size() != 1)) throw Unspec{"range of lists"};
		if (!is_int(lo[0].t) || !is_int(hi[0].t) || (st && !is_int((*st)[0].t))) throw Unspec{"range of non-integers"};
		Big a = ival(lo[0]), z = ival(hi[0]), d = st ? ival((*st)[0]) : (a <= z ? 1 : -1);
		if (a > 1000000 || a < -1000000 || z > 1000000 || z < -1000000) throw Unspec{"range too wide"};
		if (a == z) return lo;
		if (d == 0 || (d > 0) != (a < z)) throw EvErr{"the step leads away"};
		Val r;
		for (Big x = a; d > 0 ? x <= z : x >= z; x += d) r.push_back(mk_int('i', x));
		return r;
	}
	Val set_indexes(const Str &addr, const Val &idx, const Val &dat) {
		Val cur = look(addr);
		if (idx.empty() || dat.empty()) throw EvErr{"nothing to assign"};
		auto ok = [&](long i) { return i >= 0 && i < (long)cur.size(); };
		if (idx.size() == 1) {
			long i = index_of(idx[0]);
			if (!ok(i)) { if (dat.size() > 1) throw EvErr{"index out of range"}; throw Unspec{"index out of range"}; }
			cur[i] = dat[0];
		} else {
			size_t n = dat.size() == 1 ? idx.size() : std::min(idx.size(), dat.size());
			for (size_t k = 0; k < n; k++) {
				long i = index_of(idx[k]);
				if (!ok(i)) continue;
				cur[i] = dat[dat.size() == 1 ? 0 : k];
			}
		}
		// the first message the address names exactly is replaced
		assigns++;
		for (auto &m : b.m) if (m.addr == addr) { m.a = cur; return cur; }
		throw Unspec{"indexed assignment through a pattern"};
	}
	Val inc(const Val &v, int d) {
		Val r;
		for (auto &a : v) {
			if (a.t == 'd') r.push_back(A_d(atom_d(a) + d));
			else if (a.t == 'f') r.push_back(A_f(atom_f(a) + d));
			else if (is_int(a.t)) r.push_back(mk_int(a.t, ival(a) + d));
			else throw Unspec{"increment of a non-number"};
		}
		return r;
	}
	virtual Val call(const P &n) {
		auto i = fn.find(n->s);
		if (i == fn.end()) throw Unspec{"function " + n->s};
		std::vector<Val> a;
		for (auto &x : n->c) a.push_back(ev(x));
		return i->second(a);
	}
	virtual Val other(const P &) { throw Unspec{"construct"}; }
	virtual ~Interp() {}
	Val ev(const P &n) {
		Val v = ev1(n);
		if (v.size() > 20000) throw TooBig{"a list too long"};
		for (auto &a : v) if (a.t == 's' && a.s.size() > 20000) throw TooBig{"a string too long"};
		return v;
	}
	Val ev1(const P &n) {
		if (++steps > 5000) throw TooBig{"too long"};
		evals++;
		switch (n->k) {
		case LIT: return {n->a};
		case ADDR: return look(n->s);
		case LIST: {
			Val r;
			for (auto &x : n->c) { Val v = ev(x); r.insert(r.end(), v.begin(), v.end()); }
			return r;
		}
		case BIN:
			if (n->s == "&&" || n->s == "||") {
				Val l = ev(n->c[0]);
				if (l.size() != 1) throw Unspec{"logic on a list"};
				if (!is_bool(l[0].t)) throw EvErr{"&& and || need booleans"};
				if ((n->s == "&&") == (l[0].t == 'F')) return {l[0]};
				Val r = ev(n->c[1]);
				if (r.size() != 1) throw Unspec{"logic on a list"};
				if (!is_bool(r[0].t)) throw EvErr{"&& and || need booleans"};
				return {r[0]};
			} else {
				Val x = ev(n->c[0]), y = ev(n->c[1]);
				return broadcast(n->s, x, y);
			}
		case UN:
			if (n->s == "-") return broadcast("-", {A_i(0)}, ev(n->c[0]));
			else {
				Val v = ev(n->c[0]), r;
				for (auto &a : v) {
					if (is_int(a.t)) r.push_back(A_i(ival(a) == 0));
					else if (is_float(a.t)) r.push_back(A_i(dval(a) == 0));
					else if (is_bool(a.t)) r.push_back(A_bool(a.t == 'F'));
					else if (a.t == 'N') r.push_back(A_bool(true));
					else throw Unspec{"not of a non-number"};
				}
				return r;
			}
		case TERN: {
			Val t = ev(n->c[0]);
			if (t.size() != 1) throw Unspec{"a list as a condition"};
			return ev(n->c[truth(t[0]) ? 1 : 2]);
		}
		case ASSIGN: { Val v = ev(n->c[0]); assign(n->s, v); return v; }
		case CASSIGN: {
			Str addr = n->s.substr(1);
			Val l = look(addr), r = ev(n->c[0]);
			Val v = broadcast(n->s.substr(0, 1), l, r);
			assign(addr, v);
			return v;
		}
		case NTH: {
			std::vector<Val> a;
			for (auto &x : n->c) a.push_back(ev(x));
			Val r;
			const Val &l = a[0];
			bool blob = l.size() == 1 && l[0].t == 'b';
			for (size_t j = 1; j < a.size(); j++)
				for (auto &ix : a[j]) {
					long i = index_of(ix);
					if (i < 0 || i >= (long)(blob ? l[0].s.size() : l.size())) throw EvErr{"index out of range"};
					r.push_back(blob ? A_c((int8_t)l[0].s[i]) : l[i]);
				}
			return r;
		}
		case ASGIDX: {
			Val was = look(n->s);
			Val idx;
			for (size_t i = 0; i + 1 < n->c.size(); i++) { Val v = ev(n->c[i]); idx.insert(idx.end(), v.begin(), v.end()); }
			Val dat = ev(n->c.back());
			if (!closev(was, look(n->s))) throw Unspec{"an indexed assignment whose operands change its target"};
			return set_indexes(n->s, idx, dat);
		}
		case ASGRANGE: {
			Val was = look(n->s);
			Val lo = ev(n->c[0]), st, hi;
			bool s = n->c.size() == 4;
			if (s) { hi = ev(n->c[2]); st = ev(n->c[1]); } else hi = ev(n->c[1]);
			Val idx = aseq(lo, hi, s ? &st : nullptr);
			Val dat = ev(n->c.back());
			if (!closev(was, look(n->s))) throw Unspec{"an indexed assignment whose operands change its target"};
			return set_indexes(n->s, idx, dat);
		}
		case PREINC: { Str a = n->s.substr(2); Val v = inc(look(a), n->s[0] == '+' ? 1 : -1); assign(a, v); return v; }
		case POSTINC: { Str a = n->s.substr(2); Val o = look(a), v = inc(o, n->s[0] == '+' ? 1 : -1); assign(a, v); return o; }
		case COAL: { if (bound(n->s)) return look(n->s); return ev(n->c[0]); }
		case COALEQ: { Val v = bound(n->s) ? look(n->s) : ev(n->c[0]); assign(n->s, v); return v; }
		case VAR:
			for (size_t i = scope.size(); i-- > 0;) { auto x = scope[i].find(n->s); if (x != scope[i].end()) return x->second; }
			return {A_s(n->s)};
		case CALL: return call(n);
		default: return other(n);
		}
	}
};

// ---------------------------------------------------------------- running the library
struct Run {
	int parse = 0, eval = 0;    // error codes
	Val out;
	bool has_out = false;
	Str bytes;                  // bundle afterwards
	int nexpr = 0;
};
static thread_local int g_reports = 0;
static int count_report(void *, const char *const) { g_reports++; return 0; }
// calls of the library that can report errors; the suite about reports passes a context and is told what happened
enum Stage { PARSE, EVAL, PARSEFN };
static thread_local void *g_ctx = nullptr;
static thread_local void (*g_before)(Stage, const char *, const Str *) = nullptr;
static thread_local void (*g_after)(Stage, int) = nullptr;
static inline int lib_parse(char *t, t_osc_expr **f) {
	if (g_before) g_before(PARSE, t, nullptr);
	int e = osc_expr_parser_parseExpr(t, f, g_ctx);
	if (g_after) g_after(PARSE, e);
	return e;
}
static inline int lib_eval(t_osc_expr *f, long *len, char **p, t_osc_atom_ar_u **o) {
	if (g_before) { Str b(*p, *len); g_before(EVAL, nullptr, &b); }
	int e = osc_expr_eval(f, len, p, o, g_ctx);
	if (g_after) g_after(EVAL, e);
	return e;
}
static inline int lib_parse_fn(char *t, t_osc_expr_rec **f) {
	if (g_before) g_before(PARSEFN, t, nullptr);
	int e = osc_expr_parser_parseFunction(t, f, g_ctx);
	if (g_after) g_after(PARSEFN, e);
	return e;
}

static inline Val take_out(t_osc_atom_ar_u *o) {
	Val v;
	for (long i = 0; i < osc_atom_array_u_getLen(o); i++) v.push_back(rd_atom_u((t_osc_atom_u *)osc_atom_array_u_get(o, i)));
	return v;
}
// evaluates every expression of f in order against a copy of the bundle; stops at the first error, as callers do
static inline void run_list(t_osc_expr *f, const Str &bundle, Run &r) {
	long len = (long)bundle.size();
	char *p = (char *)osc_mem_alloc(len);
	memcpy(p, bundle.data(), len);
	r.nexpr = 0;
	for (t_osc_expr *e = f; e; e = osc_expr_next(e)) {
		t_osc_atom_ar_u *o = nullptr;
		r.eval = lib_eval(e, &len, &p, &o);
		r.nexpr++;
		r.out.clear();
		r.has_out = o != nullptr;
		if (o) { if (!r.eval) r.out = take_out(o); osc_atom_array_u_free(o); }
		if (r.eval) break;
	}
	r.bytes = Str(p, len);
	osc_mem_free(p);
}
static inline Run run_text(const Str &text, const Str &bundle) {
	Run r;
	Exact t(Str(text.c_str(), text.size() + 1));
	t_osc_expr *f = nullptr;
	r.parse = lib_parse(t.p, &f);
	if (r.parse) { if (f) osc_expr_free(f); return r; }
	run_list(f, bundle, r);
	osc_expr_free(f);
	return r;
}
