// Reference models of the expression library's functions (from its documentation table).
#pragma once
#include "exprgen.h"
extern "C" {
#include "osc_match.h"
}

typedef std::vector<Val> Args;
typedef std::function<Val(const Args &)> Fn;
// "" when the result is right; otherwise what is wrong
typedef std::function<Str(const Args &, const Val &)> Judge;

struct LibFn {
	Fn fn;
	Judge judge;          // replaces the comparison when several results are right
	Str args;             // how arguments are generated (see lib.cpp)
};
static thread_local double lib_tol; // absolute tolerance the last call asks for

static inline void need_nums(const Val &v) { for (auto &a : v) if (!is_num(a.t)) throw Unspec{"a non-number"}; }
static inline void need_one(const Val &v) { if (v.size() != 1) throw Unspec{"a list for a single value"}; }
static inline void need_some(const Val &v) { if (v.empty()) throw Unspec{"an empty list"}; }
static inline bool any_float(const Val &v) { for (auto &a : v) if (is_float(a.t)) return true; return false; }
static inline bool has_nan(const Val &v) { for (auto &a : v) if (is_float(a.t) && std::isnan(dval(a))) return true; return false; }
static inline bool exact53(const Val &v) { for (auto &a : v) if (!is_float(a.t) && (ival(a) > ((Big)1 << 53) || ival(a) < -((Big)1 << 53))) return false; return true; }
static inline Val fitting(Big v) {
	if (v >= INT32_MIN && v <= INT32_MAX) return {A_i((int32_t)v)};
	if (v > 0 && v <= (Big)UINT32_MAX) return {A_I((uint32_t)v)};
	return {A_h((int64_t)v)};
}
static inline Atom whole(double d) { return fitting((Big)trunc(d))[0]; } // an integer result of a computation in doubles
static inline char largest(const Args &a) { // the widest numeric type present
	char t = 0;
	for (auto &v : a) for (auto &x : v) { if (!is_float(x.t) && !is_int(x.t)) throw Unspec{"a non-number"}; if (!t || width(x.t) > width(t)) t = x.t; }
	return t;
}
static inline Atom conv(char t, const Atom &a) { // C conversion
	if (t == 'd') return A_d(dval(a));
	if (t == 'f') return A_f(a.t == 'f' ? atom_f(a) : a.t == 'd' ? (float)atom_d(a) : a.t == 'H' ? (float)(uint64_t)a.v : (float)(int64_t)ival(a));
	if (is_float(a.t)) {
		double d = trunc(dval(a));
		Big lo = is_unsigned(t) ? 0 : -((Big)1 << (bits(t) - 1)), hi = ((Big)1 << (is_unsigned(t) ? bits(t) : bits(t) - 1)) - 1;
		if (!(d >= (double)lo && fabs(d) < 1e18) || (Big)d > hi) throw Unspec{"a conversion out of range"};
		return mk_int(t, (Big)d);
	}
	return mk_int(t, ival(a));
}
static inline uint32_t bswap32_(uint32_t x) { return x >> 24 | (x >> 8 & 0xff00) | (x << 8 & 0xff0000) | x << 24; }
static inline uint64_t bswap64_(uint64_t x) { return (uint64_t)bswap32_((uint32_t)x) << 32 | bswap32_((uint32_t)(x >> 32)); }
static inline Str cast_str(const Atom &a) {
	if (a.t == 'c' || a.t == 'C') { long v = (long)ival(a); return v >= 32 && v < 127 ? Str(1, (char)v) : sf("%ld", v); }
	return to_str(a);
}
static inline bool same_set(Val a, Val b) { // as multisets
	if (a.size() != b.size()) return false;
	std::vector<Str> x, y;
	for (auto &v : a) x.push_back(show(v));
	for (auto &v : b) y.push_back(show(v));
	std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
	return x == y;
}
static inline int order(const Atom &x, const Atom &y) { // numbers before strings
	if (x.t == 's' && y.t == 's') return strcmp(x.s.c_str(), y.s.c_str());
	if (x.t == 's') return 1;
	if (y.t == 's') return -1;
	double a = dval(x), b = dval(y);
	return a < b ? -1 : a > b;
}
static inline void need_sortable(const Val &v) { for (auto &a : v) if (!is_num(a.t) && a.t != 's') throw Unspec{"sorting something else"}; if (has_nan(v)) throw Unspec{"sorting NaN"}; }

// convex hull: indexes of the corner points; throws when the points are not in general position
static inline std::set<int> hull_of(const std::vector<double> &x, const std::vector<double> &y) {
	int n = (int)x.size();
	auto cr = [&](int o, int a, int b) { return (x[a] - x[o]) * (y[b] - y[o]) - (y[a] - y[o]) * (x[b] - x[o]); };
	for (int i = 0; i < n; i++) {
		if (fabs(x[i]) > 1e4 || fabs(y[i]) > 1e4 || x[i] * 64 != floor(x[i] * 64) || y[i] * 64 != floor(y[i] * 64)) throw Unspec{"hull of points without exact coordinates"};
		for (int j = 0; j < i; j++) {
			if (x[i] == x[j]) throw Unspec{"hull of points one above the other"};
			for (int k = 0; k < j; k++) if (cr(i, j, k) == 0) throw Unspec{"hull of collinear points"};
		}
	}
	std::set<int> h;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { // an edge has every other point on one side
		if (i == j) continue;
		bool all = true;
		for (int k = 0; k < n && all; k++) if (k != i && k != j && cr(i, j, k) < 0) all = false;
		if (all) { h.insert(i); h.insert(j); }
	}
	return h;
}

static inline std::map<Str, LibFn> lib_table() {
	std::map<Str, LibFn> L;
	auto add = [&](const Str &n, const Str &args, Fn f, Judge j = nullptr) { L[n] = LibFn{f, j, args}; };
	// ---- functional forms of operators
	static const char *ops[][2] = {{"add", "+"}, {"sub", "-"}, {"mul", "*"}, {"div", "/"}, {"mod", "%"}, {"lt", "<"}, {"le", "<="}, {"gt", ">"}, {"ge", ">="}, {"eq", "=="}, {"ne", "!="}, {"and", "&"}, {"or", "|"}};
	for (auto &o : ops) { Str op = o[1]; add(o[0], op == "&" || op == "|" ? "kk" : "nn", [op](const Args &a) { return broadcast(op, a[0], a[1]); }); }
	for (int k = 0; k < 2; k++) {
		int d = k ? -1 : 1;
		add(k ? "minus1" : "plus1", "n", [d](const Args &a) {
			Val r;
			for (auto &x : a[0]) {
				if (x.t == 'd') r.push_back(A_d(atom_d(x) + d));
				else if (x.t == 'f') r.push_back(A_f(atom_f(x) + d));
				else if (is_int(x.t)) r.push_back(mk_int(x.t, ival(x) + d));
				else throw Unspec{"increment of a non-number"};
			}
			return r;
		});
	}
	// ---- mathematics, element by element
	struct F1 { const char *n; double (*f)(double); const char *args; };
	static const F1 f1[] = {{"abs", fabs, "n"}, {"acos", acos, "r"}, {"asin", asin, "r"}, {"atan", atan, "n"}, {"ceil", ceil, "n"}, {"cos", cos, "m"}, {"cosh", cosh, "m"},
		{"exp", exp, "m"}, {"floor", floor, "n"}, {"log", log, "p"}, {"log10", log10, "p"}, {"sin", sin, "m"}, {"sinh", sinh, "m"}, {"sqrt", sqrt, "p"}, {"tan", tan, "m"}, {"tanh", tanh, "m"},
		{"erf", erf, "m"}, {"erfc", erfc, "m"}, {"j0", j0, "m"}, {"j1", j1, "m"}, {"lgamma", lgamma, "p"}, {"y0", y0, "p"}, {"y1", y1, "p"}, {"acosh", acosh, "p"}, {"asinh", asinh, "m"},
		{"atanh", atanh, "r"}, {"cbrt", cbrt, "n"}, {"expm1", expm1, "m"}, {"logb", logb, "p"}, {"round", round, "n"}};
	for (auto &f : f1) {
		auto g = f.f;
		add(f.n, f.args, [g](const Args &a) { need_nums(a[0]); if (a[0].empty()) throw EvErr{"nothing to compute"}; Val r; for (auto &x : a[0]) r.push_back(A_d(g(dval(x)))); return r; });
	}
	add("nextafter", "n", [](const Args &a) { need_nums(a[0]); need_some(a[0]); Val r; for (auto &x : a[0]) r.push_back(A_d(nextafter(dval(x), INFINITY))); return r; },
		[](const Args &a, const Val &o) -> Str { // exactly the next one, not merely a close one
			if (o.size() != a[0].size()) return "wrong length";
			for (size_t i = 0; i < o.size(); i++) if (o[i].t != 'd' || atom_d(o[i]) != nextafter(dval(a[0][i]), INFINITY)) return "element " + std::to_string(i) + " is not the next double";
			return "";
		});
	struct F2 { const char *n; double (*f)(double, double); };
	static const F2 f2[] = {{"atan2", atan2}, {"fmod", fmod}, {"pow", pow}, {"hypot", hypot}, {"remainder", remainder}};
	for (auto &f : f2) {
		auto g = f.f;
		add(f.n, "mm", [g](const Args &a) {
			need_nums(a[0]); need_nums(a[1]); need_some(a[0]); need_some(a[1]);
			Val r;
			size_t n = a[0].size() == 1 || a[1].size() == 1 ? std::max(a[0].size(), a[1].size()) : std::min(a[0].size(), a[1].size());
			for (size_t i = 0; i < n; i++) r.push_back(A_d(g(dval(a[0][a[0].size() == 1 ? 0 : i]), dval(a[1][a[1].size() == 1 ? 0 : i]))));
			return r;
		});
	}
	add("ilogb", "p", [](const Args &a) { need_nums(a[0]); Val r; for (auto &x : a[0]) { double d = dval(x); if (d == 0 || !std::isfinite(d)) throw Unspec{"exponent of that"}; r.push_back(A_i(ilogb(d))); } return r; });
	add("jn", "zx", [](const Args &a) { need_one(a[0]); need_one(a[1]); need_nums(a[0]); need_nums(a[1]); if (!is_int(a[0][0].t)) throw Unspec{"order"}; return Val{A_d(jn((int)ival(a[0][0]), dval(a[1][0])))}; });
	add("yn", "zP", [](const Args &a) { need_one(a[0]); need_one(a[1]); need_nums(a[0]); need_nums(a[1]); if (!is_int(a[0][0].t)) throw Unspec{"order"}; return Val{A_d(yn((int)ival(a[0][0]), dval(a[1][0])))}; });
	add("sign", "n", [](const Args &a) { need_nums(a[0]); if (has_nan(a[0])) throw Unspec{"sign of NaN"}; Val r; for (auto &x : a[0]) { double d = dval(x); r.push_back(A_i(d > 0 ? 1 : d < 0 ? -1 : 0)); } return r; });
	add("not", "k", [](const Args &a) {
		Val r;
		for (auto &x : a[0]) {
			if (is_int(x.t)) r.push_back(A_i(ival(x) == 0));
			else if (is_float(x.t)) r.push_back(A_i(dval(x) == 0));
			else if (is_bool(x.t)) r.push_back(A_bool(x.t == 'F'));
			else if (x.t == 'N') r.push_back(A_bool(true));
			else throw Unspec{"not of a non-number"};
		}
		return r;
	});
	add("mtof", "m?P", [](const Args &a) { need_nums(a[0]); for (auto &x : a[0]) if (is_bool(x.t)) throw Unspec{"note"}; double b = 440; if (a.size() > 1) { need_one(a[1]); need_nums(a[1]); b = dval(a[1][0]); } Val r; for (auto &x : a[0]) r.push_back(A_d(b * pow(2, (dval(x) - 69) / 12))); return r; });
	add("ftom", "p?P", [](const Args &a) { need_nums(a[0]); for (auto &x : a[0]) if (is_bool(x.t)) throw Unspec{"frequency"}; double b = 440; if (a.size() > 1) { need_one(a[1]); need_nums(a[1]); b = dval(a[1][0]); } Val r; lib_tol = 1e-9; for (auto &x : a[0]) r.push_back(A_d(69 + 12 * log2(dval(x) / b))); return r; });
	// ---- constants
	struct K { const char *n; double v; double tol; };
	static const K ks[] = {{"pi", M_PI, 0}, {"twopi", 2 * M_PI, 0}, {"halfpi", M_PI / 2, 0}, {"quarterpi", M_PI / 4, 0}, {"oneoverpi", 1 / M_PI, 0}, {"twooverpi", 2 / M_PI, 0}, {"degtorad", M_PI / 180, 1e-6}, {"radtodeg", 180 / M_PI, 1e-5},
		{"e", M_E, 0}, {"lntwo", log(2), 0}, {"lnten", log(10), 0}, {"logtwoe", 1 / log(2), 0}, {"logtene", 1 / log(10), 0}, {"sqrttwo", sqrt(2), 0}, {"sqrthalf", sqrt(.5), 0}, {"phi", (1 + sqrt(5)) / 2, 1e-6}, {"twelfth_root_of_2", pow(2, 1 / 12.), 1e-9}, {"thirteenth_root_of_3", pow(3, 1 / 13.), 1e-9}};
	for (auto &k : ks) { K kk = k; add(k.n, "", [kk](const Args &) { lib_tol = kk.tol; return Val{A_d(kk.v)}; }); }
	// ---- aggregates
	add("sum", "n", [](const Args &a) {
		Val all; for (auto &v : a) all.insert(all.end(), v.begin(), v.end());
		need_nums(all);
		double s = 0, m = 0; Big b = 0, bm = 0;
		for (auto &x : all) { double d = dval(x); s += d; m += fabs(d); if (!is_float(x.t)) { b += ival(x); bm += ival(x) < 0 ? -ival(x) : ival(x); } }
		if (any_float(all)) { lib_tol = m * 1e-12; return Val{A_d(s)}; }
		if (bm > ((Big)1 << 53)) throw Unspec{"a sum beyond the precision of a double"};
		return fitting(b);
	});
	add("product", "m", [](const Args &a) {
		Val all; for (auto &v : a) all.insert(all.end(), v.begin(), v.end());
		need_nums(all);
		double p = 1; Big b = 1;
		for (auto &x : all) { p *= dval(x); if (fabs(p) > 9e15 && !any_float(all)) throw Unspec{"a product beyond the precision of a double"}; if (!is_float(x.t)) b *= ival(x); if (b > ((Big)1 << 60) || b < -((Big)1 << 60)) b = 0; }
		if (any_float(all)) return Val{A_d(p)};
		return fitting(b);
	});
	add("cumsum", "n", [](const Args &a) {
		Val all; for (auto &v : a) all.insert(all.end(), v.begin(), v.end());
		need_some(all);
		char t = largest(a);
		Val r;
		double m = 0;
		if (is_float(t)) {
			double s = 0;
			for (auto &x : all) { s += dval(x); m += fabs(dval(x)); r.push_back(t == 'd' ? A_d(s) : A_f((float)s)); }
			lib_tol = m * (t == 'd' ? 1e-12 : 1e-5);
		} else {
			Big s = 0;
			for (auto &x : all) { s = wrap(s + ival(x), t); r.push_back(mk_int(t, s)); }
		}
		return r;
	});
	add("length", "v", [](const Args &a) { size_t n = 0; for (auto &v : a) n += v.size(); return Val{A_i((int)n)}; });
	for (const char *nm : {"mean", "avg"}) add(nm, "n", [](const Args &a) { need_nums(a[0]); need_some(a[0]); double s = 0, m = 0; for (auto &x : a[0]) { s += dval(x); m += fabs(dval(x)); } lib_tol = m * 1e-12; return Val{A_d(s / a[0].size())}; });
	add("median", "n", [](const Args &a) {
		need_nums(a[0]); need_some(a[0]); if (has_nan(a[0])) throw Unspec{"median of NaN"};
		std::vector<double> v; for (auto &x : a[0]) v.push_back(dval(x));
		std::sort(v.begin(), v.end());
		size_t n = v.size();
		double l = v[(n - 1) / 2], h = v[n / 2];
		lib_tol = (fabs(l) + fabs(h)) * 1e-12;
		return Val{A_d(n % 2 ? l : (l + h) / 2)};
	});
	add("l2norm", "m", [](const Args &a) { need_nums(a[0]); double s = 0; for (auto &x : a[0]) s += dval(x) * dval(x); return Val{A_d(sqrt(s))}; });
	add("dot", "mm", [](const Args &a) { need_nums(a[0]); need_nums(a[1]); double s = 0, m = 0; for (size_t i = 0; i < a[0].size() && i < a[1].size(); i++) { double p = dval(a[0][i]) * dval(a[1][i]); s += p; m += fabs(p); } lib_tol = m * 1e-12; return Val{A_d(s)}; });
	add("cross", "33", [](const Args &a) {
		if (a[0].size() != 3 || a[1].size() != 3) throw EvErr{"not vectors of three"};
		char t = largest(a);
		Val x, y;
		for (int i = 0; i < 3; i++) { x.push_back(conv(t, a[0][i])); y.push_back(conv(t, a[1][i])); }
		Val r;
		double m = 0;
		for (int i = 0; i < 3; i++) {
			int j = (i + 1) % 3, k = (i + 2) % 3;
			if (t == 'd' || t == 'f') { double p = dval(x[j]) * dval(y[k]), q = dval(x[k]) * dval(y[j]); m += fabs(p) + fabs(q); r.push_back(t == 'd' ? A_d(p - q) : A_f((float)(p - q))); }
			else r.push_back(mk_int(t, wrap(ival(x[j]) * ival(y[k]), 'h') - wrap(ival(x[k]) * ival(y[j]), 'h')));
		}
		lib_tol = m * (t == 'd' ? 1e-12 : 1e-5);
		return r;
	});
	add("det", "D", [](const Args &a) {
		size_t n = a.size();
		for (auto &v : a) { need_nums(v); if (v.size() != n) { if (n == 1) throw Unspec{"one row"}; throw EvErr{"not square"}; } }
		std::vector<std::vector<double>> A(n, std::vector<double>(n));
		double norm = 1;
		for (size_t i = 0; i < n; i++) { double s = 0; for (size_t j = 0; j < n; j++) { A[i][j] = dval(a[i][j]); if (fabs(A[i][j]) > 1e6) throw Unspec{"large elements"}; s += fabs(A[i][j]); } norm *= s; }
		double d = 1;
		for (size_t i = 0; i < n; i++) {
			size_t p = i;
			for (size_t k = i; k < n; k++) if (fabs(A[k][i]) > fabs(A[p][i])) p = k;
			if (A[p][i] == 0) { d = 0; break; }
			if (p != i) { std::swap(A[p], A[i]); d = -d; }
			d *= A[i][i];
			for (size_t j = i + 1; j < n; j++) { double f = A[j][i] / A[i][i]; for (size_t k = i; k < n; k++) A[j][k] -= f * A[i][k]; }
		}
		lib_tol = norm * 1e-9;
		return Val{A_d(d)};
	});
	auto extreme = [](const Val &v, bool mx) { need_nums(v); need_some(v); if (has_nan(v)) throw Unspec{"extremes of NaN"}; const Atom *b = &v[0]; for (auto &x : v) if (mx ? dval(x) > dval(*b) : dval(x) < dval(*b)) b = &x; return *b; };
	auto isin = [](const Val &v, const Atom &x, double want) { if (!is_num(x.t) || dval(x) != want) return false; for (auto &y : v) if (closev(x, y)) return true; return false; };
	for (int k = 0; k < 3; k++) {
		add(k == 0 ? "min" : k == 1 ? "max" : "extrema", "n", [extreme, k](const Args &a) { Val r; if (k != 1) r.push_back(extreme(a[0], false)); if (k != 0) r.push_back(extreme(a[0], true)); return r; },
			[extreme, isin, k](const Args &a, const Val &o) -> Str {
				std::vector<double> w; if (k != 1) w.push_back(dval(extreme(a[0], false))); if (k != 0) w.push_back(dval(extreme(a[0], true)));
				if (o.size() != w.size()) return "wrong length";
				for (size_t i = 0; i < w.size(); i++) if (!isin(a[0], o[i], w[i])) return show(o[i]) + " is not the extreme element";
				return "";
			});
	}
	add("range", "n", [extreme](const Args &a) {
		if (!exact53(a[0])) throw Unspec{"beyond the precision of a double"};
		Atom lo = extreme(a[0], false), hi = extreme(a[0], true);
		double d = dval(hi) - dval(lo);
		bool ints = !any_float(a[0]);
		if (ints) return Val{whole(d)};
		return Val{A_d(d)};
	}, [extreme](const Args &a, const Val &o) -> Str {
		double d = dval(extreme(a[0], true)) - dval(extreme(a[0], false));
		if (o.size() != 1 || !is_num(o[0].t)) return "not a number";
		if (!any_float(a[0]) && is_float(o[0].t)) return "a range of integers is not an integer";
		return dval(o[0]) == d || fabs(dval(o[0]) - d) <= 1e-12 * fabs(d) ? "" : "the range is " + sf("%.17g", d);
	});
	auto passes = [](char t) { return t == 's' || t == 'T' || t == 'F' || t == 'N' || t == 'b' || t == '.'; };
	add("clip", "VNN", [passes](const Args &a) {
		need_one(a[1]); need_one(a[2]); need_nums(a[1]); need_nums(a[2]);
		if (!exact53(a[1]) || !exact53(a[2])) throw Unspec{"beyond the precision of a double"};
		double lo = dval(a[1][0]), hi = dval(a[2][0]);
		if (!(lo <= hi)) throw Unspec{"empty interval"};
		bool fl = any_float(a[1]) || any_float(a[2]);
		Val r;
		for (auto &x : a[0]) {
			if (passes(x.t)) { r.push_back(x); continue; }
			if (!is_num(x.t)) throw Unspec{"clipping something else"};
			if (!exact53({x})) throw Unspec{"beyond the precision of a double"};
			double d = dval(x); if (std::isnan(d)) throw Unspec{"clipping NaN"};
			if (d < lo) d = lo; if (d > hi) d = hi;
			r.push_back(fl || is_float(x.t) ? A_d(d) : whole(d));
		}
		return r;
	});
	add("scale", "VNNNN", [passes](const Args &a) {
		double p[5]; bool fl = false;
		for (int i = 1; i < 5; i++) { need_one(a[i]); need_nums(a[i]); if (!exact53(a[i])) throw Unspec{"beyond the precision of a double"}; p[i] = dval(a[i][0]); fl = fl || any_float(a[i]); }
		if (p[1] == p[2]) throw Unspec{"scaling from a point"};
		double m = (p[4] - p[3]) / (p[2] - p[1]);
		Val r;
		double mag = fabs(p[3]) + fabs(p[4]) + fabs(m * p[1]);
		for (auto &x : a[0]) {
			if (passes(x.t)) { r.push_back(x); continue; }
			if (!is_num(x.t)) throw Unspec{"scaling something else"};
			if (!exact53({x})) throw Unspec{"beyond the precision of a double"};
			double d = p[3] + m * (dval(x) - p[1]);
			mag += fabs(m * dval(x));
			if (fl || is_float(x.t)) { r.push_back(A_d(d)); lib_tol = std::max(lib_tol, mag * 1e-12); }
			else {
				bool exact = mag < 1e9 && m * 1048576 == nearbyint(m * 1048576);
				if (fabs(d) > 1e15 || (!exact && fabs(d - nearbyint(d)) <= mag * 1e-12)) throw Unspec{"scaling to within rounding of an integer"};
				r.push_back(whole(d));
			}
		}
		return r;
	}, nullptr);
	// ---- lists
	for (const char *nm : {"reverse", "rev"}) add(nm, "v", [](const Args &a) { return Val(a[0].rbegin(), a[0].rend()); });
	add("sort", "o*o", [](const Args &a) { Val all; for (auto &v : a) all.insert(all.end(), v.begin(), v.end()); need_sortable(all); std::stable_sort(all.begin(), all.end(), [](const Atom &x, const Atom &y) { return order(x, y) < 0; }); return all; },
		[](const Args &a, const Val &o) -> Str {
			Val all; for (auto &v : a) all.insert(all.end(), v.begin(), v.end());
			if (!same_set(all, o)) return "the elements are not those given";
			for (size_t i = 1; i < o.size(); i++) if (order(o[i - 1], o[i]) > 0) return "elements " + std::to_string(i - 1) + " and " + std::to_string(i) + " are out of order";
			return "";
		});
	add("sortidx", "o", [](const Args &a) { need_sortable(a[0]); std::vector<int> ix; for (size_t i = 0; i < a[0].size(); i++) ix.push_back((int)i); std::stable_sort(ix.begin(), ix.end(), [&](int x, int y) { return order(a[0][x], a[0][y]) < 0; }); Val r; for (int i : ix) r.push_back(A_i(i)); return r; },
		[](const Args &a, const Val &o) -> Str {
			if (o.size() != a[0].size()) return "wrong length";
			std::vector<char> seen(o.size(), 0);
			for (auto &x : o) { if (!is_int(x.t) || ival(x) < 0 || ival(x) >= (Big)o.size() || seen[(size_t)ival(x)]++) return "not a permutation of the indexes"; }
			for (size_t i = 1; i < o.size(); i++) if (order(a[0][(size_t)ival(o[i - 1])], a[0][(size_t)ival(o[i])]) > 0) return "the indexes do not sort the list";
			return "";
		});
	add("nonzero", "k", [](const Args &a) { need_nums(a[0]); Val r; for (size_t i = 0; i < a[0].size(); i++) if (dval(a[0][i]) != 0) r.push_back(A_i((int)i)); return r; });
	add("list", "v*v", [](const Args &a) { Val r; for (auto &v : a) r.insert(r.end(), v.begin(), v.end()); return r; });
	add("nfill", "z?v", [](const Args &a) {
		need_one(a[0]); if (!is_int(a[0][0].t)) throw Unspec{"count"};
		Big n = ival(a[0][0]); if (n > 200) throw Unspec{"too many"};
		Val v = a.size() > 1 ? a[1] : Val{A_d(0)}, r;
		for (Big i = 0; i < n; i++) r.insert(r.end(), v.begin(), v.end());
		return r;
	}, [](const Args &a, const Val &o) -> Str {
		Big n = std::max((Big)0, ival(a[0][0]));
		if (a.size() == 1) { if ((Big)o.size() != n) return "wrong length"; for (auto &x : o) if (!is_num(x.t) || dval(x) != 0) return "the default is not 0"; return ""; }
		Val r; for (Big i = 0; i < n; i++) r.insert(r.end(), a[1].begin(), a[1].end());
		return closev(r, o) ? "" : "expected " + showv(r);
	});
	add("aseq", "qq?Q", [](const Args &a) {
		bool fl = false;
		for (auto &v : a) { need_one(v); need_nums(v); if (is_bool(v[0].t)) throw Unspec{"boolean range"}; fl = fl || is_float(v[0].t); }
		double lo = dval(a[0][0]), hi = dval(a[1][0]);
		if (lo == hi) return Val{a[0][0]};
		double st = a.size() > 2 ? dval(a[2][0]) : lo < hi ? 1 : -1;
		if (st == 0 || (st > 0) != (lo < hi)) throw EvErr{"the step leads away"};
		double q = (hi - lo) / st;
		if (!(q < 300)) throw Unspec{"too many"};
		if (fl && q != floor(q) && fabs(q - nearbyint(q)) < 1e-9) throw Unspec{"the last element is within rounding"};
		Val r;
		lib_tol = (fabs(lo) + fabs(hi)) * 1e-12;
		for (int i = 0; i <= (int)floor(q); i++) r.push_back(fl ? A_d(lo + i * st) : A_i((int)(lo + i * st)));
		return r;
	});
	add("interleave", "vv*v", [](const Args &a) { size_t n = a[0].size(); for (auto &v : a) n = std::min(n, v.size()); Val r; for (size_t j = 0; j < n; j++) for (auto &v : a) r.push_back(v[j]); return r; });
	add("first", "v", [](const Args &a) { need_some(a[0]); return Val{a[0][0]}; });
	add("last", "v", [](const Args &a) { need_some(a[0]); return Val{a[0].back()}; });
	add("rest", "v", [](const Args &a) { need_some(a[0]); return Val(a[0].begin() + 1, a[0].end()); });
	add("butlast", "v", [](const Args &a) { need_some(a[0]); return Val(a[0].begin(), a[0].end() - 1); });
	add("nth", "lj*j", [](const Args &a) {
		Val r; const Val &l = a[0];
		if (l.size() == 1 && l[0].t == 'b') { // the bytes of a blob
			for (size_t j = 1; j < a.size(); j++) for (auto &x : a[j]) { if (!is_int(x.t)) throw Unspec{"index"}; Big i = ival(x); if (i < 0 || i >= (Big)l[0].s.size()) throw EvErr{"index beyond the blob"}; r.push_back(A_c((int8_t)l[0].s[(size_t)i])); }
			return r;
		}
		for (size_t j = 1; j < a.size(); j++) for (auto &x : a[j]) { if (!is_int(x.t)) throw Unspec{"index"}; Big i = ival(x); if (i < 0 || i >= (Big)l.size()) throw EvErr{"index out of range"}; r.push_back(l[(size_t)i]); }
		return r;
	});
	add("identity", "v", [](const Args &a) { return a[0]; });
	add("prog1", "v*v", [](const Args &a) { return a[0]; });
	add("prog2", "vv*v", [](const Args &a) { return a.size() > 1 ? a[1] : throw Unspec{"no second"}; });
	add("progn", "v*v", [](const Args &a) { return a.back(); });
	add("quickhull", "H", [](const Args &a) {
		std::vector<double> x, y;
		if (a.size() == 1) { need_nums(a[0]); if (a[0].size() % 2) throw Unspec{"half a point"}; for (size_t i = 0; i < a[0].size(); i += 2) { x.push_back(dval(a[0][i])); y.push_back(dval(a[0][i + 1])); } }
		else { need_nums(a[0]); need_nums(a[1]); if (a[0].size() != a[1].size()) throw Unspec{"different lengths"}; for (auto &v : a[0]) x.push_back(dval(v)); for (auto &v : a[1]) y.push_back(dval(v)); }
		if (x.size() < 3) throw Unspec{"fewer than three points"};
		Val r;
		for (int i : hull_of(x, y)) { r.push_back(A_d(x[i])); r.push_back(A_d(y[i])); }
		return r;
	}, [&L](const Args &, const Val &) -> Str { return ""; });
	{
		Fn hf = L["quickhull"].fn;
		L["quickhull"].judge = [hf](const Args &a, const Val &o) -> Str { // the corners, in whatever order
			Val w = hf(a);
			auto pts = [](const Val &v) { std::multiset<std::pair<double, double>> s; for (size_t i = 0; i + 1 < v.size(); i += 2) s.insert({dval(v[i]), dval(v[i + 1])}); return s; };
			if (o.size() % 2) return "half a point";
			for (auto &x : o) if (!is_num(x.t)) return "not numbers";
			return pts(o) == pts(w) ? "" : "the corners are " + showv(w);
		};
	}
	// ---- strings
	auto str = [](const Val &v) { need_one(v); if (v[0].t != 's') throw Unspec{"a non-string"}; return v[0].s; };
	add("strlen", "S", [](const Args &a) { Val r; for (auto &x : a[0]) { if (x.t != 's') throw Unspec{"a non-string"}; r.push_back(A_h((int64_t)x.s.size())); } return r; });
	add("strchar", "jS", [](const Args &a) {
		Val r;
		for (auto &x : a[1]) {
			if (x.t != 's') throw Unspec{"a non-string"};
			Str s;
			for (auto &i : a[0]) { if (!is_int(i.t)) throw Unspec{"index"}; Big k = ival(i); if (k < 0 || k >= (Big)x.s.size()) throw EvErr{"index out of range"}; s += x.s[(size_t)k]; }
			r.push_back(A_s(s));
		}
		return r;
	});
	add("strfind", "ff", [str](const Args &a) {
		Str n = str(a[0]), h = str(a[1]);
		if (n.empty()) throw Unspec{"looking for nothing"};
		Val r;
		for (size_t p = h.find(n); p != Str::npos; p = h.find(n, p + n.size())) r.push_back(A_h((int64_t)p));
		return r;
	});
	add("strcmp", "ff?z", [str](const Args &a) {
		Str x = str(a[0]), y = str(a[1]);
		int c;
		if (a.size() > 2) { need_one(a[2]); if (!is_int(a[2][0].t) || ival(a[2][0]) < 0) throw Unspec{"length"}; c = x.compare(0, (size_t)ival(a[2][0]), y, 0, (size_t)ival(a[2][0])); }
		else c = x.compare(y);
		return Val{A_i(c < 0 ? -1 : c > 0)};
	}, [str](const Args &a, const Val &o) -> Str {
		Str x = str(a[0]), y = str(a[1]);
		int c = a.size() > 2 ? x.substr(0, (size_t)ival(a[2][0])).compare(y.substr(0, (size_t)ival(a[2][0]))) : x.compare(y);
		if (o.size() != 1 || !is_num(o[0].t)) return "not a number";
		double d = dval(o[0]);
		return (d < 0) == (c < 0) && (d > 0) == (c > 0) ? "" : "the sign is wrong";
	});
	add("split", "1W", [str](const Args &a) {
		Str sep = str(a[0]), s = str(a[1]);
		Val r;
		if (sep.empty()) { for (char ch : s) r.push_back(A_c(ch)); return r; }
		if (sep.size() > 1) throw Unspec{"a separator of several characters"};
		Str cur;
		for (char ch : s + sep) { if (ch == sep[0]) { if (!cur.empty()) r.push_back(A_s(cur)); cur.clear(); } else cur += ch; }
		return r;
	});
	add("join", "1J*J", [str](const Args &a) {
		Str sep = str(a[0]), s;
		bool first = true;
		for (size_t i = 1; i < a.size(); i++) for (auto &x : a[i]) {
			if (!first) s += sep;
			first = false;
			if (x.t == 'c' || x.t == 'C') { if ((long)ival(x) < 32 || (long)ival(x) > 126) throw Unspec{"an unprintable character"}; s += (char)ival(x); }
			else if (x.t == 's') s += x.s;
			else if (is_num(x.t)) s += to_str(x);
			else throw Unspec{"joining something else"};
		}
		return Val{A_s(s)};
	});
	// ---- bits and types
	for (int k = 0; k < 2; k++) add(k ? "bitor" : "bitand", "bb", [k](const Args &a) {
		need_one(a[0]); need_one(a[1]);
		if (!is_int(a[0][0].t) || !is_int(a[1][0].t)) { throw EvErr{"bits of a non-integer"}; }
		char t = largest(a);
		Big x = ival(a[0][0]), y = ival(a[1][0]);
		return Val{mk_int(t, k ? x | y : x & y)};
	});
	struct C { const char *n; char t; };
	static const C cs[] = {{"int8", 'c'}, {"char", 'c'}, {"uint8", 'C'}, {"int16", 'u'}, {"uint16", 'U'}, {"int32", 'i'}, {"uint32", 'I'}, {"int64", 'h'}, {"uint64", 'H'}, {"float32", 'f'}, {"float64", 'd'}};
	for (auto &c : cs) { char t = c.t; add(c.n, "n", [t](const Args &a) { need_nums(a[0]); Val r; for (auto &x : a[0]) r.push_back(conv(t, x)); return r; }); }
	add("bool", "k", [](const Args &a) { need_nums(a[0]); Val r; for (auto &x : a[0]) r.push_back(A_bool(dval(x) != 0)); return r; });
	add("string", "O", [](const Args &a) { Val r; for (auto &x : a[0]) { if (!is_num(x.t) && x.t != 's') throw Unspec{"text of something else"}; r.push_back(A_s(cast_str(x))); } return r; });
	add("blob", "B", [](const Args &a) { Str s; if (a[0].size() == 1 && a[0][0].t == '.') return Val{A_b(enc_bundle(*a[0][0].b))}; for (auto &x : a[0]) { if (!is_int(x.t)) throw Unspec{"bytes of non-integers"}; s += (char)(int8_t)ival(x); } return Val{A_b(s)}; });
	static std::function<bool(const Bundle &)> in_range = [](const Bundle &x) -> bool {
		for (auto &m : x.m) for (auto &y : m.a) {
			int64_t v = (int64_t)y.v;
			if (y.t == '.' ? !in_range(*y.b) : y.t == 'c' ? v != (int8_t)v : y.t == 'C' ? v != (uint8_t)v : y.t == 'u' ? v != (int16_t)v : y.t == 'U' && v != (uint16_t)v) return false;
		}
		return true;
	};
	add("bundle", "G", [](const Args &a) {
		if (a.empty()) return Val{A_bndl(Bundle())};
		if (a.size() == 1) {
			Str s;
			if (a[0].size() == 1 && a[0][0].t == 'b') s = a[0][0].s;
			else if (a[0].size() == 1 && a[0][0].t == 's') { Msg m; m.addr = a[0][0].s; Bundle b; b.m.push_back(m); return Val{A_bndl(b)}; }
			else if (a[0].size() == 1) throw EvErr{"not a bundle"};
			else for (auto &x : a[0]) { if (!is_int(x.t)) throw Unspec{"bytes of non-integers"}; s += (char)ival(x); }
			if (a[0].size() != 1) while (s.size() % 4) s += '\0';
			Bundle b; Str w;
			if (!dec_bundle(s, b, w)) { if (s.size() < 16 || s.compare(0, 8, Str("#bundle\0", 8))) throw EvErr{"not a bundle"}; throw Unspec{"damaged bundle"}; }
			if (enc_bundle(b) != s || !in_range(b)) throw Unspec{"an encoding nothing here writes"};
			return Val{A_bndl(b)};
		}
		Bundle b;
		for (size_t i = 0; i < a.size(); i += 2) {
			if (a[i].empty() || a[i][0].t != 's') throw EvErr{"not an address"};
			if (a[i].size() != 1) throw Unspec{"several addresses"};
			Msg m; m.addr = a[i][0].s;
			if (i + 1 < a.size()) m.a = a[i + 1];
			b.m.push_back(m);
		}
		return Val{A_bndl(b)};
	});
	add("cast", "Ty", [](const Args &a) {
		if (a[0].size() != 1 && a[0].size() < a[1].size()) throw Unspec{"too few types"};
		Val r;
		for (size_t i = 0; i < a[1].size(); i++) {
			const Atom &ty = a[0][a[0].size() == 1 ? 0 : i];
			if (!is_int(ty.t) && (ty.t != 's' || ty.s.size() != 1)) throw Unspec{"type given otherwise"};
			char t = ty.t == 's' ? ty.s[0] : (char)ival(ty);
			const Atom &x = a[1][i];
			if (!is_num(x.t)) throw Unspec{"casting a non-number"};
			if (t == 's') r.push_back(A_s(cast_str(x)));
			else if (strchr("cCuUiIhHfd", t) && t) r.push_back(conv(t, x));
			else throw Unspec{"type"};
		}
		return r;
	});
	add("typetags", "v", [](const Args &a) { Val r; for (auto &x : a[0]) r.push_back(A_c(x.t)); return r; });
	for (const char *nm : {"hton32", "ntoh32"}) add(nm, "w", [](const Args &a) { Val r; for (auto &v : a) for (auto &x : v) { if (!is_int(x.t) || bits(x.t) > 32) throw Unspec{"not a 32-bit integer"}; uint32_t s = bswap32_((uint32_t)(int64_t)ival(x)); r.push_back(is_unsigned(x.t) ? A_I(s) : A_i((int32_t)s)); } return r; });
	for (const char *nm : {"hton64", "ntoh64"}) { bool u = nm[0] == 'h'; add(nm, "i", [u](const Args &a) { Val r; for (auto &v : a) for (auto &x : v) { if (!is_int(x.t)) throw Unspec{"not an integer"}; uint64_t s = bswap64_((uint64_t)ival(x)); r.push_back(u ? A_H(s) : A_h((int64_t)s)); } return r; }, [](const Args &a, const Val &o) -> Str {
		Val in; for (auto &v : a) in.insert(in.end(), v.begin(), v.end());
		if (in.size() != o.size()) return "wrong length";
		for (size_t i = 0; i < in.size(); i++) if (!is_int(o[i].t) || bits(o[i].t) != 64 || o[i].v != bswap64_((uint64_t)ival(in[i]))) return "element " + std::to_string(i) + " is wrong";
		return "";
	}); }
	add("readstring", "s", [str](const Args &a) { return Val{A_s(str(a[0]))}; });
	add("floattotime", "F", [](const Args &a) { need_one(a[0]); if (!is_float(a[0][0].t)) throw Unspec{"not a float"}; double d = dval(a[0][0]); if (!(d >= 0 && d < 4e9)) throw Unspec{"time out of range"}; return Val{A_t(tt_val(osc_timetag_floatToTimetag(d)))}; });
	add("strtotime", "8", [str](const Args &a) { Str s = str(a[0]); Exact e(Str(s.c_str(), s.size() + 1)); t_osc_timetag t = mk_tt(0); osc_timetag_fromISO8601(e.p, &t); return Val{A_t(tt_val(t))}; });
	add("match", "MA", [](const Args &a) {
		Val r;
		for (auto &p : a[0]) {
			if (p.t != 's') throw Unspec{"pattern"};
			Msg full, part, un, pm;
			pm.addr = "/pattern"; pm.a = {p}; full.addr = "/full"; part.addr = "/partial"; un.addr = "/unmatched";
			for (auto &x : a[1]) {
				if (x.t != 's') throw Unspec{"address"};
				auto m = ref_match(p.s, x.s);
				if (m.r == 3) full.a.push_back(x);
				else if (m.po > 0 && p.s[m.po] == '/') part.a.push_back(x);
				else un.a.push_back(x);
			}
			Bundle b; b.m = {pm, full, part, un};
			r.push_back(A_bndl(b));
		}
		return r;
	});
	return L;
}

// the result of a function as the model sees it
static inline bool close_tol(const Atom &x, const Atom &y, double tol) {
	if (closev(x, y)) return true;
	if (x.t != y.t || !is_float(x.t)) return false;
	double a = dval(x), b = dval(y);
	if (a == b) return true; // zeros of either sign
	return fabs(a - b) <= std::max(tol, (x.t == 'd' ? 1e-12 : 1e-6) * std::max(fabs(a), fabs(b)));
}
static inline bool close_tol(const Val &x, const Val &y, double tol) {
	if (x.size() != y.size()) return false;
	for (size_t i = 0; i < x.size(); i++) if (!close_tol(x[i], y[i], tol)) return false;
	return true;
}
