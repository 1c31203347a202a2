// C22: the function catalogue agrees with itself and with the parser.
#include "exprgen.h"
extern "C" {
#include "osc_expr_rec.h"
}
struct Entry { Str addr, name; };
static Str cat_of(const Entry &e) { size_t k = strlen("/doc/category"); size_t j = e.addr.rfind('/'); return e.addr.substr(k, j - k); }

// the listing of a category
static bool list(const Str &cat, std::vector<Entry> &out) {
	Exact e(cat + Str(1, 0));
	long len = -77;
	char *p = nullptr;
	t_osc_err er = osc_expr_getFunctionsForCategory(e.p, &len, &p);
	CHECK(!er, "list:error", sf("listing %s gave error %d", q(cat).c_str(), (int)er));
	out.clear();
	if (!p) { CHECK(len == -77, "list:length", "no listing, and a length"); return false; }
	Bundle b = must_decode(Str(p, (size_t)len), "the listing of a category");
	osc_mem_free(p);
	for (auto &m : b.m) {
		CHECK(m.a.size() == 1 && m.a[0].t == 's', "list:entry", "an entry of a category is " + show(m));
		out.push_back({m.addr, m.a[0].s});
	}
	return true;
}
static const std::vector<Entry> &all() { // everything; also creates the lasting tables
	static thread_local std::vector<Entry> v;
	if (v.empty()) list("", v);
	return v;
}
static const std::vector<Str> &names() {
	static thread_local std::vector<Str> v;
	if (v.empty()) { std::set<Str> seen; for (auto &e : all()) if (seen.insert(e.name).second) v.push_back(e.name); }
	return v;
}
static bool callable(const Str &n) { for (char ch : n) if (!isalnum((unsigned char)ch) && ch != '_') return false; return !n.empty() && n != "lambda" && n != "quote"; }
// the parser's verdict on a text
static bool parses(const Str &text) {
	Exact t(Str(text.c_str(), text.size() + 1));
	t_osc_expr *f = nullptr;
	int e = lib_parse(t.p, &f);
	if (f) osc_expr_free(f);
	return !e && f;
}
static const Msg *get(const Bundle &b, const Str &addr) { const Msg *m = nullptr; for (auto &x : b.m) if (x.addr == addr) { CHECK(!m, "doc:twice", addr + " appears twice"); m = &x; } return m; }
static Str str1(const Bundle &b, const Str &addr) { const Msg *m = get(b, addr); CHECK(m && m->a.size() == 1 && m->a[0].t == 's', "doc:missing", "the documentation has no text at " + addr + ": " + show(b)); return m->a[0].s; }
static int int1(const Bundle &b, const Str &addr) { const Msg *m = get(b, addr); CHECK(m && m->a.size() == 1 && m->a[0].t == 'i', "doc:missing", "the documentation has no number at " + addr + ": " + show(b)); return (int32_t)m->a[0].v; }
static const char *TYPES[] = {"number", "list", "string", "atom", "expression", "OSC address", "boolean", "function", "timetag"};
// each type is one of the known ones, in order, none twice
static void check_types(const Str &t, const Str &where) {
	size_t i = 0;
	int last = -1;
	while (true) {
		size_t j = t.find(", ", i);
		Str one = t.substr(i, j == Str::npos ? Str::npos : j - i);
		int k = -1;
		for (int x = 0; x < 9; x++) if (one == TYPES[x]) k = x;
		CHECK(k >= 0, "doc:types", where + ": unknown argument type " + q(one));
		CHECK(k > last, "doc:types", where + ": the argument types are out of order: " + q(t));
		last = k;
		if (j == Str::npos) break;
		i = j + 2;
	}
}
static void arity(const Str &name, int req, int opt, int tried) {
	Str t = name + "(";
	for (int i = 0; i < tried; i++) t += (i ? ", /a" : "/a") + std::to_string(i);
	t += ")";
	bool want = tried >= req && (opt < 0 || tried <= req + opt);
	bool got = parses(t);
	if (got != want) fail("arity", sf("%s is documented with %d required and %d optional arguments, and %s was %s", name.c_str(), req, opt, t.c_str(), got ? "accepted" : "rejected"));
}
// one function's documentation
static void document(Ctx &c, const Str &name) {
	Exact e(name + Str(1, 0));
	t_osc_bndl_u *u = nullptr;
	t_osc_err er = osc_expr_getDocForFunction(e.p, &u);
	CHECK(!er && u, "doc:none", sf("%s is listed and has no documentation (%d)", name.c_str(), (int)er));
	Bundle b = rd_bundle_u(u);
	osc_bundle_u_free(u);
	CHECK(str1(b, "/doc/function/name") == name, "doc:name", name + " is documented as " + str1(b, "/doc/function/name"));
	int req = int1(b, "/doc/function/num_required_args"), opt = int1(b, "/doc/function/num_optional_args");
	CHECK(req >= 0, "doc:arity", sf("%s requires %d arguments", name.c_str(), req));
	CHECK(!str1(b, "/doc/function/docstring").empty(), "doc:text", name + " has no description");
	// the categories are those it is listed in
	std::vector<Str> cats, listed;
	const Msg *m = get(b, "/doc/function/categories");
	CHECK(m, "doc:categories", name + " has no categories");
	for (auto &a : m->a) { CHECK(a.t == 's', "doc:categories", "a category is " + show(a)); cats.push_back(a.s); }
	for (auto &x : all()) if (x.name == name) listed.push_back(cat_of(x));
	CHECK(cats == listed, "doc:categories", name + " names other categories than those it is listed in");
	// argument names and types: those its record holds
	t_osc_expr_rec *rr = osc_expr_lookupFunction(e.p);
	CHECK(rr, "lookup", "looking up " + name + " finds nothing");
	size_t known = 6;
	for (int pass = 0; pass < 2; pass++) for (int i = 0; i < (pass ? abs(opt) : req); i++) {
		Str base = Str("/doc/function/arg/") + (pass ? "optional" : "required");
		const Msg *n = get(b, base + sf("/name/%d", i + 1)), *t = get(b, base + sf("/types/%d", i + 1));
		CHECK(!n == !t, "doc:args", name + ": an argument has a name or types, but not both");
		char **rn = pass ? osc_expr_rec_getOptionalArgsNames(rr) : osc_expr_rec_getRequiredArgsNames(rr);
		int *rt = pass ? osc_expr_rec_getOptionalArgsTypes(rr) : osc_expr_rec_getRequiredArgsTypes(rr);
		const char *rname = rn ? rn[i] : nullptr;
		CHECK(!n == !rname, "doc:args", sf("%s: argument %d is %s in its record and %s in its documentation", name.c_str(), i + 1, rname ? rname : "nameless", n ? "described" : "missing"));
		if (n) {
			CHECK(n->a.size() == 1 && n->a[0].t == 's' && n->a[0].s == rname, "doc:args", sf("%s: argument %d is called %s in its record and documented as ", name.c_str(), i + 1, rname) + show(*n));
			Str ts;
			for (int x = 0; x < 9; x++) if (rt[i] & (1 << x)) ts += (ts.empty() ? "" : ", ") + Str(TYPES[x]);
			CHECK(t->a.size() == 1 && t->a[0].t == 's' && t->a[0].s == ts, "doc:types", sf("%s: argument %d takes %s, and is documented as ", name.c_str(), i + 1, ts.c_str()) + show(*t));
		}
		if (!n) continue;
		known += 2;
		CHECK(n->a.size() == 1 && n->a[0].t == 's' && !n->a[0].s.empty() && t->a.size() == 1 && t->a[0].t == 's', "doc:args", name + ": an argument is described as " + show(*n) + " " + show(*t));
		check_types(t->a[0].s, name);
		c.cover("arguments described");
	}
	CHECK(b.m.size() == known, "doc:extra", name + ": unexpected messages in " + show(b));
	// the signature is an expression of the language, naming this function, that uses the required arguments
	Str sig = str1(b, "/doc/function/signature"), text;
	for (size_t i = 0; i < sig.size(); i++) text += sig[i] == '$' ? Str("/a") : Str(1, sig[i]);
	if (!sig.empty()) {
		CHECK(parses(text), "doc:signature", name + ": the signature does not parse: " + sig);
		if (callable(name)) CHECK(sig.find(name + "(") != Str::npos, "doc:signature", name + ": the signature does not name the function: " + sig);
		c.cover("signatures parsed");
	}
	if (callable(name)) for (int i = 0; i <= req + std::max(opt, 0) + 2; i++) { arity(name, req, opt, i); c.cover("arities tried"); }
	// the record
	t_osc_expr_rec *r = osc_expr_lookupFunction(e.p);
	CHECK(r && osc_expr_rec_getName(r) == name, "lookup", "looking up " + name + " gives another function");
	CHECK(osc_expr_rec_getSignature(r) == sig && osc_expr_rec_getDocstring(r) == str1(b, "/doc/function/docstring") && osc_expr_rec_getNumRequiredArgs(r) == req && osc_expr_rec_getNumOptionalArgs(r) == opt, "lookup", "the record of " + name + " differs from its documentation");
	size_t k = 0;
	for (char **x = osc_expr_rec_getCategories(r); *x; x++, k++) CHECK(k < cats.size() && cats[k] == *x, "lookup", "the record of " + name + " has other categories");
	// a copy of it, documented after the original's text is no longer needed
	t_osc_expr_rec *g = nullptr;
	osc_expr_rec_copy(&g, r, nullptr);
	t_osc_bndl_u *gu = nullptr;
	er = osc_expr_formatFunctionDoc(g, &gu);
	CHECK(!er && gu, "copy", "a copy of " + name + " has no documentation");
	Bundle gb = rd_bundle_u(gu);
	osc_bundle_u_free(gu);
	if (gb != b) fail("copy", "a copy of " + name + " is documented as " + show(gb) + " instead of " + show(b));
	CHECK(osc_expr_rec_getFunction(g) == osc_expr_rec_getFunction(r), "copy", "a copy of " + name + " has another function");
	void *ex = nullptr;
	osc_expr_rec_free(g, &ex);
}
static void unknown(Ctx &c, const Str &name) {
	for (auto &n : names()) if (n == name) return;
	Exact e(name + Str(1, 0));
	t_osc_bndl_u *u = nullptr;
	t_osc_err er = osc_expr_getDocForFunction(e.p, &u);
	CHECK(er == OSC_ERR_EXPR_FUNCTIONNOTFOUND && !u, "unknown", q(name) + sf(" has documentation (%d)", (int)er));
	CHECK(!osc_expr_lookupFunction(e.p), "unknown", q(name) + " is a function");
	if (!name.empty() && isalpha((unsigned char)name[0]) && callable(name) && name != "true" && name != "false" && name != "nil" && name != "True" && name != "False" && name != "Nil" && name != "TRUE" && name != "FALSE" && name != "NIL") CHECK(!parses(name + "(/a)") && !parses(name + "(/a, /b)"), "unknown", "a call of " + name + " was accepted");
	c.cover("unknown names");
}
static void category(Ctx &c, const Str &cat) {
	Str pat = cat.compare(0, 13, "/doc/category") ? "/doc/category" + cat : cat;
	std::vector<Entry> want, got;
	for (auto &e : all()) if (ref_lookup(pat, e.addr, false)) want.push_back(e);
	list(cat, got);
	bool ok = want.size() == got.size();
	for (size_t i = 0; ok && i < want.size(); i++) ok = want[i].addr == got[i].addr && want[i].name == got[i].name;
	if (!ok) { Str w, g; for (auto &e : want) w += " " + e.addr; for (auto &e : got) g += " " + e.addr; fail("list", "the functions of category " + q(cat) + " are" + g.substr(0, 500) + " instead of" + w.substr(0, 500)); }
	c.cover(want.empty() ? "empty listings" : "listings");
	if (!want.empty()) c.nontrivial = true;
}
static const std::vector<Str> &categories() {
	static thread_local std::vector<Str> v;
	if (v.empty()) {
		t_osc_bndl_s *s = osc_expr_getCategories();
		Bundle b = must_decode(bytes_of(s), "the list of categories");
		Str pre = "/doc/category/list";
		for (auto &m : b.m) { CHECK(m.addr.compare(0, pre.size(), pre) == 0 && m.addr.size() > pre.size(), "categories", "a category is listed as " + show(m)); v.push_back(m.addr.substr(pre.size())); }
	}
	return v;
}
static void types_case(Ctx &c, int bits) {
	char *buf = (char *)malloc(128);
	memset(buf, 'q', 128);
	osc_expr_formatTypes(bits, buf);
	Str want;
	for (int i = 0; i < 8; i++) if (bits >> i & 1) { if (!want.empty()) want += ", "; want += TYPES[i]; }
	Str got = buf, wt = want.empty() ? "timetag" : want + ", timetag";
	free(buf);
	if (got != want && !((bits & 0x100) && got == wt)) fail("types", sf("the argument types %#x are described as ", bits) + q(got) + " instead of " + q(want));
	c.cover("type sets");
}
// a record made through the setters
static void record_case(Ctx &c) {
	Rng &r = c.rng;
	GenOpt o; o.alphabet = "abcXYZ_ $(),";
	auto text = [&] { return gen_string(r, o) + "x"; };
	t_osc_expr_rec *f = osc_expr_rec_alloc();
	Str name = text(), sig = text();
	bool hs = r.flip();
	osc_expr_rec_setName(f, &name[0]);
	if (hs) osc_expr_rec_setSignature(f, &sig[0]);
	std::vector<Str> rn, on;
	std::vector<int> rt, ot;
	int nr = r.range(0, 5), no = r.range(0, 4);
	for (int i = 0; i < nr; i++) { rn.push_back(r.chance(1, 6) ? "" : text()); rt.push_back((int)r.below(256)); }
	for (int i = 0; i < no; i++) { on.push_back(r.chance(1, 6) ? "" : text()); ot.push_back((int)r.below(256)); }
	auto set = [&](std::vector<Str> &n, std::vector<int> &t, bool opt) {
		char **p = (char **)malloc(sizeof(char *) * n.size() + 1);
		int *q = (int *)malloc(sizeof(int) * t.size() + 1);
		for (size_t i = 0; i < n.size(); i++) { p[i] = n[i].empty() ? nullptr : &n[i][0]; q[i] = t[i]; }
		if (opt) osc_expr_rec_setOptionalArgs(f, (int)n.size(), p, q); else osc_expr_rec_setRequiredArgs(f, (int)n.size(), p, q);
		free(p); free(q);
	};
	set(rn, rt, false);
	if (no) set(on, ot, true);
	int extra = 7;
	osc_expr_rec_setExtra(f, &extra);
	c.in(name + "/" + sig + sf("/%d/%d", nr, no));
	c.nontrivial = true;
	auto look = [&](t_osc_expr_rec *x, const char *what) {
		CHECK(Str(osc_expr_rec_getName(x)) == name, "record:name", Str(what) + " has another name");
		CHECK(hs ? osc_expr_rec_getSignature(x) && Str(osc_expr_rec_getSignature(x)) == sig : !osc_expr_rec_getSignature(x), "record:signature", Str(what) + " has another signature");
		CHECK(osc_expr_rec_getNumRequiredArgs(x) == nr && osc_expr_rec_getNumOptionalArgs(x) == no, "record:arity", Str(what) + " has another number of arguments");
		for (int i = 0; i < nr; i++) { char *p = osc_expr_rec_getRequiredArgsNames(x)[i]; CHECK(p ? rn[i] == p : rn[i].empty(), "record:args", Str(what) + " has another required argument"); CHECK(osc_expr_rec_getRequiredArgsTypes(x)[i] == rt[i], "record:types", Str(what) + " has a required argument of another type"); }
		for (int i = 0; i < no; i++) { char *p = osc_expr_rec_getOptionalArgsNames(x)[i]; CHECK(p ? on[i] == p : on[i].empty(), "record:args", Str(what) + " has another optional argument"); CHECK(osc_expr_rec_getOptionalArgsTypes(x)[i] == ot[i], "record:types", Str(what) + " has an optional argument of another type"); }
	};
	look(f, "a record");
	t_osc_expr_rec *g = nullptr;
	osc_expr_rec_copy(&g, f, [](void **d, void *s) { *d = (char *)s + 1; });
	void *ex = nullptr;
	bool orig = r.flip();
	osc_expr_rec_free(orig ? f : g, &ex);
	CHECK(ex == (orig ? (void *)&extra : (void *)((char *)&extra + 1)), "record:extra", "the extra value of a record was lost");
	look(orig ? g : f, orig ? "a copy of a record" : "a record after its copy was freed");
	osc_expr_rec_free(orig ? g : f, nullptr);
	c.cover("records");
}
static void random_case(Ctx &c) {
	Rng &r = c.rng;
	switch (r.below(8)) {
	case 0: { Str n = r.pick(names()); c.in("function " + n); c.nontrivial = true; document(c, n); } break;
	case 1: case 2: { // names close to a function's
		Str n = r.pick(names());
		switch (r.below(7)) {
		case 0: n = n.substr(0, r.below(n.size())); break;
		case 1: n += r.pick(names()); break;
		case 2: n += *r.pickc("abcs123_ \n"); break;
		case 3: n[r.below(n.size())] ^= 0x20; break;
		case 4: n.erase(r.below(n.size()), 1); break;
		case 5: n.insert(r.below(n.size() + 1), 1, *r.pickc("abcs123_/")); break;
		default: { GenOpt o; n = gen_string(r, o); }
		}
		for (auto &ch : n) if (!ch) ch = '_';
		c.in("name " + q(n)); c.nontrivial = true;
		unknown(c, n);
	} break;
	case 3: record_case(c); break;
	default: {
		Str cat;
		auto &e = r.pick(all());
		switch (r.below(9)) {
		case 0: cat = r.pick(categories()); break;
		case 1: cat = cat_of(e) + e.addr.substr(e.addr.rfind('/')); break;
		case 2: { cat = cat_of(e); size_t k = cat.rfind('/'); if (k) cat = cat.substr(0, k); } break;
		case 3: cat = cat_of(e); if (!cat.empty()) cat = cat.substr(0, r.below(cat.size()) + 1); break;
		case 4: cat = rm_pattern(r, 4); break;
		case 5: cat = "/" + Str((size_t)r.range(90, 3000), 'a'); for (size_t i = 1; i < cat.size(); i += (size_t)r.range(2, 40)) cat[i] = "/b*?"[r.below(4)]; break;
		default: { // a pattern made from an entry
			cat = r.flip() ? cat_of(e) : e.addr.substr(13);
			if (cat.find_first_of("*?[]{}!<>=&|") != Str::npos) cat = cat_of(e);
			if (cat.size() < 2) cat = "/math/*";
			int n = r.range(1, 2);
			for (int i = 0; i < n; i++) {
				size_t at = 1 + r.below(cat.size() - 1);
				if (cat[at] == '/' || !isalpha((unsigned char)cat[at])) continue;
				switch (r.below(4)) {
				case 0: cat[at] = '?'; break;
				case 1: { size_t to = cat.find('/', at); cat.replace(at, to == Str::npos ? Str::npos : to - at, "*"); } break;
				case 2: cat.replace(at, 1, Str("[") + (r.flip() ? "a-z" : Str(1, cat[at]) + "x") + "]"); break;
				default: cat.replace(at, 1, Str("{") + cat[at] + ",qq}"); break;
				}
				if (cat.find_first_of("[{") != Str::npos) break;
			}
		}
		}
		if (r.chance(1, 6)) cat = "/doc/category" + cat;
		c.in("category " + q(cat));
		category(c, cat);
	}
	}
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "catalog";
		s.random = random_case;
		all(); categories(); names();
		s.directed.push_back({"every function", [](Ctx &c) { CHECK(names().size() > 150, "list:all", sf("only %zu functions are listed", names().size())); for (auto &n : names()) document(c, n); c.nontrivial = true; c.in("every function"); }});
		s.directed.push_back({"every entry", [](Ctx &c) {
			static const std::map<Str, Str> ren = {{"+", "add"}, {"-", "sub"}, {"*", "mul"}, {"/", "div"}, {"%", "mod"}, {"++", "inc"}, {"--", "dec"}, {"+=", "addassign"}, {"-=", "subassign"}, {"*=", "mulassign"}, {"/=", "divassign"}, {"%=", "modassign"}};
			for (auto &e : all()) {
				CHECK(e.addr.compare(0, 14, "/doc/category/") == 0, "list:entry", "a function is listed at " + e.addr);
				Str last = e.addr.substr(e.addr.rfind('/') + 1);
				auto it = ren.find(e.name);
				CHECK(last == (it == ren.end() ? e.name : it->second), "list:entry", e.name + " is listed at " + e.addr);
				CHECK(std::count(categories().begin(), categories().end(), cat_of(e)) == 1, "categories", e.name + " is in " + cat_of(e) + ", which is not one of the categories");
				c.cover("entries");
			}
			c.in("every entry"); c.nontrivial = true;
		}});
		s.directed.push_back({"every category", [](Ctx &c) {
			for (auto &x : categories()) { std::vector<Entry> v; list(x, v); CHECK(!v.empty(), "categories", "no function is in category " + x); category(c, x); }
			for (const char *x : {"", "/", "/*", "/math", "/math/*", "/math/operator", "/doc/category", "/doc/category/math", "/nosuch", "math", "/math/operator/arithmetic/add", "/{math,vector}", "/string/*/add", "/*/*/*", "/doc", "/mat"}) category(c, x);
			c.in("every category");
		}});
		s.directed.push_back({"sets of types", [](Ctx &c) { for (int i = 0; i < 512; i++) types_case(c, i); c.in("sets of types"); c.nontrivial = true; }});
		s.directed.push_back({"the language's functions", [](Ctx &c) {
			static const char *core[] = {"add", "sub", "mul", "div", "mod", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "andalso", "orelse", "abs", "sin", "cos", "tan", "sqrt", "exp", "log", "pow", "nth", "length", "sum", "mean", "median", "sort", "reverse", "first", "last", "rest", "butlast", "list", "nfill", "aseq", "interleave", "min", "max", "range", "clip", "scale", "mtof", "ftom", "if", "map", "apply", "lreduce", "rreduce", "bound", "exists", "delete", "getaddresses", "getmsgcount", "eval", "tokenize", "prog1", "prog2", "progn", "quote", "value", "lambda", "gettimetag", "settimetag", "strlen", "strfind", "strchar", "strcmp", "split", "join", "cast", "typetags", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "string", "blob", "pi", "e"};
			for (auto n : core) CHECK(std::count(names().begin(), names().end(), Str(n)) == 1, "list:all", Str(n) + " is in no category");
			c.in("the language's functions"); c.nontrivial = true; }});
		s.directed.push_back({"invalid arguments", [](Ctx &c) { long n = 5; char *p = nullptr; CHECK(osc_expr_getFunctionsForCategory(nullptr, &n, &p) && !p, "list:null", "no category was listed"); t_osc_bndl_u *u = nullptr; CHECK(osc_expr_formatFunctionDoc(nullptr, &u) == OSC_ERR_EXPR_FUNCTIONNOTFOUND && !u, "doc:null", "no function was documented"); osc_expr_formatTypes(3, nullptr); for (const char *x : {"", " ", "pi ", "PI", "p", "pii"}) unknown(c, x); c.in("invalid arguments"); }});
		osc_error_setHandler(count_report);
	}
	return s;
}
