// C11: explode and flatten against a tree model.
#include "vh.h"

static const char *WORDS[] = {"a", "b", "ab", "foo", "bar", "x1", "foobar", "q", "longer_name_of_a_part", "1"};

// first separator of an address (never its leading slash)
static bool split(const Str &a, const Str &sep, Str &head, Str &rest) {
	size_t p = a.find(sep, 1);
	if (p == Str::npos) return false;
	head = a.substr(0, p);
	if (sep == "/") rest = a.substr(p);
	else { rest = a.substr(p + sep.size()); if (rest.empty() || rest[0] != '/') rest = "/" + rest; }
	return true;
}
static std::vector<Str> path(Str a, const Str &sep) {
	std::vector<Str> v;
	Str h, r;
	while (split(a, sep, h, r)) { v.push_back(h); a = r; }
	v.push_back(a);
	return v;
}
static Str gen_path(Rng &r, const Str &sep, bool slash_parts) {
	int n = r.chance(1, 25) ? r.range(5, 30) : r.range(1, 4);
	Str s;
	for (int i = 0; i < n; i++) {
		if (i == 0) s += "/";
		else if (sep == "/") s += "/";
		else { s += sep; if (slash_parts) s += "/"; }
		s += WORDS[r.below(10)];
		if (r.chance(1, 3)) s += (char)('a' + r.below(4));
		if (sep != "/" && !slash_parts && r.chance(1, 6)) { s += "/"; s += WORDS[r.below(10)]; }
	}
	return s;
}
static bool is_prefix(const std::vector<Str> &a, const std::vector<Str> &b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

struct Leaf { std::vector<Str> path; Msg m; };
static GenOpt leaf_opt() { GenOpt o; o.max_depth = 1; o.max_args = 3; return o; }

// expected explosion
static Bundle explode(const std::vector<Msg> &in, const Str &sep, int level, int maxlevel) {
	Bundle out;
	std::vector<std::vector<Msg>> groups;
	std::vector<size_t> where;
	for (auto &m : in) {
		Str h, rest;
		if ((maxlevel >= 0 && level >= maxlevel) || !split(m.addr, sep, h, rest)) { out.m.push_back(m); continue; }
		Msg x = m;
		x.addr = rest;
		bool found = false;
		for (size_t g = 0; g < groups.size(); g++) if (out.m[where[g]].addr == h) { groups[g].push_back(x); found = true; }
		if (!found) { where.push_back(out.m.size()); groups.push_back({x}); Msg e; e.addr = h; out.m.push_back(e); }
	}
	for (size_t g = 0; g < groups.size(); g++) out.m[where[g]].a = {A_bndl(explode(groups[g], sep, level + 1, maxlevel))};
	return out;
}
// equal trees: the same children in every group, leaves of a group in the same order
static bool same_tree(const Bundle &w, const Bundle &g, Str &why, const std::set<Str> &groupnodes, const Str &at) {
	if (w.m.size() != g.m.size()) { why = "under " + q(at) + sf(" there are %zu entries instead of %zu", g.m.size(), w.m.size()); return false; }
	std::vector<Msg> lw, lg;
	for (int k = 0; k < 2; k++) for (auto &m : (k ? g : w).m) {
		if (groupnodes.count(at + "\n" + m.addr)) continue;
		(k ? lg : lw).push_back(m);
	}
	if (lw.size() != lg.size()) { why = "under " + q(at) + " the entries differ"; return false; }
	for (size_t i = 0; i < lw.size(); i++) if (lw[i] != lg[i]) { why = "under " + q(at) + " there is " + show(lg[i]) + " instead of " + show(lw[i]); return false; }
	for (auto &m : w.m) {
		if (!groupnodes.count(at + "\n" + m.addr)) continue;
		const Msg *o = nullptr;
		for (auto &x : g.m) if (x.addr == m.addr) { if (o) { why = "two groups " + q(m.addr) + " under " + q(at); return false; } o = &x; }
		if (!o) { why = "no group " + q(m.addr) + " under " + q(at); return false; }
		if (o->a.size() != 1 || o->a[0].t != '.') { why = "the group " + q(m.addr) + " holds " + show(*o); return false; }
		if (!same_tree(*m.a[0].b, *o->a[0].b, why, groupnodes, at + "\n" + m.addr)) return false;
	}
	return true;
}
static void note_groups(const std::vector<Msg> &in, const Str &sep, int level, int maxlevel, const Str &at, std::set<Str> &gn) {
	std::map<Str, std::vector<Msg>> g;
	for (auto &m : in) {
		Str h, rest;
		if ((maxlevel >= 0 && level >= maxlevel) || !split(m.addr, sep, h, rest)) continue;
		gn.insert(at + "\n" + h);
		Msg x = m; x.addr = rest;
		g[h].push_back(x);
	}
	for (auto &kv : g) note_groups(kv.second, sep, level + 1, maxlevel, at + "\n" + kv.first, gn);
}

// expected flattening: (full address, arguments) per leaf and enclosing remainder, with the group each came from
struct Flat { Msg m; long group; };
static void flatten(const Bundle &b, const Str &prefix, const Str &sep, int level, int maxlevel, bool drop, std::vector<Flat> &out, long &groups) {
	long me = groups++;
	for (auto &m : b.m) {
		Str full = level ? prefix + sep + m.addr : m.addr;
		Msg x; x.addr = full;
		for (auto &a : m.a) {
			if (a.t == '.' && (maxlevel <= 0 || level < maxlevel)) flatten(*a.b, full, sep, level + 1, maxlevel, drop, out, groups);
			else x.a.push_back(a);
		}
		if (!(drop && x.a.empty())) out.push_back({x, me});
	}
}
static bool distinct(const std::vector<Flat> &f) { std::set<Str> s; for (auto &x : f) if (!s.insert(x.m.addr).second) return false; return true; }

struct BU { t_osc_bndl_u *b; explicit BU(t_osc_bndl_u *b) : b(b) {} ~BU() { if (b) osc_bundle_u_free(b); } BU(const BU &) = delete; };

static char *arg_sep(Ctx &c, Str &sep, Exact &e) {
	if (sep == "/" && c.rng.chance(1, 4)) return nullptr;
	if (sep == "/" && c.rng.chance(1, 4)) return (char *)"";
	return e.p;
}

// run explode through one of the APIs
static Bundle run_explode(Ctx &c, const Bundle &in, int maxlevel, Str sep) {
	Rng &r = c.rng;
	Exact es(sep + Str(1, 0));
	char *s = arg_sep(c, sep, es);
	Bundle got;
	int api = (int)r.below(3);
	Str bytes = enc_bundle(in);
	if (api == 0) {
		Exact e(bytes);
		t_osc_bndl_s *src = osc_bundle_s_alloc((long)e.n, e.p), *dest = nullptr;
		t_osc_err er = osc_bundle_s_explode(&dest, src, maxlevel, s);
		CHECK(!er && dest, "explode:error", "explode failed");
		got = must_decode(bytes_of(dest), "explode");
		osc_bundle_s_deepFree(dest);
		osc_bundle_s_free(src);
		CHECK(e.str() == bytes, "explode:input", "exploding changed the input");
	} else {
		BU u(mk_bundle(r, in));
		t_osc_bndl_u *dest = r.flip() ? osc_bundle_u_alloc() : nullptr;
		if (api == 1) {
			t_osc_err er = osc_bundle_u_explode(&dest, u.b, maxlevel, s);
			CHECK(!er && dest, "explode:error", "explode failed");
		} else {
			if (!dest) dest = osc_bundle_u_alloc();
			t_osc_bndl_it_u *it = osc_bndl_it_u_get(u.b);
			while (osc_bndl_it_u_hasNext(it)) CHECK(!osc_message_u_explode(dest, osc_bndl_it_u_next(it), maxlevel, s), "explode:error", "exploding a message failed");
			osc_bndl_it_u_destroy(it);
		}
		got = rd_bundle_u(dest);
		t_osc_bndl_s *ds = osc_bundle_u_serialize(dest);
		Str db = bytes_of(ds);
		osc_bundle_s_deepFree(ds);
		CHECK(db == enc_bundle(got), "explode:serialize", "the exploded bundle serializes differently from what it reads as");
		osc_bundle_u_free(dest);
		CHECK(rd_bundle_u(u.b) == in, "explode:input", "exploding changed the input");
	}
	return got;
}
static Bundle run_flatten(Ctx &c, const Bundle &in, int maxlevel, const Str &sep, bool drop) {
	Rng &r = c.rng;
	Exact es(sep + Str(1, 0));
	char *s = sep.empty() && r.chance(1, 2) ? nullptr : es.p;
	Bundle got;
	Str bytes = enc_bundle(in);
	if (r.flip()) {
		Exact e(bytes);
		t_osc_bndl_s *src = osc_bundle_s_alloc((long)e.n, e.p), *dest = nullptr;
		t_osc_err er = osc_bundle_s_flatten(&dest, src, maxlevel, s, drop);
		CHECK(!er && dest, "flatten:error", "flatten failed");
		got = must_decode(bytes_of(dest), "flatten");
		osc_bundle_s_deepFree(dest);
		osc_bundle_s_free(src);
		CHECK(e.str() == bytes, "flatten:input", "flattening changed the input");
	} else {
		BU u(mk_bundle(r, in));
		t_osc_bndl_u *dest = r.flip() ? osc_bundle_u_alloc() : nullptr;
		t_osc_err er = osc_bundle_u_flatten(&dest, u.b, maxlevel, s, drop);
		CHECK(!er && dest, "flatten:error", "flatten failed");
		got = rd_bundle_u(dest);
		t_osc_bndl_s *ds = osc_bundle_u_serialize(dest);
		Str db = bytes_of(ds);
		osc_bundle_s_deepFree(ds);
		CHECK(db == enc_bundle(got), "flatten:serialize", "the flattened bundle serializes differently from what it reads as");
		osc_bundle_u_free(dest);
		CHECK(rd_bundle_u(u.b) == in, "flatten:input", "flattening changed the input");
	}
	return got;
}
static void check_flat(const Bundle &got, const std::vector<Flat> &want, const Str &what) {
	if (got.m.size() != want.size()) fail("flatten:count", what + sf(" gives %zu messages instead of %zu: ", got.m.size(), want.size()) + show(got));
	std::map<Str, size_t> at;
	for (size_t i = 0; i < got.m.size(); i++) if (!at.insert({got.m[i].addr, i}).second) fail("flatten:twice", what + " gives " + q(got.m[i].addr) + " twice");
	std::map<long, size_t> last;
	for (auto &w : want) {
		auto f = at.find(w.m.addr);
		if (f == at.end()) fail("flatten:lost", what + " has no " + q(w.m.addr) + ": " + show(got));
		if (got.m[f->second] != w.m) fail("flatten:content", what + " has " + show(got.m[f->second]) + " instead of " + show(w.m));
		auto l = last.find(w.group);
		if (l != last.end() && l->second > f->second) fail("flatten:order", what + " changes the order of the messages of one bundle, at " + q(w.m.addr) + ": " + show(got));
		last[w.group] = f->second;
	}
}

static void explode_case(Ctx &c, int nmax) {
	Rng &r = c.rng;
	static const char *seps[] = {"/", "/", ".", "::", "-"};
	Str sep = seps[r.below(5)];
	bool slash_parts = sep != "/" && r.flip();
	std::vector<Msg> in;
	std::vector<std::vector<Str>> paths;
	int n = r.range(0, nmax);
	for (int i = 0; i < n; i++) {
		Msg m = gen_msg(r, leaf_opt(), 0);
		m.addr = gen_path(r, sep, slash_parts);
		auto p = path(m.addr, sep);
		bool bad = false;
		for (auto &x : paths) if (is_prefix(x, p) || is_prefix(p, x)) bad = true;
		if (bad) continue;
		paths.push_back(p);
		in.push_back(m);
	}
	Bundle b; b.m = in;
	int maxlevel = r.flip() ? -1 : r.range(0, 5);
	c.in("explode " + q(sep) + sf(" %d ", maxlevel) + show(b));
	Bundle want = explode(in, sep, 0, maxlevel), got = run_explode(c, b, maxlevel, sep);
	std::set<Str> gn;
	note_groups(in, sep, 0, maxlevel, "", gn);
	Str why;
	if (!same_tree(want, got, why, gn, "")) fail("explode:tree", "explode at " + q(sep) + sf(" to level %d of ", maxlevel) + show(b) + " gives " + show(got) + ": " + why);
	c.cover("explode-groups", (long)gn.size());
	if (!gn.empty()) c.nontrivial = true;
	// inverse: leaves without nested bundles, addresses that flatten joins again
	if (maxlevel < 0 && (sep == "/" || slash_parts)) {
		std::vector<Msg> plain;
		for (auto &m : in) { Msg x = m; x.a.erase(std::remove_if(x.a.begin(), x.a.end(), [](const Atom &a) { return a.t == '.'; }), x.a.end()); if (x.a.empty()) x.a.push_back(A_i(1)); plain.push_back(x); }
		Bundle p; p.m = plain;
		Bundle ex = run_explode(c, p, -1, sep);
		Bundle back = run_flatten(c, ex, r.flip() ? 0 : -1, sep == "/" ? "" : sep, true);
		std::vector<Flat> w;
		// order inside a group: siblings under one parent
		std::map<Str, long> grp;
		for (auto &m : plain) { Str par; auto pp = path(m.addr, sep); for (size_t i = 0; i + 1 < pp.size(); i++) par += pp[i] + "\n"; w.push_back({m, grp.insert({par, (long)grp.size()}).first->second}); }
		check_flat(back, w, "flatten(explode) at " + q(sep) + " of " + show(p));
		c.cover("inverse");
	}
}
static Bundle gen_nested(Rng &r, int depth, const Str &sep, bool drop) {
	Bundle b;
	int n = r.range(depth ? 0 : 1, 4);
	for (int i = 0; i < n; i++) {
		Msg m; m.addr = Str("/") + WORDS[r.below(10)] + (r.flip() ? sf("%d", (int)r.below(50)) : "") + (r.chance(1, 4) ? Str("/") + WORDS[r.below(10)] : "");
		int k = r.range(drop ? 1 : 0, 3);
		GenOpt o = leaf_opt();
		o.types = "cCuUiIhHfdsbtTFN";
		for (int j = 0; j < k; j++) {
			if (depth < 4 && r.chance(2, 5)) m.a.push_back(A_bndl(gen_nested(r, depth + 1, sep, drop)));
			else m.a.push_back(gen_atom(r, o));
		}
		b.m.push_back(m);
	}
	return b;
}
static void flatten_case(Ctx &c) {
	Rng &r = c.rng;
	static const char *seps[] = {"", ".", "", "::", "_"};
	Str sep = seps[r.below(5)];
	bool drop = r.flip();
	Bundle b;
	int maxlevel = r.chance(2, 5) ? r.range(-1, 0) : r.range(1, 5);
	std::vector<Flat> want;
	for (int t = 0; t < 20; t++) {
		b = gen_nested(r, 0, sep, drop);
		want.clear();
		long g = 0;
		flatten(b, "", sep, 0, maxlevel, drop, want, g);
		if (distinct(want)) break;
		want.clear();
		b.m.clear();
	}
	c.in("flatten " + q(sep) + sf(" %d %d ", maxlevel, drop) + show(b));
	Bundle got = run_flatten(c, b, maxlevel, sep, drop);
	check_flat(got, want, "flatten with " + q(sep) + sf(" to level %d (%s emptied enclosing messages) of ", maxlevel, drop ? "dropping" : "keeping") + show(b));
	c.cover("flatten-messages", (long)want.size());
	if (want.size()) c.nontrivial = true;
}
// addresses with doubled and trailing separators: nothing is lost on the way there and back
static void odd_case(Ctx &c) {
	Rng &r = c.rng;
	Bundle b;
	int n = r.range(1, 6);
	for (int i = 0; i < n; i++) {
		Msg m; m.addr = gen_path(r, "/", false);
		if (r.flip()) m.addr += r.chance(1, 4) ? "//" : "/";
		if (r.flip()) { size_t p = 1 + r.below(m.addr.size() - 1); p = m.addr.find('/', p); if (p != Str::npos) m.addr.insert(p, r.chance(1, 4) ? "//" : "/"); }
		if (r.chance(1, 8)) m.addr = "/" + m.addr;
		bool bad = false;
		for (auto &x : b.m) if (!x.addr.compare(0, m.addr.size(), m.addr) || !m.addr.compare(0, x.addr.size(), x.addr)) bad = true;
		if (bad) continue;
		int k = r.range(1, 3);
		GenOpt o = leaf_opt();
		o.types = "cCuUiIhHfdsbtTFN";
		for (int j = 0; j < k; j++) m.a.push_back(gen_atom(r, o));
		b.m.push_back(m);
	}
	c.in("odd " + show(b));
	Bundle ex = run_explode(c, b, -1, "/");
	Bundle back = run_flatten(c, ex, r.flip() ? 0 : -1, "", true);
	std::vector<Flat> w;
	for (auto &m : b.m) w.push_back({m, (long)w.size()});
	check_flat(back, w, "flatten(explode) at doubled or trailing separators of " + show(b));
	c.cover("odd-separators");
}
static void random_case(Ctx &c) {
	if (c.rng.chance(1, 4)) odd_case(c);
	explode_case(c, c.rng.chance(1, 10) ? 40 : 7);
	flatten_case(c);
}
// many addresses below few groups, and a very deep address
static void big(Ctx &c) {
	for (int k = 0; k < 6; k++) explode_case(c, 60);
	Str a;
	for (int i = 0; i < 60; i++) a += sf("/p%d", i);
	Bundle b;
	b.m = {Msg{a, {A_i(1), A_s("x")}}, Msg{a.substr(0, a.size() - 2) + "zz", {A_d(2)}}};
	Bundle ex = run_explode(c, b, -1, "/");
	Bundle back = run_flatten(c, ex, 0, "", true);
	check_flat(back, {{b.m[0], 0}, {b.m[1], 0}}, "flatten(explode) of deep addresses");
	c.in("big");
	c.nontrivial = true;
}

// one address of very many parts, and addresses as large as the stack: the work may not be kept on it
static void deep(Ctx &c, int parts, size_t len) {
	Str a;
	for (int i = 0; i < parts; i++) { a += "/"; a += Str(len, (char)('a' + i % 26)); }
	t_osc_bndl_u *src = osc_bundle_u_alloc(), *ex = nullptr, *back = nullptr;
	t_osc_msg_u *m = osc_message_u_allocWithAddress((char *)a.c_str());
	osc_message_u_appendInt32(m, 7);
	osc_bundle_u_addMsg(src, m);
	c.in(sf("explode and flatten of an address of %d parts, %zu characters each", parts, len));
	CHECK(!osc_bundle_u_explode(&ex, src, -1, (char *)"/"), "error", "explode failed");
	int d = 0;
	t_osc_bndl_u *b = ex;
	for (;;) {
		CHECK(osc_bundle_u_getMsgCount(b) == 1, "explode", sf("level %d has another number of messages than one", d));
		t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
		t_osc_msg_u *mm = osc_bndl_it_u_next(it);
		osc_bndl_it_u_destroy(it);
		d++;
		CHECK(Str(osc_message_u_getAddress(mm)) == "/" + Str(len, (char)('a' + (d - 1) % 26)), "explode", sf("level %d has another address than part %d", d, d));
		CHECK(osc_message_u_getArgCount(mm) == 1, "explode", "another number of arguments than one");
		t_osc_atom_u *at = osc_message_u_getArg(mm, 0);
		if (osc_atom_u_getTypetag(at) != '.') { CHECK(d == parts && osc_atom_u_getInt32(at) == 7, "explode", sf("the value is at level %d", d)); break; }
		b = osc_atom_u_getBndl(at);
	}
	if (parts > 200) { osc_bundle_u_free(src); osc_bundle_u_free(ex); c.cover("explode of very many parts"); c.nontrivial = true; return; } // flatten copies what is below at every level
	back = osc_bundle_u_alloc();
	CHECK(!osc_bundle_u_flatten(&back, ex, 0, (char *)"", 1), "error", "flatten failed");
	CHECK(osc_bundle_u_getMsgCount(back) == 1, "flatten", "another number of messages than one");
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(back);
	t_osc_msg_u *mm = osc_bndl_it_u_next(it);
	osc_bndl_it_u_destroy(it);
	CHECK(Str(osc_message_u_getAddress(mm)) == a && osc_message_u_getArgCount(mm) == 1, "flatten", "another address than before");
	osc_bundle_u_free(src); osc_bundle_u_free(ex); osc_bundle_u_free(back);
	c.cover("very deep or very long address");
	c.nontrivial = true;
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "flat";
		s.directed = {{"big", big}, {"1500 parts", [](Ctx &c) { deep(c, 1500, 4); }}, {"parts of 5000000", [](Ctx &c) { deep(c, 2, 5000000); }}, {"parts of 10000", [](Ctx &c) { deep(c, 100, 10000); }}};
		s.random = random_case;
	}
	return s;
}
