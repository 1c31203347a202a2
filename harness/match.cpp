// C04: osc_match against an independent matcher, exhaustively on small strings and at random on large ones.
#include "refmatch.h"

static void one(Ctx &c, const std::vector<Seg> &ps, const Str &pat, const char *p, const Str &addr, const char *a) {
	Want w = expect(ps, pat, addr);
	for (int k = 0; k < 2; k++) {
		int po = 12345, ao = -77;
		int r = osc_match(p, a, &po, &ao);
		if (r >= 0x100) fail(sf("error:%x", r), "well-formed pattern " + q(pat) + " against " + q(addr) + sf(" reported error %#x", r));
		if (r != w.r) fail(sf("result:%d-for-%d", r, w.r), "pattern " + q(pat) + " address " + q(addr) + sf(": returned %d, the pattern language gives %d", r, w.r));
		if (po != w.po || ao != w.ao) fail(sf("offsets:%d", r), "pattern " + q(pat) + " address " + q(addr) + sf(": result %d with offsets %d,%d, expected %d,%d", r, po, ao, w.po, w.ao));
	}
	c.cover(sf("result-%d", w.r));
}
static void one_x(Ctx &c, const std::vector<Seg> &ps, const Str &addr) {
	Str pat = text(ps);
	Exact p(pat + Str(1, 0)), a(addr + Str(1, 0));
	one(c, ps, pat, p.p, addr, a.p);
	CHECK(p.str() == pat + Str(1, 0) && a.str() == addr + Str(1, 0), "modified", "a string was modified");
}

static void exhaustive(Ctx &c, int first, int maxlen, int maxaddr) {
	std::vector<Tok> T = {lit('a'), lit('b'), tk(Tok::ANY, "?"), tk(Tok::STAR, "*"), setof_("[ab]"), setof_("[!a]"), alts({"a", "ab"}), alts({"", "b"}), tk(Tok::SLASH, "/")};
	std::vector<Str> addrs = {"/"};
	for (size_t i = 0; i < addrs.size(); i++) if ((int)addrs[i].size() <= maxaddr) for (char ch : Str("ab/")) addrs.push_back(addrs[i] + ch);
	std::vector<std::unique_ptr<Exact>> ax;
	for (auto &a : addrs) ax.emplace_back(new Exact(a + Str(1, 0)));
	std::vector<int> idx;
	long pats = 0;
	std::function<void()> rec = [&]() {
		std::vector<Seg> ps(1);
		for (int i : idx) { if (T[i].k == Tok::SLASH) ps.emplace_back(); else ps.back().push_back(T[i]); }
		Str pat = text(ps);
		Exact p(pat + Str(1, 0));
		for (size_t i = 0; i < addrs.size(); i++) one(c, ps, pat, p.p, addrs[i], ax[i]->p);
		pats++;
		if ((int)idx.size() < maxlen) for (int i = 0; i < (int)T.size(); i++) { idx.push_back(i); rec(); idx.pop_back(); }
	};
	idx.push_back(first);
	rec();
	c.in(sf("all token sequences of length <=%d starting with %s against all %zu addresses over {a,b,/}", maxlen, T[first].text.c_str(), addrs.size()));
	c.cover("exhaustive-patterns", pats);
	c.nontrivial = true;
}

static const char *LITS = "abcxyzABC0189_.-+=~@#$%^&|;'\"<>()\xc3\xa9\xff";
static Seg gen_seg(Rng &r, int maxtok) {
	Seg s;
	int n = r.range(0, maxtok), stars = 0;
	for (int i = 0; i < n; i++) {
		int k = r.range(0, 9);
		if (k < 4) s.push_back(lit(*r.pickc(r.flip() ? "ab" : LITS)));
		else if (k == 4) s.push_back(tk(Tok::ANY, "?"));
		else if (k == 5 && stars < 4) { stars++; s.push_back(tk(Tok::STAR, "*")); if (r.chance(1, 6)) s.push_back(tk(Tok::STAR, "*")); }
		else if (k == 6 || k == 7) {
			Str t = "[";
			if (r.chance(1, 3)) t += '!';
			int m = r.range(1, 4);
			bool lead = r.chance(1, 8), close = !lead && r.chance(1, 10); // a - or a ] that comes first is an ordinary character
			if (lead) t += '-';
			if (close) t += ']';
			for (int j = 0; j < m; j++) {
				char x = *r.pickc(r.flip() ? "abc" : "abcxyzABC0189_.+{},*?~!");
				if (j == 0 && !lead && !close && x == '!') x = 'a';
				t += x;
				if (r.chance(1, 3)) { t += '-'; t += *r.pickc("abcxyzABC019"); }
			}
			if (r.chance(1, 8)) t += '-';
			t += ']';
			// a leading '-' followed by '-x' would read as a range from '-': keep such forms out
			if (t.find("--") == Str::npos) s.push_back(setof_(t)); else s.push_back(lit('a'));
		} else if (k >= 8) {
			std::vector<Str> v;
			int m = r.range(1, 4);
			for (int j = 0; j < m; j++) {
				Str a;
				int l = r.chance(1, 6) ? 0 : r.range(1, r.chance(1, 10) ? 30 : 3);
				for (int x = 0; x < l; x++) a += *r.pickc(r.flip() ? "ab" : "abcxyz0_.-*?[]!");
				v.push_back(a);
			}
			s.push_back(alts(v));
		}
	}
	return s;
}
static Str sample_seg(Rng &r, const Seg &g) {
	Str o;
	for (auto &t : g) switch (t.k) {
		case Tok::LIT: o += t.c; break;
		case Tok::ANY: o += *r.pickc("abz{}[],?!"); break;
		case Tok::STAR: for (int n = r.chance(1, 5) ? r.range(0, 12) : r.range(0, 3); n > 0; n--) o += *r.pickc("abcz.,{}]?!"); break;
		case Tok::SET: {
			for (int k = 0; k < 50; k++) {
				char x = (char)r.range(33, 126);
				if (x != '/' && x != '*' && (t.set.count((unsigned char)x) != 0) != t.neg) { o += x; break; }
			}
			break;
		}
		case Tok::ALT: o += r.pick(t.alt); break;
		default: break;
	}
	return o;
}

static void directed_set(Ctx &c) {
	// each character class boundary against every byte an address may hold
	const char *sets[] = {"[a]", "[abc]", "[a-c]", "[c-a]", "[!a-c]", "[!abc]", "[0-9a-fA-F]", "[!0-9a-fA-F]", "[-a]", "[a-]", "[!-a]", "[!a-]", "[a-a]", "[!!]", "[a!]", "[*?]", "[{,}]", "[a-cx-z]", "[!a-cx-z]", "[z-x0]", "[]]", "[!]]", "[]a]", "[!]a-c]", "[]0-9{]"};
	for (auto s : sets) {
		Tok t = setof_(s);
		for (int ch = 1; ch < 256; ch++) {
			if (ch == '/') continue;
			std::vector<std::vector<Seg>> shapes = {{{t}}, {{lit('q'), t, lit('r')}}, {{tk(Tok::STAR, "*"), t}}};
			Str pre[] = {"/", "/q", "/zz"}, post[] = {"", "r", ""};
			for (int k = 0; k < 3; k++) {
				Str a = pre[k] + (char)ch + post[k];
				if (a == "/*") continue;
				one_x(c, shapes[k], a);
			}
		}
		c.in(s);
	}
	c.nontrivial = true;
}

static void malformed(Ctx &c) {
	// an unbalanced bracket or brace is never a complete match; strings without the leading slash are errors
	const char *bad[] = {"/a[b", "/[", "/a]", "/{a", "/{a,b", "/a}", "/[a-", "/{", "/x{a/b}", "/[a/b]", "/a[b-", "/[!", "/{,", "/*[a", "/*{a"};
	const char *ad[] = {"/", "/a", "/ab", "/a/b", "/b", "/xa", "/aa", "/a/", "/-"};
	for (auto p : bad) for (auto a : ad) {
		Exact ep(Str(p) + Str(1, 0)), ea(Str(a) + Str(1, 0));
		int po = -1, ao = -1;
		int r = osc_match(ep.p, ea.p, &po, &ao);
		CHECK(r != 3, "malformed-match", Str(p) + " matched " + a);
		CHECK(po >= 0 && po <= (int)strlen(p) && ao >= 0 && ao <= (int)strlen(a), "malformed-offsets", Str(p) + " against " + a + sf(": offsets %d,%d", po, ao));
		c.cover("malformed");
	}
	const char *nos[] = {"", "a", "a/b", "*"};
	for (auto p : nos) {
		Exact ep(Str(p) + Str(1, 0)), ea(Str("/a") + Str(1, 0));
		int po, ao;
		CHECK(osc_match(ep.p, ea.p, &po, &ao) == 0x500, "no-slash", "pattern without slash accepted");
		CHECK(osc_match(ea.p, ep.p, &po, &ao) == 0x600, "no-slash", "address without slash accepted");
	}
	c.in("malformed patterns");
	c.nontrivial = true;
}

static void star_addr(Ctx &c) {
	std::vector<Seg> v = {{}, {lit('a')}, {tk(Tok::STAR, "*")}, {tk(Tok::ANY, "?"), lit('b')}, {setof_("[ab]")}, {alts({"a", "bc"})}};
	for (auto &x : v) for (auto &y : v) {
		for (auto a : {"/*", "/*/*", "/*/a", "/a/*", "/*/*/*", "/*a", "/a*", "/**", "/*/", "/*b/a", "/a/*/b"}) {
			one_x(c, {x}, a);
			one_x(c, {x, y}, a);
			one_x(c, {x, y, x}, a);
		}
	}
	c.in("address segments that are exactly *");
	c.nontrivial = true;
}

static void deep(Ctx &c) {
	Rng &r = c.rng;
	// long segments, several stars: within the documented backtracking limit
	for (int k = 0; k < 40; k++) {
		int n = r.range(60, 240);
		Str a = "/";
		for (int i = 0; i < n; i++) a += *r.pickc("abc");
		Seg s = {tk(Tok::STAR, "*"), lit('a'), tk(Tok::STAR, "*"), lit(*r.pickc("abcz"))};
		if (n < 120) { s.push_back(tk(Tok::STAR, "*")); s.push_back(lit(*r.pickc("abcz"))); }
		one_x(c, {s}, a);
		one_x(c, {s, {lit('a')}}, a);
	}
	// long segments one after the other, each with its own backtracking
	for (int k = 0; k < 20; k++) {
		int n = r.range(10, 60);
		std::vector<Seg> ps;
		Str a;
		for (int i = 0; i < n; i++) {
			char l = *r.pickc("abc");
			Str s;
			for (int j = r.range(10, 80); j > 0; j--) s += *r.pickc("abc");
			ps.push_back({tk(Tok::STAR, "*"), lit(l), tk(Tok::STAR, "*")});
			a += "/" + s + l + (r.flip() ? "" : "aa");
		}
		one_x(c, ps, a);
		one_x(c, ps, a + "/x");
		ps.push_back({tk(Tok::STAR, "*"), lit('z')});
		one_x(c, ps, a);
		one_x(c, ps, a + "/abcabcz");
		one_x(c, ps, a + "/abcabc");
	}
	// many segments
	for (int k = 0; k < 40; k++) {
		int n = r.range(20, 120);
		std::vector<Seg> ps;
		Str a;
		for (int i = 0; i < n; i++) { Seg g = gen_seg(r, 4); ps.push_back(g); a += "/" + sample_seg(r, g); }
		one_x(c, ps, a);
		auto p2 = ps;
		p2.pop_back();
		one_x(c, p2, a);
		p2 = ps;
		p2.push_back({lit('x')});
		one_x(c, p2, a);
	}
	// literal of any length
	for (int n : {1, 2, 3, 4, 63, 64, 65, 255, 256, 257, 1000, 1023, 1024, 2100}) {
		Str l((size_t)n, 'k');
		Seg s;
		for (char ch : l) s.push_back(lit(ch));
		one_x(c, {s}, "/" + l);
		one_x(c, {s}, "/" + l + "k");
		one_x(c, {s}, "/" + l.substr(1));
		one_x(c, {s}, "/" + l + "/a");
		one_x(c, {s, {lit('a')}}, "/" + l);
		one_x(c, {{tk(Tok::STAR, "*")}}, "/" + l);
		one_x(c, {{alts({l, "b"})}}, "/" + l);
		if (n <= 257) one_x(c, {{tk(Tok::STAR, "*"), lit('k')}}, "/" + l);
	}
	c.in("long segments, many segments");
	c.nontrivial = true;
}

static void rnd(Ctx &c) {
	Rng &r = c.rng;
	std::vector<Seg> ps;
	int ns = r.chance(1, 3) ? 1 : r.range(1, 4);
	for (int i = 0; i < ns; i++) ps.push_back(gen_seg(r, r.chance(1, 4) ? 7 : 4));
	Str pat = text(ps);
	c.in(q(pat));
	std::vector<Str> addrs;
	for (int k = 0; k < 12; k++) {
		Str a;
		int m = ns;
		if (r.chance(1, 4)) m = r.range(1, ns);
		for (int i = 0; i < m; i++) a += "/" + sample_seg(r, ps[i]);
		if (r.chance(1, 4)) a += "/" + Str(r.flip() ? "tail" : "");
		if (k >= 4) { // a mutant
			for (int z = r.range(1, 2); z > 0; z--) {
				size_t at = 1 + r.below(a.size());
				switch (r.range(0, 3)) {
				case 0: if (at < a.size()) a.erase(at, 1); break;
				case 1: a.insert(std::min(at, a.size()), 1, *r.pickc("ab/,}]")); break;
				case 2: if (at < a.size()) a[at] = *r.pickc("abc/"); break;
				case 3: if (at + 1 < a.size()) std::swap(a[at], a[at + 1]); break;
				}
			}
		}
		addrs.push_back(a);
	}
	for (auto &a : addrs) { c.h(a); one_x(c, ps, a); }
	c.nontrivial = pat.find_first_of("?*[{") != Str::npos;
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "match";
		for (int i = 0; i < 9; i++) s.directed.push_back({sf("exhaustive-%d", i), [i](Ctx &c) { exhaustive(c, i, c.thorough ? 5 : 4, c.thorough ? 6 : 5); }});
		s.directed.push_back({"sets", directed_set});
		s.directed.push_back({"malformed", malformed});
		s.directed.push_back({"star-address", star_addr});
		s.directed.push_back({"deep", deep});
		s.random = rnd;
	}
	return s;
}
