// C03: untrusted packets. The sanity check runs on arbitrary bytes in an exactly sized heap block (ASan sees any
// access outside); whatever it accepts is driven through every reader.
#include "vh.h"
extern "C" {
#include "osc_match.h"
}

// reasons for which a packet has to be rejected, found by an independent walk; "" = none found
static Str must_reject(const char *p, size_t n) {
	if (n < 16) return "too short";
	if (memcmp(p, "#bundle\0", 8)) return "header";
	size_t i = 16;
	while (i < n) {
		if (n - i < 4) return "sizes";
		int32_t sz = (int32_t)get32(p + i);
		i += 4;
		if (sz < 0 || (size_t)sz > n - i) return "sizes";
		const char *m = p + i;
		i += sz;
		if (sz < 4) return "message too small";
		if (m[0] != '/') return "address slash";
		size_t a = 0;
		while (a < (size_t)sz && m[a]) a++;
		if (a == (size_t)sz) return "address unterminated";
		a = (a + 4) & ~(size_t)3;
		if (a >= (size_t)sz) continue;
		if (m[a] != ',') continue; // no statement about these
		size_t t = a, e = a;
		while (e < (size_t)sz && m[e]) e++;
		if (e == (size_t)sz) return "typetags unterminated";
		size_t d = a + ((e - a + 4) & ~(size_t)3);
		bool known = true;
		for (t = a + 1; t < e && known; t++) {
			long left = (long)sz - (long)d;
			switch (m[t]) {
			case 'i': case 'I': case 'f': case 'c': case 'C': case 'u': case 'U': if (left < 4) return "data"; d += 4; break;
			case 'h': case 'H': case 'd': case 't': if (left < 8) return "data"; d += 8; break;
			case 'T': case 'F': case 'N': break;
			case 's': {
				size_t x = d;
				if (left <= 0) return "data";
				while (x < (size_t)sz && m[x]) x++;
				if (x == (size_t)sz) return "string data";
				d += (x - d + 4) & ~(size_t)3;
			} break;
			case 'b': case '.': {
				if (left < 4) return "data";
				int32_t l = (int32_t)get32(m + d);
				if (l < 0 || l > left - 4) return m[t] == 'b' ? "blob data" : "nested data";
				d += 4 + (m[t] == 'b' ? ((size_t)l + 3) & ~(size_t)3 : (size_t)l);
			} break;
			default: known = false;
			}
		}
	}
	return "";
}

static void touch(const char *p, size_t n) {
	volatile unsigned x = 0;
	for (size_t i = 0; i < n; i++) x += (unsigned char)p[i];
}
static void touch_atom(Ctx &c, t_osc_atom_s *a, int depth);
static void read_all(Ctx &c, long len, char *p, int depth) {
	t_osc_bndl_it_s *it = osc_bundle_iterator_s_getIterator(len, p);
	int k = 0;
	while (osc_bundle_iterator_s_hasNext(it)) {
		CHECK(++k < 200000, "accepted:endless", "the iterator does not end");
		t_osc_msg_s *m = osc_bundle_iterator_s_next(it);
		CHECK(m && osc_message_s_getPtr(m) >= p && osc_message_s_getPtr(m) + 4 + osc_message_s_getSize(m) <= p + len, "accepted:msg-outside", "a message of an accepted packet lies outside it");
		touch(osc_message_s_getAddress(m), strlen(osc_message_s_getAddress(m)));
		int n = osc_message_s_getArgCount(m);
		for (int i = 0; i < n; i++) {
			t_osc_atom_s *a = nullptr;
			osc_message_s_getArg(m, i, &a);
			if (a) touch_atom(c, a, depth);
			if (a) osc_atom_s_free(a);
			if (i > 40) break;
		}
		t_osc_msg_it_s *mi = osc_message_iterator_s_getIterator(m);
		while (osc_message_iterator_s_hasNext(mi)) {
			t_osc_atom_s *a = osc_message_iterator_s_next(mi);
			size_t s = osc_atom_s_sizeof(a);
			char *d = osc_atom_s_getData(a);
			CHECK(s == 0 || (d >= p && d + s <= p + len), "accepted:arg-outside", "an argument of an accepted packet lies outside it");
			touch_atom(c, a, depth);
		}
		osc_message_iterator_s_destroyIterator(mi);
		t_osc_msg_s *w = osc_message_s_alloc();
		osc_message_s_wrap(w, osc_message_s_getPtr(m));
		osc_message_s_cacheDataOffsets(w);
		char *f = osc_message_s_format(w);
		osc_mem_free(f);
		osc_message_s_free(w);
	}
	osc_bundle_iterator_s_destroyIterator(it);
}
static void touch_atom(Ctx &c, t_osc_atom_s *a, int depth) {
	c.cover(Str("accepted-type:") + osc_atom_s_getTypetag(a));
	(void)osc_atom_s_getInt32(a); (void)osc_atom_s_getUInt8(a); (void)osc_atom_s_getBool(a);
	char *s = nullptr;
	switch (osc_atom_s_getTypetag(a)) {
	case 's': osc_atom_s_getString(a, 0, &s); osc_mem_free(s); (void)osc_atom_s_getDouble(a); break;
	case 'b': touch(osc_atom_s_getBlob(a), 4 + osc_atom_s_getBlobLen(a)); break;
	case 't': (void)osc_atom_s_getTimetag(a); break;
	case '.': {
		t_osc_bndl_s *b = osc_atom_s_getBndl(a);
		if (b) {
			long l = osc_bundle_s_getLen(b);
			char *p = osc_bundle_s_getPtr(b);
			osc_bundle_s_free(b);
			if (depth < 3) read_all(c, l, p, depth + 1);
		}
	} break;
	}
}

static void examine(Ctx &c, const Str &pkt, const char *origin) {
	Exact e(pkt);
	t_osc_err r = osc_error_bundleSanityCheck((int)e.n, e.p);
	CHECK(e.str() == pkt, "modified", "the sanity check changed the packet");
	c.cover(r ? "rejected" : "accepted");
	Bundle b;
	Str why;
	bool wf = dec_bundle(pkt, b, why);
	if (wf) { c.cover("well-formed"); CHECK(!r, "false-reject", sf("a well-formed packet is rejected with error %llx: ", (unsigned long long)r) + show(b)); }
	Str mr = must_reject(pkt.data(), pkt.size());
	if (!mr.empty()) {
		c.cover("must-reject:" + mr);
		CHECK(!wf, "oracle", "the two oracles disagree");
		CHECK(r, "false-accept:" + mr, "a malformed packet (" + mr + ") is accepted: " + hex(pkt));
	}
	int cnt = 0;
	t_osc_err r2 = osc_bundle_s_getMsgCount((int)e.n, e.p, &cnt);
	CHECK((r == 0) == (r2 == 0), "count-check", "getMsgCount and the sanity check disagree");
	if (r) return;
	c.nontrivial = true;
	read_all(c, (long)e.n, e.p, 0);
	static const char *pats[] = {"/a", "/*", "/*/*", "/{a,b}*", "/[a-z]", "/?", "/foo/bar", "//"};
	for (int i = 0; i < 4; i++) {
		char *pat = (char *)pats[c.rng.below(8)];
		int res;
		t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress((long)e.n, e.p, pat, c.rng.flip());
		if (ar) {
			long n = osc_array_getLen((t_osc_array *)ar);
			for (long k = 0; k < n; k++) {
				t_osc_msg_s *m = (t_osc_msg_s *)osc_array_get((t_osc_array *)ar, k);
				CHECK(osc_message_s_getPtr(m) >= e.p && osc_message_s_getPtr(m) < e.p + e.n, "accepted:lookup-outside", "lookup returned a message outside the packet");
				(void)osc_message_s_getArgCount(m);
			}
			osc_array_free((t_osc_array *)ar);
		}
		osc_bundle_s_addressExists((long)e.n, e.p, pat, c.rng.flip(), &res);
		osc_bundle_s_addressIsBound((long)e.n, e.p, pat, c.rng.flip(), &res);
		(void)osc_bundle_s_getFirstFullMatch((long)e.n, e.p, pat);
		(void)osc_bundle_s_getFirstEqualAddr((long)e.n, e.p, pat);
	}
	char *f = osc_bundle_s_format((long)e.n, e.p);
	if (f) { touch(f, strlen(f)); osc_mem_free(f); }
	{
		size_t n = c.rng.below(64) + 1;
		char *buf = (char *)malloc(n);
		osc_bundle_s_nformat(buf, (long)n, (long)e.n, e.p, 0);
		free(buf);
	}
	t_osc_bndl_u *u = osc_bundle_s_deserialize((long)e.n, e.p);
	CHECK(u, "deserialize-null", "deserialize returned NULL");
	CHECK(osc_bundle_u_getMsgCount(u) == cnt, "deserialize-count", sf("deserialized %d of %d messages", osc_bundle_u_getMsgCount(u), cnt));
	osc_bundle_u_free(u);
	CHECK(e.str() == pkt, "modified", "reading changed the packet");
	(void)origin;
}

static Str mutate(Ctx &c, Str p) {
	Rng &r = c.rng;
	int k = r.range(1, 3);
	while (k--) {
		if (p.empty()) { p += (char)r.below(256); continue; }
		// positions of size fields of the top-level messages
		std::vector<size_t> sz;
		if (p.size() > 20) { size_t i = 16; while (i + 4 <= p.size()) { sz.push_back(i); uint32_t s = get32(&p[i]); if (s > p.size()) break; i += 4 + s; } }
		size_t at = r.below(p.size());
		switch (r.below(14)) {
		case 0: p[at] ^= 1 << r.below(8); break;
		case 1: p[at] = (char)r.below(256); break;
		case 2: p.resize(at); break;
		case 3: p.resize(p.size() - std::min<size_t>(p.size(), 4 * r.below(4))); break;
		case 4: p.insert(at, Str(r.range(1, 8), (char)r.below(256))); break;
		case 5: p.insert(at & ~3u, Str(4 * r.range(1, 3), (char)(r.flip() ? 0 : r.below(256)))); break;
		case 6: p.erase(at & ~3u, 4); break;
		case 7: if (!sz.empty()) { size_t i = sz[r.below(sz.size())]; if (i + 4 <= p.size()) { uint32_t v = get32(&p[i]); static const int ds[] = {-8, -4, -3, -1, 1, 2, 4, 8, 100}; v += ds[r.below(9)]; Str o; put32(o, v); p.replace(i, 4, o); } } break;
		case 8: if (!sz.empty()) { size_t i = sz[r.below(sz.size())]; if (i + 4 <= p.size()) { static const uint32_t vs[] = {0, 1, 3, 4, 5, 8, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffcu, 0x7ffffffc, 0xffffffecu}; Str o; put32(o, vs[r.below(12)]); p.replace(i, 4, o); } } break;
		case 9: if (p.size() >= 20) { size_t i = (16 + r.below(p.size() - 16)) & ~3u; if (i + 4 <= p.size()) { static const uint32_t vs[] = {0, 1, 3, 4, 5, 8, 15, 16, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffcu, 0x7ffffffc, 0xfffffff0u}; Str o; put32(o, vs[r.below(14)]); p.replace(i, 4, o); } } break;
		case 10: for (size_t i = 16; i < p.size(); i++) if (p[i] == 0 && r.chance(1, 12)) p[i] = 'x'; break;
		case 11: { size_t j = p.find(',', 16); if (j != Str::npos) { if (r.flip() && j + 1 < p.size()) p[j + 1] = *r.pickc("ifsbhdtTFN.cCuUIHSmrjJAq[]z"); else p[j] = (char)r.below(256); } } break;
		case 12: { size_t j = p.find('/', 16); if (j != Str::npos) p[j] = (char)r.below(256); } break;
		case 13: p += Str(r.range(1, 12), (char)(r.flip() ? 0 : r.below(256))); break;
		}
	}
	return p;
}

static void random_case(Ctx &c) {
	Rng &r = c.rng;
	Str p;
	GenOpt o;
	o.max_args = 4;
	o.max_depth = 3;
	o.header_tt = r.flip();
	switch (r.below(8)) {
	case 0: { int n = r.range(0, 64); for (int i = 0; i < n; i++) p += (char)r.below(256); if (r.flip()) p = Str("#bundle\0", 8) + p; } break;
	case 1: p = enc_bundle(gen_bundle(r, o)); break;
	case 2: { p = enc_bundle(gen_bundle(r, o)); p.resize(r.below(p.size() + 1)); } break;
	default: p = mutate(c, enc_bundle(gen_bundle(r, o))); break;
	}
	c.in(hex(p));
	examine(c, p, "random");
}

static Str one_msg(const Str &body) { Str p("#bundle\0\0\0\0\0\0\0\0\0", 16); put32(p, (uint32_t)body.size()); return p + body; }
static Str S(const char *s, size_t n) { return Str(s, n); }

static void dir_prefixes(Ctx &c) {
	Bundle b;
	for (char t : Str("cCuUiIhHfdsbtTFN.")) {
		Msg m; m.addr = Str("/a") + t;
		GenOpt o; o.types = Str(1, t); o.max_depth = 1;
		m.a.push_back(t == '.' ? A_bndl(Bundle()) : gen_atom(c.rng, o));
		m.a.push_back(t == 's' ? A_s("abcd") : t == 'b' ? A_b("abcd") : A_i(5));
		b.m.push_back(m);
	}
	Str p = enc_bundle(b);
	c.in(show(b));
	for (size_t n = 0; n <= p.size(); n++) examine(c, p.substr(0, n), "prefix");
	// and every single 32-bit word replaced by hostile values
	for (size_t i = 16; i + 4 <= p.size(); i += 4)
		for (uint32_t v : {0u, 1u, 0xffffffffu, 0x7fffffffu, 0x80000000u, (uint32_t)p.size(), 0x2f2f2f2fu}) {
			Str x = p, o; put32(o, v); x.replace(i, 4, o);
			examine(c, x, "word");
		}
}
static void dir_shapes(Ctx &c) {
	std::vector<Str> v = {
		"", "#", S("#bundle", 7), S("#bundle\0", 8), S("#bundle\0\0\0\0\0\0\0\0", 15), S("#bundle\0\0\0\0\0\0\0\0\0", 16), S("#bundlx\0\0\0\0\0\0\0\0\0", 16),
		one_msg(""), one_msg("/a"), one_msg("/abc"), one_msg(S("/abc\0", 5)), one_msg(S("/abc\0\0\0\0", 8)), one_msg(S("/a\0\0,\0\0\0", 8)), one_msg(S("/a\0\0,i\0\0", 8)),
		one_msg(S("/a\0\0,i\0\0\1\2\3", 11)), one_msg(S("/a\0\0,iii", 8)), one_msg(S("/a\0\0,iiiiiii", 12)), one_msg(S("/a\0\0,s\0\0abcd", 12)), one_msg(S("/a\0\0,s\0\0", 8)),
		one_msg(S("/a\0\0,b\0\0\0\0\0\5abcd", 16)), one_msg(S("/a\0\0,b\0\0\xff\xff\xff\xff""abcd", 16)), one_msg(S("/a\0\0,b\0\0\x7f\xff\xff\xff", 12)), one_msg(S("/a\0\0,b\0\0\0\0\0\0", 12)),
		one_msg(S("/a\0\0,.\0\0\0\0\0\20#bundle\0\0\0\0\0\0\0\0\0", 28)), one_msg(S("/a\0\0,.\0\0\0\0\0\24#bundle\0\0\0\0\0\0\0\0\0", 28)), one_msg(S("/a\0\0,.\0\0\0\0\0\0", 12)),
		one_msg(S("/a\0\0,.\0\0\0\0\0\4abcd", 16)), one_msg(S("/a\0\0,.\0\0\xff\xff\xff\xff", 12)), one_msg(S("/a\0\0,\xff\0\0", 8)), one_msg(S("/a\0\0,z\0\0", 8)), one_msg(S("/a\0\0xi\0\0\0\0\0\1", 12)),
		one_msg(S("/a\0\0\0\0\0\0", 8)), one_msg(S("a\0\0\0,\0\0\0", 8)), one_msg(S("\0\0\0\0,\0\0\0", 8)), one_msg(S("/a\0\0,h\0\0\1\2\3\4", 12)), one_msg(S("/a\0\0,d\0\0\1\2\3\4\1\2", 14)), one_msg(S("/a\0\0,t\0\0\1\2\3\4", 12)),
	};
	for (auto &p : v) examine(c, p, "shape");
	c.in("hand-written shapes");
}
static void dir_deep(Ctx &c) {
	Bundle b;
	Msg m; m.addr = "/x"; m.a = {A_i(1)};
	b.m = {m};
	for (int i = 0; i < 60; i++) { Bundle o; Msg n; n.addr = "/n"; n.a = {A_bndl(b)}; o.m = {n}; b = o; }
	Str p = enc_bundle(b);
	c.in("60 levels");
	examine(c, p, "deep");
	for (int i = 0; i < 60; i++) { // break the innermost levels
		Str x = p;
		size_t at = x.size() - 4 * (i + 1);
		x[at] = (char)0x7f;
		examine(c, x, "deep");
	}
}
static void dir_many(Ctx &c) {
	Bundle b;
	for (int i = 0; i < 3000; i++) { Msg m; m.addr = sf("/m%d", i); if (i % 3) m.a = {A_i(i), A_s("x")}; b.m.push_back(m); }
	Str p = enc_bundle(b);
	c.in("3000 messages");
	examine(c, p, "many");
	examine(c, p.substr(0, p.size() - 4), "many");
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "hostile";
		s.directed = {{"prefixes", dir_prefixes}, {"shapes", dir_shapes}, {"deep", dir_deep}, {"many", dir_many}};
		s.random = random_case;
	}
	return s;
}
