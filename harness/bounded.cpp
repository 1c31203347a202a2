// C10: every bounded output function in exactly sized buffers of every size.
#include "vh.h"

typedef std::function<long(char *, long)> Fmt;

// sizes worth trying for a text of len bytes
static std::vector<long> sizes(Rng &r, long len) {
	std::vector<long> v;
	if (len <= 40) for (long n = 0; n <= len + 3; n++) v.push_back(n);
	else {
		for (long n : {0L, 1L, 2L, 3L, 5L, len - 2, len - 1, len, len + 1, len + 2, len + 50}) v.push_back(n);
		for (int i = 0; i < 12; i++) v.push_back((long)r.below((uint64_t)len + 1));
	}
	return v;
}
static Str fmt_all(Ctx &c, const Str &what, const Fmt &f) {
	Rng &r = c.rng;
	long len = f(nullptr, 0);
	if (len < 0) fail(what + ":size", what + sf(" reports a length of %ld", len));
	Str full;
	{
		long n = len + 64;
		char *b = (char *)malloc((size_t)n);
		memset(b, '\x7e', (size_t)n);
		f(b, n);
		if (!memchr(b, 0, (size_t)n)) fail(what + ":unterminated", what + " does not terminate its text");
		full = b;
		free(b);
	}
	if ((long)full.size() != len) fail(what + ":announced", what + sf(" announces %ld characters and writes %zu: ", len, full.size()) + q(full));
	for (long n : sizes(r, len)) {
		// heap block of exactly n bytes: ASan sees any access outside it
		char *b = (char *)malloc((size_t)n);
		if (n) memset(b, '\x7e', (size_t)n);
		long k = f(b, n);
		if (n > len && k != len) fail(what + ":returned", what + sf(" in %ld bytes returns %ld instead of the length of the text, %ld: ", n, k, len) + q(full));
		if (n > 0) {
			char *z = (char *)memchr(b, 0, (size_t)n);
			if (!z) fail(what + ":unterminated", what + sf(" leaves a buffer of %ld bytes unterminated (text of %ld)", n, len));
			Str got(b, (size_t)(z - b));
			if (full.compare(0, got.size(), got)) fail(what + ":prefix", what + sf(" in %ld bytes writes ", n) + q(got) + ", not a prefix of " + q(full));
			if (n > len && got != full) fail(what + ":truncated", what + sf(" writes only ") + q(got) + sf(" of the text although the buffer has %ld bytes: ", n) + q(full));
		}
		free(b);
		c.cover("calls");
		if (n <= len) c.cover("short-buffers");
	}
	return full;
}
static void own(const Str &what, char *p, const Str &full, long len) {
	if (!p) { fail(what + ":null", what + " returned no text"); }
	Str got = p;
	osc_mem_free(p);
	if (got != full) fail(what + ":text", what + " gives " + q(got) + " instead of " + q(full));
	if (len >= 0 && len != (long)full.size()) fail(what + ":size", what + sf(" announces %ld characters for ", len) + q(full));
}
static void ser_all(Ctx &c, const Str &what, const Str &want, const Fmt &f) {
	long len = f(nullptr, 0);
	if (len != (long)want.size()) fail(what + ":announced", what + sf(" announces %ld bytes, expected %zu", len, want.size()));
	for (long n : {len, len + 1, len + 3, len + 4, len + 100}) {
		char *b = (char *)malloc((size_t)n);
		memset(b, '\x7e', (size_t)n);
		long k = f(b, n);
		if (k != len) fail(what + ":return", what + sf(" into %ld bytes returns %ld, announced %ld", n, k, len));
		Str got(b, (size_t)len);
		for (long i = len; i < n; i++) if (b[i] != '\x7e') fail(what + ":beyond", what + sf(" writes byte %ld, beyond the %ld it announced", i, len));
		free(b);
		if (got != want) fail(what + ":bytes", what + ": " + first_diff(got, want));
		c.cover("serializations");
	}
	// a shorter buffer is never overrun
	for (int i = 0; i < 4; i++) {
		long n = (long)c.rng.below((uint64_t)len ? (uint64_t)len : 1);
		char *b = (char *)malloc((size_t)n);
		f(b, n);
		free(b);
	}
}

static void no_nul(Bundle &b) {
	for (auto &m : b.m) for (auto &a : m.a) {
		if ((a.t == 'c' || a.t == 'C') && !(a.v & 0xff)) a = a.t == 'c' ? A_c('z') : A_C('z');
		if (a.t == '.') { no_nul(*a.b); }
	}
}

static void one(Ctx &c, const Bundle &b) {
	Rng &r = c.rng;
	Str bytes = enc_bundle(b);
	Exact e(bytes);
	t_osc_bndl_u *u = mk_bundle(r, b);
	int ind = r.range(0, 3);
	Str ft = fmt_all(c, "bundle_s_nformat", [&](char *p, long n) { return osc_bundle_s_nformat(p, n, (long)e.n, e.p, ind); });
	fmt_all(c, "bundle_u_nformat", [&](char *p, long n) { return osc_bundle_u_nformat(p, n, u, ind); });
	fmt_all(c, "bundle_s_nformatNestedBndl", [&](char *p, long n) { return osc_bundle_s_nformatNestedBndl(p, n, (long)e.n, e.p, ind + 1); });
	fmt_all(c, "bundle_u_nformatNestedBndl", [&](char *p, long n) { return osc_bundle_u_nformatNestedBndl(p, n, u, ind + 1); });
	Str f0 = ind ? fmt_all(c, "bundle_s_nformat", [&](char *p, long n) { return osc_bundle_s_nformat(p, n, (long)e.n, e.p, 0); }) : ft;
	Str f0u = fmt_all(c, "bundle_u_nformat", [&](char *p, long n) { return osc_bundle_u_nformat(p, n, u, 0); });
	own("bundle_s_format", osc_bundle_s_format((long)e.n, e.p), f0, osc_bundle_s_getFormattedSize((long)e.n, e.p));
	own("bundle_u_format", osc_bundle_u_format(u), f0u, osc_bundle_u_getFormattedSize(u));
	t_osc_bndl_s *bs = osc_bundle_s_alloc((long)e.n, e.p);
	own("bundle_s_pformat", osc_bundle_s_pformat(bs), f0, -1);
	osc_bundle_s_free(bs);
	Bundle plain = b;
	plain.tt = 0;
	ser_all(c, "bundle_u_nserialize", enc_bundle(plain), [&](char *p, long n) { return (long)osc_bundle_u_nserialize(p, (size_t)n, u); });
	CHECK(osc_bundle_u_getSerializedSize(u) == (long)bytes.size(), "bundle_u_getSerializedSize", "wrong serialized size");
	std::vector<Str> wm = wire_msgs(bytes);
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(u);
	for (size_t i = 0; i < b.m.size(); i++) {
		t_osc_msg_u *mu = osc_bndl_it_u_next(it);
		Exact em(wm[i]);
		t_osc_msg_s *ms = osc_message_s_alloc();
		osc_message_s_wrap(ms, em.p);
		int in = r.range(0, 2);
		fmt_all(c, "message_s_nformat", [&](char *p, long n) { return osc_message_s_nformat(p, n, ms, in); });
		fmt_all(c, "message_u_nformat", [&](char *p, long n) { return osc_message_u_nformat(p, n, mu, in); });
		Str a = fmt_all(c, "message_s_nformat", [&](char *p, long n) { return osc_message_s_nformat(p, n, ms, 0); });
		Str au = fmt_all(c, "message_u_nformat", [&](char *p, long n) { return osc_message_u_nformat(p, n, mu, 0); });
		own("message_s_format", osc_message_s_format(ms), a, osc_message_s_getFormattedSize(ms));
		own("message_u_format", osc_message_u_format(mu), au, osc_message_u_getFormattedSize(mu));
		ser_all(c, "message_u_nserialize", wm[i], [&](char *p, long n) { return (long)osc_message_u_nserialize(p, (size_t)n, mu); });
		size_t na = b.m[i].a.size();
		for (size_t k = 0; k < std::min<size_t>(na, 6); k++) {
			const Atom &x = b.m[i].a[k];
			t_osc_atom_s *xs = nullptr;
			osc_message_s_getArg(ms, (int)k, &xs);
			t_osc_atom_u *xu = osc_message_u_getArg(mu, (int)k);
			CHECK(xs && xu, "getarg", "an argument cannot be read");
			int ai = r.range(0, 2);
			fmt_all(c, Str("atom_s_nformat:") + x.t, [&](char *p, long n) { return osc_atom_s_nformat(p, n, xs, ai); });
			fmt_all(c, Str("atom_u_nformat:") + x.t, [&](char *p, long n) { return osc_atom_u_nformat(p, n, xu, ai); });
			Str y = fmt_all(c, Str("atom_s_nformat:") + x.t, [&](char *p, long n) { return osc_atom_s_nformat(p, n, xs, 0); });
			Str yu = fmt_all(c, Str("atom_u_nformat:") + x.t, [&](char *p, long n) { return osc_atom_u_nformat(p, n, xu, 0); });
			own(Str("atom_s_format:") + x.t, osc_atom_s_format(xs), y, osc_atom_s_getFormattedSize(xs));
			own(Str("atom_u_format:") + x.t, osc_atom_u_format(xu), yu, osc_atom_u_getFormattedSize(xu));
			if (!strchr("TFN", x.t)) ser_all(c, Str("atom_u_nserialize:") + x.t, enc_atom(x), [&](char *p, long n) { return (long)osc_atom_u_nserialize(p, (size_t)n, xu); });
			osc_atom_s_free(xs);
			c.cover(Str("atom-") + x.t);
		}
		osc_message_s_free(ms);
	}
	osc_bndl_it_u_destroy(it);
	osc_bundle_u_free(u);
}

static void prims(Ctx &c) {
	Rng &r = c.rng;
	GenOpt o; o.types = "iIhHuUcCfdt";
	Atom a = gen_atom(r, o);
	Str s = gen_string(r, GenOpt());
	if (r.chance(1, 30)) s.append((size_t)r.range(200, 3000), r.flip() ? '"' : 'k');
	Exact es(s + Str(1, 0));
	Str t;
	t = fmt_all(c, "strfmt_quotedString", [&](char *p, long n) { return (long)osc_strfmt_quotedString(p, (size_t)n, es.p); });
	CHECK(t == "\"" + s + "\"", "strfmt_quotedString:text", "quotedString of " + q(s) + " gives " + q(t));
	Str esc;
	for (char ch : s) { if (ch == '"' || ch == '\\') esc += '\\'; esc += ch; }
	t = fmt_all(c, "strfmt_stringWithQuotedMeta", [&](char *p, long n) { return (long)osc_strfmt_stringWithQuotedMeta(p, (size_t)n, es.p); });
	CHECK(t == esc, "strfmt_stringWithQuotedMeta:text", "stringWithQuotedMeta of " + q(s) + " gives " + q(t));
	t = fmt_all(c, "strfmt_quotedStringWithQuotedMeta", [&](char *p, long n) { return (long)osc_strfmt_quotedStringWithQuotedMeta(p, (size_t)n, es.p); });
	CHECK(t == "\"" + esc + "\"", "strfmt_quotedStringWithQuotedMeta:text", "quotedStringWithQuotedMeta of " + q(s) + " gives " + q(t));
	CHECK(osc_strfmt_countMeta((int)s.size(), es.p) == (int)(esc.size() - s.size()), "strfmt_countMeta", "countMeta counts " + std::to_string(osc_strfmt_countMeta((int)s.size(), es.p)) + " in " + q(s));
	CHECK(osc_strfmt_strlenPadded(es.p) == (int)pad_str(s).size(), "strfmt_strlenPadded", "strlenPadded is wrong for " + q(s));
	{
		char *out = nullptr;
		int n = osc_strfmt_addQuotesAndQuoteMeta((int)s.size(), es.p, &out);
		CHECK(out && Str(out) == "\"" + esc + "\"" && n == (int)esc.size() + 2, "strfmt_addQuotesAndQuoteMeta", "addQuotesAndQuoteMeta of " + q(s) + sf(" returns %d and ", n) + q(out ? out : ""));
		osc_mem_free(out);
		// into a caller's buffer of the announced size
		Exact b(Str((size_t)n + 1, '\x7e'));
		char *p = b.p;
		osc_strfmt_addQuotesAndQuoteMeta((int)s.size(), es.p, &p);
		CHECK(p == b.p && Str(p) == "\"" + esc + "\"", "strfmt_addQuotesAndQuoteMeta", "addQuotesAndQuoteMeta into a buffer gives " + q(p));
	}
	Str bl;
	{ int n = r.range(0, 40); for (int i = 0; i < n; i++) bl += (char)r.below(256); }
	Str wire;
	put32(wire, (uint32_t)bl.size());
	wire += bl;
	Exact eb(wire);
	t = fmt_all(c, "strfmt_blob", [&](char *p, long n) { return (long)osc_strfmt_blob(p, (size_t)n, eb.p); });
	Str wb = "blob(";
	for (size_t i = 0; i < bl.size(); i++) wb += (i ? ", " : "") + std::to_string((int)(signed char)bl[i]);
	CHECK(t == wb + ")", "strfmt_blob:text", "blob text is " + q(t));
#define PRIM(name, call, want) do { Str w_ = want; t = fmt_all(c, "strfmt_" #name, [&](char *p, long n) { return (long)call; }); CHECK(t == w_, "strfmt_" #name ":text", "text is " + q(t) + " instead of " + q(w_)); } while (0)
	uint64_t v = a.v;
	PRIM(int16, osc_strfmt_int16(p, (size_t)n, (int16_t)v), std::to_string((int16_t)v));
	PRIM(uint16, osc_strfmt_uint16(p, (size_t)n, (uint16_t)v), std::to_string((uint16_t)v));
	PRIM(int32, osc_strfmt_int32(p, (size_t)n, (int32_t)v), std::to_string((int32_t)v));
	PRIM(uint32, osc_strfmt_uint32(p, (size_t)n, (uint32_t)v), std::to_string((uint32_t)v));
	PRIM(int64, osc_strfmt_int64(p, (size_t)n, (int64_t)v), std::to_string((int64_t)v));
	PRIM(uint64, osc_strfmt_uint64(p, (size_t)n, v), std::to_string(v));
	if ((char)v) { PRIM(int8, osc_strfmt_int8(p, (size_t)n, (int8_t)v), Str("'") + (char)v + "'"); PRIM(uint8, osc_strfmt_uint8(p, (size_t)n, (uint8_t)v), Str("'") + (char)v + "'"); }
	PRIM(bool, osc_strfmt_bool(p, (size_t)n, 'T'), "true");
	PRIM(bool, osc_strfmt_bool(p, (size_t)n, 'F'), "false");
	PRIM(null, osc_strfmt_null(p, (size_t)n), "nil");
	double d = atom_d(gen_atom(r, [] { GenOpt x; x.types = "d"; return x; }()));
	Str f = fmt_all(c, "strfmt_float64", [&](char *p, long n) { return (long)osc_strfmt_float64(p, (size_t)n, d); });
	if (std::isfinite(d)) {
		double back = strtod(f.c_str(), 0);
		CHECK(std::fabs(back - d) <= 5.1e-6 * std::fabs(d), "strfmt_float64:text", sf("%.17g is written as ", d) + q(f));
	}
	fmt_all(c, "strfmt_float32", [&](char *p, long n) { return (long)osc_strfmt_float32(p, (size_t)n, (float)d); });
	t_osc_timetag tt = mk_tt(r.u64() >> (r.flip() ? 0 : r.below(60)));
	Str x = fmt_all(c, "strfmt_timetag", [&](char *p, long n) { return (long)osc_strfmt_timetag(p, (size_t)n, tt); });
	fmt_all(c, "timetag_nformat", [&](char *p, long n) { return (long)osc_timetag_nformat(p, n, tt); });
	own("timetag_format", osc_timetag_format(tt), x, -1);
	c.cover("primitives");
}

static void random_case(Ctx &c) {
	GenOpt o;
	o.max_msgs = 3; o.max_args = 4;
	o.addr_pool = {"/a", "/foo/bar", "/a/rather/long/address/with/many/parts/in/it", "/"};
	if (c.rng.flip()) o.addr_pool.clear();
	Bundle b = gen_bundle(c.rng, o);
	no_nul(b);
	c.in(show(b));
	c.nontrivial = true;
	one(c, b);
	prims(c);
}
// all buffer sizes of one bundle that holds every type
static void every(Ctx &c) {
	Bundle in;
	in.m.push_back(Msg{"/in", {A_i(3), A_s("q\"uo\\te")}});
	in.m.push_back(Msg{"/e", {}});
	Bundle b;
	Msg m; m.addr = "/all";
	m.a = {A_i(-5), A_I(5), A_h(-1), A_H(~0ull), A_u(-3), A_U(65535), A_c('c'), A_C('C'), A_f(0.25f), A_d(-1e300), A_s("str\"ing\\"), A_b("blob"), A_t(123456789ull << 32 | 5), A_tag('T'), A_tag('F'), A_tag('N'), A_bndl(in), A_bndl(Bundle())};
	b.m.push_back(m);
	b.m.push_back(Msg{"/empty", {}});
	b.m.push_back(Msg{"/one", {A_bndl(in)}});
	Str bytes = enc_bundle(b);
	Exact e(bytes);
	t_osc_bndl_u *u = mk_bundle(c.rng, b);
	Str full;
	{ char *p = osc_bundle_s_format((long)e.n, e.p); full = p; osc_mem_free(p); }
	for (int k = 0; k < 4; k++) for (long n = 0; n <= (long)full.size() + 2; n++) {
		char *p = (char *)malloc((size_t)n);
		if (n) memset(p, 0x7e, (size_t)n);
		if (k == 0) osc_bundle_s_nformat(p, n, (long)e.n, e.p, 0);
		else if (k == 1) osc_bundle_u_nformat(p, n, u, 0);
		else if (k == 2) osc_bundle_s_nformatNestedBndl(p, n, (long)e.n, e.p, 1);
		else osc_bundle_u_nformatNestedBndl(p, n, u, 1);
		if (n) {
			char *z = (char *)memchr(p, 0, (size_t)n);
			CHECK(z, "every:unterminated", sf("formatting into %ld bytes leaves no terminator", n));
			if (k < 2) CHECK(full.compare(0, (size_t)(z - p), p) == 0, "every:prefix", sf("formatting into %ld bytes does not leave a prefix", n));
		}
		free(p);
	}
	osc_bundle_u_free(u);
	c.in("every type, every buffer size");
	c.nontrivial = true;
}
// wide content: many arguments, long strings, deep nesting
static void large(Ctx &c) {
	Bundle b; b.m.push_back(Msg{"/leaf", {A_s(Str(3000, '"')), A_b(Str(2000, '\x80'))}});
	for (int i = 0; i < 12; i++) { Bundle o; o.m.push_back(Msg{sf("/level%d", i), {A_bndl(b), A_i(i)}}); b = o; }
	Msg m; m.addr = "/" + Str(500, 'x');
	for (int i = 0; i < 800; i++) m.a.push_back(A_d(i / 8.));
	b.m.push_back(m);
	one(c, b);
	c.in("large");
	c.nontrivial = true;
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "bounded";
		s.directed = {{"every", every}, {"large", large}};
		s.random = random_case;
	}
	return s;
}
