// C09: formatted text parses back; hand-written text denotes what the grammar says; malformed text is rejected.
#include "vh.h"
extern "C" {
#include "osc_parser.h"
}

struct Own { char *p; explicit Own(char *p) : p(p) {} ~Own() { osc_mem_free(p); } Own(const Own &) = delete; Str s() const { return p ? Str(p) : Str(); } };
struct BU { t_osc_bndl_u *b; explicit BU(t_osc_bndl_u *b) : b(b) {} ~BU() { if (b) osc_bundle_u_free(b); } BU(const BU &) = delete; };


// ---- equality of parsed content, time tags to the printed precision
static bool same(const Bundle &w, const Bundle &g, Str &why);
static bool same(const Atom &w, const Atom &g, Str &why) {
	if (w.t != g.t) { why = show(g) + " instead of " + show(w); return false; }
	if (w.t == 't') {
		uint64_t d = w.v > g.v ? w.v - g.v : g.v - w.v;
		if (d > 4400) { why = show(g) + " instead of " + show(w); return false; }
		return true;
	}
	if (w.t == '.') return same(*w.b, *g.b, why);
	if (w != g) { why = show(g) + " instead of " + show(w); return false; }
	return true;
}
static bool same(const Bundle &w, const Bundle &g, Str &why) {
	if (w.m.size() != g.m.size()) { why = sf("%zu messages instead of %zu", g.m.size(), w.m.size()); return false; }
	for (size_t i = 0; i < w.m.size(); i++) {
		if (w.m[i].addr != g.m[i].addr) { why = "address " + q(g.m[i].addr) + " instead of " + q(w.m[i].addr); return false; }
		if (w.m[i].a.size() != g.m[i].a.size()) { why = q(w.m[i].addr) + sf(" has %zu values instead of %zu", g.m[i].a.size(), w.m[i].a.size()); return false; }
		for (size_t k = 0; k < w.m[i].a.size(); k++) if (!same(w.m[i].a[k], g.m[i].a[k], why)) { why = q(w.m[i].addr) + sf(" value %zu is ", k) + why; return false; }
	}
	return true;
}
// what the text of a value denotes: floats are read as doubles
static Bundle denoted(const Bundle &b) {
	Bundle o;
	for (auto &m : b.m) {
		Msg x; x.addr = m.addr;
		for (auto &a : m.a) {
			if (a.t == 'f') x.a.push_back(A_d(atom_f(a)));
			else if (a.t == 'C') x.a.push_back(A_c((int8_t)a.v));
			else if (a.t == '.') x.a.push_back(A_bndl(denoted(*a.b)));
			else x.a.push_back(a);
		}
		o.m.push_back(x);
	}
	return o;
}

// ---- values with an exact textual form
static Str t_addr(Rng &r) {
	if (r.chance(1, 6)) { Str s = "/"; int n = r.chance(1, 10) ? 120 : r.range(1, 10); for (int i = 0; i < n; i++) s += r.pickc("abcXYZ019/_-.*?!@$%^&()=+|~<>;[]{}:,'\"\\")[0]; if (s.back() == ',') s += 'x'; return s; }
	return gen_addr(r);
}
static double t_num(Rng &r) {
	static const double ds[] = {0, -0.0, 1, -1, 0.5, -0.25, 1e6, 1e20, -1e-5, 123456, 999999, -999999, 1e-300, 1.5e10, 0.001, 100000, 0.0001, 1e300, 250000.5 - 0.5};
	if (r.chance(1, 2)) return ds[r.below(sizeof ds / sizeof *ds)];
	if (r.flip()) return (double)r.range(-3999, 3999) / 4;
	char b[40];
	snprintf(b, sizeof b, "%d.%de%d", r.range(-9, 9), r.range(0, 9999), r.range(-30, 30));
	return strtod(b, 0);
}
static Bundle t_bundle(Rng &r, int depth);
static Str t_str(Rng &r) {
	GenOpt o;
	if (r.chance(1, 40)) { Str s; int n = r.range(900, 5000); for (int i = 0; i < n; i++) s += r.pickc("ab\\\" ,{}\n")[0]; return s; }
	if (r.chance(1, 10)) { Str s; int n = r.range(1, 5); for (int i = 0; i < n; i++) s += r.pickc("\\\"")[0]; return s; }
	return gen_string(r, o);
}
static uint64_t t_tt(Rng &r) {
	uint64_t sec = r.chance(1, 4) ? r.below(1000) : r.u64() & 0xffffffff;
	uint64_t frac = r.chance(1, 3) ? 0 : r.flip() ? r.below(64) << 26 : r.u64() & 0xffffffff;
	// stay clear of the two ends, where rounding the printed microseconds may change the second
	if (frac > 0xffffe000u) frac = 0xffffe000u;
	if (sec == 0 && frac < 9000) frac = 9000;
	return sec << 32 | frac;
}
static Atom t_atom(Rng &r, int depth) {
	switch (r.below(depth < 4 ? 10 : 9)) {
	case 0: case 1: { GenOpt o; o.types = "i"; return gen_atom(r, o); }
	case 2: { int c; do c = r.chance(1, 3) ? r.range(-128, 127) : *r.pickc("ab'\"\\,{}[]:/# \t0"); while (!c || c == '\n'); return r.flip() ? A_c((int8_t)c) : A_C((uint8_t)c); }
	case 3: { // a float whose %g text is exact
		double d = t_num(r);
		float f = (float)d;
		char b[64];
		snprintf(b, sizeof b, "%g", (double)f);
		if (std::isfinite(f) && strtod(b, 0) == (double)f) return A_f(f);
		return A_f(0.5f);
	}
	case 4: {
		double d = t_num(r);
		char b[64];
		snprintf(b, sizeof b, "%g", d);
		return A_d(strtod(b, 0));
	}
	case 5: case 6: return A_s(t_str(r));
	case 7: return A_tag("TFN"[r.below(3)]);
	case 8: return A_t(t_tt(r));
	default: return A_bndl(t_bundle(r, depth + 1));
	}
}
static Bundle t_bundle(Rng &r, int depth) {
	Bundle b;
	int n = depth ? r.range(0, 3) : r.range(1, 5);
	for (int i = 0; i < n; i++) {
		Msg m; m.addr = t_addr(r);
		int k = r.chance(1, 5) ? 0 : r.range(1, 4);
		if (!depth && r.chance(1, 60)) k = 40;
		for (int j = 0; j < k; j++) m.a.push_back(t_atom(r, depth));
		b.m.push_back(m);
	}
	return b;
}

static t_osc_bndl_u *parse(Rng &r, const Str &t, long *err) {
	Exact e(t + Str(1, 0));
	t_osc_bndl_u *b = nullptr;
	if (r.chance(1, 4)) { b = osc_parser_parseString_r((long)t.size(), e.p); *err = b ? 0 : 1; }
	else *err = osc_parser_parseString((long)t.size(), e.p, &b);
	if (e.str() != t + Str(1, 0)) fail("parse:modifies", "parsing changed the text " + q(t));
	if (*err && b) fail("parse:result", "a text that was rejected left a bundle: " + q(t));
	return b;
}

// a parsed bundle is edited like a built one: its lists are linked both ways and know their ends
static void edit_parsed(Ctx &c, t_osc_bndl_u *b) {
	Rng &r = c.rng;
	Bundle want = rd_bundle_u(b), *m = &want;
	t_osc_bndl_u *u = b;
	for (int depth = 0; depth < 6; depth++) { // the bundle to edit, at any depth
		std::vector<std::pair<size_t, size_t>> in;
		for (size_t i = 0; i < m->m.size(); i++) for (size_t j = 0; j < m->m[i].a.size(); j++) if (m->m[i].a[j].t == '.') in.push_back({i, j});
		if (in.empty() || r.chance(1, 3)) break;
		auto k = in[r.below(in.size())];
		t_osc_msg_u *x = osc_bundle_u_getFirstMsg(u);
		for (size_t i = 0; i < k.first; i++) x = osc_message_u_next(x);
		u = osc_atom_u_getBndl(osc_message_u_getArg(x, (int)k.second));
		m = m->m[k.first].a[k.second].b.get();
	}
	Str did;
	int n = r.range(1, 4);
	for (int step = 0; step < n; step++) {
		size_t i = m->m.empty() ? 0 : r.below(m->m.size());
		t_osc_msg_u *x = osc_bundle_u_getFirstMsg(u);
		for (size_t k = 0; k < i && x; k++) x = osc_message_u_next(x);
		if (!m->m.empty() && !x) fail("edit:nth", "a message of a parsed bundle cannot be reached");
		int v = r.range(-9, 99);
		switch (m->m.empty() ? 5 : r.below(6)) {
		case 0: case 1: did += sf(" append to %zu", i); osc_message_u_appendInt32(x, v); m->m[i].a.push_back(A_i(v)); break;
		case 2: did += sf(" prepend to %zu", i); osc_message_u_prependInt32(x, v); m->m[i].a.insert(m->m[i].a.begin(), A_i(v)); break;
		case 3: { // the last argument, or any
			if (m->m[i].a.empty()) break;
			size_t k = r.flip() ? m->m[i].a.size() - 1 : r.below(m->m[i].a.size());
			did += sf(" remove %zu of %zu", k, i);
			t_osc_atom_u *a = osc_message_u_getArg(x, (int)k);
			if (!a) fail("edit:nth", "an argument of a parsed message cannot be reached");
			osc_message_u_removeAtom(x, a);
			osc_atom_u_free(a);
			m->m[i].a.erase(m->m[i].a.begin() + (long)k);
			break;
		}
		case 4: did += sf(" remove message %zu", i); osc_bundle_u_removeMsg(u, x); osc_message_u_free(x); m->m.erase(m->m.begin() + (long)i); break;
		default: { did += " add message"; t_osc_msg_u *y = osc_message_u_allocWithAddress((char *)"/new"); osc_message_u_appendInt32(y, v); osc_bundle_u_addMsg(u, y); m->m.push_back(Msg{"/new", {A_i(v)}}); }
		}
	}
	Bundle got = rd_bundle_u(b);
	Str why;
	if (!same(want, got, why)) fail("edit:content", "a parsed bundle is wrong after" + did + ": " + why);
	t_osc_bndl_s *ps = osc_bundle_u_serialize(b);
	Str pb = bytes_of(ps);
	osc_bundle_s_deepFree(ps);
	CHECK(pb == enc_bundle(want), "edit:serialize", "a parsed bundle serializes differently from what it should be after" + did + ": " + first_diff(pb, enc_bundle(want)));
	c.cover("parsed-edited");
}

static void roundtrip(Ctx &c, const Bundle &b) {
	Rng &r = c.rng;
	Str bytes = enc_bundle(b);
	Exact e(bytes);
	BU u(mk_bundle(r, b));
	Str ts, tu;
	if (r.flip()) { Own f(osc_bundle_s_format((long)e.n, e.p)); ts = f.s(); }
	else { t_osc_bndl_s *bs = osc_bundle_s_alloc((long)e.n, e.p); Own f(osc_bundle_s_pformat(bs)); ts = f.s(); osc_bundle_s_free(bs); }
	{ Own f(osc_bundle_u_format(u.b)); tu = f.s(); }
	CHECK(e.str() == bytes, "format:modifies", "formatting changed the bundle");
	if (ts != tu) fail("s-u-text", "serialized and unserialized text differ: " + q(ts) + " vs " + q(tu));
	long err;
	BU p(parse(r, ts, &err));
	if (err || !p.b) fail("reparse:error", "the text of a bundle is rejected by the parser: " + q(ts));
	Bundle got = rd_bundle_u(p.b), want = denoted(b);
	Str why;
	if (!same(want, got, why)) fail("reparse:content", "text " + q(ts) + " parses to a different bundle: " + why);
	// the parsed bundle is a complete one: its serialization is the encoding of what was read from it
	t_osc_bndl_s *ps = osc_bundle_u_serialize(p.b);
	Str pb = bytes_of(ps);
	osc_bundle_s_deepFree(ps);
	CHECK(pb == enc_bundle(got), "reparse:serialize", "the parsed bundle serializes differently from what it reads as: " + first_diff(pb, enc_bundle(got)));
	// text of the parsed bundle is the same text again
	{ Own f(osc_bundle_u_format(p.b)); if (f.s() != ts) fail("reformat", "text " + q(ts) + " is formatted as " + q(f.s()) + " after parsing"); }
	if (r.flip()) edit_parsed(c, p.b);
	c.cover("messages-round-tripped", (long)b.m.size());
}

// both forms of any bundle and its messages and arguments give the same text
static void su_text(Ctx &c, const Bundle &b) {
	Rng &r = c.rng;
	Str bytes = enc_bundle(b);
	Exact e(bytes);
	BU u(mk_bundle(r, b));
	Own fs(osc_bundle_s_format((long)e.n, e.p)), fu(osc_bundle_u_format(u.b));
	if (fs.s() != fu.s()) fail("s-u-text", "serialized and unserialized text differ: " + q(fs.s()) + " vs " + q(fu.s()));
	t_osc_bndl_it_s *is = osc_bundle_iterator_s_getIterator((long)e.n, e.p);
	t_osc_bndl_it_u *iu = osc_bndl_it_u_get(u.b);
	while (osc_bundle_iterator_s_hasNext(is) && osc_bndl_it_u_hasNext(iu)) {
		t_osc_msg_s *ms = osc_bundle_iterator_s_next(is);
		t_osc_msg_u *mu = osc_bndl_it_u_next(iu);
		Own a(osc_message_s_format(ms)), d(osc_message_u_format(mu));
		if (a.s() != d.s()) fail("s-u-text:message", "serialized and unserialized message text differ: " + q(a.s()) + " vs " + q(d.s()));
		int n = osc_message_s_getArgCount(ms);
		for (int i = 0; i < n; i++) {
			t_osc_atom_s *xs = nullptr;
			osc_message_s_getArg(ms, i, &xs);
			t_osc_atom_u *xu = osc_message_u_getArg(mu, i);
			if (!xs || !xu) fail("getarg", "argument cannot be read");
			Own p(osc_atom_s_format(xs)), pu(osc_atom_u_format(xu));
			if (p.s() != pu.s()) fail("s-u-text:atom", "serialized and unserialized argument text differ: " + q(p.s()) + " vs " + q(pu.s()));
			osc_atom_s_free(xs);
		}
	}
	osc_bundle_iterator_s_destroyIterator(is);
	osc_bndl_it_u_destroy(iu);
	c.cover("su-text");
}

// ---- hand-written text
struct Tok { char k; Str text; Atom v; }; // k: 'A' address, 'V' value, or the punctuation itself
static Str esc(Rng &r, const Str &s) {
	Str o = "\"";
	for (char ch : s) { if (ch == '"' || ch == '\\' || r.chance(1, 12)) o += '\\'; o += ch; }
	return o + "\"";
}
static long days_civil(long y, int m, int d) {
	y -= m <= 2;
	long era = (y >= 0 ? y : y - 399) / 400;
	long yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}
static Tok hw_val(Rng &r) {
	Tok t; t.k = 'V';
	char b[96];
	switch (r.below(11)) {
	case 0: { GenOpt o; o.types = "i"; t.v = gen_atom(r, o); t.text = std::to_string((int32_t)t.v.v); break; }
	case 1: { uint32_t v = (uint32_t)r.u64() >> r.below(32); snprintf(b, sizeof b, r.flip() ? "0x%x" : "0X%X", v); t.v = A_I(v); t.text = b; break; }
	case 2: { uint64_t v = (r.u64() | 1ull << 63) >> r.below(32); snprintf(b, sizeof b, r.flip() ? "0x%llx" : "0x%016llX", (unsigned long long)v); t.v = A_H(v); t.text = b; break; }
	case 3: case 4: {
		Str s = r.chance(1, 3) ? "-" : "";
		int form = (int)r.below(5);
		if (form == 0) s += std::to_string(r.below(100000)) + ".";
		else if (form == 1) s += "." + std::to_string(r.below(1000));
		else if (form == 2) s += std::to_string(r.below(1000)) + "." + std::to_string(r.below(100000));
		else if (form == 3) s += std::to_string(r.below(100)) + (r.flip() ? "e" : "E") + (r.flip() ? "-" : r.flip() ? "+" : "") + std::to_string(r.below(40));
		else { snprintf(b, sizeof b, "0x%xp%d", (unsigned)r.below(5000), r.range(-20, 20)); s += b; }
		if (form < 3 && r.chance(1, 3)) s += sf("e%d", r.range(-20, 20));
		t.v = A_d(strtod(s.c_str(), 0));
		if (form != 4 && r.chance(1, 5)) s += "f"; // a type suffix does not change the value
		t.text = s;
		break;
	}
	case 5: case 6: { Str s = r.chance(1, 8) ? "" : t_str(r); t.v = A_s(s); t.text = esc(r, s); break; }
	case 7: { int c; do c = r.range(1, 255); while (c == '\n'); t.v = A_c((int8_t)c); t.text = Str("'") + (char)c + "'"; break; }
	case 8: { int k = (int)r.below(3); t.v = A_tag("TFN"[k]); t.text = k == 0 ? "true" : k == 1 ? "false" : "nil"; break; }
	default: {
		int y = r.range(1901, 2035), m = r.range(1, 12), d = r.range(1, 28), H = r.range(0, 23), M = r.range(0, 59), S = r.range(0, 59);
		if (r.chance(1, 4)) { static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; d = md[m - 1]; if (m == 2 && y % 4 == 0) d = 29; }
		long sec = days_civil(y, m, d) * 86400L + H * 3600 + M * 60 + S + 2208988800L;
		Str s = sf("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, H, M, S);
		double fr = 0;
		if (r.flip()) { int n = r.range(1, 9); Str f; for (int i = 0; i < n; i++) f += (char)('0' + r.below(10)); s += "." + f; fr = strtod(("0." + f).c_str(), 0); }
		if (r.flip()) s += "Z";
		else { int oh = r.range(0, 13), om = r.chance(1, 2) ? 0 : r.range(0, 59); bool neg = r.flip(); s += sf("%c%02d:%02d", neg ? '-' : '+', oh, om); sec -= (neg ? -1 : 1) * (oh * 3600 + om * 60); }
		t.v = A_t((uint64_t)sec << 32 | (uint64_t)std::min(fr * 4294967296.0, 4294967295.0));
		t.text = s;
	}
	}
	return t;
}
static Tok punct(char k) { Tok t; t.k = k; t.text = Str(1, k); return t; }
static Tok hw_addr(Rng &r) { Tok t; t.k = 'A'; do t.text = t_addr(r); while (t.text.size() < 2 || t.text.find('#') != Str::npos); t.v = A_s(t.text); return t; }
static void hw_messages(Rng &r, std::vector<Tok> &o, int depth);
static void hw_datum(Rng &r, std::vector<Tok> &o, int depth) {
	if (depth < 3 && r.chance(1, 6)) {
		o.push_back(punct('{'));
		if (!r.chance(1, 4)) hw_messages(r, o, depth + 1);
		o.push_back(punct('}'));
	} else if (r.chance(1, 8)) o.push_back(hw_addr(r));
	else o.push_back(hw_val(r));
}
static void hw_messages(Rng &r, std::vector<Tok> &o, int depth) {
	int n = r.range(1, depth ? 2 : 3);
	for (int i = 0; i < n; i++) {
		if (i) o.push_back(punct(','));
		o.push_back(hw_addr(r));
		if (r.chance(1, 5)) continue;
		o.push_back(punct(':'));
		if (r.flip()) hw_datum(r, o, depth);
		else {
			o.push_back(punct('['));
			int k = r.range(1, 3);
			for (int j = 0; j < k; j++) { if (j) o.push_back(punct(',')); hw_datum(r, o, depth); }
			o.push_back(punct(']'));
		}
	}
}
// independent recursive descent recognizer
struct RD {
	const std::vector<Tok> &t; size_t i = 0;
	char peek() { return i < t.size() ? t[i].k : 0; }
	bool eat(char k) { if (peek() != k) return false; i++; return true; }
	bool datum(Atom &a) {
		if (peek() == 'A' || peek() == 'V') { a = t[i++].v; return true; }
		if (!eat('{')) return false;
		Bundle b;
		if (peek() != '}' && !messages(b)) return false;
		a = A_bndl(b);
		return eat('}');
	}
	bool message(Msg &m) {
		if (peek() != 'A') return false;
		m.addr = t[i++].text;
		if (!eat(':')) return true;
		Atom a;
		if (!eat('[')) { if (!datum(a)) return false; m.a.push_back(a); return true; }
		do { if (!datum(a)) return false; m.a.push_back(a); } while (eat(','));
		return eat(']');
	}
	bool messages(Bundle &b) {
		do { Msg m; if (!message(m)) return false; b.m.push_back(m); } while (eat(','));
		return true;
	}
	bool all(Bundle &b) { return messages(b) && i == t.size(); }
};
static Str render(Rng &r, const std::vector<Tok> &t) {
	static const char *ws[] = {" ", "\n", "\t", "  ", " \n\t "};
	Str o = r.chance(1, 5) ? ws[r.below(5)] : "";
	bool tight = r.chance(1, 3);
	for (size_t i = 0; i < t.size(); i++) {
		o += t[i].text;
		char k = t[i].k, nx = i + 1 < t.size() ? t[i + 1].k : 0;
		bool need = k == 'A' || (k == 'V' && (nx == 'V' || nx == 'A'));
		if (k == 'A' && nx == ',' && r.flip()) { o += "," ; i++; need = true; }
		if (i + 1 >= t.size()) { if (r.chance(1, 4)) o += ws[r.below(5)]; }
		else if (need || !(tight || r.chance(1, 3))) o += ws[r.below(5)];
	}
	return o;
}
static void handwritten(Ctx &c) {
	Rng &r = c.rng;
	std::vector<Tok> t;
	hw_messages(r, t, 0);
	bool mutate = r.flip();
	if (mutate) {
		int n = r.range(1, 2);
		for (int i = 0; i < n; i++) {
			size_t k = r.below(t.size() + 1);
			switch (r.below(4)) {
			case 0: if (k < t.size()) t.erase(t.begin() + (long)k); break;
			case 1: { Tok x = r.flip() ? punct(*r.pickc(",:[]{}")) : r.flip() ? hw_val(r) : hw_addr(r); t.insert(t.begin() + (long)k, x); break; }
			case 2: { size_t j = r.below(t.size()); if (k < t.size()) std::swap(t[k], t[j]); break; }
			case 3: t.resize(k); break;
			}
			if (t.empty()) break;
		}
	}
	Bundle want;
	RD rd{t};
	bool ok = rd.all(want);
	Str text = render(r, t);
	c.in(q(text));
	long err;
	BU p(parse(r, text, &err));
	if (ok != (err == 0)) fail(ok ? "handwritten:rejected" : "malformed:accepted", (ok ? "well-formed text is rejected: " : "malformed text is accepted: ") + q(text));
	if (ok) {
		CHECK(p.b, "handwritten:null", "no bundle for " + q(text));
		Bundle got = rd_bundle_u(p.b);
		Str why;
		if (!same(want, got, why)) fail("handwritten:content", "text " + q(text) + " parses to a different bundle: " + why);
		c.cover("handwritten-accepted");
		edit_parsed(c, p.b);
	} else c.cover("malformed-rejected");
	// malformed tokens
	if (ok && r.chance(1, 3)) {
		static const char *bad[] = {"\"open", "'ab", "''", "-", "1x2", "01", "@", "tru", "niil", "2020-13-01T00:00:00Z", "1..2", "0xg", "\"a\\", "$", "\\", "\"a\" \"", "00", "- 1", "+1", "1e", "'a"};
		Str b = bad[r.below(sizeof bad / sizeof *bad)];
		Str tx = r.flip() ? "/ok : " + b : r.flip() ? text + " , /z : [1, " + b + "]" : "/ok : { /in : " + b + " }";
		BU p2(parse(r, tx, &err));
		if (!err) fail("badtoken:accepted", "text with a malformed value is accepted: " + q(tx));
		c.cover("bad-token-rejected");
	}
}

static void random_case(Ctx &c) {
	Rng &r = c.rng;
	c.nontrivial = true;
	Bundle b = t_bundle(r, 0);
	c.in(show(b));
	roundtrip(c, b);
	handwritten(c);
	GenOpt o;
	o.max_msgs = 3; o.max_args = 4;
	Bundle g = gen_bundle(r, o);
	su_text(c, g);
}
// every character of a string, of a char value and of an address
static void chars(Ctx &c) {
	for (int i = 1; i < 256; i++) {
		Bundle b; Msg m; m.addr = "/a";
		m.a.push_back(A_s(Str(1, (char)i)));
		m.a.push_back(A_s(Str("x") + (char)i + "y"));
		m.a.push_back(A_s(Str(2, (char)i)));
		if (i != '\n') m.a.push_back(A_c((int8_t)i));
		b.m.push_back(m);
		roundtrip(c, b);
		if (i > 32 && i < 127 && i != '#') { Bundle d; Msg x; x.addr = Str("/p") + (char)i + "q"; d.m.push_back(x); x.a.push_back(A_i(1)); d.m.push_back(x); x.a.push_back(A_s("s")); d.m.push_back(x); roundtrip(c, d); }
	}
	c.in("all characters");
	c.nontrivial = true;
}
// deep nesting and long lists
static void deep(Ctx &c) {
	Bundle b; b.m.push_back(Msg{"/leaf", {A_i(7), A_s("x\"y")}});
	for (int i = 0; i < 40; i++) { Bundle o; Msg m; m.addr = sf("/l%d", i); m.a.push_back(A_bndl(b)); if (i % 3 == 0) m.a.push_back(A_i(i)); o.m.push_back(m); if (i % 2) o.m.push_back(Msg{"/after", {A_d(0.5)}}); b = o; }
	c.in("40 nested bundles");
	roundtrip(c, b);
	Bundle l; Msg m; m.addr = "/long";
	for (int i = 0; i < 3000; i++) m.a.push_back(i % 3 ? A_i(i) : A_s(sf("s%d", i)));
	l.m.push_back(m);
	roundtrip(c, l);
	Bundle w;
	for (int i = 0; i < 2000; i++) w.m.push_back(Msg{sf("/m/%d", i), {A_i(i)}});
	roundtrip(c, w);
	c.nontrivial = true;
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "text";
		s.directed = {{"chars", chars}, {"deep", deep}};
		s.random = random_case;
	}
	return s;
}
