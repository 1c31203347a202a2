// C06: set operations and in-place edits of serialized bundles against a list-of-messages model.
#include "refmatch.h"

static Str cat(const Str &hdr, const std::vector<Str> &ms) { Str s = hdr; for (auto &m : ms) s += m; return s; }
static Str addr_of(const Str &wm) { return Str(wm.c_str() + 4); }
static Bundle gen_b(Rng &r, int mx) {
	GenOpt o; o.max_depth = 2; o.max_args = 3; o.header_tt = true; o.empty_msg_pct = 20;
	Bundle b;
	int n = r.chance(1, 10) ? 0 : r.chance(1, 15) ? r.range(17, 45) : r.range(1, mx);
	for (int i = 0; i < n; i++) {
		Msg m = gen_msg(r, o, 0);
		m.addr = r.chance(1, 5) ? gen_addr(r) : r.chance(1, 2) ? Str("/") + RM_WORDS[r.below(13)] : rm_addr(r, 2);
		for (char &ch : m.addr) if (strchr("?*[]{},!", ch)) ch = '_';
		b.m.push_back(m);
	}
	b.tt = r.flip() ? r.u64() : 0;
	return b;
}
static void same_msgs(const Str &got, const std::vector<Str> &want, const char *op, const Str &in) {
	Bundle d = must_decode(got, op);
	std::vector<Str> g = wire_msgs(got);
	if (g != want) {
		Str w = "[", h = "[";
		for (auto &x : want) w += addr_of(x) + " ";
		for (auto &x : g) h += addr_of(x) + " ";
		fail(Str(op) + ":messages", Str(op) + " of " + in + sf(" gave %zu messages ", g.size()) + h + "], expected " + sf("%zu ", want.size()) + w + "], " + first_diff(cat("", g), cat("", want)));
	}
}
static void tag_in(const Str &got, const char *op, uint64_t a, uint64_t b) {
	uint64_t t = get64(got.data() + 8);
	CHECK(t == a || t == b || t == 0, Str(op) + ":timetag", Str(op) + sf(": the result's time tag %016llx is neither operand's nor zero", (unsigned long long)t));
}
static bool has(const std::vector<Str> &v, const Str &addr) { for (auto &m : v) if (addr_of(m) == addr) return true; return false; }

static void setops(Ctx &c, const Bundle &A, const Bundle &B, bool na = false, bool nb = false) {
	Rng &r = c.rng;
	bool old = r.chance(1, 4);
	Str ab = na ? "" : old ? enc_bundle_untagged(A, r, 0) : enc_bundle(A), bb = nb ? "" : old ? enc_bundle_untagged(B, r, 0) : enc_bundle(B);
	put64(ab, 0); ab.resize(ab.size() - 8);
	if (!na) { Str t; put64(t, A.tt); ab.replace(8, 8, t); }
	if (!nb) { Str t; put64(t, B.tt); bb.replace(8, 8, t); }
	std::vector<Str> am, bm;
	if (!na) am = wire_msgs(ab);
	if (!nb) bm = wire_msgs(bb);
	Str in = show(A) + " and " + show(B);
	Exact ea(ab), eb(bb);
	char *pa = na ? nullptr : ea.p, *pb = nb ? nullptr : eb.p;
	std::vector<Str> un = am, is, df;
	for (auto &m : bm) if (!has(un, addr_of(m))) un.push_back(m);
	for (auto &m : am) { if (has(bm, addr_of(m)) && !has(is, addr_of(m))) is.push_back(m); if (!has(bm, addr_of(m)) && !has(df, addr_of(m))) df.push_back(m); }
	for (auto &m : bm) if (!has(am, addr_of(m)) && !has(df, addr_of(m))) df.push_back(m);
	if (na) { // the union with a missing bundle is the other one
		un = bm;
	}
	t_osc_bndl_s *ba = osc_bundle_s_alloc((long)ab.size(), pa), *bb_ = osc_bundle_s_alloc((long)bb.size(), pb);
	t_osc_bndl_s *u = osc_bundle_s_union(ba, bb_);
	Str ub = bytes_of(u);
	if (!(na && nb)) same_msgs(ub, un, "union", in);
	else must_decode(ub, "union");
	tag_in(ub, "union", A.tt, B.tt);
	osc_bundle_s_deepFree(u);
	osc_bundle_s_free(ba);
	osc_bundle_s_free(bb_);
	if (!na && !nb) {
		for (int k = 0; k < 2; k++) {
			const char *op = k ? "difference" : "intersection";
			long len = 0;
			char *out = nullptr;
			bool own = r.flip();
			if (own) out = (char *)malloc(ab.size() + bb.size()); // a caller's buffer of sufficient size
			if (own) memset(out, 0xA5, ab.size() + bb.size());
			t_osc_err e = k ? osc_bundle_s_difference((long)ea.n, ea.p, (long)eb.n, eb.p, &len, &out) : osc_bundle_s_intersection((long)ea.n, ea.p, (long)eb.n, eb.p, &len, &out);
			CHECK(e == 0, Str(op) + ":error", Str(op) + " failed");
			Str g(out, len);
			if (own) free(out); else osc_mem_free(out);
			same_msgs(g, k ? df : is, op, in);
			tag_in(g, op, A.tt, B.tt);
			c.cover(Str(op) + "-messages", (long)(k ? df : is).size());
		}
		// the unserialized operations agree on the addresses
		t_osc_bndl_u *ua = mk_bundle(r, A), *ub2 = mk_bundle(r, B), *uu = nullptr, *ui = nullptr;
		osc_bundle_u_union(ua, ub2, &uu);
		osc_bundle_u_intersection(ua, ub2, &ui);
		auto addrs = [](const std::vector<Str> &v) { std::set<Str> s; for (auto &m : v) s.insert(addr_of(m)); return s; };
		auto addrs_u = [](const Bundle &b) { std::set<Str> s; for (auto &m : b.m) s.insert(m.addr); return s; };
		Bundle mu = rd_bundle_u(uu), mi = rd_bundle_u(ui);
		CHECK(addrs_u(mu) == addrs(un), "u-union", "the unserialized union has other addresses than the serialized one: " + show(mu));
		CHECK(addrs_u(mi) == addrs(is), "u-intersection", "the unserialized intersection has other addresses than the serialized one: " + show(mi));
		for (auto &m : mu.m) { const Msg *f = nullptr; for (auto &x : A.m) if (!f && x.addr == m.addr) f = &x; for (auto &x : B.m) if (!f && x.addr == m.addr) f = &x; CHECK(f && *f == m, "u-union:content", "the unserialized union changed " + m.addr); }
		for (auto &m : mi.m) { const Msg *f = nullptr; for (auto &x : A.m) if (!f && x.addr == m.addr) f = &x; CHECK(f && *f == m, "u-intersection:content", "the unserialized intersection changed " + m.addr); }
		CHECK(rd_bundle_u(ua) == A && rd_bundle_u(ub2) == B, "u-inputs", "an operand of an unserialized set operation was modified");
		osc_bundle_u_free(ua); osc_bundle_u_free(ub2);
		CHECK(rd_bundle_u(uu) == mu && rd_bundle_u(ui) == mi, "u-shared", "the result of an unserialized set operation shares storage with its operands");
		osc_bundle_u_free(uu); osc_bundle_u_free(ui);
	}
	{
		size_t want = na ? bb.size() : nb ? ab.size() : ab.size() + bb.size() - 16;
		char *out = (char *)malloc(want ? want : 1);
		int n = osc_bundle_s_concat((long)ab.size(), pa, (long)bb.size(), pb, out);
		CHECK(n == (int)((na && nb) ? 0 : want), "concat:size", sf("concat returned %d, expected %zu", n, want));
		if (n) {
			Str g(out, n);
			std::vector<Str> w = am; w.insert(w.end(), bm.begin(), bm.end());
			same_msgs(g, w, "concat", in);
			CHECK(get64(g.data() + 8) == (na ? B.tt : A.tt), "concat:timetag", "concat changed the time tag");
		}
		free(out);
	}
	CHECK(ea.str() == ab && eb.str() == bb, "inputs", "an operand was modified");
	c.cover("union-messages", (long)un.size());
}

static void history(Ctx &c) {
	Rng &r = c.rng;
	Bundle start = gen_b(r, 6);
	bool old = r.chance(1, 4);
	auto enc = [&](const Bundle &x) { return old ? enc_bundle_untagged(x, r, 0) : enc_bundle(x); };
	Str bytes = enc(start);
	{ Str t; put64(t, start.tt); bytes.replace(8, 8, t); }
	c.in("edits of " + show(start));
	std::vector<Str> ms = wire_msgs(bytes);
	uint64_t tt = start.tt;
	t_osc_bndl_s *b = nullptr;
	bool fresh = r.chance(1, 5);
	if (fresh) { ms.clear(); tt = 0; if (r.flip()) b = osc_bundle_s_allocEmptyBundle(); }
	else {
		t_osc_bndl_s *src = mk_bundle_s(bytes);
		t_osc_err e = osc_bundle_s_deepCopy(&b, src);
		CHECK(e == 0 && b && osc_bundle_s_getPtr(b) != osc_bundle_s_getPtr(src), "deepcopy", "deepCopy failed or shares the bytes");
		CHECK(bytes_of(b) == bytes && bytes_of(src) == bytes, "deepcopy", "deepCopy differs from its source");
		memset(osc_bundle_s_getPtr(src), 0xEE, osc_bundle_s_getLen(src));
		osc_bundle_s_deepFree(src);
	}
	int n = r.range(1, 14);
	for (int k = 0; k < n; k++) {
		int op = r.chance(1, 30) ? 6 : (int)r.below(6);
		if (!b && op != 0) continue;
		switch (op) {
		case 0: case 1: {
			Bundle one = gen_b(r, 1);
			if (one.m.empty()) continue;
			Str w = wire_msgs(enc(one))[0];
			if (r.chance(1, 3) && !ms.empty()) w = ms[r.below(ms.size())];
			Exact e(w);
			t_osc_msg_s *m = osc_message_s_alloc();
			osc_message_s_wrap(m, e.p);
			c.in("append " + addr_of(w));
			if (!b || r.flip()) osc_bundle_s_appendMessage_b(&b, m);
			else { long len = osc_bundle_s_getLen(b); char *p = osc_bundle_s_getPtr(b); osc_bundle_s_appendMessage(&len, &p, m); osc_bundle_s_setLen(b, len); osc_bundle_s_setPtr(b, p); }
			CHECK(e.str() == w, "append:input", "append changed the message");
			osc_message_s_free(m);
			ms.push_back(w);
			c.cover("append");
		} break;
		case 2: {
			if (ms.empty()) continue;
			size_t at = r.below(ms.size());
			Bundle one = gen_b(r, 1);
			if (one.m.empty()) continue;
			Str w = wire_msgs(enc(one))[0];
			if (r.flip()) { Msg mm = one.m[0]; mm.addr = addr_of(ms[at]); Bundle o2; o2.m.push_back(mm); w = wire_msgs(enc(o2))[0]; }
			Exact e(w);
			t_osc_msg_s *om = osc_message_s_alloc(), *nm = osc_message_s_alloc();
			long off = 16;
			for (size_t i = 0; i < at; i++) off += (long)ms[i].size();
			osc_message_s_wrap(om, osc_bundle_s_getPtr(b) + off);
			osc_message_s_wrap(nm, e.p);
			c.in(sf("replace %zu by ", at) + addr_of(w));
			long len = osc_bundle_s_getLen(b), buflen = len;
			char *p = osc_bundle_s_getPtr(b);
			if (r.chance(1, 3)) { p = (char *)osc_mem_resize(p, len + 64); buflen = len + 64; osc_message_s_wrap(om, p + off); }
			t_osc_err er = osc_bundle_s_replaceMessage(&buflen, &len, &p, om, nm);
			CHECK(er == 0, "replace:error", "replaceMessage failed");
			CHECK(buflen >= len, "replace:buflen", sf("replaceMessage left a buffer length %ld below the content length %ld", buflen, len));
			osc_bundle_s_setLen(b, len); osc_bundle_s_setPtr(b, p);
			osc_message_s_free(om); osc_message_s_free(nm);
			c.cover(w.size() > ms[at].size() ? "replace-longer" : w.size() < ms[at].size() ? "replace-shorter" : "replace-same");
			ms[at] = w;
		} break;
		case 3: {
			Str a = ms.empty() || r.chance(1, 4) ? rm_addr(r, 2) : addr_of(ms[r.below(ms.size())]);
			c.in("remove " + a);
			long len = osc_bundle_s_getLen(b);
			Exact ea(a + Str(1, 0));
			osc_bundle_s_removeMessage(ea.p, &len, osc_bundle_s_getPtr(b), 1);
			osc_bundle_s_setLen(b, len);
			std::vector<Str> nx;
			for (auto &m : ms) if (addr_of(m) != a) nx.push_back(m);
			c.cover(sf("remove-%d", (int)std::min<size_t>(3, ms.size() - nx.size())));
			ms.swap(nx);
		} break;
		case 4: {
			tt = r.chance(1, 4) ? r.below(3) : r.u64();
			osc_bundle_s_setTimetag(osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b), mk_tt(tt));
			c.in(sf("time tag %016llx", (unsigned long long)tt));
			c.cover("set-timetag");
		} break;
		case 5: {
			t_osc_bndl_s *cp = nullptr;
			osc_bundle_s_deepCopy(&cp, b);
			memset(osc_bundle_s_getPtr(b), 0xEE, osc_bundle_s_getLen(b));
			osc_bundle_s_deepFree(b);
			b = cp;
			c.in("deep copy");
			c.cover("deep-copy");
		} break;
		case 6: {
			osc_bundle_s_setBundleID_b(b);
			ms.clear(); tt = 0;
			c.in("header");
			c.cover("set-header");
		} break;
		}
		Str g = bytes_of(b);
		same_msgs(g, ms, "edit", c.input);
		uint64_t t = tt_val(osc_bundle_s_getTimetag(osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b)));
		CHECK(t == tt && get64(g.data() + 8) == tt, "edit:timetag", sf("time tag reads %016llx, bytes %016llx, expected %016llx", (unsigned long long)t, (unsigned long long)get64(g.data() + 8), (unsigned long long)tt));
		int cnt = -1;
		t_osc_err e = osc_bundle_s_getMsgCount((int)g.size(), osc_bundle_s_getPtr(b), &cnt);
		CHECK(e == 0 && cnt == (int)ms.size(), "edit:count", sf("getMsgCount gives %d (error %ld), expected %zu", cnt, (long)e, ms.size()));
		CHECK(osc_bundle_s_strcmpID(osc_bundle_s_getPtr(b)) == 0, "edit:id", "strcmpID does not recognise the bundle");
		c.nontrivial = true;
	}
	if (b) osc_bundle_s_deepFree(b);
}

static void naked(Ctx &c) {
	Rng &r = c.rng;
	Bundle one = gen_b(r, 1);
	if (one.m.empty()) return;
	Str w = wire_msgs(enc_bundle(one))[0];
	c.in("naked " + show(one.m[0]));
	{
		Exact e(w.substr(4));
		long len = -1;
		char *out = nullptr, alloc = 55;
		bool own = r.flip();
		if (own) { out = (char *)malloc(w.size() + 16); memset(out, 0xA5, w.size() + 16); }
		t_osc_err er = osc_bundle_s_wrapMessage((long)e.n, e.p, &len, &out, &alloc);
		CHECK(er == 0 && len == (long)w.size() + 16, "wrap:size", sf("wrapMessage reports %ld bytes, expected %zu", len, w.size() + 16));
		CHECK(alloc == (own ? 0 : 1), "wrap:alloc", "wrapMessage reports the wrong owner of the buffer");
		Str g(out, len);
		if (own) free(out); else osc_mem_free(out);
		same_msgs(g, {w}, "wrap", show(one.m[0]));
		CHECK(g.substr(8, 8) == Str(8, 0), "wrap:timetag", "wrapMessage leaves the time tag " + hex(g.substr(8, 8)));
		CHECK(e.str() == w.substr(4), "wrap:input", "wrapMessage changed the message");
	}
	// rename
	for (int k = 0; k < 4; k++) {
		Str na = k == 3 ? "/" + Str(r.range(1, 300), 'n') : rm_addr(r, 3);
		Msg m2 = one.m[0];
		m2.addr = na;
		Bundle o2; o2.m.push_back(m2);
		Str want = wire_msgs(enc_bundle(o2))[0];
		Exact e(w), ea(na + Str(1, 0));
		char *out = (char *)malloc(want.size());
		memset(out, 0xA5, want.size());
		t_osc_msg_s *m = osc_message_s_alloc();
		osc_message_s_wrap(m, e.p);
		int n = osc_message_s_renameCopy(out, m, (int32_t)na.size(), ea.p);
		osc_message_s_free(m);
		Str g(out, want.size());
		free(out);
		CHECK(n == (int)want.size() - 4, "rename:size", sf("renameCopy returned %d, expected %zu", n, want.size() - 4));
		CHECK(g == want, "rename:bytes", "renameCopy of " + show(one.m[0]) + " to " + na + ": " + first_diff(g, want));
		CHECK(e.str() == w, "rename:input", "renameCopy changed its source");
		c.cover(sf("rename-mod4-%d", (int)na.size() % 4));
	}
	c.nontrivial = true;
}

static void random_case(Ctx &c) {
	switch (c.rng.below(4)) {
	case 0: case 1: {
		Bundle A = gen_b(c.rng, 7), B = gen_b(c.rng, 7);
		// share addresses, some with different content
		for (auto &m : B.m) if (!A.m.empty() && c.rng.chance(1, 3)) { if (c.rng.flip()) m = A.m[c.rng.below(A.m.size())]; else m.addr = A.m[c.rng.below(A.m.size())].addr; }
		for (auto &m : A.m) if (c.rng.chance(1, 8)) m.addr = A.m[c.rng.below(A.m.size())].addr;
		c.in(show(A)); c.in(show(B));
		c.nontrivial = !A.m.empty() && !B.m.empty();
		setops(c, A, B);
	} break;
	case 2: history(c); break;
	case 3: naked(c); break;
	}
}
static void empties(Ctx &c) {
	Rng &r = c.rng;
	Bundle A = gen_b(r, 4), E;
	while (A.m.empty()) A = gen_b(r, 4);
	setops(c, A, E); setops(c, E, A); setops(c, E, E); setops(c, A, A);
	setops(c, A, E, false, true); setops(c, E, A, true, false); setops(c, E, E, true, true);
	c.in("operations with empty and absent bundles");
	c.nontrivial = true;
}
static void empty_header(Ctx &c) {
	t_osc_bndl_s *b = osc_bundle_s_allocEmptyBundle();
	Str g = bytes_of(b);
	CHECK(g == Str("#bundle\0\0\0\0\0\0\0\0\0", 16), "empty", "the empty bundle is " + hex(g));
	osc_bundle_s_deepFree(b);
	b = osc_bundle_s_alloc(0, nullptr);
	osc_bundle_s_setBundleID_b(b);
	CHECK(bytes_of(b) == g, "empty", "setBundleID_b gives " + hex(bytes_of(b)));
	osc_bundle_s_deepFree(b);
	c.in("empty bundle header");
	c.nontrivial = true;
}
Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "algebra";
		s.directed.push_back({"empties", empties});
		s.directed.push_back({"empty-header", empty_header});
		s.random = random_case;
	}
	return s;
}
