// C05: address lookup on both bundle forms against an independent matcher.
#include "refmatch.h"

static Msg small_msg(Rng &r, const Str &addr) {
	GenOpt o; o.max_depth = 1; o.max_args = 3; o.empty_msg_pct = 30;
	Msg m = gen_msg(r, o, 0);
	m.addr = addr;
	return m;
}

static void check_all(Ctx &c, const Bundle &b, const Str &pat) {
	Rng &r = c.rng;
	Str bytes = r.chance(1, 4) ? enc_bundle_untagged(b, r, 0) : enc_bundle(b);
	std::vector<Str> wm = wire_msgs(bytes);
	std::vector<long> off;
	{ long o = 16; for (auto &w : wm) { off.push_back(o); o += (long)w.size(); } }
	Exact e(bytes), p(pat + Str(1, 0));
	t_osc_bndl_u *u = mk_bundle(r, b);
	long first_full = -1, first_eq = -1;
	for (int full = 0; full < 2; full++) {
		std::vector<size_t> want;
		bool bound = false;
		for (size_t i = 0; i < b.m.size(); i++) {
			if (!ref_lookup(pat, b.m[i].addr, full)) continue;
			want.push_back(i);
			if (!b.m[i].a.empty()) bound = true;
			if (full && first_full < 0) first_full = (long)i;
		}
		for (size_t i = 0; full && i < b.m.size(); i++) if (b.m[i].addr == pat) { first_eq = (long)i; break; }
		Str what = "pattern " + q(pat) + (full ? " (complete)" : " (partial)");
		t_osc_msg_ar_s *ar;
		if (r.flip()) ar = osc_bundle_s_lookupAddress((long)e.n, e.p, p.p, full);
		else { t_osc_bndl_s *bb = osc_bundle_s_alloc((long)e.n, e.p); ar = osc_bundle_s_lookupAddress_b(bb, p.p, full); osc_bundle_s_free(bb); }
		long n = ar ? osc_message_array_s_getLen(ar) : 0;
		if (n != (long)want.size()) fail("s:count", what + sf(": serialized lookup found %ld messages, expected %zu", n, want.size()));
		for (long i = 0; i < n; i++) {
			t_osc_msg_s *m = osc_message_array_s_get(ar, i);
			long at = osc_message_s_getPtr(m) - e.p;
			if (at != off[want[i]]) fail("s:which", what + sf(": match %ld is at byte %ld, expected %ld", i, at, off[want[i]]));
			Msg got = rd_msg_s(m);
			CHECK(got == b.m[want[i]], "s:content", what + ": match reads as " + show(got));
		}
		if (ar) osc_message_array_s_free(ar);
		t_osc_msg_ar_u *au = osc_bundle_u_lookupAddress(u, p.p, full);
		n = au ? osc_message_array_u_getLen(au) : 0;
		if (n != (long)want.size()) fail("u:count", what + sf(": unserialized lookup found %ld messages, expected %zu", n, want.size()));
		for (long i = 0; i < n; i++) {
			Msg got = rd_msg_u(osc_message_array_u_get(au, i));
			if (got != b.m[want[i]]) fail("u:content", what + sf(": match %ld reads as ", i) + show(got) + " instead of " + show(b.m[want[i]]));
		}
		if (au) osc_message_array_u_free(au);
		int res = 77;
		osc_bundle_s_addressExists((long)e.n, e.p, p.p, full, &res);
		CHECK(res == (want.empty() ? 0 : 1), "s:exists", what + sf(": serialized addressExists gave %d with %zu matches", res, want.size()));
		res = 77;
		osc_bundle_u_addressExists(u, p.p, full, &res);
		CHECK(res == (want.empty() ? 0 : 1), "u:exists", what + sf(": unserialized addressExists gave %d with %zu matches", res, want.size()));
		res = 77;
		osc_bundle_s_addressIsBound((long)e.n, e.p, p.p, full, &res);
		CHECK(res == (int)bound, "s:bound", what + sf(": serialized addressIsBound gave %d, expected %d", res, bound));
		res = 77;
		osc_bundle_u_addressIsBound(u, p.p, full, &res);
		CHECK(res == (int)bound, "u:bound", what + sf(": unserialized addressIsBound gave %d, expected %d", res, bound));
		c.cover(want.empty() ? "lookups-none" : want.size() > 16 ? "lookups-over-16" : want.size() > 1 ? "lookups-several" : "lookups-one");
		if (bound != !want.empty()) c.cover("found-but-unbound");
		if (!want.empty()) c.nontrivial = true;
	}
	char *ff = osc_bundle_s_getFirstFullMatch((long)e.n, e.p, p.p);
	CHECK((ff ? ff - e.p : -1) == (first_full < 0 ? -1 : off[first_full]), "s:first", "getFirstFullMatch of " + q(pat) + sf(" at %ld, expected message %ld", (long)(ff ? ff - e.p : -1), first_full));
	t_osc_msg_u *fu = osc_bundle_u_getFirstFullMatch(u, p.p);
	CHECK((fu == nullptr) == (first_full < 0), "u:first", "getFirstFullMatch of " + q(pat));
	if (fu) {
		t_osc_msg_u *at = osc_bundle_u_getFirstMsg(u);
		for (long i = 0; i < first_full; i++) at = osc_message_u_next(at);
		CHECK(at == fu, "u:first", "getFirstFullMatch of " + q(pat) + " is not the first matching message");
	}
	char *fe = osc_bundle_s_getFirstEqualAddr((long)e.n, e.p, p.p);
	CHECK((fe ? fe - e.p : -1) == (first_eq < 0 ? -1 : off[first_eq]), "s:equal", "getFirstEqualAddr of " + q(pat) + sf(" at %ld, expected message %ld", (long)(fe ? fe - e.p : -1), first_eq));
	CHECK(e.str() == bytes, "modified", "a lookup changed the bundle");
	CHECK(p.str() == pat + Str(1, 0), "modified", "a lookup changed the pattern");
	Bundle back = rd_bundle_u(u);
	CHECK(back == b, "modified-u", "a lookup changed the unserialized bundle");
	osc_bundle_u_free(u);
}

static void random_case(Ctx &c) {
	Rng &r = c.rng;
	Bundle b;
	int n = r.chance(1, 12) ? r.range(17, 70) : r.range(0, 10);
	bool few = r.chance(1, 3);
	for (int i = 0; i < n; i++) b.m.push_back(small_msg(r, few ? Str("/") + RM_WORDS[r.below(3)] : rm_addr(r)));
	// some messages are prefixes or extensions of others
	for (int i = 0; i < n; i++) if (r.chance(1, 6)) { b.m[i].addr = b.m[r.below(n)].addr + rm_addr(r, 1); }
	std::vector<Str> pats;
	for (int i = 0; i < 6; i++) pats.push_back(rm_pattern(r));
	if (n) { pats.push_back(b.m[r.below(n)].addr); pats.push_back(b.m[r.below(n)].addr + "/x"); Str a = b.m[r.below(n)].addr; pats.push_back(a.substr(0, a.size() - 1) + "?"); size_t k = a.find('/', 1); if (k != Str::npos) pats.push_back(a.substr(0, k)); }
	c.in(show(b));
	for (auto &p : pats) { c.in(p); check_all(c, b, p); }
}

static void many(Ctx &c, int n) {
	Bundle b;
	for (int i = 0; i < n; i++) b.m.push_back(small_msg(c.rng, sf("/n/%d", i)));
	c.in(sf("%d messages", n));
	check_all(c, b, "/n/*");
	check_all(c, b, "/n");
	check_all(c, b, sf("/n/%d", n - 1));
	check_all(c, b, "/*/*");
}
static void untagged(Ctx &c) {
	// a packet whose messages carry no type tag string, as old senders produce
	Str pkt("#bundle\0\0\0\0\0\0\0\0\1", 16), a = pad_str("/a"), bb = pad_str("/b/longer");
	put32(pkt, (uint32_t)a.size()); pkt += a;
	put32(pkt, (uint32_t)bb.size()); pkt += bb;
	Msg m; m.addr = "/c"; m.a.push_back(A_i(3));
	Str e = enc_msg(m);
	put32(pkt, (uint32_t)e.size()); pkt += e;
	Exact x(pkt);
	int res = 7;
	osc_bundle_s_addressIsBound((long)x.n, x.p, (char *)"/a", 1, &res);
	CHECK(res == 0, "s:bound", "a message without type tags is reported as bound");
	osc_bundle_s_addressIsBound((long)x.n, x.p, (char *)"/b/*", 1, &res);
	CHECK(res == 0, "s:bound", "a message without type tags is reported as bound");
	osc_bundle_s_addressIsBound((long)x.n, x.p, (char *)"/*", 1, &res);
	CHECK(res == 1, "s:bound", "/* matches the bound /c");
	osc_bundle_s_addressExists((long)x.n, x.p, (char *)"/b/longer", 1, &res);
	CHECK(res == 1, "s:exists", "/b/longer exists");
	c.in("messages without type tags");
	c.nontrivial = true;
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "lookup";
		for (int n : {15, 16, 17, 32, 33, 48, 49, 500}) s.directed.push_back({sf("many-%d", n), [n](Ctx &c) { many(c, n); }});
		s.directed.push_back({"untagged", untagged});
		s.random = random_case;
	}
	return s;
}
