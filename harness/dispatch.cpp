// C12: dispatch and query against an independent matcher; every delivery is recorded.
#include "refmatch.h"
extern "C" {
#include "osc_dispatch.h"
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_vtable.h"
}

struct Got { Str partial, complete; int calls = 0; };   // concatenated wire messages
struct Log {
	std::map<Str, Got> sel;
	Str unmatched;
	int delegated = 0;
	const char *bndl = nullptr; long len = 0;
	Str bad;
	std::map<Str, void *> want_ctx;
};
static thread_local Log *L;

// the wire messages of a delivered bundle
static Str delivered(t_osc_bndl_s *b, const char *what) {
	if (!b) return "";
	long n = osc_bundle_s_getLen(b);
	char *p = osc_bundle_s_getPtr(b);
	if (n == 0 || !p) return "";
	Str s(p, (size_t)n);
	Bundle d;
	Str why;
	if (!dec_bundle(s, d, why)) { if (L->bad.empty()) L->bad = Str(what) + " is not a well-formed bundle: " + why + " " + hex(s); return ""; }
	return s.substr(16);
}
static void take(t_osc_vtable_entry *e, long len, char *bndl, t_osc_bndl_s *partial, t_osc_bndl_s *complete, void *ctx, int which) {
	Str s = osc_vtable_entry_getSelector(e);
	Got &g = L->sel[s];
	g.calls++;
	g.partial += delivered(partial, "a set of partial matches");
	g.complete += delivered(complete, "a set of complete matches");
	auto w = L->want_ctx.find(s);
	if (w == L->want_ctx.end()) { if (L->bad.empty()) L->bad = "a method was called with the selector " + q(s) + ", which is not registered"; }
	else if (w->second != (void *)((char *)ctx + which)) { if (L->bad.empty()) L->bad = "selector " + q(s) + " was called with another method or context than it was bound to"; }
	if (bndl != L->bndl || len != L->len) { if (L->bad.empty()) L->bad = "a method was not given the dispatched bundle"; }
}
static void m0(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *x) { take(e, len, b, p, c, x, 0); }
static void m1(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *x) { take(e, len, b, p, c, x, 1); }
static void m2(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *x) { take(e, len, b, p, c, x, 2); }
static t_osc_vtable_method METH[] = {m0, m1, m2};
static void dele(long len, char *bndl, t_osc_bndl_s *un, void *ctx) {
	L->delegated++;
	L->unmatched += delivered(un, "the set of unmatched messages");
	if (ctx != (void *)L && L->bad.empty()) L->bad = "the delegation method got another context";
	if ((bndl != L->bndl || len != L->len) && L->bad.empty()) L->bad = "the delegation method was not given the dispatched bundle";
}

static char ctxs[4000];

struct Bind { Str sel; int meth; int ctx; };

// the wire message with another address: everything behind the address stays
static Str renamed(const Msg &m, const Str &slice, const Str &addr) {
	Str body = pad_str(addr) + slice.substr(4 + pad_str(m.addr).size()), o;
	put32(o, (uint32_t)body.size());
	return o + body;
}
// expected deliveries of one selector; sl holds the messages as they stand in the packet
static void expected(const Bundle &b, const std::vector<Str> &sl, const Str &sel, bool strip, Str &partial, Str &complete, long *np = nullptr, long *nc = nullptr) {
	for (size_t i = 0; i < b.m.size(); i++) {
		const Msg &m = b.m[i];
		Want w = ref_match(m.addr, sel);
		if (w.r == 3) { complete += sl[i]; if (nc) ++*nc; }
		else if (w.r == 1) { partial += strip ? renamed(m, sl[i], m.addr.substr((size_t)w.po)) : sl[i]; if (np) ++*np; }
	}
}
static Str expected_unmatched(const Bundle &b, const std::vector<Str> &sl, const std::vector<Str> &sels, long *n = nullptr) {
	Str o;
	for (size_t i = 0; i < b.m.size(); i++) {
		bool hit = false;
		for (auto &s : sels) { Want w = ref_match(b.m[i].addr, s); if (w.r & 1) hit = true; }
		if (!hit) { o += sl[i]; if (n) ++*n; }
	}
	return o;
}
static Str packet(Ctx &c, const Bundle &b, std::vector<Str> &sl) {
	Str p = c.rng.chance(1, 4) ? enc_bundle_untagged(b, c.rng, 1) : enc_bundle(b);
	sl = wire_msgs(p);
	return p;
}
static Str dump(const Str &w) { Bundle b; Str why; Str p("#bundle\0\0\0\0\0\0\0\0\0", 16); return dec_bundle(p + w, b, why) ? show(b) : hex(w); }

static Bundle gen(Rng &r, std::vector<Str> &sels) {
	Bundle b;
	GenOpt o; o.max_depth = 1; o.max_args = 3;
	int n = r.chance(1, 20) ? r.range(20, 45) : r.range(0, 7);
	for (int i = 0; i < n; i++) { Msg m = gen_msg(r, o, 0); m.addr = r.flip() ? rm_pattern(r, 4) : rm_addr(r, 4); if (r.chance(1, 12)) m.addr += r.flip() ? "/*" : "/deeper"; b.m.push_back(m); }
	std::set<Str> seen;
	int k = r.chance(1, 15) ? r.range(10, 40) : r.range(0, 6);
	for (int i = 0; i < k; i++) {
		Str s = rm_addr(r, 3);
		if (!b.m.empty() && r.chance(1, 3)) {
			// the beginning of a message's address, when it is a plain one
			Str a = b.m[r.below(b.m.size())].addr;
			if (a.find_first_of("*?[{") == Str::npos) { size_t cut = a.size(); if (r.flip()) { cut = a.rfind('/'); if (!cut) cut = a.size(); } s = a.substr(0, cut); }
		}
		if (seen.insert(s).second) sels.push_back(s);
	}
	return b;
}

static void dispatch_case(Ctx &c) {
	Rng &r = c.rng;
	std::vector<Str> first;
	Bundle b = gen(r, first);
	Log log;
	L = &log;
	// build the table through a history of registrations
	std::map<Str, Bind> reg;
	t_osc_vtable *v = osc_vtable_alloc(r.flip() ? 0 : r.range(1, 4));
	bool with_dele = !r.chance(1, 6);
	if (with_dele) osc_vtable_setDelegationMethod(v, dele, &log);
	Str hist;
	auto add = [&](const Str &s) {
		Bind x{s, r.range(0, 2), r.range(0, 900) * 4};
		Exact e(s + Str(1, 0));
		CHECK(!osc_vtable_addEntry(v, e.p, METH[x.meth], ctxs + x.ctx), "vtable:add", "adding an entry failed");
		reg[s] = x;
		hist += " +" + s;
	};
	for (auto &s : first) add(s);
	int rounds = r.chance(1, 3) ? r.range(2, 3) : 1;
	for (int round = 0; round < rounds; round++) {
	if (round) { // another bundle, and perhaps more selectors
		std::vector<Str> more;
		b = gen(r, more);
		if (r.flip()) for (auto &s : more) add(s);
		log.sel.clear(); log.unmatched.clear(); log.want_ctx.clear(); log.delegated = 0;
		c.cover("dispatch-again");
	}
	int ops = r.range(0, 4);
	for (int i = 0; i < ops && !reg.empty(); i++) {
		auto it = reg.begin();
		std::advance(it, (long)r.below(reg.size()));
		Bind x = it->second;
		Exact e(x.sel + Str(1, 0));
		switch (r.below(4)) {
		case 0: add(x.sel); c.cover("vtable-replace"); break;
		case 1: x.meth = r.range(0, 2); CHECK(!osc_vtable_rebindSelector(v, e.p, METH[x.meth]), "vtable:rebind", "rebinding failed"); reg[x.sel] = x; c.cover("vtable-rebind"); hist += " rebind " + x.sel; break;
		case 2: x.meth = r.range(0, 2); x.ctx = r.range(0, 900) * 4; CHECK(!osc_vtable_rebindSelectorWithContext(v, e.p, METH[x.meth], ctxs + x.ctx), "vtable:rebind", "rebinding failed"); reg[x.sel] = x; c.cover("vtable-rebind"); hist += " rebind " + x.sel; break;
		case 3: {
			Str ns = rm_addr(r, 3);
			if (reg.count(ns)) break;
			Exact en(ns + Str(1, 0));
			CHECK(!osc_vtable_renameEntry(v, e.p, en.p), "vtable:rename", "renaming failed");
			reg.erase(x.sel);
			hist += " " + x.sel + "->" + ns;
			x.sel = ns;
			reg[ns] = x;
			c.cover("vtable-rename");
		} break;
		}
	}
	c.in(hist + " : " + show(b));
	// the table itself
	CHECK(osc_vtable_getNumEntries(v) == (int)reg.size(), "vtable:count", sf("the table has %d entries, expected %zu", osc_vtable_getNumEntries(v), reg.size()));
	CHECK(osc_vtable_getNumSlots(v) >= (int)reg.size(), "vtable:slots", "the table has fewer slots than entries");
	std::vector<Str> sels;
	std::set<Str> names;
	for (int i = 0; i < (int)reg.size(); i++) {
		t_osc_vtable_entry *e = osc_vtable_getEntryByIndex(v, i);
		CHECK(e, "vtable:index", "an entry has no index");
		Str s = osc_vtable_entry_getSelector(e);
		CHECK(reg.count(s) && names.insert(s).second, "vtable:index", "the table holds " + q(s) + " twice or without registration");
		Exact es(s + Str(1, 0));
		CHECK(osc_vtable_getEntryBySelector(v, es.p) == e, "vtable:lookup", "looking up " + q(s) + " does not find its entry after" + hist);
		CHECK(osc_vtable_getIndexForEntry(v, e) == i && osc_vtable_getIndexForSelector(v, es.p) == i, "vtable:lookup", "the index of " + q(s) + " is wrong");
		sels.push_back(s);
	}
	CHECK(!osc_vtable_getEntryByIndex(v, (int)reg.size()) && !osc_vtable_getEntryByIndex(v, (int)reg.size() + r.range(1, 40)), "vtable:index", "an index behind the last entry has an entry");
	CHECK(!osc_vtable_getEntryBySelector(v, (char *)"/not/registered") && osc_vtable_getIndexForSelector(v, (char *)"/not/registered") == -1, "vtable:lookup", "an unregistered selector is found");
	for (auto &kv : reg) log.want_ctx[kv.first] = ctxs + kv.second.ctx + kv.second.meth;
	// dispatch
	std::vector<Str> sl;
	Str bytes = packet(c, b, sl);
	bool strip = r.flip();
	Exact e(bytes);
	log.bndl = e.p;
	log.len = (long)e.n;
	std::vector<Str> called = sels;
	t_osc_err er;
	const char *what;
	if (r.flip()) { er = osc_dispatch(v, (int32_t)e.n, e.p, strip); what = "osc_dispatch"; }
	else {
		std::vector<Str> list;
		called.clear();
		for (auto &s : sels) if (r.chance(2, 3)) { list.push_back(s); called.push_back(s); }
		if (r.chance(1, 4)) list.push_back("/not/registered");
		for (size_t i = list.size(); i > 1; i--) std::swap(list[i - 1], list[r.below(i)]);
		std::vector<char *> p;
		for (auto &s : list) p.push_back((char *)s.c_str());
		er = osc_dispatch_selectors(v, (int)p.size(), p.data(), (int32_t)e.n, e.p, strip);
		what = "osc_dispatch_selectors";
	}
	Str in = Str(what) + (strip ? " (stripping)" : "") + " of " + show(b) + " to" + hist;
	CHECK(!er, "dispatch:error", in + " fails");
	if (!log.bad.empty()) fail("dispatch:call", in + ": " + log.bad);
	CHECK(e.str() == bytes, "dispatch:input", in + " changed the bundle");
	long np = 0, nc = 0, nu = 0;
	for (auto &s : sels) {
		Str wp, wc;
		bool on = std::find(called.begin(), called.end(), s) != called.end();
		if (on) expected(b, sl, s, strip, wp, wc, &np, &nc);
		Got &g = log.sel[s];
		if (g.calls > 1) fail("dispatch:selector", in + sf(": %d calls for ", g.calls) + q(s));
		if (!on && g.calls) fail("dispatch:selector", in + ": " + q(s) + " was called without being asked for");
		if (g.complete != wc) fail("dispatch:complete", in + ": " + q(s) + " was handed the complete matches " + dump(g.complete) + " instead of " + dump(wc));
		if (g.partial != wp) fail("dispatch:partial", in + ": " + q(s) + " was handed the partial matches " + dump(g.partial) + " instead of " + dump(wp));
	}
	Str wu = expected_unmatched(b, sl, sels, &nu);
	int want_dele = nu || b.m.empty();
	if (with_dele && (log.delegated > 1 || (want_dele && !log.delegated))) fail("dispatch:unmatched", in + sf(": the delegation method was called %d times instead of once", log.delegated));
	if (b.m.empty()) c.cover("dispatch-empty");
	if (with_dele && log.unmatched != wu) fail("dispatch:unmatched", in + ": delegated " + dump(log.unmatched) + " instead of " + dump(wu));
	c.cover("dispatch-complete", nc);
	c.cover("dispatch-partial", np);
	c.cover("dispatch-unmatched", nu);
	if (nc + np) c.nontrivial = true;
	// calling one entry by its selector
	if (!sels.empty() && r.chance(1, 4)) {
		log.sel.clear();
		const Str &s = sels[r.below(sels.size())];
		t_osc_bndl_s *x = osc_bundle_s_alloc((long)e.n, e.p);
		CHECK(osc_vtable_call(v, (char *)s.c_str(), (long)e.n, e.p, nullptr, x) == 0, "vtable:call", "calling " + q(s) + " fails");
		osc_bundle_s_free(x);
		CHECK(log.sel.size() == 1 && log.sel[s].calls == 1 && log.sel[s].complete == bytes.substr(16) && log.bad.empty(), "vtable:call", "calling " + q(s) + " does not call its method once");
		CHECK(osc_vtable_call(v, (char *)"/not/registered", (long)e.n, e.p, nullptr, nullptr) != 0, "vtable:call", "calling an unregistered selector succeeds");
	}
	}
	osc_vtable_free(v);
}

static void query_case(Ctx &c) {
	Rng &r = c.rng;
	std::vector<Str> sels;
	Bundle b = gen(r, sels);
	Str hs;
	for (auto &s : sels) hs += " " + s;
	c.in("query" + hs + " : " + show(b));
	Log log;
	L = &log;
	bool strip = r.flip();
	std::vector<std::unique_ptr<Exact>> keep;
	std::vector<char *> p;
	for (auto &s : sels) { keep.emplace_back(new Exact(s + Str(1, 0))); p.push_back(keep.back()->p); if (r.chance(1, 10)) p.push_back(nullptr); }
	t_osc_rset *rs = r.flip() ? osc_rset_alloc() : nullptr;
	Str in = Str("query") + (strip ? " (stripping)" : "") + " of " + show(b) + " for" + hs;
	long np = 0, nc = 0, nu = 0;
	std::set<Str> have;
	std::map<Str, Str> accp, accc;
	Str wu;
	// one result set collects the results of one query after the other
	int rounds = r.chance(1, 3) ? 2 : 1;
	for (int round = 0; round < rounds; round++) {
	if (round) {
		std::vector<Str> other;
		b = gen(r, other);
		in += " and then of " + show(b);
		c.cover("query-again");
	}
	std::vector<Str> sl;
	Str bytes = packet(c, b, sl);
	Exact e(bytes);
	CHECK(!osc_query_select((int)p.size(), p.data(), (int32_t)e.n, e.p, strip, &rs) && rs, "query:error", in + " fails");
	CHECK(e.str() == bytes, "query:input", in + " changed the bundle");
	for (auto &s : sels) {
		Str gp, gc, &wp = accp[s], &wc = accc[s];
		expected(b, sl, s, strip, wp, wc, &np, &nc);
		Exact k(s + Str(1, 0));
		t_osc_rset_result *res = osc_rset_select(rs, k.p);
		if (res) {
			gp = delivered(osc_rset_result_getPartialMatches(res), "a set of partial matches");
			gc = delivered(osc_rset_result_getCompleteMatches(res), "a set of complete matches");
			Str n = osc_rset_result_getSelector(res);
			CHECK(n == s, "query:selector", in + ": selecting " + q(s) + " gives the result of " + q(n));
			CHECK(osc_rset_result_getSelectorLen(res) == (int)s.size(), "query:selectorlen", sf("the selector's length is reported as %d for ", osc_rset_result_getSelectorLen(res)) + q(s));
			if (!gp.empty() || !gc.empty()) have.insert(s);
		}
		if (gc != wc) fail("query:complete", in + ": " + q(s) + " has the complete matches " + dump(gc) + " instead of " + dump(wc));
		if (gp != wp) fail("query:partial", in + ": " + q(s) + " has the partial matches " + dump(gp) + " instead of " + dump(wp));
	}
	CHECK(!osc_rset_select(rs, (char *)"/not/asked"), "query:selector", "a selector that was not asked for has a result");
	wu += expected_unmatched(b, sl, sels, &nu);
	Str gu = delivered(osc_rset_getUnmatched(rs), "the set of unmatched messages");
	if (gu != wu) fail("query:unmatched", in + ": unmatched are " + dump(gu) + " instead of " + dump(wu));
	}
	if (!log.bad.empty()) fail("query:malformed", in + ": " + log.bad);
	// iteration gives every result once
	for (int pass = 0; pass < 2; pass++) {
		std::set<Str> seen;
		osc_rset_initIterator(rs);
		while (osc_rset_hasNext(rs)) {
			t_osc_rset_result *res = osc_rset_next(rs);
			CHECK(res, "query:iterate", in + ": iteration gives a NULL result");
			Str s = osc_rset_result_getSelector(res);
			CHECK(osc_rset_select(rs, (char *)s.c_str()) == res, "query:iterate", in + ": iteration and selection of " + q(s) + " differ");
			if (!seen.insert(s).second) fail("query:iterate", in + ": iteration gives " + q(s) + " twice");
		}
		for (auto &s : have) if (!seen.count(s)) fail("query:iterate", in + ": iteration misses " + q(s));
		CHECK(!osc_rset_next(rs), "query:iterate", "there is a result past the last");
	}
	osc_rset_free(rs);
	c.cover("query-complete", nc);
	c.cover("query-partial", np);
	c.cover("query-unmatched", nu);
	if (nc + np) c.nontrivial = true;
}
static void random_case(Ctx &c) {
	dispatch_case(c);
	query_case(c);
}
// many selectors and many messages
static void many(Ctx &c) {
	for (int i = 0; i < 150; i++) { dispatch_case(c); query_case(c); }
	c.in("many");
	c.nontrivial = true;
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "dispatch";
		s.directed = {{"many", many}};
		s.random = random_case;
	}
	return s;
}
