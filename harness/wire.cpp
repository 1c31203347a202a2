// C01 (build -> serialize -> deserialize) and C02 (reading a serialized bundle in place).
#include "vh.h"

static GenOpt opts(Ctx &c) {
	GenOpt o;
	o.max_depth = c.rng.chance(1, 8) ? 5 : 2;
	if (c.rng.chance(1, 6)) o.types = Str(1, "cCuUiIhHfdsbtTFN."[c.rng.below(17)]);
	if (c.rng.chance(1, 5)) { o.max_msgs = 12; o.max_args = 3; }
	return o;
}

static void count_types(Ctx &c, const Bundle &b, int d = 0) {
	c.cover(sf("depth%d", d));
	for (auto &m : b.m) { c.cover("messages"); for (auto &a : m.a) { c.cover(Str("type:") + a.t); if (a.t == '.') count_types(c, *a.b, d + 1); } }
}

static void round_trip(Ctx &c, const Bundle &b) {
	Rng &r = c.rng;
	c.in(show(b));
	count_types(c, b);
	if (!b.m.empty()) c.nontrivial = true;
	Bundle z = b;
	Str want = enc_bundle(z);
	t_osc_bndl_u *u = mk_bundle(r, b);
	Bundle back = rd_bundle_u(u);
	CHECK(back == b, "build", "the built bundle reads back as " + show(back));
	long sz = osc_bundle_u_getSerializedSize(u);
	CHECK(sz == (long)want.size(), "size:bundle", sf("getSerializedSize %ld, wire form has %zu bytes", sz, want.size()));
	t_osc_bndl_s *s = osc_bundle_u_serialize(u);
	Str got = bytes_of(s);
	if (got != want) fail("wire:bundle", "serialized bundle differs: " + first_diff(got, want));
	CHECK((long)osc_bundle_u_getMsgCount(u) == (long)b.m.size(), "count", "message count");
	{
		char *buf = (char *)malloc(want.size());
		memset(buf, 0x5a, want.size());
		size_t n = osc_bundle_u_nserialize(buf, want.size(), u);
		Str g(buf, want.size());
		free(buf);
		CHECK(n == want.size() && g == want, "wire:bundle-n", sf("nserialize into an exact buffer returned %zu of %zu: ", n, want.size()) + first_diff(g, want));
	}
	c.cover("bytes-serialized", (long)want.size());
	// whole bundle back
	{
		Exact e(want);
		t_osc_bndl_u *v = osc_bundle_s_deserialize((long)e.n, e.p);
		CHECK(v, "deserialize:null", "deserialize returned NULL");
		CHECK(e.str() == want, "deserialize:input", "deserialize changed its input");
		Bundle d = rd_bundle_u(v);
		if (d != b) fail("deserialize:bundle", "deserialized as " + show(d));
		t_osc_bndl_s *s2 = osc_bundle_u_serialize(v);
		Str g2 = bytes_of(s2);
		if (g2 != want) fail("reserialize", "serialize(deserialize(bytes)) differs: " + first_diff(g2, want));
		osc_bundle_s_deepFree(s2);
		osc_bundle_u_free(v);
	}
	// copy
	{
		t_osc_bndl_u *v = nullptr;
		osc_bundle_u_copy(&v, u);
		Bundle d = rd_bundle_u(v);
		CHECK(d == b, "copy", "copy reads as " + show(d));
		osc_bundle_u_free(v);
	}
	// message level
	size_t k = 0;
	for (t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m), k++) {
		CHECK(k < b.m.size(), "next", "more messages than were added");
		Str e;
		Str body = enc_msg(b.m[k]);
		put32(e, (uint32_t)body.size());
		e += body;
		CHECK(osc_message_u_getSerializedSize(m) == (long)e.size(), "size:message", sf("message size %ld, wire %zu", osc_message_u_getSerializedSize(m), e.size()));
		t_osc_msg_s *ms = osc_message_u_serialize(m);
		CHECK(osc_message_s_getSize(ms) == (int32_t)body.size(), "wire:message-size", sf("size prefix %d, expected %zu", osc_message_s_getSize(ms), body.size()));
		Str g(osc_message_s_getPtr(ms), e.size());
		CHECK(g == e, "wire:message", "message " + show(b.m[k]) + ": " + first_diff(g, e));
		t_osc_msg_u *mu = osc_message_s_deserialize(ms);
		Msg d = rd_msg_u(mu);
		CHECK(d == b.m[k], "deserialize:message", "message reads as " + show(d));
		CHECK(osc_message_u_getArgCount(mu) == (int)b.m[k].a.size(), "argc", "argument count after deserialization");
		osc_message_u_free(mu);
		osc_message_s_deepFree(ms);
		// atom level
		for (int i = 0; i < (int)b.m[k].a.size() && i < 6; i++) {
			const Atom &want_a = b.m[k].a[i];
			t_osc_atom_u *a = osc_message_u_getArg(m, i);
			Str ea = enc_atom(want_a);
			CHECK(osc_atom_u_getSerializedSize(a) == (long)ea.size(), "size:atom", sf("atom %s: size %ld, wire %zu", show(want_a).c_str(), osc_atom_u_getSerializedSize(a), ea.size()));
			t_osc_atom_s *as = osc_atom_u_serialize(a);
			Str ga(osc_atom_s_getData(as), ea.size());
			CHECK(ga == ea && osc_atom_s_getTypetag(as) == want_a.t, "wire:atom", "atom " + show(want_a) + ": " + first_diff(ga, ea));
			t_osc_atom_u *au = osc_atom_s_deserialize(as);
			Atom da = rd_atom_u(au);
			CHECK(da == want_a, "deserialize:atom", "atom " + show(want_a) + " came back as " + show(da));
			osc_atom_u_free(au);
			char *data = osc_atom_s_getData(as);
			osc_atom_s_free(as);
			osc_mem_free(data);
			c.cover("atoms-compared");
		}
	}
	CHECK(k == b.m.size(), "next", sf("walking the messages saw %zu of %zu", k, b.m.size()));
	osc_bundle_s_deepFree(s);
	osc_bundle_u_free(u);
}

static void read_in_place(Ctx &c, const Bundle &b, const Str &pkt, int depth = 0);

static void check_msg_s(Ctx &c, t_osc_msg_s *m, const Msg &w, const Str &slice, const char *how) {
	Str h = how;
	CHECK(m, "read:null:" + h, "no message");
	CHECK(osc_message_s_getSize(m) == (int32_t)slice.size() - 4, "read:size:" + h, sf("size %d, expected %zu", osc_message_s_getSize(m), slice.size() - 4));
	CHECK(osc_message_s_getAddress(m) && w.addr == osc_message_s_getAddress(m), "read:address:" + h, "address");
	CHECK(!memcmp(osc_message_s_getPtr(m), slice.data(), slice.size()), "read:ptr:" + h, "getPtr does not point at the message");
	Str tt = ",";
	for (auto &a : w.a) tt += a.t;
	char *gt = osc_message_s_getTypetags(m);
	CHECK(gt ? tt == gt : tt == ",", "read:typetags:" + h, Str("typetags ") + (gt ? gt : "(null)") + " expected " + tt);
	int n = (int)w.a.size();
	CHECK(osc_message_s_getArgCount(m) == n, "read:argc:" + h, sf("argument count %d, expected %d", osc_message_s_getArgCount(m), n));
	CHECK(osc_message_s_getTypetag(m, n) == 0 && osc_message_s_getTypetag(m, n + 7) == 0, "read:tag-past-end", "a type tag beyond the last one");
	if (n) CHECK(osc_message_s_getData(m) == osc_message_s_getAddress(m) + pad_str(w.addr).size() + pad_str(tt).size(), "read:data:" + h, "data pointer");
}

static void check_args_s(Ctx &c, t_osc_msg_s *m, const Msg &w, bool cached) {
	int n = (int)w.a.size();
	std::vector<int> order;
	for (int i = 0; i < n; i++) order.push_back(i);
	for (int i = n - 1; i > 0; i--) std::swap(order[i], order[c.rng.below(i + 1)]);
	const char *base = osc_message_s_getData(m);
	std::vector<size_t> off(n + 1, 0);
	for (int i = 0; i < n; i++) off[i + 1] = off[i] + enc_atom(w.a[i]).size();
	t_osc_atom_s *reuse = nullptr;
	bool keep = c.rng.flip();
	Str h = cached ? "cached" : "plain";
	for (int i : order) {
		CHECK(osc_message_s_getTypetag(m, i) == w.a[i].t, "read:tag", sf("type tag %d is %c, expected %c", i, osc_message_s_getTypetag(m, i), w.a[i].t));
		t_osc_atom_s *a = keep ? reuse : nullptr;
		osc_message_s_getArg(m, i, &a);
		CHECK(a, "read:arg:null", sf("argument %d not returned", i));
		CHECK(osc_atom_s_getTypetag(a) == w.a[i].t, "read:arg-tag:" + h, sf("argument %d has type %c", i, osc_atom_s_getTypetag(a)));
		CHECK(osc_atom_s_getData(a) == base + off[i], "read:arg-offset:" + h, sf("argument %d at offset %ld, expected %zu", i, (long)(osc_atom_s_getData(a) - base), off[i]));
		CHECK(osc_atom_s_sizeof(a) == off[i + 1] - off[i], "read:arg-size", sf("argument %d (%s) has size %zu, expected %zu", i, show(w.a[i]).c_str(), osc_atom_s_sizeof(a), off[i + 1] - off[i]));
		Atom v = rd_atom_s(a);
		CHECK(v == w.a[i], "read:arg-value:" + h, sf("argument %d is %s, expected %s", i, show(v).c_str(), show(w.a[i]).c_str()));
		c.cover("args-read");
		if (keep) reuse = a; else osc_atom_s_free(a);
	}
	if (reuse) osc_atom_s_free(reuse);
	t_osc_atom_s *none = nullptr;
	osc_message_s_getArg(m, n, &none);
	CHECK(!none, "read:arg-past-end", "an argument past the last one was returned");
	// iterator, twice with a reset
	t_osc_msg_it_s *it = osc_message_iterator_s_getIterator(m);
	for (int round = 0; round < 2; round++) {
		int i = 0;
		while (osc_message_iterator_s_hasNext(it)) {
			CHECK(i < n, "read:iter-extra", "the iterator returns too many arguments");
			t_osc_atom_s *a = osc_message_iterator_s_next(it);
			CHECK(a && osc_atom_s_getTypetag(a) == w.a[i].t && osc_atom_s_getData(a) == base + off[i], "read:iter:" + h, sf("iterator: argument %d", i));
			i++;
			if (round == 0 && c.rng.chance(1, 5)) break;
		}
		if (round == 1) CHECK(i == n, "read:iter-short:" + h, sf("the iterator returned %d of %d arguments", i, n));
		osc_message_iterator_s_resetIterator(it);
	}
	osc_message_iterator_s_destroyIterator(it);
}

struct Cb { std::vector<Msg> got; Str err; };
static void cb(t_osc_msg_s *m, void *x) {
	Cb *k = (Cb *)x;
	try { k->got.push_back(rd_msg_s(m)); } catch (Fail &f) { k->err = f.detail; }
}

static void read_in_place(Ctx &c, const Bundle &b, const Str &pkt, int depth) {
	Exact e(pkt);
	std::vector<Str> sl = wire_msgs(pkt);
	int cnt = -1;
	t_osc_err err = osc_bundle_s_getMsgCount((int)e.n, e.p, &cnt);
	CHECK(!err && cnt == (int)b.m.size(), "read:count", sf("getMsgCount: error %lld, count %d, expected %zu", (long long)err, cnt, b.m.size()));
	uint64_t t = tt_val(osc_bundle_s_getTimetag((long)e.n, e.p));
	CHECK(t == b.tt, "read:timetag", sf("time tag %016llx, expected %016llx", (unsigned long long)t, (unsigned long long)b.tt));
	CHECK(osc_bundle_s_strcmpID(e.p) == 0, "read:id", "strcmpID rejects a bundle header");
	t_osc_bndl_it_s *it = osc_bundle_iterator_s_getIterator((long)e.n, e.p);
	for (int round = 0; round < 2; round++) {
		size_t k = 0;
		while (osc_bundle_iterator_s_hasNext(it)) {
			CHECK(k < b.m.size(), "read:iter-msgs", "the bundle iterator returns too many messages");
			t_osc_msg_s *m = osc_bundle_iterator_s_next(it);
			check_msg_s(c, m, b.m[k], sl[k], "iter");
			check_args_s(c, m, b.m[k], false);
			k++;
			c.cover("messages-read");
			if (round == 0 && c.rng.chance(1, 6)) break;
		}
		if (round == 1) CHECK(k == b.m.size(), "read:iter-msgs-short", sf("the iterator returned %zu of %zu messages", k, b.m.size()));
		osc_bundle_iterator_s_resetIterator(it);
	}
	osc_bundle_iterator_s_destroyIterator(it);
	t_osc_bndl_s *w = osc_bundle_s_alloc((long)e.n, e.p);
	t_osc_msg_s *fm = osc_bundle_s_getFirstMsg(w);
	CHECK((fm != nullptr) == !b.m.empty(), "read:first", "getFirstMsg");
	if (fm) { check_msg_s(c, fm, b.m[0], sl[0], "first"); osc_message_s_free(fm); }
	osc_bundle_s_free(w);
	Cb k;
	osc_bundle_s_getMessagesWithCallback((int)e.n, e.p, cb, &k);
	CHECK(k.err.empty(), "read:callback", k.err);
	CHECK(k.got == b.m, "read:callback", sf("the callback saw %zu messages, expected %zu", k.got.size(), b.m.size()));
	// wrapped message with and without the offset cache
	for (size_t i = 0; i < b.m.size(); i++) {
		Exact me(sl[i]);
		t_osc_msg_s *m = osc_message_s_alloc();
		CHECK(!osc_message_s_wrap(m, me.p), "read:wrap", "wrap failed");
		check_msg_s(c, m, b.m[i], sl[i], "wrap");
		if (c.rng.flip()) check_args_s(c, m, b.m[i], false);
		osc_message_s_cacheDataOffsets(m);
		check_args_s(c, m, b.m[i], true);
		CHECK(me.str() == sl[i], "read:modified", "reading a message changed it");
		osc_message_s_free(m);
	}
	for (size_t i = 0; i < b.m.size(); i++)
		for (size_t j = 0; j < b.m[i].a.size(); j++)
			if (b.m[i].a[j].t == '.' && depth < 6) {
				t_osc_msg_s *m = osc_message_s_alloc();
				Exact me(sl[i]);
				osc_message_s_wrap(m, me.p);
				t_osc_atom_s *a = nullptr;
				osc_message_s_getArg(m, (int)j, &a);
				Str want = enc_bundle(*b.m[i].a[j].b);
				t_osc_bndl_s *n = c.rng.flip() ? osc_atom_s_getBndlCopy(a) : osc_atom_s_getBndl(a);
				bool copy = n && !(osc_bundle_s_getPtr(n) >= me.p && osc_bundle_s_getPtr(n) < me.p + me.n);
				CHECK(n, "read:nested", "nested bundle not returned");
				Str g = bytes_of(n);
				CHECK(g == want, "read:nested", "nested bundle: " + first_diff(g, want));
				if (copy) osc_bundle_s_deepFree(n); else osc_bundle_s_free(n);
				osc_atom_s_free(a);
				osc_message_s_free(m);
				c.cover("nested-read");
				read_in_place(c, *b.m[i].a[j].b, want, depth + 1);
			}
	CHECK(e.str() == pkt, "read:modified", "reading changed the packet: " + first_diff(e.str(), pkt));
}

static Bundle sized_bundle(int n) { // a bundle whose strings have every length modulo 4
	Bundle b;
	for (int i = 0; i < n; i++) {
		Msg m;
		m.addr = "/" + Str(i % 9, 'x');
		if (i % 9 == 0) m.addr = "/a";
		for (int j = 0; j <= i % 6; j++) { m.a.push_back(A_s(Str((i + j) % 9, 's'))); m.a.push_back(A_b(Str((i * 3 + j) % 9, '\xff'))); }
		b.m.push_back(m);
	}
	return b;
}

static void dir_wire(Ctx &c, int k) {
	Bundle b;
	switch (k) {
	case 0: break;
	case 1: b = sized_bundle(40); break;
	case 2: { // one argument of every type, extreme values
		Msg m; m.addr = "/all";
		for (int v : {0, 1, -1, 127, -128}) { m.a.push_back(A_c((int8_t)v)); m.a.push_back(A_C((uint8_t)v)); m.a.push_back(A_u((int16_t)v)); m.a.push_back(A_U((uint16_t)v)); }
		m.a.push_back(A_i(INT32_MIN)); m.a.push_back(A_I(UINT32_MAX)); m.a.push_back(A_h(INT64_MIN)); m.a.push_back(A_H(UINT64_MAX));
		m.a.push_back(A_f(-0.f)); m.a.push_back(A_d(-0.)); m.a.push_back(A_f(NAN)); m.a.push_back(A_d(NAN)); m.a.push_back(A_t(1)); m.a.push_back(A_t(~0ull));
		m.a.push_back(A_tag('T')); m.a.push_back(A_tag('F')); m.a.push_back(A_tag('N')); m.a.push_back(A_s("")); m.a.push_back(A_b(""));
		b.m.push_back(m);
	} break;
	case 3: { // deep nesting
		Msg leaf; leaf.addr = "/leaf"; leaf.a = {A_i(7), A_s("x")};
		b.m.push_back(leaf);
		for (int i = 0; i < 40; i++) { Bundle o; Msg m; m.addr = sf("/n%d", i); m.a = {A_bndl(b)}; if (i % 3 == 0) m.a.push_back(A_i(i)); o.m.push_back(m); b = o; }
	} break;
	case 4: { Msg m; m.addr = "/many"; for (int i = 0; i < 2000; i++) m.a.push_back(A_i(i)); b.m.push_back(m); for (int i = 0; i < 300; i++) { Msg x; x.addr = sf("/m/%d", i); b.m.push_back(x); } } break;
	case 5: { Msg m; m.addr = "/blobs"; for (int i = 0; i < 40; i++) m.a.push_back(A_b(Str(i, (char)i))); b.m.push_back(m); } break;
	case 6: { Msg m; m.addr = "/empty"; m.a.push_back(A_bndl(Bundle())); m.a.push_back(A_i(1)); m.a.push_back(A_bndl(Bundle())); b.m.push_back(m); } break;
	case 7: for (int i = 0; i < 24; i++) { // messages without arguments, some of them last
		Bundle x;
		for (int j = 0; j < i % 5 + 1; j++) { Msg m; m.addr = "/" + Str((i + j) % 7, 'a'); if ((i >> 3) + j == 1) m.a = {A_i(j)}; x.m.push_back(m); }
		read_in_place(c, x, enc_bundle_untagged(x, c.rng, 1));
		b = x;
	} break;
	case 8: // long addresses, strings and blobs
		for (int n : {126, 127, 128, 251, 252, 253, 255, 256, 257, 511, 1023, 1024, 4095, 4096, 5001}) {
			Msg m; m.addr = "/" + Str(n, 'a');
			m.a = {A_s(Str(n, 's')), A_b(Str(n, '\x80')), A_i(n)};
			b.m.push_back(m);
		}
		{ Msg m; m.addr = "/huge"; for (int n : {32767, 65535, 65536, 70001}) { m.a.push_back(A_s(Str(n, 'h'))); m.a.push_back(A_b(Str(n, '\x7f'))); m.a.push_back(A_d(n)); } b.m.push_back(m); }
		{ Bundle o; Msg m; m.addr = "/wrapped"; m.a = {A_bndl(b), A_h(-5)}; o.m.push_back(m); o.m.push_back(b.m[0]); b = o; }
		break;
	case 9: // one message object wrapped around one packet after the other, starting from unwritten memory
		{
			GenOpt o;
			Bundle x;
			for (int i = 0; i < 60; i++) x.m.push_back(gen_msg(c.rng, o, 1));
			std::vector<Str> sl = wire_msgs(enc_bundle(x));
			t_osc_msg_s *m = (t_osc_msg_s *)malloc(osc_message_s_getStructSize());
			memset((void *)m, 0xa5, osc_message_s_getStructSize());
			for (size_t i = 0; i < x.m.size(); i++) {
				Exact e(sl[i]);
				CHECK(!osc_message_s_wrap(m, e.p), "read:wrap", "wrap failed");
				check_msg_s(c, m, x.m[i], sl[i], "rewrap");
				check_args_s(c, m, x.m[i], false);
				if (c.rng.flip()) {
					osc_message_s_cacheDataOffsets(m);
					check_args_s(c, m, x.m[i], true);
					// a copy does not share the cache
					t_osc_msg_s *cp = nullptr;
					osc_message_s_copy(&cp, m);
					check_msg_s(c, cp, x.m[i], sl[i], "copy");
					if (c.rng.flip()) osc_message_s_cacheDataOffsets(cp);
					check_args_s(c, cp, x.m[i], false);
					osc_message_s_clearCache(m);
					check_args_s(c, cp, x.m[i], false);
					osc_message_s_copy(&cp, m);
					osc_message_s_free(cp);
					check_args_s(c, m, x.m[i], false);
				}
				c.cover("rewrapped");
			}
			osc_message_s_initMsg(m);
			CHECK(!osc_message_s_getAddress(m) && osc_message_s_getArgCount(m) == 0 && osc_message_s_getSize(m) == 0, "read:init", "an initialised message is not empty");
			free(m);
			b.m.assign(x.m.begin(), x.m.begin() + 5);
		}
		break;
	}
	round_trip(c, b);
	read_in_place(c, b, enc_bundle(b));
}

static void random_case(Ctx &c) {
	GenOpt o = opts(c);
	if (c.rng.flip()) round_trip(c, gen_bundle(c.rng, o));
	else {
		o.header_tt = true;
		Bundle b = gen_bundle(c.rng, o);
		c.in(show(b));
		if (!b.m.empty()) c.nontrivial = true;
		count_types(c, b);
		if (c.rng.chance(1, 3)) {
			for (auto &m : b.m) if (c.rng.chance(1, 3)) m.a.clear();
			if (c.rng.flip() && !b.m.empty()) { b.m.back().a.clear(); if (c.rng.flip()) b.m.back().addr = "/z"; }
			Str p = enc_bundle_untagged(b, c.rng, 0);
			if (p.size() != enc_bundle(b).size()) c.cover("untagged-read");
			read_in_place(c, b, p);
		} else read_in_place(c, b, enc_bundle(b));
	}
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "wire";
		static const char *names[] = {"empty", "paddings", "every-type", "deep", "wide", "blobs", "empty-nested", "untagged", "long", "rewrap"};
		for (int k = 0; k < 10; k++) s.directed.push_back({names[k], [k](Ctx &c) { dir_wire(c, k); }});
		s.random = random_case;
	}
	return s;
}
