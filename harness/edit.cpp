// C07: histories of edits of unserialized bundles and messages against ordered-list models.
#include "refmatch.h"

struct LM { t_osc_msg_u *p; Msg m; };
struct LB { t_osc_bndl_u *p; std::vector<LM> m; };

static GenOpt opt() { GenOpt o; o.max_depth = 2; o.max_args = 4; o.max_msgs = 3; return o; }

static Str gen_a(Rng &r) {
	static const char *A[] = {"/a", "/b", "/a/b", "/ab", "/c", "/foo/bar", "/x"};
	return r.chance(1, 5) ? gen_addr(r) : Str(A[r.below(7)]);
}
static Msg gen_m(Rng &r) {
	GenOpt o = opt();
	Msg m = gen_msg(r, o, 0);
	m.addr = gen_a(r);
	return m;
}

// adds a typed argument in front (mode 0), at pos (1) or at the end (2)
static t_osc_atom_u *typed(Rng &r, t_osc_msg_u *m, const Atom &a, int mode, int pos) {
#define ADD(T, ...) (mode == 0 ? osc_message_u_prepend##T(m, __VA_ARGS__) : mode == 1 ? osc_message_u_insert##T(m, __VA_ARGS__, pos) : osc_message_u_append##T(m, __VA_ARGS__))
#define ADD0(T) (mode == 0 ? osc_message_u_prepend##T(m) : mode == 1 ? osc_message_u_insert##T(m, pos) : osc_message_u_append##T(m))
	switch (a.t) {
	case 'c': return ADD(Int8, (int8_t)a.v);
	case 'C': return ADD(UInt8, (uint8_t)a.v);
	case 'u': return ADD(Int16, (int16_t)a.v);
	case 'U': return ADD(UInt16, (uint16_t)a.v);
	case 'i': return ADD(Int32, (int32_t)a.v);
	case 'I': return ADD(UInt32, (uint32_t)a.v);
	case 'h': return ADD(Int64, (int64_t)a.v);
	case 'H': return ADD(UInt64, a.v);
	case 'f': return ADD(Float, atom_f(a));
	case 'd': return ADD(Double, atom_d(a));
	case 's': {
		if (r.flip()) { Exact e(a.s + Str(1, 0)); return ADD(String, e.p); }
		char *v = (char *)osc_mem_alloc(a.s.size() + 1);
		memcpy(v, a.s.c_str(), a.s.size() + 1);
		t_osc_atom_u *x = ADD(StringPtr, v);
		osc_atom_u_setShouldFreePtr(x, 1);
		return x;
	}
	case 'b': { Exact e(enc_atom(a)); return ADD(Blob, e.p); }
	case 't': return ADD(Timetag, mk_tt(a.v));
	case 'T': return r.flip() ? ADD0(True) : ADD(Bool, r.flip() ? 1 : -7);
	case 'F': return r.flip() ? ADD0(False) : ADD(Bool, 0);
	case 'N': return ADD0(Nil);
	case '.': {
		int k = (int)r.below(3);
		if (k == 0) return ADD(Bndl_u, mk_bundle(r, *a.b));
		Exact e(enc_bundle(*a.b));
		return k == 1 ? ADD(Bndl, (long)e.n, e.p) : ADD(Bndl_s, (long)e.n, e.p);
	}
	}
	return nullptr;
}

static void set_in_place(Rng &r, t_osc_atom_u *x, const Atom &a) {
	switch (a.t) {
	case 'c': osc_atom_u_setInt8(x, (int8_t)a.v); break;
	case 'C': osc_atom_u_setUInt8(x, (uint8_t)a.v); break;
	case 'u': osc_atom_u_setInt16(x, (int16_t)a.v); break;
	case 'U': osc_atom_u_setUInt16(x, (uint16_t)a.v); break;
	case 'i': osc_atom_u_setInt32(x, (int32_t)a.v); break;
	case 'I': osc_atom_u_setUInt32(x, (uint32_t)a.v); break;
	case 'h': osc_atom_u_setInt64(x, (int64_t)a.v); break;
	case 'H': osc_atom_u_setUInt64(x, a.v); break;
	case 'f': osc_atom_u_setFloat(x, atom_f(a)); break;
	case 'd': osc_atom_u_setDouble(x, atom_d(a)); break;
	case 's': { Exact e(a.s + Str(1, 0)); osc_atom_u_setString(x, e.p); } break;
	case 'b': { Exact e(enc_atom(a)); osc_atom_u_setBlob(x, e.p); } break;
	case 't': osc_atom_u_setTimetag(x, mk_tt(a.v)); break;
	case 'T': if (r.flip()) osc_atom_u_setTrue(x); else osc_atom_u_setBool(x, 3); break;
	case 'F': if (r.flip()) osc_atom_u_setFalse(x); else osc_atom_u_setBool(x, 0); break;
	case 'N': osc_atom_u_setNil(x); break;
	case '.': { if (r.flip()) osc_atom_u_setBndl_u(x, mk_bundle(r, *a.b)); else { Exact e(enc_bundle(*a.b)); osc_atom_u_setBndl_s(x, (long)e.n, e.p); } } break;
	}
}

static void check_msg(const LM &l, const char *what) {
	t_osc_msg_u *p = l.p;
	char *ad = osc_message_u_getAddress(p);
	CHECK(Str(ad ? ad : "") == l.m.addr, Str("address:") + what, sf("the address reads %s, expected ", q(ad ? ad : "(null)").c_str()) + q(l.m.addr));
	int n = osc_message_u_getArgCount(p);
	CHECK(n == (int)l.m.a.size(), Str("argcount:") + what, sf("the argument count is %d, expected %zu in ", n, l.m.a.size()) + show(l.m));
	Msg it = rd_msg_u(p);
	CHECK(it == l.m, Str("iteration:") + what, "iteration gives " + show(it) + ", expected " + show(l.m));
	for (int i = 0; i < n; i++) {
		t_osc_atom_u *a = osc_message_u_getArg(p, i);
		CHECK(a, Str("getarg:") + what, sf("argument %d of %d is NULL", i, n));
		Atom x = rd_atom_u(a);
		CHECK(x == l.m.a[i], Str("getarg:") + what, sf("argument %d of %d is ", i, n) + show(x) + ", expected " + show(l.m.a[i]) + " in " + show(l.m));
	}
	CHECK(!osc_message_u_getArg(p, n) && !osc_message_u_getArg(p, n + 3), Str("getarg-past:") + what, "an argument past the end is not NULL");
	if (ad) {
		Str want = enc_msg(l.m);
		long sz = osc_message_u_getSerializedSize(p);
		t_osc_msg_s *s = osc_message_u_serialize(p);
		char *sp = osc_message_s_getPtr(s);
		CHECK(sz == (long)want.size() || sz == (long)want.size() + 4, Str("msg-size:") + what, sf("serialized size %ld, expected %zu", sz, want.size()));
		CHECK(get32(sp) == want.size(), Str("msg-bytes:") + what, sf("the serialized message has size %u, expected %zu", get32(sp), want.size()));
		Str got(sp + 4, want.size());
		osc_message_s_deepFree(s);
		CHECK(got == want, Str("msg-bytes:") + what, "the serialized message of " + show(l.m) + " is wrong: " + first_diff(got, want));
	}
}
static Bundle model(const LB &b) { Bundle x; for (auto &m : b.m) x.m.push_back(m.m); return x; }
static void check_bndl(Rng &r, const LB &b, const char *what) {
	int n = osc_bundle_u_getMsgCount(b.p);
	CHECK(n == (int)b.m.size(), Str("count:") + what, sf("the message count is %d, expected %zu", n, b.m.size()));
	t_osc_bndl_it_u *it = osc_bundle_iterator_u_getIterator(b.p);
	for (int pass = 0; pass < 2; pass++) {
		for (size_t i = 0; i < b.m.size(); i++) {
			CHECK(osc_bundle_iterator_u_hasNext(it), Str("order:") + what, sf("iteration ends after %zu of %zu messages", i, b.m.size()));
			t_osc_msg_u *m = osc_bundle_iterator_u_next(it);
			CHECK(m == b.m[i].p, Str("order:") + what, sf("iteration gives another message object at position %zu", i));
		}
		CHECK(!osc_bundle_iterator_u_hasNext(it), Str("order:") + what, "iteration gives more messages than the list holds");
		osc_bundle_iterator_u_resetIterator(it);
	}
	osc_bundle_iterator_u_destroyIterator(it);
	t_osc_msg_u *m = osc_bundle_u_getFirstMsg(b.p);
	for (size_t i = 0; i < b.m.size(); i++) { CHECK(m == b.m[i].p, Str("order:") + what, "following the messages gives another order"); m = osc_message_u_next(m); }
	CHECK(!m, Str("order:") + what, "a message follows the last one");
	Bundle mo = model(b);
	std::vector<t_osc_msg_u *> seen;
	osc_bundle_u_getMessagesWithCallback(b.p, [](t_osc_msg_u *m, void *v) { ((std::vector<t_osc_msg_u *> *)v)->push_back(m); }, &seen);
	bool same = seen.size() == b.m.size();
	for (size_t i = 0; same && i < seen.size(); i++) same = seen[i] == b.m[i].p;
	CHECK(same, Str("callback:") + what, "getMessagesWithCallback does not visit the messages in order");
	for (auto &l : b.m) check_msg(l, what);
	Str want = enc_bundle(mo);
	CHECK(osc_bundle_u_getSerializedSize(b.p) == (long)want.size(), Str("size:") + what, sf("serialized size %ld, expected %zu", osc_bundle_u_getSerializedSize(b.p), want.size()));
	t_osc_bndl_s *s = osc_bundle_u_serialize(b.p);
	Str got = bytes_of(s);
	osc_bundle_s_deepFree(s);
	CHECK(got == want, Str("bytes:") + what, "the serialized bundle differs from the model: " + first_diff(got, want));
}

// copies or reads a message that came about inside the bundle
static LM adopt(t_osc_msg_u *p, const Msg &m) { return LM{p, m}; }
static t_osc_msg_u *nth(t_osc_bndl_u *b, int n) { t_osc_msg_u *m = osc_bundle_u_getFirstMsg(b); while (m && n-- > 0) m = osc_message_u_next(m); return m; }

static Str msg_op(Ctx &c, LM &l) {
	Rng &r = c.rng;
	GenOpt o = opt();
	int n = (int)l.m.a.size();
	int op = (int)r.below(13);
	Str d;
	switch (op) {
	case 0: case 1: case 2: {
		Atom a = gen_atom(r, o, 1);
		int pos = r.chance(1, 3) ? n + r.range(0, 2) : r.range(0, n);
		t_osc_atom_u *x = typed(r, l.p, a, op, pos);
		size_t at = op == 0 ? 0 : op == 2 ? n : std::min(pos, n);
		l.m.a.insert(l.m.a.begin() + at, a);
		CHECK(x && osc_message_u_getArg(l.p, (int)at) == x, "typed:returned", sf("adding a %c argument at %zu of %d does not return the argument there", a.t, at, n));
		d = sf("%s %c at %d", op == 0 ? "prepend" : op == 1 ? "insert" : "append", a.t, op == 1 ? pos : (int)at);
		c.cover(sf("%s-%c", op == 0 ? "prepend" : op == 1 ? "insert" : "append", a.t));
	} break;
	case 3: case 4: case 5: {
		Atom a = gen_atom(r, o, 1);
		t_osc_atom_u *x = mk_atom(r, a);
		int pos = r.chance(1, 4) ? n + r.range(0, 2) : r.range(0, n);
		if (op == 3) osc_message_u_prependAtom(l.p, x);
		else if (op == 4) osc_message_u_insertAtom(l.p, x, pos);
		else osc_message_u_appendAtom(l.p, x);
		size_t at = op == 3 ? 0 : op == 5 ? n : std::min(pos, n);
		l.m.a.insert(l.m.a.begin() + at, a);
		d = sf("%s atom %c at %zu", op == 3 ? "prepend" : op == 4 ? "insert" : "append", a.t, at);
		c.cover(op == 4 ? (pos == 0 ? "insert-head" : pos >= n ? "insert-past-end" : pos < n / 2 ? "insert-front-half" : "insert-back-half") : op == 3 ? "prepend-atom" : "append-atom");
	} break;
	case 6: case 7: {
		if (!n) return "";
		int at = r.chance(1, 3) ? (r.flip() ? 0 : n - 1) : r.range(0, n - 1);
		t_osc_atom_u *x = osc_message_u_getArg(l.p, at);
		osc_message_u_removeAtom(l.p, x);
		Atom a = l.m.a[at];
		l.m.a.erase(l.m.a.begin() + at);
		CHECK(rd_atom_u(x) == a, "removed", "a removed argument changed");
		if (op == 7) { // put it back elsewhere
			int pos = r.range(0, n);
			osc_message_u_insertAtom(l.p, x, pos);
			l.m.a.insert(l.m.a.begin() + std::min(pos, n - 1), a);
			d = sf("move %d to %d of %d", at, pos, n);
			c.cover("move-atom");
		} else {
			osc_atom_u_free(x);
			d = sf("remove %d of %d", at, n);
			c.cover(n == 1 ? "remove-only" : at == 0 ? "remove-head" : at == n - 1 ? "remove-tail" : "remove-middle");
		}
	} break;
	case 8: {
		if (!r.chance(1, 3)) return "";
		osc_message_u_clearArgs(l.p);
		l.m.a.clear();
		d = "clear args";
		c.cover("clear-args");
	} break;
	case 9: {
		Str na = r.chance(1, 5) ? "/" + Str(r.range(1, 120), 'q') : gen_a(r);
		if (r.chance(1, 6)) {
			Str bad = r.flip() ? "noslash" : "";
			t_osc_err e = osc_message_u_setAddress(l.p, bad.c_str());
			CHECK(e != 0, "setaddress:malformed", "an address without a slash is accepted");
			d = "bad address";
			c.cover("bad-address");
		} else if (r.chance(1, 4)) {
			char *v = (char *)osc_mem_alloc(na.size() + 1), *old = nullptr;
			memcpy(v, na.c_str(), na.size() + 1);
			osc_message_u_setAddressPtr(l.p, v, &old);
			CHECK(Str(old ? old : "") == l.m.addr, "setaddressptr", "setAddressPtr does not return the old address");
			if (old) osc_mem_free(old);
			l.m.addr = na;
			d = "address pointer " + na;
			c.cover("address-ptr");
		} else {
			Exact e(na + Str(1, 0));
			CHECK(osc_message_u_setAddress(l.p, e.p) == 0, "setaddress", "a valid address is rejected");
			c.cover(na.size() > l.m.addr.size() ? "address-longer" : na.size() == l.m.addr.size() ? "address-same-length" : "address-shorter");
			l.m.addr = na;
			d = "address " + na;
		}
	} break;
	case 10: {
		if (!n) return "";
		int at = r.range(0, n - 1);
		Atom a = gen_atom(r, o, 1);
		set_in_place(r, osc_message_u_getArg(l.p, at), a);
		c.cover(sf("set-%c-over-%c", a.t, l.m.a[at].t));
		l.m.a[at] = a;
		d = sf("set %d to %c", at, a.t);
	} break;
	case 11: { // edit a nested bundle through its argument
		int at = -1;
		for (int i = 0; i < n; i++) if (l.m.a[i].t == '.') at = i;
		if (at < 0) return "";
		t_osc_bndl_u *nb = osc_atom_u_getBndl(osc_message_u_getArg(l.p, at));
		CHECK(nb, "nested", "the nested bundle cannot be reached");
		Msg m = gen_m(r);
		auto copy = std::make_shared<Bundle>(*l.m.a[at].b);
		if (!copy->m.empty() && r.chance(1, 3)) {
			t_osc_msg_u *f = osc_bundle_u_getFirstMsg(nb);
			osc_bundle_u_removeMsg(nb, f);
			osc_message_u_free(f);
			copy->m.erase(copy->m.begin());
		} else { osc_bundle_u_addMsg(nb, mk_msg(r, m)); copy->m.push_back(m); }
		l.m.a[at].b = copy;
		d = "edit nested bundle";
		c.cover("edit-nested");
	} break;
	case 12: {
		// argument arrays are independent copies
		t_osc_atom_ar_u *ar = osc_message_u_getArgArrayCopy(l.p);
		long len = osc_atom_array_u_getLen(ar);
		CHECK(len == n, "argarray", sf("the argument array has %ld elements, expected %d", len, n));
		for (int i = 0; i < n; i++) CHECK(rd_atom_u((t_osc_atom_u *)osc_atom_array_u_get(ar, i)) == l.m.a[i], "argarray", sf("element %d of the argument array differs", i));
		t_osc_msg_u *x = r.flip() ? osc_message_u_allocWithArray((char *)"/arr", ar) : osc_message_u_allocWithAddress((char *)"/arr");
		if (!osc_message_u_getArgCount(x) && n) osc_message_u_setArgArrayCopy(x, ar);
		LM y{x, Msg{"/arr", l.m.a}};
		if (r.chance(1, 3)) { // appends to the arguments that are there
			CHECK(!osc_message_u_setArgArrayCopy(x, ar), "argarray-append", "setArgArrayCopy fails");
			y.m.a.insert(y.m.a.end(), l.m.a.begin(), l.m.a.end());
			c.cover("arg-array-append");
		}
		for (int i = 0; i < n; i++) osc_atom_u_setInt32((t_osc_atom_u *)osc_atom_array_u_get(ar, i), 77);
		osc_atom_array_u_free(ar);
		check_msg(y, "from-array");
		osc_message_u_free(x);
		d = "arg array";
		c.cover("arg-array");
	} break;
	}
	return d;
}

static void history(Ctx &c) {
	Rng &r = c.rng;
	LB b{osc_bundle_u_alloc(), {}};
	std::vector<std::pair<t_osc_bndl_u *, Bundle>> snaps;
	std::vector<LM> loose;
	int n = r.chance(1, 10) ? r.range(25, 70) : r.range(3, 25);
	check_bndl(r, b, "new");
	for (int k = 0; k < n; k++) {
		int op = (int)r.below(20);
		Str d;
		const char *what = "edit";
		switch (op) {
		case 0: case 1: case 2: {
			Msg m = gen_m(r);
			t_osc_msg_u *p;
			if (!loose.empty() && r.flip()) { p = loose.back().p; m = loose.back().m; loose.pop_back(); } else p = mk_msg(r, m);
			CHECK(osc_bundle_u_addMsg(b.p, p) == 0, "add", "addMsg failed");
			b.m.push_back(adopt(p, m));
			d = "add " + show(m);
			what = "add";
		} break;
		case 3: {
			Msg m = gen_m(r);
			t_osc_msg_u *p = mk_msg(r, m);
			std::vector<LM> nx;
			for (auto &x : b.m) if (x.m.addr != m.addr) nx.push_back(x);
			c.cover(sf("nodups-removed-%d", (int)std::min<size_t>(3, b.m.size() - nx.size())));
			bool copy = r.flip();
			if (copy) { osc_bundle_u_addMsgWithoutDupsCopy(b.p, p); }
			else osc_bundle_u_addMsgWithoutDups(b.p, p);
			nx.push_back(adopt(p, m));
			b.m.swap(nx);
			if (copy) {
				t_osc_msg_u *in = nth(b.p, (int)b.m.size() - 1);
				CHECK(in && in != p, "nodupscopy", "addMsgWithoutDupsCopy did not add a copy");
				b.m.back().p = in;
				osc_message_u_free(p);
			}
			d = "add without duplicates " + m.addr;
			what = "nodups";
		} break;
		case 4: {
			Msg m = gen_m(r);
			t_osc_msg_u *p = mk_msg(r, m);
			size_t at = 0;
			while (at < b.m.size() && b.m[at].m.addr != m.addr) at++;
			c.cover(at < b.m.size() ? "replace-found" : "replace-appended");
			osc_bundle_u_replaceMessage(b.p, p);
			if (at < b.m.size()) { b.m[at].m = m; b.m[at].p = nth(b.p, (int)at); } else b.m.push_back(adopt(p, m));
			d = "replace " + m.addr;
			what = "replace";
		} break;
		case 5: {
			Msg m = gen_m(r);
			t_osc_msg_u *p = mk_msg(r, m);
			osc_bundle_u_addMsgCopy(b.p, p);
			b.m.push_back(adopt(nth(b.p, (int)b.m.size()), m));
			CHECK(b.m.back().p && b.m.back().p != p, "addcopy", "addMsgCopy did not add a copy");
			LM e{p, m};
			msg_op(c, e);
			osc_message_u_free(p);
			d = "add copy " + m.addr;
			what = "addcopy";
		} break;
		case 6: {
			int cnt = r.range(0, 3);
			t_osc_msg_ar_u *ar = osc_message_array_u_alloc(cnt);
			for (int i = 0; i < cnt; i++) {
				Msg m = gen_m(r);
				t_osc_msg_u *t = mk_msg(r, m), *slot = osc_message_array_u_get(ar, i);
				osc_message_u_deepCopy(&slot, t);
				osc_message_u_free(t);
				b.m.push_back(LM{nullptr, m});
			}
			osc_bundle_u_addMsgArrayCopy(b.p, ar);
			osc_message_array_u_free(ar);
			for (int i = 0; i < cnt; i++) b.m[b.m.size() - cnt + i].p = nth(b.p, (int)b.m.size() - cnt + i);
			d = sf("add array of %d", cnt);
			what = "addarray";
		} break;
		case 7: case 8: {
			if (b.m.empty()) continue;
			size_t at = r.chance(1, 2) ? (r.flip() ? 0 : b.m.size() - 1) : r.below(b.m.size());
			LM l = b.m[at];
			osc_bundle_u_removeMsg(b.p, l.p);
			c.cover(b.m.size() == 1 ? "removemsg-only" : at == 0 ? "removemsg-head" : at + 1 == b.m.size() ? "removemsg-tail" : "removemsg-middle");
			b.m.erase(b.m.begin() + at);
			check_msg(l, "removed");
			if (r.flip()) loose.push_back(l); else osc_message_u_free(l.p);
			d = sf("remove message %zu", at);
			what = "removemsg";
		} break;
		case 9: {
			Str a = b.m.empty() || r.chance(1, 4) ? gen_a(r) : b.m[r.below(b.m.size())].m.addr;
			Exact e(a + Str(1, 0));
			osc_bundle_u_removeMessage(b.p, e.p);
			std::vector<LM> nx;
			for (auto &x : b.m) if (x.m.addr != a) nx.push_back(x);
			c.cover(sf("removeaddr-%d", (int)std::min<size_t>(3, b.m.size() - nx.size())));
			b.m.swap(nx);
			d = "remove " + a;
			what = "removeaddr";
		} break;
		case 10: {
			if (!r.chance(1, 4)) continue;
			osc_bundle_u_clear(b.p);
			b.m.clear();
			d = "clear";
			what = "clear";
		} break;
		case 11: {
			t_osc_bndl_u *cp = nullptr;
			osc_bundle_u_copy(&cp, b.p);
			snaps.push_back({cp, model(b)});
			if (r.flip()) { // go on with the copy, keep the original as the snapshot
				std::swap(snaps.back().first, b.p);
				for (size_t i = 0; i < b.m.size(); i++) b.m[i].p = nth(b.p, (int)i);
			}
			d = "copy";
			what = "copy";
		} break;
		case 12: {
			if (b.m.empty()) continue;
			size_t i = r.below(b.m.size()), j = r.below(b.m.size());
			if (r.flip()) {
				t_osc_msg_u *cp = nullptr;
				osc_message_u_deepCopy(&cp, b.m[i].p);
				loose.push_back(LM{cp, b.m[i].m});
				CHECK(cp && cp != b.m[i].p, "deepcopy", "deepCopy gives the same message");
			} else { // into an existing loose message
				if (loose.empty()) loose.push_back(LM{osc_message_u_alloc(), Msg()});
				LM &l = loose[r.below(loose.size())];
				t_osc_msg_u *p = l.p;
				osc_message_u_deepCopy(&p, b.m[j].p);
				CHECK(p == l.p, "deepcopy", "deepCopy into a message gives another one");
				l.m = b.m[j].m;
				if (r.chance(1, 6)) { // from a message without an address
					GenOpt o = opt();
					Msg m = gen_msg(r, o, 1);
					m.addr.clear();
					t_osc_msg_u *e = osc_message_u_alloc();
					for (auto &a : m.a) osc_message_u_appendAtom(e, mk_atom(r, a));
					osc_message_u_deepCopy(&p, e);
					osc_message_u_free(e);
					l.m = m;
					check_msg(l, "copy-addressless");
					osc_message_u_setAddress(p, "/readdressed");
					l.m.addr = "/readdressed";
					c.cover("deep-copy-addressless");
				}
			}
			d = "deep copy message";
			what = "deepcopy";
			c.cover("message-deep-copy");
		} break;
		case 13: {
			// a fresh bundle from a linked list of messages
			if (!b.m.empty()) continue;
			int cnt = r.range(1, 4);
			t_osc_msg_u *head = nullptr;
			for (int i = 0; i < cnt; i++) {
				Msg m = gen_m(r);
				t_osc_msg_u *p = mk_msg(r, m);
				if (!head) head = p; else osc_message_u_append(head, p);
				b.m.push_back(LM{p, m});
			}
			osc_bundle_u_addMsgList(b.p, head);
			d = sf("list of %d", cnt);
			what = "addlist";
			c.cover("add-list");
		} break;
		default: {
			if (b.m.empty() && loose.empty()) continue;
			bool lo = b.m.empty() || (!loose.empty() && r.chance(1, 4));
			LM &l = lo ? loose[r.below(loose.size())] : b.m[r.below(b.m.size())];
			int reps = r.range(1, 4);
			for (int i = 0; i < reps; i++) {
				Str x = msg_op(c, l);
				if (x.empty()) continue;
				d += x + "; ";
				check_msg(l, x.substr(0, x.find(' ')).c_str());
			}
			if (d.empty()) continue;
			what = "msgedit";
		}
		}
		c.in(d);
		c.nontrivial = true;
		c.cover(Str("op-") + what);
		check_bndl(r, b, what);
		for (auto &l : loose) check_msg(l, "loose");
	}
	for (auto &s : snaps) CHECK(rd_bundle_u(s.first) == s.second, "copy:independent", "a copy changed with its source: " + show(rd_bundle_u(s.first)) + ", expected " + show(s.second));
	// free in a random order; the remaining ones stay intact
	bool first = r.flip();
	if (first) { osc_bundle_u_free(b.p); b.p = nullptr; }
	for (auto &s : snaps) { CHECK(rd_bundle_u(s.first) == s.second, "copy:independent", "freeing a bundle changed its copy"); osc_bundle_u_free(s.first); }
	for (auto &l : loose) { check_msg(l, "loose-after-free"); osc_message_u_free(l.p); }
	if (b.p) { check_bndl(r, b, "after-free"); osc_bundle_u_free(b.p); }
}

// message constructors with one argument
static void ctors(Ctx &c) {
	Rng &r = c.rng;
	for (int k = 0; k < 40; k++) {
		Str a = gen_a(r);
		GenOpt o = opt();
		o.types = "fdistb";
		Atom x = gen_atom(r, o, 5);
		t_osc_msg_u *m = nullptr;
		char *ad = (char *)a.c_str();
		switch (x.t) {
		case 'f': m = osc_message_u_allocWithFloat(ad, atom_f(x)); break;
		case 'd': m = osc_message_u_allocWithDouble(ad, atom_d(x)); break;
		case 'i': m = osc_message_u_allocWithInt(ad, (int)x.v); break;
		case 's': m = osc_message_u_allocWithString(ad, (char *)x.s.c_str()); break;
		case 't': m = osc_message_u_allocWithTimetag(ad, mk_tt(x.v)); break;
		case 'b': { Exact e(enc_atom(x)); m = osc_message_u_allocWithBlob(ad, e.p); } break;
		}
		LM l{m, Msg{a, {x}}};
		check_msg(l, "ctor");
		osc_message_u_free(m);
		c.cover(sf("ctor-%c", x.t));
		c.in(show(l.m));
	}
	c.nontrivial = true;
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "edit";
		s.directed = {{"ctors", ctors}};
		s.random = history;
	}
	return s;
}
