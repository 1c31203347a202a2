// C08: getters, setters, negation and copies of atoms in both forms against an independent conversion table.
#include "vh.h"

struct Num { bool ok = false; bool flt = false; bool neg = false; __int128 i = 0; double d = 0; };
static Num num(const Atom &a) {
	Num n;
	n.ok = true;
	switch (a.t) {
	case 'c': n.i = (int8_t)a.v; break;
	case 'C': n.i = (uint8_t)a.v; break;
	case 'u': n.i = (int16_t)a.v; break;
	case 'U': n.i = (uint16_t)a.v; break;
	case 'i': n.i = (int32_t)a.v; break;
	case 'I': n.i = (uint32_t)a.v; break;
	case 'h': n.i = (int64_t)a.v; break;
	case 'H': n.i = (uint64_t)a.v; break;
	case 'T': n.i = 1; break;
	case 'F': case 'N': n.i = 0; break;
	case 'f': n.flt = true; n.d = atom_f(a); break;
	case 'd': n.flt = true; n.d = atom_d(a); break;
	default: n.ok = false;
	}
	return n;
}
// the integer C conversion gives, when it is defined
static bool as_int(const Num &n, int bits, bool sg, uint64_t &out) {
	if (!n.ok) return false;
	__int128 v;
	if (n.flt) {
		if (std::isnan(n.d) || std::fabs(n.d) >= 1.9e19) return false;
		v = (__int128)n.d;
		__int128 lo = sg ? -((__int128)1 << (bits - 1)) : 0, hi = sg ? ((__int128)1 << (bits - 1)) - 1 : ((__int128)1 << bits) - 1;
		if (v < lo || v > hi) return false;
	} else v = n.i;
	out = (uint64_t)v & (bits == 64 ? ~0ull : (1ull << bits) - 1);
	return true;
}
static uint64_t fbits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static bool same_d(double a, double b) { return (std::isnan(a) && std::isnan(b)) || fbits(a) == fbits(b) || a == b; }

struct Dec { bool ok = false, isint = false; __int128 i = 0; double d = 0; };
// decimal numbers this suite writes into strings
static Dec parse_dec(const Str &s) {
	Dec r;
	size_t k = 0;
	bool neg = false;
	if (k < s.size() && (s[k] == '-' || s[k] == '+')) neg = s[k++] == '-';
	size_t st = k;
	while (k < s.size() && isdigit((unsigned char)s[k])) { r.i = r.i * 10 + (s[k] - '0'); k++; }
	if (k == st) { r.ok = true; r.i = 0; r.isint = true; return r; } // no number: zero
	r.ok = true;
	r.isint = k == s.size() || s[k] != '.';
	r.d = (double)r.i;
	double den = 1, fr = 0;
	if (k < s.size() && s[k] == '.') { k++; while (k < s.size() && isdigit((unsigned char)s[k])) { fr = fr * 10 + (s[k] - '0'); den *= 10; k++; } }
	r.d += fr / den;
	if (neg) { r.i = -r.i; r.d = -r.d; }
	return r;
}

// Exact 8-aligned data block with surrounding red zones (ASan)
static Str nstr(Rng &r) {
	switch (r.below(6)) {
	case 0: return std::to_string((int32_t)r.u64());
	case 1: return std::to_string((int64_t)(r.u64() >> r.below(64)));
	case 2: return std::to_string(r.range(-300, 300));
	case 3: return sf("%d.%d", r.range(-200, 200), r.range(0, 999));
	case 4: return std::to_string((uint64_t)r.below(4294967296ull));
	default: return std::to_string(r.range(0, 9)) + "x";
	}
}
static Atom gen_conv(Rng &r) {
	static const char *T = "cCuUiIhHfdTFNtsbi.";
	GenOpt o;
	o.max_depth = 1; o.max_msgs = 2; o.max_args = 2;
	char t = T[r.below(18)];
	o.types = Str(1, t);
	if (t == 's' && r.chance(2, 3)) return A_s(nstr(r));
	Atom a = gen_atom(r, o, 0);
	if (strchr("uUiIhHcC", t) && r.chance(1, 2)) {
		int64_t small = r.range(-300, 300);
		uint64_t edge[] = {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647u, 2147483648u, 4294967295u, 4294967296ull, (uint64_t)INT64_MAX, (uint64_t)INT64_MIN, UINT64_MAX, (uint64_t)small, (uint64_t)-1, (uint64_t)-128, (uint64_t)-129, (uint64_t)-32768, (uint64_t)INT32_MIN};
		uint64_t v = edge[r.below(23)];
		switch (t) {
		case 'c': a = A_c((int8_t)v); break; case 'C': a = A_C((uint8_t)v); break;
		case 'u': a = A_u((int16_t)v); break; case 'U': a = A_U((uint16_t)v); break;
		case 'i': a = A_i((int32_t)v); break; case 'I': a = A_I((uint32_t)v); break;
		case 'h': a = A_h((int64_t)v); break; case 'H': a = A_H(v); break;
		}
	}
	if ((t == 'f' || t == 'd') && r.chance(2, 3)) {
		double v = r.chance(1, 2) ? r.range(-70000, 70000) / 8.0 : r.chance(1, 2) ? r.range(-130, 260) + r.range(0, 9) / 10.0 : (double)(int64_t)r.u64() / 3.0;
		if (r.chance(1, 10)) { double e[] = {0., -0., 0.5, -0.5, 0.999, -0.999, 127.9, 128.0, 255.9, -128.9, 32767.5, 65535.5, 2147483647.0, -2147483648.0, 4294967295.0}; v = e[r.below(15)]; }
		a = t == 'f' ? A_f((float)v) : A_d(v);
	}
	return a;
}

static void getters(Ctx &c, const Atom &a) {
	Rng &r = c.rng;
	Str data = enc_atom(a);
	Exact e(data);
	t_osc_atom_u *u = mk_atom(r, a);
	t_osc_atom_s *s = osc_atom_s_alloc(a.t, e.p);
	Num n = num(a);
	Dec dec;
	if (a.t == 's') dec = parse_dec(a.s);
	bool blob = a.t == 'b', str = a.t == 's';
	bool fok = !n.flt || std::isfinite(n.d);
	uint64_t w;
#define INTG(name, T, bits, sg) do { \
	uint64_t want; \
	bool have = as_int(n, bits, sg, want); \
	bool cmp = fok && (!n.flt || have) && !blob && !(str && bits == 8); \
	T gu = osc_atom_u_get##name(u), gs = osc_atom_s_get##name(s); \
	if (have) { \
		CHECK((uint64_t)(bits == 64 ? (uint64_t)gu : (uint64_t)gu & ((1ull << (bits % 64)) - 1)) == want, Str("u-get" #name ":") + a.t, "get" #name " of unserialized " + show(a) + " gives " + std::to_string(gu)); \
		CHECK((uint64_t)(bits == 64 ? (uint64_t)gs : (uint64_t)gs & ((1ull << (bits % 64)) - 1)) == want, Str("s-get" #name ":") + a.t, "get" #name " of serialized " + show(a) + " gives " + std::to_string(gs)); \
		c.cover(Str("get" #name "-") + a.t); \
	} else if (str && bits > 8 && dec.ok) { \
		__int128 lo = sg ? -((__int128)1 << (bits - 1)) : 0, hi = sg ? ((__int128)1 << (bits - 1)) - 1 : ((__int128)1 << bits) - 1; \
		if (dec.i >= lo && dec.i <= hi && a.s.size() && (isdigit((unsigned char)a.s[0]) || (a.s[0] == '-' && isdigit((unsigned char)a.s[1])))) { \
			CHECK((__int128)gu == dec.i, "u-get" #name ":s", "get" #name " of unserialized " + show(a) + " gives " + std::to_string(gu)); \
			CHECK((__int128)gs == dec.i, "s-get" #name ":s", "get" #name " of serialized " + show(a) + " gives " + std::to_string(gs)); \
			c.cover("get" #name "-s"); \
		} \
	} \
	if (cmp) CHECK(gu == gs, Str("us-get" #name ":") + a.t, "get" #name " of " + show(a) + " gives " + std::to_string(gu) + " unserialized and " + std::to_string(gs) + " serialized"); \
	} while (0)
	INTG(Int8, int8_t, 8, true);
	INTG(UInt8, uint8_t, 8, false);
	INTG(Int16, int16_t, 16, true);
	INTG(UInt16, uint16_t, 16, false);
	INTG(Int32, int32_t, 32, true);
	INTG(UInt32, uint32_t, 32, false);
	INTG(Int64, int64_t, 64, true);
	INTG(UInt64, uint64_t, 64, false);
	INTG(Int, int, 32, true);
	(void)w;
	{
		double du = osc_atom_u_getDouble(u), ds = osc_atom_s_getDouble(s);
		float fu = osc_atom_u_getFloat(u), fs = osc_atom_s_getFloat(s);
		if (n.ok) {
			double wd = n.flt ? n.d : a.t == 'H' ? (double)(uint64_t)n.i : (double)(int64_t)n.i;
			float wf = n.flt ? (float)n.d : a.t == 'H' ? (float)(uint64_t)n.i : (float)(int64_t)n.i;
			CHECK(same_d(du, wd), Str("u-getDouble:") + a.t, "getDouble of unserialized " + show(a) + sf(" gives %.17g, expected %.17g", du, wd));
			CHECK(same_d(ds, wd), Str("s-getDouble:") + a.t, "getDouble of serialized " + show(a) + sf(" gives %.17g, expected %.17g", ds, wd));
			CHECK(same_d(fu, wf), Str("u-getFloat:") + a.t, "getFloat of unserialized " + show(a) + sf(" gives %.9g, expected %.9g", fu, wf));
			CHECK(same_d(fs, wf), Str("s-getFloat:") + a.t, "getFloat of serialized " + show(a) + sf(" gives %.9g, expected %.9g", fs, wf));
		} else if (str) {
			CHECK(same_d(du, ds) && same_d(fu, fs), "us-getDouble:s", "getDouble of " + show(a) + " differs between the two forms");
			if (dec.ok && !a.s.empty() && isdigit((unsigned char)a.s[a.s[0] == '-']) && a.s.find('x') == Str::npos && a.s.find('X') == Str::npos) {
				double wd = dec.isint ? (double)dec.i : dec.d;
				Dec chk = dec;
				bool plain = a.s.find_first_not_of("0123456789.-") == Str::npos;
				if (plain) CHECK(std::fabs(du - wd) <= std::fabs(wd) * 1e-12, "u-getDouble:s", "getDouble of " + show(a) + sf(" gives %.17g", du));
				if (plain) CHECK(std::fabs(fu - wd) <= std::fabs(wd) * 1e-6, "u-getFloat:s", "getFloat of " + show(a) + sf(" gives %.9g", fu));
				(void)chk;
			}
		} else if (a.t == 't') {
			double wd = (double)((long double)a.v / 4294967296.0L);
			CHECK(std::fabs(du - wd) <= wd * 1e-15 + 2.4e-10, "u-getDouble:t", "getDouble of " + show(a) + sf(" gives %.17g seconds, expected %.17g", du, wd));
			CHECK(same_d(du, ds) && same_d(fu, fs), "us-getDouble:t", "getDouble of " + show(a) + " differs between the two forms");
		}
	}
	{
		int bu = osc_atom_u_getBool(u), bs = osc_atom_s_getBool(s);
		if (n.ok) {
			bool want = n.flt ? n.d != 0 : n.i != 0;
			CHECK(!!bu == want, Str("u-getBool:") + a.t, "getBool of unserialized " + show(a) + sf(" gives %d", bu));
			CHECK(!!bs == want, Str("s-getBool:") + a.t, "getBool of serialized " + show(a) + sf(" gives %d", bs));
			c.cover(Str("getBool-") + a.t);
		} else CHECK(bu == bs, Str("us-getBool:") + a.t, "getBool of " + show(a) + sf(" gives %d unserialized and %d serialized", bu, bs));
	}
	{
		uint64_t want = a.t == 't' ? a.v : 0;
		uint64_t tu = tt_val(osc_atom_u_getTimetag(u)), ts = tt_val(osc_atom_s_getTimetag(s));
		CHECK(tu == want && ts == want, Str("getTimetag:") + a.t, "getTimetag of " + show(a) + sf(" gives %016llx unserialized and %016llx serialized", (unsigned long long)tu, (unsigned long long)ts));
	}
	if (a.t != '.') {
		int lu = osc_atom_u_getStringLen(u), ls = osc_atom_s_getStringLen(s);
		CHECK(lu == ls, Str("us-getStringLen:") + a.t, sf("getStringLen gives %d unserialized and %d serialized for ", lu, ls) + show(a));
		char *pu = nullptr, *ps = nullptr;
		int ru = osc_atom_u_getString(u, 0, &pu), rs = osc_atom_s_getString(s, 0, &ps);
		CHECK(pu && ps, Str("getString:") + a.t, "getString gives no string");
		Str gu(pu, ru), gs(ps, rs);
		CHECK(pu[ru] == 0 && ps[rs] == 0, Str("getString:end:") + a.t, "getString does not terminate the string at the length it returns");
		osc_mem_free(pu); osc_mem_free(ps);
		CHECK(ru == lu && rs == ls, Str("getString:len:") + a.t, sf("getString returns %d, getStringLen %d for ", ru, lu) + show(a));
		CHECK(gu == gs, Str("us-getString:") + a.t, "getString gives " + q(gu) + " unserialized and " + q(gs) + " serialized for " + show(a));
		Str want;
		bool have = true;
		switch (a.t) {
		case 's': want = a.s; break;
		case 'T': want = "true"; break;
		case 'F': want = "false"; break;
		case 'N': want = "nil"; break;
		case 'c': case 'C': want = Str("'") + (char)a.v + "'"; break;
		case 'u': case 'i': case 'h': want = std::to_string((long long)n.i); break;
		case 'U': case 'I': case 'H': want = std::to_string((unsigned long long)n.i); break;
		case 'b': { want = "blob("; for (size_t i = 0; i < a.s.size(); i++) want += (i ? ", " : "") + std::to_string((int)(signed char)a.s[i]); want += ")"; } break;
		default: have = false;
		}
		if (have) CHECK(gu == want, Str("getString:value:") + a.t, "getString of " + show(a) + " gives " + q(gu) + ", expected " + q(want));
		else if (n.flt && std::isfinite(n.d)) {
			double back = strtod(gu.c_str(), nullptr);
			CHECK(std::fabs(back - n.d) <= std::fabs(n.d) * 1e-5, Str("getString:value:") + a.t, "getString of " + show(a) + " gives " + q(gu));
		}
		// bounded
		for (int k = 0; k < 3; k++) {
			size_t room = k == 0 ? (size_t)lu + 1 : 1 + r.below((uint64_t)lu + 4);
			for (int f = 0; f < 2; f++) {
				Exact b(Str(room, '\x7e'));
				char *p = b.p;
				int ret = f ? osc_atom_s_getString(s, room, &p) : osc_atom_u_getString(u, room, &p);
				CHECK(p == b.p, "getString:buffer", "getString replaced the caller's buffer");
				Str pre = gu.substr(0, room - 1);
				CHECK(ret == lu && Str(b.p, pre.size() + 1) == pre + Str(1, 0), Str(f ? "s" : "u") + "-getString:bounded:" + a.t, sf("getString into %zu bytes returns %d and writes ", room, ret) + q(Str(b.p, room)) + ", expected a prefix of " + q(gu));
			}
		}
		c.cover(Str("getString-") + a.t);
	}
	if (blob) {
		CHECK(osc_atom_u_getBlobLen(u) == (int)a.s.size() && osc_atom_s_getBlobLen(s) == (int)a.s.size(), "getBlobLen", sf("getBlobLen gives %d and %d for %zu bytes", osc_atom_u_getBlobLen(u), osc_atom_s_getBlobLen(s), a.s.size()));
		char *bu = osc_atom_u_getBlob(u), *bs = osc_atom_s_getBlob(s);
		CHECK(bu && bs && Str(bu, a.s.size() + 4) == data.substr(0, a.s.size() + 4) && Str(bs, a.s.size() + 4) == data.substr(0, a.s.size() + 4), "getBlob", "getBlob differs from the stored blob");
	} else CHECK(!osc_atom_s_getBlob(s), "getBlob:other", "getBlob of another type is not NULL");
	if (strchr("bsiIfhHdt.", a.t)) {
		int32_t nu = 0, ns = 0;
		char *pu = nullptr, *ps = nullptr;
		osc_atom_u_getBlobCopy(u, &nu, &pu);
		t_osc_err er = osc_atom_s_getBlobCopy(&ps, &ns, s);
		CHECK(!er && pu && ps, Str("getBlobCopy:") + a.t, "getBlobCopy gives no blob");
		uint32_t l = get32(pu), l2 = get32(ps);
		CHECK(l + 4 <= (uint32_t)nu && l2 + 4 <= (uint32_t)ns, Str("getBlobCopy:size:") + a.t, sf("getBlobCopy announces %d and %d bytes but the blobs hold %u and %u", nu, ns, l, l2));
		Str want = blob ? a.s : a.t == '.' ? data.substr(4) : data;
		CHECK(Str(ps + 4, l2) == want, Str("s-getBlobCopy:") + a.t, "getBlobCopy of serialized " + show(a) + " gives " + hex(ps + 4, l2) + ", expected " + hex(want));
		CHECK(Str(pu + 4, l) == want, Str("u-getBlobCopy:") + a.t, "getBlobCopy of unserialized " + show(a) + " gives " + hex(pu + 4, l) + ", expected " + hex(want));
		// into the caller's buffer: the same blob when there is room, and nothing outside it when there is not
		for (int k = 0; k < 3; k++) for (int f = 0; f < 2; f++) {
			int32_t need = f ? ns : nu, n = k == 0 ? need : (int32_t)r.below((uint64_t)need + 9), n0 = n;
			Exact b(Str((size_t)n, '\x7e'));
			char *p = b.p;
			t_osc_err e2 = OSC_ERR_NONE;
			if (f) e2 = osc_atom_s_getBlobCopy(&p, &n, s); else osc_atom_u_getBlobCopy(u, &n, &p);
			CHECK(p == b.p && n == n0, "getBlobCopy:buffer", "getBlobCopy replaced the caller's buffer");
			if (n0 >= need && !(a.t == 's' && n0 > need)) CHECK(!e2 && Str(b.p, (f ? l2 : l) + 4) == Str(f ? ps : pu, (f ? l2 : l) + 4), Str(f ? "s" : "u") + "-getBlobCopy:bounded:" + a.t, sf("getBlobCopy into %d bytes, of which it needs %d, gives ", n0, need) + hex(b.p, (size_t)n0));
			c.cover("getBlobCopy-bounded");
		}
		osc_mem_free(pu); osc_mem_free(ps);
		c.cover(Str("getBlobCopy-") + a.t);
	} else { // the forms disagree about what the blob of the others is
		for (int f = 0; f < 2; f++) {
			int32_t n = (int32_t)r.below(16);
			Exact b(Str((size_t)n, '\x7e'));
			char *p = b.p;
			if (f) osc_atom_s_getBlobCopy(&p, &n, s); else osc_atom_u_getBlobCopy(u, &n, &p);
			CHECK(p == b.p, "getBlobCopy:buffer", "getBlobCopy replaced the caller's buffer");
		}
	}
	if (a.t == '.') {
		t_osc_bndl_u *bu = osc_atom_u_getBndl(u);
		t_osc_bndl_s *bs = osc_atom_s_getBndl(s), *bc = osc_atom_s_getBndlCopy(s);
		CHECK(bu && rd_bundle_u(bu) == *a.b, "u-getBndl", "getBndl of an unserialized bundle differs");
		CHECK(bs && bytes_of(bs) == data.substr(4), "s-getBndl", "getBndl of a serialized bundle differs");
		CHECK(bc && bytes_of(bc) == data.substr(4) && osc_bundle_s_getPtr(bc) != osc_bundle_s_getPtr(bs), "s-getBndlCopy", "getBndlCopy differs or is no copy");
		osc_bundle_s_free(bs); osc_bundle_s_deepFree(bc);
	} else {
		CHECK(!osc_atom_u_getBndl(u) && !osc_atom_s_getBndl(s) && !osc_atom_s_getBndlCopy(s), "getBndl:other", Str("getBndl of a ") + a.t + " is not NULL");
	}
	if (n.ok) {
		size_t su = osc_atom_u_sizeof(u), ss = osc_atom_s_sizeof(s);
		CHECK(su == data.size() && ss == data.size(), Str("sizeof:") + a.t, sf("sizeof gives %zu and %zu, expected %zu", su, ss, data.size()));
	}
	// the other form and copies
	{
		t_osc_atom_u *d = osc_atom_s_deserialize(s), *cp = osc_atom_u_copy(u), *into = nullptr;
		CHECK(rd_atom_u(d) == a, Str("deserialize:") + a.t, "deserializing gives " + show(rd_atom_u(d)) + " for " + show(a));
		Atom other = gen_conv(r);
		into = mk_atom(r, other);
		t_osc_atom_u *keep = into;
		if (r.flip()) osc_atom_u_copyInto(&into, u); else osc_atom_s_deserializeInto(&into, s);
		CHECK(into == keep && rd_atom_u(into) == a, Str("copyinto:") + a.t, "copying over " + show(other) + " gives " + show(rd_atom_u(into)) + " for " + show(a));
		CHECK(rd_atom_u(cp) == a, Str("copy:") + a.t, "the copy reads " + show(rd_atom_u(cp)));
		t_osc_atom_s *z = osc_atom_u_serialize(u);
		CHECK(osc_atom_s_getTypetag(z) == a.t && osc_atom_u_getSerializedSize(u) == (long)data.size(), Str("serialize:") + a.t, "the serialized atom has another type or size");
		if (data.size()) CHECK(Str(osc_atom_s_getData(z), data.size()) == data, Str("serialize:") + a.t, "serializing gives other bytes for " + show(a));
		osc_mem_free(osc_atom_s_getData(z));
		osc_atom_s_free(z);
		osc_atom_u_free(u);
		CHECK(rd_atom_u(cp) == a && rd_atom_u(into) == a, Str("copy:independent:") + a.t, "freeing an atom changed its copy");
		osc_atom_u_free(cp); osc_atom_u_free(d); osc_atom_u_free(into);
	}
	CHECK(e.str() == data, Str("modified:") + a.t, "a getter modified the serialized data of " + show(a));
	osc_atom_s_free(s);
}

static Atom negated(const Atom &a) {
	switch (a.t) {
	case 'c': case 'C': return A_c((int8_t)-(int)(a.t == 'c' ? (int8_t)a.v : (uint8_t)a.v));
	case 'u': case 'U': return A_u((int16_t)-(int)(a.t == 'u' ? (int16_t)a.v : (uint16_t)a.v));
	case 'i': case 'I': return A_i((int32_t)(0u - (uint32_t)a.v));
	case 'h': case 'H': return A_h((int64_t)(0ull - a.v));
	case 'f': return A_f(-atom_f(a));
	case 'd': return A_d(-atom_d(a));
	}
	return a;
}
static void setters(Ctx &c) {
	Rng &r = c.rng;
	Atom a = gen_conv(r), b;
	while (!strchr("cCuUiIhHfdt", a.t)) a = gen_conv(r);
	do b = gen_conv(r); while (b.t != a.t && !(b.t != 's' && b.t != 'b' && b.t != '.' && !strchr("TFN", b.t) && enc_atom(b).size() == enc_atom(a).size() && r.chance(1, 3)));
	c.in("set " + show(a) + " to " + show(b));
	Str pre(r.below(3) * 4, '\x11'), post(r.below(3) * 4, '\x22');
	Str want = pre + enc_atom(b) + post;
	Exact e(pre + enc_atom(a) + post);
	t_osc_atom_s *s = osc_atom_s_alloc(a.t, e.p + pre.size());
	switch (b.t) {
	case 'c': osc_atom_s_setInt8(s, (int8_t)b.v); break;
	case 'C': osc_atom_s_setUInt8(s, (uint8_t)b.v); break;
	case 'u': osc_atom_s_setInt16(s, (int16_t)b.v); break;
	case 'U': osc_atom_s_setUInt16(s, (uint16_t)b.v); break;
	case 'i': osc_atom_s_setInt32(s, (int32_t)b.v); break;
	case 'I': osc_atom_s_setUInt32(s, (uint32_t)b.v); break;
	case 'h': osc_atom_s_setInt64(s, (int64_t)b.v); break;
	case 'H': osc_atom_s_setUInt64(s, b.v); break;
	case 'f': osc_atom_s_setFloat(s, atom_f(b)); break;
	case 'd': osc_atom_s_setDouble(s, atom_d(b)); break;
	case 't': osc_atom_s_setTimetag(s, mk_tt(b.v)); break;
	}
	CHECK(e.str() == want, Str("set:bytes:") + b.t, "setting " + show(b) + " leaves " + hex(e.str()) + ", expected " + hex(want));
	CHECK(osc_atom_s_getTypetag(s) == b.t && rd_atom_s(s) == b, Str("set:read:") + b.t, "after setting " + show(b) + " the atom reads " + show(rd_atom_s(s)));
	c.cover(Str("set-") + b.t);
	bool minv = (b.t == 'i' && (int32_t)b.v == INT32_MIN) || (b.t == 'h' && (int64_t)b.v == INT64_MIN);
	if (!minv && b.t != 't') {
		Atom w = negated(b);
		t_osc_atom_u *u = mk_atom(r, b);
		osc_atom_u_negate(u);
		osc_atom_s_negate(s);
		CHECK(rd_atom_u(u) == w, Str("u-negate:") + b.t, "negating " + show(b) + " gives " + show(rd_atom_u(u)) + ", expected " + show(w));
		CHECK(rd_atom_s(s) == w, Str("s-negate:") + b.t, "negating serialized " + show(b) + " gives " + show(rd_atom_s(s)) + ", expected " + show(w));
		CHECK(e.str() == pre + enc_atom(w) + post, Str("s-negate:bytes:") + b.t, "negating serialized " + show(b) + " leaves " + hex(e.str()));
		osc_atom_u_free(u);
		c.cover(Str("negate-") + b.t);
	}
	osc_atom_s_free(s);
	// a string over a string of at least that padded size
	{
		Str s1(r.range(0, 20), 'k'), s2 = nstr(r).substr(0, s1.size());
		Exact es(pad_str(s1));
		t_osc_atom_s *x = osc_atom_s_alloc('s', es.p);
		osc_atom_s_setString(x, (char *)s2.c_str());
		CHECK(rd_atom_s(x) == A_s(s2), "set:s", "after setting a string the atom reads " + show(rd_atom_s(x)));
		if (r.flip()) { osc_atom_s_setTrue(x); CHECK(osc_atom_s_getTypetag(x) == 'T' && osc_atom_s_getInt32(x) == 1, "set:T", "setTrue does not make the atom true"); }
		else if (r.flip()) { osc_atom_s_setFalse(x); CHECK(osc_atom_s_getTypetag(x) == 'F' && osc_atom_s_getInt32(x) == 0, "set:F", "setFalse does not make the atom false"); }
		else { osc_atom_s_setNil(x); CHECK(osc_atom_s_getTypetag(x) == 'N' && osc_atom_s_getInt32(x) == 0, "set:N", "setNil does not make the atom nil"); }
		osc_atom_s_free(x);
	}
	// message-level: the setter changes that argument of the message only
	{
		GenOpt o;
		o.max_args = 4; o.max_depth = 1;
		Msg m = gen_msg(r, o, 0);
		Msg w = m;
		if (!m.a.empty()) {
			size_t i = r.below(m.a.size());
			Atom &t = m.a[i];
			if (strchr("cCuUiIhHfdt", t.t)) {
				Atom nv;
				do nv = gen_conv(r); while (nv.t != t.t);
				w.a[i] = nv;
				Bundle b1, b2;
				b1.m.push_back(m); b2.m.push_back(w);
				Str mb = wire_msgs(enc_bundle(b1))[0], wb = wire_msgs(enc_bundle(b2))[0];
				Exact em(mb);
				t_osc_msg_s *ms = osc_message_s_alloc();
				osc_message_s_wrap(ms, em.p);
				t_osc_atom_s *x = nullptr;
				osc_message_s_getArg(ms, (int)i, &x);
				CHECK(x, "getarg", "an argument cannot be read");
				switch (nv.t) {
				case 'c': osc_atom_s_setInt8(x, (int8_t)nv.v); break;
				case 'C': osc_atom_s_setUInt8(x, (uint8_t)nv.v); break;
				case 'u': osc_atom_s_setInt16(x, (int16_t)nv.v); break;
				case 'U': osc_atom_s_setUInt16(x, (uint16_t)nv.v); break;
				case 'i': osc_atom_s_setInt32(x, (int32_t)nv.v); break;
				case 'I': osc_atom_s_setUInt32(x, (uint32_t)nv.v); break;
				case 'h': osc_atom_s_setInt64(x, (int64_t)nv.v); break;
				case 'H': osc_atom_s_setUInt64(x, nv.v); break;
				case 'f': osc_atom_s_setFloat(x, atom_f(nv)); break;
				case 'd': osc_atom_s_setDouble(x, atom_d(nv)); break;
				case 't': osc_atom_s_setTimetag(x, mk_tt(nv.v)); break;
				}
				CHECK(em.str() == wb, Str("set:message:") + nv.t, "setting argument of " + show(m) + " to " + show(nv) + ": " + first_diff(em.str(), wb));
				osc_atom_s_free(x);
				osc_message_s_free(ms);
				c.cover("set-in-message");
			}
		}
	}
}

static void random_case(Ctx &c) {
	for (int k = 0; k < 3; k++) {
		Atom a = gen_conv(c.rng);
		c.in(show(a));
		getters(c, a);
	}
	setters(c);
	c.nontrivial = true;
}
// every 16-bit pattern of the narrow types
static void narrow(Ctx &c) {
	for (int v = 0; v < 256; v++) { getters(c, A_c((int8_t)v)); getters(c, A_C((uint8_t)v)); }
	for (int v = 0; v < 65536; v += 37) { getters(c, A_u((int16_t)v)); getters(c, A_U((uint16_t)v)); }
	c.in("all 8-bit values and every 37th 16-bit value");
	c.nontrivial = true;
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "conv";
		s.directed = {{"narrow", narrow}};
		s.random = random_case;
	}
	return s;
}
