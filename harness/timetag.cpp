// C14: time tags as 64-bit fixed-point NTP numbers, and their ISO 8601 text as UTC dates.
#include "vh.h"
#include <sys/time.h>
#include <time.h>
extern "C" {
#include "osc_parser.h"
}

// the clock the library reads; the harness turns it
static thread_local bool g_fake, g_read;
static thread_local struct timeval g_now;
extern "C" int gettimeofday(struct timeval *__restrict tv, void *__restrict) {
	if (g_fake) { g_read = true; *tv = g_now; return 0; }
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

static uint64_t gen_tt(Rng &r) {
	static const uint32_t E[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 2208988800u, 4294u, 429496u, 31536000u, 86400u, 4294967u};
	auto w = [&]() -> uint32_t {
		switch (r.below(4)) {
		case 0: return E[r.below(sizeof E / sizeof *E)];
		case 1: return E[r.below(sizeof E / sizeof *E)] + (uint32_t)r.range(-3, 3);
		default: return (uint32_t)r.u64();
		}
	};
	uint64_t s = w(), f = w();
	return s << 32 | f;
}
static Str tts(uint64_t v) { return sf("%08x.%08x", (unsigned)(v >> 32), (unsigned)v); }

static void arith(Ctx &c, uint64_t a, uint64_t b) {
	t_osc_timetag A = mk_tt(a), B = mk_tt(b);
	Str h = tts(a) + " " + tts(b);
	int cmp = osc_timetag_compare(A, B), rev = osc_timetag_compare(B, A);
	auto sg = [](int x) { return (x > 0) - (x < 0); };
	CHECK(sg(cmp) == (a > b) - (a < b), "compare", h + sf(": compare gave %d", cmp));
	CHECK(sg(rev) == -sg(cmp), "compare", h + ": compare is not antisymmetric");
	CHECK(osc_timetag_compare(A, A) == 0, "compare", h + ": not equal to itself");
	uint64_t sum = tt_val(osc_timetag_add(A, B));
	CHECK(sum == a + b, "add", h + ": sum " + tts(sum) + ", expected " + tts(a + b));
	CHECK(tt_val(osc_timetag_add(B, A)) == sum, "add", h + ": addition does not commute");
	uint64_t d = tt_val(osc_timetag_subtract(A, B)), w = a > b ? a - b : b - a;
	CHECK(d == w, "subtract", h + ": difference " + tts(d) + ", expected " + tts(w));
	CHECK(tt_val(osc_timetag_subtract(B, A)) == w, "subtract", h + ": the difference depends on the order");
	CHECK(osc_timetag_ntp_getSeconds(A) == (uint32_t)(a >> 32) && osc_timetag_ntp_getFraction(A) == (uint32_t)a, "fields", h + ": seconds or fraction");
	for (uint64_t x : {a, b, a ^ 1, a & 0xffffffff, (uint64_t)(b >> 32 << 32)}) CHECK(!!osc_timetag_isImmediate(mk_tt(x)) == (x == 1), "immediate", tts(x) + ": immediate");
	// header encoding, at any alignment the header may have
	std::vector<char> buf(16, 0x55);
	osc_timetag_encodeForHeader(A, buf.data() + 4);
	Str e;
	put64(e, a);
	CHECK(!memcmp(buf.data() + 4, e.data(), 8), "encode", h + ": header bytes " + hex(buf.data() + 4, 8));
	for (int i : {0, 1, 2, 3, 12, 13, 14, 15}) CHECK(buf[i] == 0x55, "encode", h + ": wrote outside its 8 bytes");
	CHECK(tt_val(osc_timetag_decodeFromHeader(buf.data() + 4)) == a, "decode", h + ": decoding gave " + tts(tt_val(osc_timetag_decodeFromHeader(buf.data() + 4))));
	// seconds
	double fa = osc_timetag_timetagToFloat(A), fb = osc_timetag_timetagToFloat(B);
	long double exact = (long double)(a >> 32) + (long double)(uint32_t)a / 4294967296.0L;
	double ulp = std::nextafter(std::fabs((double)exact), INFINITY) - std::fabs((double)exact), unit = 1.0 / 4294967296.0;
	CHECK(std::fabs((double)(fa - exact)) <= ulp + 1.001 * unit, "tofloat", h + sf(": %.17g seconds, expected %.17Lg", fa, exact));
	CHECK(a < b ? fa <= fb : fa >= fb, "tofloat-order", h + sf(": conversion to seconds reverses the order (%.17g, %.17g)", fa, fb));
	if (fa < 4294967296.0) {
		uint64_t back = tt_val(osc_timetag_floatToTimetag(fa));
		double diff = back > a ? (double)(back - a) : (double)(a - back);
		CHECK(diff <= 4 + 2 * ulp * 4294967296.0, "fromfloat", h + ": through seconds and back " + tts(back));
	}
	c.cover("arithmetic");
	if (a < b) c.cover((uint32_t)a > (uint32_t)b ? "difference-negative-with-borrow" : "difference-negative");
	else if ((uint32_t)a < (uint32_t)b) c.cover("difference-with-borrow");
	if ((uint32_t)a + (uint64_t)(uint32_t)b > 0xffffffffull) c.cover("sum-with-carry");
}
static void seconds(Ctx &c, double d) {
	uint64_t t = tt_val(osc_timetag_floatToTimetag(d));
	long double exact = (long double)d * 4294967296.0L, got = (long double)t;
	CHECK(fabsl(got - exact) <= 2, "fromfloat", sf("%.17g seconds gave ", d) + tts(t));
	double back = osc_timetag_timetagToFloat(mk_tt(t));
	double ulp = std::nextafter(d, INFINITY) - d;
	CHECK(std::fabs(back - d) <= 2 * ulp + 3.0 / 4294967296.0, "roundtrip", sf("%.17g seconds came back as %.17g", d, back));
	c.cover("seconds");
}
// proleptic Gregorian day number relative to 1900-01-01
static long days(long y, int m, int d) {
	y -= m <= 2;
	long era = (y >= 0 ? y : y - 399) / 400;
	long yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468 + 25567;
}
static void civil(uint32_t sec, int &y, int &mo, int &d, int &h, int &mi, int &s) {
	long dn = sec / 86400, r = sec % 86400;
	h = r / 3600; mi = r / 60 % 60; s = r % 60;
	y = 1900;
	while (days(y + 1, 1, 1) <= dn) y++;
	mo = 1;
	while (mo < 12 && days(y, mo + 1, 1) <= dn) mo++;
	d = (int)(dn - days(y, mo, 1)) + 1;
}
static void iso(Ctx &c, uint64_t v) {
	Rng &r = c.rng;
	int y, mo, d, h, mi, s;
	civil((uint32_t)(v >> 32), y, mo, d, h, mi, s);
	char *t = osc_timetag_format(mk_tt(v));
	CHECK(t, "format", tts(v) + ": NULL");
	Str g(t);
	osc_mem_free(t);
	Str pre = sf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, h, mi, s);
	CHECK(g.substr(0, pre.size()) == pre, "format", tts(v) + " is written " + g + ", its UTC date is " + pre);
	Str rest = g.substr(pre.size());
	// a fraction and Z
	CHECK(rest.size() >= 2 && rest.back() == 'Z', "format", tts(v) + " is written " + g + ": no UTC designator");
	rest.pop_back();
	double frac = 0;
	int digits = 0;
	if (!rest.empty()) {
		CHECK(rest[0] == '.' && rest.size() > 1 && rest.find_first_not_of("0123456789", 1) == Str::npos, "format", tts(v) + " is written " + g);
		digits = (int)rest.size() - 1;
		frac = atof(("0" + rest).c_str());
	}
	double want = (uint32_t)v / 4294967296.0;
	CHECK(digits >= 6 && std::fabs(frac - want) <= std::pow(10, -digits) + 1e-9, "fraction", tts(v) + " is written " + g + sf(", its fraction is %.9f", want));
	// the same through nformat, with any buffer
	long n = osc_timetag_nformat(nullptr, 0, mk_tt(v));
	CHECK(n == (long)g.size(), "nformat", g + sf(": announced length %ld", n));
	for (long k : {(long)r.range(1, 40), n, n + 1}) {
		Exact b(Str((size_t)k, 'x'));
		osc_timetag_nformat(b.p, k, mk_tt(v));
		Str w = g.substr(0, (size_t)k - 1);
		CHECK(Str(b.p) == w, "nformat", g + sf(" in %ld bytes: ", k) + q(b.p));
	}
	// and back
	Exact e(g + Str(1, 0));
	t_osc_timetag back = mk_tt(0x123456789abcdefull);
	osc_timetag_fromISO8601(e.p, &back);
	uint64_t bv = tt_val(back);
	CHECK(bv >> 32 == v >> 32, "parse-sec", g + " parsed as " + tts(bv) + ", was " + tts(v));
	CHECK(std::fabs((double)(uint32_t)bv / 4294967296.0 - want) <= 2e-6, "parse-frac", g + " parsed as " + tts(bv) + ", was " + tts(v));
	// other spellings of the same instant
	for (int k = 0; k < 4; k++) {
		int off = r.chance(1, 3) ? 0 : r.range(-14 * 60, 14 * 60); // minutes the written clock is ahead of UTC
		if (off && r.chance(1, 3)) off = off / 60 * 60;
		bool z = off == 0 && r.flip();
		bool none = off == 0 && !z && r.flip();
		int64_t local = (int64_t)(v >> 32) + off * 60;
		if (local < 0 || local > 0xffffffffll) continue;
		civil((uint32_t)local, y, mo, d, h, mi, s);
		Str txt = sf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, h, mi, s);
		int nd = r.range(0, 9);
		long double f = 0;
		if (nd) {
			Str ds;
			for (int i = 0; i < nd; i++) ds += (char)('0' + (r.chance(1, 5) ? 9 : r.chance(1, 5) ? 0 : r.below(10)));
			txt += "." + ds;
			f = strtold(("0." + ds).c_str(), nullptr);
		}
		if (!none) txt += z ? Str("Z") : sf("%c%02d:%02d", off < 0 || (off == 0 && r.flip()) ? '-' : '+', std::abs(off) / 60, std::abs(off) % 60);
		uint64_t w = (v >> 32 << 32) + (uint64_t)(f * 4294967296.0L);
		Exact x(txt + Str(1, 0));
		t_osc_timetag p = mk_tt(0xfefefefefefefefeull);
		osc_timetag_fromISO8601(x.p, &p);
		uint64_t pv = tt_val(p), diff = pv > w ? pv - w : w - pv;
		CHECK(diff <= 3, "spelling", txt + " parsed as " + tts(pv) + ", denotes " + tts(w));
		CHECK(x.str() == txt + Str(1, 0), "modified", "parsing changed the text");
		c.cover(off ? nd ? "iso-offset-and-fraction" : "iso-offset" : "iso-plain");
		// in bundle text
		if (k == 0) {
			Str bt = "/t : " + txt;
			Exact bx(bt + Str(1, 0));
			t_osc_bndl_u *bu = nullptr;
			osc_parser_parseString((long)bt.size(), bx.p, &bu);
			CHECK(bu, "bundle-text", q(bt) + " did not parse");
			Bundle b = rd_bundle_u(bu);
			osc_bundle_u_free(bu);
			CHECK(b.m.size() == 1 && b.m[0].a.size() == 1 && b.m[0].a[0].t == 't', "bundle-text", q(bt) + " parsed as " + show(b));
			uint64_t q2 = b.m[0].a[0].v;
			CHECK(q2 == pv, "bundle-text", q(bt) + " parsed as " + tts(q2) + ", denotes " + tts(w));
			c.cover("iso-in-bundle-text");
		}
	}
}
static void now(Ctx &c, long sec, long usec) {
	g_now.tv_sec = sec;
	g_now.tv_usec = usec;
	g_fake = true;
	g_read = false;
	uint64_t v = tt_val(osc_timetag_now());
	g_fake = false;
	if (!g_read) { c.cover("now-other-clock"); return; } // another clock source: nothing to compare with
	uint64_t w = (uint64_t)(uint32_t)(sec + 2208988800ll) << 32;
	long double f = usec / 1e6L;
	CHECK(v >> 32 == w >> 32, "now", sf("at %ld.%06ld the time tag is ", sec, usec) + tts(v));
	CHECK(fabsl((long double)(uint32_t)v / 4294967296.0L - f) <= 2e-6L, "now-frac", sf("at %ld.%06ld the time tag is ", sec, usec) + tts(v));
	c.cover("now");
}
// atoms and bundles carry time tags unchanged
static void carried(Ctx &c, uint64_t v) {
	t_osc_atom_u *a = osc_atom_u_allocWithTimetag(mk_tt(v));
	CHECK(tt_val(osc_atom_u_getTimetag(a)) == v, "atom", tts(v) + " in an atom");
	osc_atom_u_setTimetag(a, mk_tt(~v));
	CHECK(tt_val(osc_atom_u_getTimetag(a)) == ~v, "atom", tts(~v) + " set in an atom");
	osc_atom_u_free(a);
	Bundle b;
	b.tt = v;
	Msg m; m.addr = "/t"; m.a.push_back(A_t(v)); b.m.push_back(m);
	Exact e(enc_bundle(b));
	CHECK(tt_val(osc_bundle_s_getTimetag((long)e.n, e.p)) == v, "header", tts(v) + " in a header");
	osc_bundle_s_setTimetag((long)e.n, e.p, mk_tt(~v));
	CHECK(get64(e.p + 8) == ~v, "header", tts(~v) + " set in a header");
	CHECK(get64(e.p + e.n - 8) == v, "header", "setting the header time tag changed the message");
	c.cover("carried");
}
static void random_case(Ctx &c) {
	Rng &r = c.rng;
#ifndef VH_THREADS
	static const char *tz[] = {"UTC", "America/New_York", "XYZ-5:30", "ABC+11DEF", "", "Europe/Berlin"};
	setenv("TZ", tz[r.below(6)], 1);
	tzset();
#endif
	for (int i = 0; i < 4; i++) {
		uint64_t a = gen_tt(r), b = r.chance(1, 4) ? a + (uint64_t)r.range(-2, 2) : r.chance(1, 4) ? (a & ~0xffffffffull) | (uint32_t)r.u64() : r.chance(1, 4) ? (a & 0xffffffff) | gen_tt(r) >> 32 << 32 : gen_tt(r);
		c.in(tts(a) + " " + tts(b));
		arith(c, a, b);
		carried(c, a);
	}
	for (int i = 0; i < 4; i++) {
		double d = r.chance(1, 3) ? (double)(uint32_t)r.u64() + r.below(1000000) / 1e6 : r.chance(1, 2) ? r.below(1000000) / 1e6 : std::ldexp((double)r.below(1ull << 53), -r.range(21, 80));
		if (d < 0 || d >= 4294967295.0) continue;
		seconds(c, d);
	}
	for (int i = 0; i < 3; i++) {
		uint64_t v = gen_tt(r);
		if (r.chance(1, 3)) { // around a day, month or year boundary
			int y = r.range(1900, 2035), m = r.range(1, 12);
			int64_t s = days(y, m, r.chance(1, 2) ? 1 : r.range(1, 28)) * 86400ll + r.range(-2, 2);
			if (s >= 0) v = (uint64_t)s << 32 | (uint32_t)v;
		}
		c.in(tts(v));
		iso(c, v);
	}
	now(c, (long)r.below(2085978495), r.chance(1, 3) ? 999999 - (long)r.below(12) : (long)r.below(1000000));
	c.nontrivial = true;
}
Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "timetag";
		s.directed.push_back({"every-day", [](Ctx &c) {
			// first and last second of every day the format can express
			setenv("TZ", "UTC", 1);
			for (uint64_t d = 0; d < 49710; d++) {
				int y, mo, dd, h, mi, ss;
				for (uint64_t s : {d * 86400, d * 86400 + 86399}) {
					civil((uint32_t)s, y, mo, dd, h, mi, ss);
					char b[64];
					osc_timetag_nformat(b, sizeof b, mk_tt(s << 32));
					Str w = sf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, dd, h, mi, ss);
					CHECK(!strncmp(b, w.c_str(), w.size()), "format", sf("second %lu is written ", s) + b + ", its UTC date is " + w);
					t_osc_timetag t;
					osc_timetag_fromISO8601(b, &t);
					CHECK(tt_val(t) == s << 32, "parse-sec", Str(b) + " parsed as " + tts(tt_val(t)));
				}
			}
			c.cover("days", 49710);
			c.nontrivial = true;
			c.in("every day from 1900 to 2036");
		}});
		s.directed.push_back({"every-microsecond-edge", [](Ctx &c) {
			for (int i = 0; i < 2000; i++) { now(c, 1700000000, i); now(c, 1700000000, 999999 - i); }
			c.nontrivial = true;
			c.in("clock at both ends of a second");
		}});
		s.directed.push_back({"edges", [](Ctx &c) {
			static const uint64_t E[] = {0, 1, 2, 0xffffffff, 0x100000000ull, 0x1ffffffffull, 0xffffffff00000000ull, ~0ull, 0x8000000080000000ull, 0x7fffffffffffffffull};
			for (uint64_t a : E) { iso(c, a); carried(c, a); for (uint64_t b : E) arith(c, a, b); }
			c.nontrivial = true;
			c.in("edges");
		}});
		s.random = random_case;
	}
	return s;
}
