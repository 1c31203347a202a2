#include "vh.h"
#include <setjmp.h>
#include <cstdarg>
#include <unordered_map>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <execinfo.h>

void fail(const Str &key, const Str &detail) { throw Fail{key, detail}; }

Str sf(const char *fmt, ...) {
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}
Str hex(const void *p, size_t n) {
	static const char *d = "0123456789abcdef";
	Str o;
	const unsigned char *b = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { if (i && i % 4 == 0) o += ' '; o += d[b[i] >> 4]; o += d[b[i] & 15]; }
	return o;
}
Str q(const Str &s) {
	Str o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) o += sf("\\x%02x", c);
		else o += c;
	}
	return o + "\"";
}

// ---------------------------------------------------------------- allocator monitor
extern "C" int __llvm_profile_write_file(void) __attribute__((weak)); // coverage builds only
#ifdef VH_VALGRIND
#include <valgrind/memcheck.h>
static const int SLOW = 60; // how much longer a case may take
#else
static const int SLOW = 1;
#endif
namespace mem {
struct Blk { size_t n; long seq; void *ra[4]; };
// Every thread keeps its own account: objects belong to the thread that works on them, and a lock here would
// order the threads and so hide races from ThreadSanitizer.
static thread_local std::unordered_map<const void *, Blk> *tab;
static thread_local long seq_, total_;
static thread_local Str err_;
thread_local void (*hook)(); // called on every allocation
static void grab(void **ra) {
	// frame-pointer walk; the library and the harness are built with frame pointers
	void **fp = (void **)__builtin_frame_address(0);
	for (int i = 0; i < 4; i++) ra[i] = nullptr;
	for (int i = 0; i < 6 && fp; i++) {
		void **next = (void **)fp[0];
		if (i >= 2) ra[i - 2] = fp[1];
		if (next <= fp || (char *)next - (char *)fp > 1 << 20) break;
		fp = next;
	}
}
// what one case may use before it is abandoned: programs of the language may run for ever or ask for any amount
thread_local sigjmp_buf out_;
static thread_local bool armed_;
static thread_local size_t bytes_, max_bytes_;
static thread_local long blocks_, max_blocks_, mark_;
static thread_local char *base_;
static thread_local size_t max_stack_;
static void spend(size_t n) {
	if (!armed_) return;
	char here;
	bytes_ += n; blocks_++;
	const char *sp = (const char *)__builtin_frame_address(0);
	int why = n > max_bytes_ || bytes_ > max_bytes_ ? 1 : blocks_ > max_blocks_ ? 2 : (size_t)(base_ - sp) > max_stack_ ? 3 : 0;
	(void)here;
	if (why) { armed_ = false; siglongjmp(out_, why); }
}
void arm(size_t bytes, long blocks, size_t stack) { max_bytes_ = bytes; max_blocks_ = blocks; max_stack_ = stack; bytes_ = 0; blocks_ = 0; base_ = (char *)__builtin_frame_address(0); mark_ = seq_; armed_ = true; }
void disarm() { armed_ = false; }
bool pause() { bool a = armed_; armed_ = false; return a; }
void resume(bool a) { armed_ = a; }
void drop() { // releases what was allocated since arm()
	std::vector<void *> k;
	{ for (auto &b : *tab) if (b.second.seq > mark_) k.push_back((void *)b.first); for (void *p : k) tab->erase(p); }
	for (void *p : k) free(p);
}
static void *m_alloc(size_t n) {
	if (hook) hook();
	spend(n);
	void *p = malloc(n);
	if (!p) return p;
	memset(p, 0xA5, n); // expose reads of bytes nobody wrote
#ifdef VH_VALGRIND
	VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
	Blk b; b.n = n; b.seq = ++seq_; grab(b.ra);
	total_++;
	(*tab)[p] = b;
	return p;
}
static void m_free(void *p) {
	if (!p) return;
	{
		auto it = tab->find(p);
		if (it == tab->end()) {
			if (err_.empty()) err_ = "a block that did not come from the installed allocator was passed to it";
			// let ASan report a double free or a wild free with stacks
		} else tab->erase(it);
	}
	free(p);
}
static void *m_realloc(void *p, size_t n) {
	if (!p) return m_alloc(n);
	spend(n);
	bool toggle;
	{
		auto it = tab->find(p);
		if (it == tab->end()) { if (err_.empty()) err_ = "a foreign block was passed to the installed resize function"; }
		else tab->erase(it);
		toggle = seq_ & 1;
	}
	if (n == 0 && toggle) { free(p); return nullptr; } // both behaviours of realloc(p, 0) are conforming
	void *r = realloc(p, n ? n : 1);
	if (!r) return r;
	Blk b; b.n = n; b.seq = ++seq_; grab(b.ra);
	(*tab)[r] = b;
	return r;
}
void enter() { if (!tab) tab = new std::unordered_map<const void *, Blk>; }
void leave() { delete tab; tab = nullptr; }
void install() {
	enter();
	osc_set_mem(m_alloc, m_free, m_realloc);
}
long live() { return (long)tab->size(); }
long total() { return total_; }
bool owns(const void *p) { return tab->count(p); }
long mark() { return seq_; }
void reset() { tab->clear(); err_.clear(); }
Str error() { return err_; }
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n) __attribute__((weak));
static Str sym(void *pc) {
	char b[512] = "";
	if (__sanitizer_symbolize_pc && pc) __sanitizer_symbolize_pc((char *)pc - 1, "%f", b, sizeof b);
	return b;
}
Str describe_live(long since, int max) {
	std::vector<Blk> v;
	{ for (auto &kv : *tab) if (kv.second.seq > since) v.push_back(kv.second); }
	std::sort(v.begin(), v.end(), [](const Blk &a, const Blk &b) { return a.seq < b.seq; });
	Str o;
	int k = 0;
	for (auto &b : v) {
		if (k++ >= max) { o += sf(" ... (%d in all)", (int)v.size()); break; }
		o += sf(" [%zu bytes from %s<%s<%s]", b.n, sym(b.ra[0]).c_str(), sym(b.ra[1]).c_str(), sym(b.ra[2]).c_str());
	}
	return o;
}
Str leak_site() {
	const Blk *best = nullptr;
	for (auto &kv : *tab) if (!best || kv.second.seq < best->seq) best = &kv.second;
	if (!best) return "?";
	for (int i = 0; i < 4; i++) { Str s = sym(best->ra[i]); if (!s.empty() && s.find("osc_mem_") == Str::npos) return s; }
	return "?";
}
}

// ---------------------------------------------------------------- model
Atom A_num(char t, uint64_t v) { Atom a; a.t = t; a.v = v; return a; }
Atom A_i(int32_t v) { return A_num('i', (uint32_t)v); }
Atom A_I(uint32_t v) { return A_num('I', v); }
Atom A_h(int64_t v) { return A_num('h', (uint64_t)v); }
Atom A_H(uint64_t v) { return A_num('H', v); }
Atom A_c(int8_t v) { return A_num('c', (uint32_t)(int32_t)v); }
Atom A_C(uint8_t v) { return A_num('C', v); }
Atom A_u(int16_t v) { return A_num('u', (uint32_t)(int32_t)v); }
Atom A_U(uint16_t v) { return A_num('U', v); }
Atom A_f(float v) { uint32_t b; memcpy(&b, &v, 4); return A_num('f', b); }
Atom A_d(double v) { uint64_t b; memcpy(&b, &v, 8); return A_num('d', b); }
Atom A_s(const Str &s) { Atom a; a.t = 's'; a.s = s; return a; }
Atom A_b(const Str &s) { Atom a; a.t = 'b'; a.s = s; return a; }
Atom A_t(uint64_t v) { return A_num('t', v); }
Atom A_tag(char t) { return A_num(t, 0); }
Atom A_bndl(const Bundle &b) { Atom a; a.t = '.'; a.b = std::make_shared<Bundle>(b); return a; }
float atom_f(const Atom &a) { uint32_t b = (uint32_t)a.v; float f; memcpy(&f, &b, 4); return f; }
double atom_d(const Atom &a) { double d; memcpy(&d, &a.v, 8); return d; }

bool operator==(const Atom &x, const Atom &y) {
	if (x.t != y.t) return false;
	switch (x.t) {
	case 's': case 'b': return x.s == y.s;
	case '.': return *x.b == *y.b;
	case 'T': case 'F': case 'N': return true;
	default: return x.v == y.v;
	}
}
bool operator==(const Msg &x, const Msg &y) { return x.addr == y.addr && x.a == y.a; }
bool operator==(const Bundle &x, const Bundle &y) { return x.m == y.m; }

Str show(const Atom &a) {
	switch (a.t) {
	case 'i': case 'c': case 'u': return sf("%c:%d", a.t, (int32_t)a.v);
	case 'I': case 'C': case 'U': return sf("%c:%u", a.t, (uint32_t)a.v);
	case 'h': return sf("h:%lld", (long long)a.v);
	case 'H': return sf("H:%llu", (unsigned long long)a.v);
	case 'f': return sf("f:%.9g(%08x)", atom_f(a), (uint32_t)a.v);
	case 'd': return sf("d:%.17g", atom_d(a));
	case 's': return "s:" + q(a.s);
	case 'b': return "b:<" + hex(a.s) + ">";
	case 't': return sf("t:%08x.%08x", (uint32_t)(a.v >> 32), (uint32_t)a.v);
	case '.': return show(*a.b);
	default: return Str(1, a.t);
	}
}
Str show(const Msg &m) {
	Str o = m.addr;
	for (auto &a : m.a) o += " " + show(a);
	return o;
}
Str show(const Bundle &b) {
	Str o = "{";
	if (b.tt) o += sf("@%016llx ", (unsigned long long)b.tt);
	for (size_t i = 0; i < b.m.size(); i++) o += (i ? ", " : "") + show(b.m[i]);
	return o + "}";
}

void put32(Str &o, uint32_t v) { o += (char)(v >> 24); o += (char)(v >> 16); o += (char)(v >> 8); o += (char)v; }
void put64(Str &o, uint64_t v) { put32(o, (uint32_t)(v >> 32)); put32(o, (uint32_t)v); }
uint32_t get32(const char *p) { const unsigned char *b = (const unsigned char *)p; return (uint32_t)b[0] << 24 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 8 | b[3]; }
uint64_t get64(const char *p) { return (uint64_t)get32(p) << 32 | get32(p + 4); }
Str pad_str(const Str &s) { Str o = s; do o += '\0'; while (o.size() % 4); return o; }
Str enc_atom(const Atom &a) {
	Str o;
	switch (a.t) {
	case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f': put32(o, (uint32_t)a.v); break;
	case 'h': case 'H': case 'd': case 't': put64(o, a.v); break;
	case 's': o = pad_str(a.s); break;
	case 'b': put32(o, (uint32_t)a.s.size()); o += a.s; while (o.size() % 4) o += '\0'; break;
	case '.': { Str b = enc_bundle(*a.b); put32(o, (uint32_t)b.size()); o += b; } break;
	}
	return o;
}
Str enc_msg(const Msg &m) {
	Str o = pad_str(m.addr), tt = ",", d;
	for (auto &a : m.a) { tt += a.t; d += enc_atom(a); }
	return o + pad_str(tt) + d;
}
Str enc_bundle(const Bundle &b) {
	Str o("#bundle\0", 8);
	put64(o, b.tt);
	for (auto &m : b.m) { Str e = enc_msg(m); put32(o, (uint32_t)e.size()); o += e; }
	return o;
}
// the same bundle as an old sender writes it: messages without arguments may lack the type tag string
Str enc_bundle_untagged(const Bundle &b, Rng &r, int always) {
	Str e = enc_bundle(b), o = e.substr(0, 16);
	std::vector<Str> sl = wire_msgs(e);
	for (size_t i = 0; i < sl.size(); i++) {
		if (!b.m[i].a.empty() || !(always || r.flip())) { o += sl[i]; continue; }
		Str a = pad_str(b.m[i].addr);
		put32(o, (uint32_t)a.size());
		o += a;
	}
	return o;
}

static bool dec_str(const char *p, size_t n, Str &s, size_t &used, Str &why) {
	size_t l = 0;
	while (l < n && p[l]) l++;
	if (l == n) { why = "unterminated string"; return false; }
	used = (l + 4) & ~(size_t)3;
	if (used > n) { why = "string padding exceeds the message"; return false; }
	for (size_t i = l; i < used; i++) if (p[i]) { why = "string padding is not zero"; return false; }
	s.assign(p, l);
	return true;
}
bool dec_bundle(const char *p, size_t n, Bundle &out, Str &why, int depth) {
	if (depth > 200) { why = "nesting too deep"; return false; }
	if (n < 16) { why = sf("bundle of %zu bytes", n); return false; }
	if (memcmp(p, "#bundle\0", 8)) { why = "bad bundle header"; return false; }
	out.tt = get64(p + 8);
	out.m.clear();
	size_t i = 16;
	while (i < n) {
		if (n - i < 4) { why = "trailing bytes"; return false; }
		uint32_t sz = get32(p + i);
		i += 4;
		if (sz > n - i) { why = sf("message size %u exceeds the %zu bytes left", sz, n - i); return false; }
		if (sz % 4) { why = sf("message size %u is not a multiple of 4", sz); return false; }
		const char *b = p + i;
		Msg m;
		size_t u = 0, pos = 0;
		if (!dec_str(b, sz, m.addr, u, why)) { why = "address: " + why; return false; }
		if (m.addr.empty() || m.addr[0] != '/') { why = "address does not start with /"; return false; }
		pos += u;
		Str tt;
		if (pos == sz) { out.m.push_back(m); i += sz; continue; } // old senders leave the type tag string out
		if (!dec_str(b + pos, sz - pos, tt, u, why)) { why = "typetags of " + m.addr + ": " + why; return false; }
		if (tt.empty() || tt[0] != ',') { why = "typetags of " + m.addr + " do not start with a comma"; return false; }
		pos += u;
		for (size_t k = 1; k < tt.size(); k++) {
			Atom a;
			a.t = tt[k];
			size_t left = sz - pos;
			switch (a.t) {
			case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f':
				if (left < 4) { why = "data too short"; return false; }
				a.v = get32(b + pos); pos += 4; break;
			case 'h': case 'H': case 'd': case 't':
				if (left < 8) { why = "data too short"; return false; }
				a.v = get64(b + pos); pos += 8; break;
			case 's':
				if (!dec_str(b + pos, left, a.s, u, why)) { why = "string argument: " + why; return false; }
				pos += u; break;
			case 'b': {
				if (left < 4) { why = "data too short"; return false; }
				uint32_t l = get32(b + pos);
				size_t pl = ((size_t)l + 3) & ~(size_t)3;
				if (pl > left - 4) { why = "blob exceeds the message"; return false; }
				a.s.assign(b + pos + 4, l);
				for (size_t z = l; z < pl; z++) if (b[pos + 4 + z]) { why = "blob padding is not zero"; return false; }
				pos += 4 + pl;
			} break;
			case '.': {
				if (left < 4) { why = "data too short"; return false; }
				uint32_t l = get32(b + pos);
				if (l > left - 4) { why = "nested bundle exceeds the message"; return false; }
				a.b = std::make_shared<Bundle>();
				if (!dec_bundle(b + pos + 4, l, *a.b, why, depth + 1)) { why = "nested in " + m.addr + ": " + why; return false; }
				pos += 4 + l;
			} break;
			case 'T': case 'F': case 'N': break;
			default: why = sf("unknown typetag %02x in %s", (unsigned char)a.t, m.addr.c_str()); return false;
			}
			m.a.push_back(a);
		}
		if (pos != sz) { why = sf("message %s: %zu bytes left over", m.addr.c_str(), (size_t)sz - pos); return false; }
		out.m.push_back(m);
		i += sz;
	}
	return true;
}
std::vector<Str> wire_msgs(const Str &p) {
	std::vector<Str> v;
	size_t i = 16;
	while (i + 4 <= p.size()) {
		uint32_t sz = get32(p.data() + i);
		if (sz > p.size() - i - 4) break;
		v.push_back(p.substr(i, sz + 4));
		i += sz + 4;
	}
	return v;
}

// ---------------------------------------------------------------- generators
Str gen_addr(Rng &r, int maxseg) {
	static const char *segs[] = {"a", "b", "foo", "bar", "x1", "longer_name", "q", "abc", "foobar", "1", "ab", "abcd"};
	int n = r.range(1, maxseg);
	Str o;
	for (int i = 0; i < n; i++) { o += "/"; o += segs[r.below(12)]; }
	return o;
}
Str gen_string(Rng &r, const GenOpt &o) {
	int len = r.chance(1, 20) ? r.range(20, 300) : r.range(0, 9);
	if (len > 290) len = r.range(300, 2500);
	Str s;
	for (int i = 0; i < len; i++) {
		if (!o.alphabet.empty()) s += o.alphabet[r.below(o.alphabet.size())];
		else if (r.chance(1, 8)) s += (char)r.range(1, 255);
		else s += r.pickc("abcdefgh XYZ/#,.:;{}[]\"\\'\n\t0123456789")[0];
	}
	for (auto &c : s) if (!c) c = 'z';
	return s;
}
static uint64_t gen_bits(Rng &r) {
	switch (r.below(8)) {
	case 0: return 0;
	case 1: return ~0ull;
	case 2: return r.below(100);
	case 3: return (uint64_t)-(int64_t)r.below(100);
	case 4: return 1ull << r.below(64);
	case 5: return (1ull << r.below(64)) - 1;
	default: return r.u64();
	}
}
Atom gen_atom(Rng &r, const GenOpt &o, int depth) {
	for (;;) {
		char t = o.types[r.below(o.types.size())];
		if (t == '.' && depth >= o.max_depth) { bool only = o.types.find_first_not_of('.') == Str::npos; if (only) return A_i(1); continue; }
		switch (t) {
		case 'c': return A_c((int8_t)gen_bits(r));
		case 'C': return A_C((uint8_t)gen_bits(r));
		case 'u': return A_u((int16_t)gen_bits(r));
		case 'U': return A_U((uint16_t)gen_bits(r));
		case 'i': return A_i((int32_t)gen_bits(r));
		case 'I': return A_I((uint32_t)gen_bits(r));
		case 'h': return A_h((int64_t)gen_bits(r));
		case 'H': return A_H(gen_bits(r));
		case 'f': {
			if (o.nan && r.chance(1, 8)) { Atom a = A_f(0); a.v = (uint32_t)gen_bits(r); return a; }
			static const float fs[] = {0.f, -0.f, 1.f, -1.f, 0.5f, 1e30f, -1e-30f, 16777216.f, 3.25f, INFINITY, -INFINITY};
			if (r.chance(1, 3)) return A_f(fs[r.below(o.nan ? 11 : 9)]);
			return A_f((float)((int64_t)r.below(2000001) - 1000000) / 64.f);
		}
		case 'd': {
			if (o.nan && r.chance(1, 8)) { Atom a = A_d(0); a.v = gen_bits(r); return a; }
			static const double ds[] = {0., -0., 1., -1., .5, 1e300, -1e-300, 9007199254740993., 3.25, INFINITY, -INFINITY};
			if (r.chance(1, 3)) return A_d(ds[r.below(o.nan ? 11 : 9)]);
			return A_d((double)((int64_t)r.below(2000001) - 1000000) / 128.);
		}
		case 's': return A_s(gen_string(r, o));
		case 'b': { Str s; int n = r.chance(1, 16) ? r.range(12, 200) : r.range(0, 11); if (n > 190) n = r.range(200, 3000); for (int i = 0; i < n; i++) s += (char)r.below(256); return A_b(s); }
		case 't': return A_t(gen_bits(r));
		case '.': { GenOpt p = o; p.header_tt = false; return A_bndl(gen_bundle(r, p, depth + 1)); }
		default: return A_tag(t);
		}
	}
}
Msg gen_msg(Rng &r, const GenOpt &o, int depth) {
	Msg m;
	m.addr = o.addr_pool.empty() ? gen_addr(r) : o.addr_pool[r.below(o.addr_pool.size())];
	int n = r.chance(o.empty_msg_pct, 100) ? 0 : r.range(1, o.max_args);
	if (depth == 0 && r.chance(1, 60)) n = r.range(8, 60);
	for (int i = 0; i < n; i++) m.a.push_back(gen_atom(r, o, depth));
	return m;
}
Bundle gen_bundle(Rng &r, const GenOpt &o, int depth) {
	Bundle b;
	int n = r.range(0, depth ? std::min(3, o.max_msgs) : o.max_msgs);
	std::set<Str> seen;
	for (int i = 0; i < n; i++) {
		Msg m = gen_msg(r, o, depth);
		if (!o.dup_addrs && !seen.insert(m.addr).second) continue;
		b.m.push_back(m);
	}
	if (o.header_tt && depth == 0) b.tt = gen_bits(r);
	return b;
}

// ---------------------------------------------------------------- library objects
t_osc_timetag mk_tt(uint64_t v) { t_osc_timetag t; t.sec = (uint32_t)(v >> 32); t.frac_sec = (uint32_t)v; return t; }
uint64_t tt_val(t_osc_timetag t) { return (uint64_t)osc_timetag_ntp_getSeconds(t) << 32 | osc_timetag_ntp_getFraction(t); }

// a blob as a caller may hold it: the size and the data, followed by zeros, other bytes or nothing
static Str raw_blob(Rng &r, const Atom &a) {
	Str e = enc_atom(a);
	int k = (int)r.below(3);
	if (k == 1) e.resize(4 + a.s.size());
	if (k == 2) for (size_t i = 4 + a.s.size(); i < e.size(); i++) e[i] = (char)0xa5;
	return e;
}
t_osc_atom_u *mk_atom(Rng &r, const Atom &a) {
	switch (a.t) {
	case 's': if (r.flip()) return osc_atom_u_allocWithString((char *)a.s.c_str()); break;
	case 'd': if (r.flip()) return osc_atom_u_allocWithDouble(atom_d(a)); break;
	case 'f': if (r.flip()) return osc_atom_u_allocWithFloat(atom_f(a)); break;
	case 'i': if (r.flip()) return osc_atom_u_allocWithInt32((int32_t)a.v); break;
	case 't': if (r.flip()) return osc_atom_u_allocWithTimetag(mk_tt(a.v)); break;
	case '.': if (r.flip()) return osc_atom_u_allocWithBndl(mk_bundle(r, *a.b)); break;
	}
	t_osc_atom_u *x = osc_atom_u_alloc();
	switch (a.t) {
	case 'c': osc_atom_u_setInt8(x, (int8_t)a.v); break;
	case 'C': osc_atom_u_setUInt8(x, (uint8_t)a.v); break;
	case 'u': osc_atom_u_setInt16(x, (int16_t)a.v); break;
	case 'U': osc_atom_u_setUInt16(x, (uint16_t)a.v); break;
	case 'i': osc_atom_u_setInt32(x, (int32_t)a.v); break;
	case 'I': osc_atom_u_setUInt32(x, (uint32_t)a.v); break;
	case 'h': osc_atom_u_setInt64(x, (int64_t)a.v); break;
	case 'H': osc_atom_u_setUInt64(x, a.v); break;
	case 'f': osc_atom_u_setFloat(x, atom_f(a)); break;
	case 'd': osc_atom_u_setDouble(x, atom_d(a)); break;
	case 's':
		if (r.flip()) osc_atom_u_setString(x, a.s.c_str());
		else {
			char *p = (char *)osc_mem_alloc(a.s.size() + 1);
			memcpy(p, a.s.c_str(), a.s.size() + 1);
			osc_atom_u_setStringPtr(x, p);
			osc_atom_u_setShouldFreePtr(x, 1);
		}
		break;
	case 'b': {
		Exact b(raw_blob(r, a));
		if (r.flip()) { osc_atom_u_setBlob(x, b.p); break; }
		char *p = (char *)osc_mem_alloc(b.n);
		memcpy(p, b.p, b.n);
		osc_atom_u_setBlobPtr(x, p);
		osc_atom_u_setShouldFreePtr(x, 1);
	} break;
	case 't': osc_atom_u_setTimetag(x, mk_tt(a.v)); break;
	case 'T': if (r.flip()) osc_atom_u_setTrue(x); else osc_atom_u_setBool(x, r.range(1, 9)); break;
	case 'F': if (r.flip()) osc_atom_u_setFalse(x); else osc_atom_u_setBool(x, 0); break;
	case 'N': osc_atom_u_setNil(x); break;
	case '.': {
		if (r.flip()) osc_atom_u_setBndl_u(x, mk_bundle(r, *a.b));
		else { Str e = enc_bundle(*a.b); Exact b(e); if (r.flip()) osc_atom_u_setBndl(x, (long)b.n, b.p); else osc_atom_u_setBndl_s(x, (long)b.n, b.p); }
	} break;
	}
	return x;
}
void append_atom(Rng &r, t_osc_msg_u *m, const Atom &a) {
	if (r.chance(1, 4)) { osc_message_u_appendAtom(m, mk_atom(r, a)); return; }
	switch (a.t) {
	case 'c': osc_message_u_appendInt8(m, (int8_t)a.v); break;
	case 'C': osc_message_u_appendUInt8(m, (uint8_t)a.v); break;
	case 'u': osc_message_u_appendInt16(m, (int16_t)a.v); break;
	case 'U': osc_message_u_appendUInt16(m, (uint16_t)a.v); break;
	case 'i': osc_message_u_appendInt32(m, (int32_t)a.v); break;
	case 'I': osc_message_u_appendUInt32(m, (uint32_t)a.v); break;
	case 'h': osc_message_u_appendInt64(m, (int64_t)a.v); break;
	case 'H': osc_message_u_appendUInt64(m, a.v); break;
	case 'f': osc_message_u_appendFloat(m, atom_f(a)); break;
	case 'd': osc_message_u_appendDouble(m, atom_d(a)); break;
	case 's': osc_message_u_appendString(m, a.s.c_str()); break;
	case 'b': { Exact b(raw_blob(r, a)); osc_message_u_appendBlob(m, b.p); } break;
	case 't': osc_message_u_appendTimetag(m, mk_tt(a.v)); break;
	case 'T': if (r.flip()) osc_message_u_appendTrue(m); else osc_message_u_appendBool(m, r.range(1, 9)); break;
	case 'F': if (r.flip()) osc_message_u_appendFalse(m); else osc_message_u_appendBool(m, 0); break;
	case 'N': osc_message_u_appendNil(m); break;
	case '.':
		if (r.flip()) osc_message_u_appendBndl_u(m, mk_bundle(r, *a.b));
		else { Str e = enc_bundle(*a.b); Exact b(e); if (r.flip()) osc_message_u_appendBndl(m, (long)b.n, b.p); else osc_message_u_appendBndl_s(m, (long)b.n, b.p); }
		break;
	}
}
t_osc_msg_u *mk_msg(Rng &r, const Msg &m) {
	t_osc_msg_u *x;
	if (r.flip()) x = osc_message_u_allocWithAddress((char *)m.addr.c_str());
	else {
		x = osc_message_u_alloc();
		if (r.chance(1, 4)) osc_message_u_setAddress(x, "/to/be/replaced");
		else if (r.chance(1, 4)) osc_message_u_setAddress(x, "/t");
		osc_message_u_setAddress(x, m.addr.c_str());
	}
	for (auto &a : m.a) append_atom(r, x, a);
	return x;
}
t_osc_bndl_u *mk_bundle(Rng &r, const Bundle &b) {
	t_osc_bndl_u *x = osc_bundle_u_alloc();
	for (auto &m : b.m) {
		if (r.chance(1, 5)) { t_osc_msg_u *t = mk_msg(r, m); osc_bundle_u_addMsgCopy(x, t); osc_message_u_free(t); }
		else osc_bundle_u_addMsg(x, mk_msg(r, m));
	}
	return x;
}
t_osc_bndl_s *mk_bundle_s(const Str &bytes) {
	char *p = (char *)osc_mem_alloc(bytes.size());
	memcpy(p, bytes.data(), bytes.size());
	return osc_bundle_s_alloc((long)bytes.size(), p);
}
Atom rd_atom_u(t_osc_atom_u *a) {
	if (!a) fail("null-atom", "a NULL argument was returned");
	char t = osc_atom_u_getTypetag(a);
	switch (t) {
	case 'c': return A_c(osc_atom_u_getInt8(a));
	case 'C': return A_C(osc_atom_u_getUInt8(a));
	case 'u': return A_u(osc_atom_u_getInt16(a));
	case 'U': return A_U(osc_atom_u_getUInt16(a));
	case 'i': return A_i(osc_atom_u_getInt32(a));
	case 'I': return A_I(osc_atom_u_getUInt32(a));
	case 'h': return A_h(osc_atom_u_getInt64(a));
	case 'H': return A_H(osc_atom_u_getUInt64(a));
	case 'f': return A_f(osc_atom_u_getFloat(a));
	case 'd': return A_d(osc_atom_u_getDouble(a));
	case 's': return A_s(osc_atom_u_getStringPtr(a) ? osc_atom_u_getStringPtr(a) : "");
	case 'b': { char *p = osc_atom_u_getBlob(a); return A_b(p ? Str(p + 4, osc_atom_u_getBlobLen(a)) : Str()); }
	case 't': return A_t(tt_val(osc_atom_u_getTimetag(a)));
	case 'T': case 'F': case 'N': return A_tag(t);
	case '.': return A_bndl(rd_bundle_u(osc_atom_u_getBndl(a)));
	}
	return A_tag(t);
}
Msg rd_msg_u(t_osc_msg_u *m) {
	Msg x;
	char *ad = osc_message_u_getAddress(m);
	x.addr = ad ? ad : "";
	t_osc_msg_it_u *it = osc_message_iterator_u_getIterator(m);
	int guard = 0;
	while (osc_message_iterator_u_hasNext(it) && guard++ < 100000) x.a.push_back(rd_atom_u(osc_message_iterator_u_next(it)));
	osc_message_iterator_u_destroyIterator(it);
	return x;
}
Bundle rd_bundle_u(t_osc_bndl_u *b) {
	Bundle x;
	if (!b) fail("null-bundle", "a NULL bundle was returned");
	t_osc_bndl_it_u *it = osc_bundle_iterator_u_getIterator(b);
	int guard = 0;
	while (osc_bundle_iterator_u_hasNext(it) && guard++ < 100000) x.m.push_back(rd_msg_u(osc_bundle_iterator_u_next(it)));
	osc_bundle_iterator_u_destroyIterator(it);
	return x;
}
Atom rd_atom_s(t_osc_atom_s *a) {
	if (!a) fail("null-atom", "a NULL argument was returned");
	char t = osc_atom_s_getTypetag(a);
	switch (t) {
	case 'c': return A_c(osc_atom_s_getInt8(a));
	case 'C': return A_C(osc_atom_s_getUInt8(a));
	case 'u': return A_u(osc_atom_s_getInt16(a));
	case 'U': return A_U(osc_atom_s_getUInt16(a));
	case 'i': return A_i(osc_atom_s_getInt32(a));
	case 'I': return A_I(osc_atom_s_getUInt32(a));
	case 'h': return A_h(osc_atom_s_getInt64(a));
	case 'H': return A_H(osc_atom_s_getUInt64(a));
	case 'f': return A_f(osc_atom_s_getFloat(a));
	case 'd': return A_d(osc_atom_s_getDouble(a));
	case 's': { char *p = nullptr; osc_atom_s_getString(a, 0, &p); Str s = p ? p : ""; osc_mem_free(p); return A_s(s); }
	case 'b': { char *p = osc_atom_s_getBlob(a); return A_b(p ? Str(p + 4, osc_atom_s_getBlobLen(a)) : Str()); }
	case 't': return A_t(tt_val(osc_atom_s_getTimetag(a)));
	case '.': {
		t_osc_bndl_s *b = osc_atom_s_getBndl(a);
		if (!b) fail("null-nested", "the nested bundle of an argument was not returned");
		long len = osc_bundle_s_getLen(b);
		char *p = osc_bundle_s_getPtr(b);
		osc_bundle_s_free(b);
		return A_bndl(rd_bundle_s(len, p));
	}
	}
	return A_tag(t);
}
Msg rd_msg_s(t_osc_msg_s *m) {
	Msg x;
	char *ad = osc_message_s_getAddress(m);
	x.addr = ad ? ad : "";
	t_osc_msg_it_s *it = osc_message_iterator_s_getIterator(m);
	int guard = 0;
	while (osc_message_iterator_s_hasNext(it) && guard++ < 100000) x.a.push_back(rd_atom_s(osc_message_iterator_s_next(it)));
	osc_message_iterator_s_destroyIterator(it);
	return x;
}
Bundle rd_bundle_s(long len, char *p) {
	Bundle x;
	x.tt = tt_val(osc_bundle_s_getTimetag(len, p));
	t_osc_bndl_it_s *it = osc_bundle_iterator_s_getIterator(len, p);
	int guard = 0;
	while (osc_bundle_iterator_s_hasNext(it) && guard++ < 100000) x.m.push_back(rd_msg_s(osc_bundle_iterator_s_next(it)));
	osc_bundle_iterator_s_destroyIterator(it);
	return x;
}
Str bytes_of(t_osc_bndl_s *b) {
	if (!b) fail("null-bundle", "a NULL serialized bundle was returned");
	return Str(osc_bundle_s_getPtr(b), (size_t)osc_bundle_s_getLen(b));
}
Bundle must_decode(const Str &bytes, const char *what) {
	Bundle b;
	Str why;
	if (!dec_bundle(bytes, b, why)) fail(Str(what) + ":malformed", Str(what) + " is not a well-formed bundle: " + why + "; bytes " + hex(bytes));
	return b;
}
Str first_diff(const Str &a, const Str &b) {
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	return sf("lengths %zu and %zu, first difference at %zu: ", a.size(), b.size(), i) + hex(a.substr(i, 24)) + " vs " + hex(b.substr(i, 24));
}
std::vector<Str> addr_list(const Bundle &b) {
	std::vector<Str> v;
	for (auto &m : b.m) v.push_back(m.addr);
	return v;
}

// ---------------------------------------------------------------- main
static volatile long *progress_;
static int out_fd = -1;
static void hang(int) {
	static const char m[] = "{\"type\":\"hang\"}\n";
	if (write(out_fd, m, sizeof m - 1) < 0) {}
	_exit(77);
}
static int quiet_err(void *, const char *const) { return 0; }
static Str js(const Str &s) {
	Str o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) o += sf("\\u%04x", c);
		else o += c;
	}
	return o + "\"";
}

#ifndef VH_NO_MAIN
int main(int argc, char **argv) {
	uint64_t seed = 1;
	long start = 0, count = 1, stride = 1;
	Str out = "/dev/stderr", prog, only, hashes;
	bool thorough = false, list = false, verbose = false;
	for (int i = 1; i < argc; i++) {
		Str a = argv[i];
		auto nx = [&]() -> Str { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
		else if (a == "--start") start = atol(nx().c_str());
		else if (a == "--end") count = atol(nx().c_str());
		else if (a == "--stride") stride = atol(nx().c_str());
		else if (a == "--out") out = nx();
		else if (a == "--progress") prog = nx();
		else if (a == "--hashes") hashes = nx();
		else if (a == "--directed") only = nx();
		else if (a == "--thorough") thorough = true;
		else if (a == "--list") list = true;
		else if (a == "-v") verbose = true;
	}
	Suite &S = suite();
	if (list) { for (auto &d : S.directed) printf("%s\n", d.first.c_str()); return 0; }
	out_fd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (!prog.empty()) {
		int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
		if (ftruncate(fd, 64)) return 3;
		progress_ = (volatile long *)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	}
	if (!verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); }
	int ef = -1;
	(void)ef;
	osc_error_setHandler(quiet_err);
	mem::install();
	signal(SIGPROF, hang);
	std::map<Str, long> cov;
	std::vector<uint64_t> hs;
	long evals = 0, nontriv = 0, viols = 0, leaks = 0;
	long ndir = (long)S.directed.size();
	auto emit = [&](const Str &l) { if (write(out_fd, l.data(), l.size()) < 0) {} };
	int samples = 0;
	for (long i = start; i < count; i += stride) {
		Ctx c;
		c.idx = i;
		c.seed = seed;
		c.thorough = thorough;
		c.cov = &cov;
		if (!only.empty()) {
			bool f = false;
			for (long k = 0; k < ndir; k++) if (S.directed[k].first == only) { i = k; f = true; }
			if (!f) { fprintf(stderr, "no such directed case\n"); return 3; }
			count = i + 1;
		}
		c.idx = i;
		Str h = S.name;
		uint64_t hh = 0;
		for (char ch : h) hh = hh * 131 + (unsigned char)ch;
		c.rng.seed(i < ndir ? 7 : seed, hh, (uint64_t)i);
		if (i < ndir) c.directed = S.directed[i].first;
		if (progress_) progress_[0] = i + 1;
		struct itimerval tv = {{0, 0}, {20 * SLOW, 0}};
		setitimer(ITIMER_PROF, &tv, 0);
		long before = mem::live(), mk = mem::mark();
		Str key, detail;
		auto viol = [&](const Str &k, const Str &d) {
			// leaks belong to C20 only: they neither end a run early nor flood its log
			if (!k.compare(0, 5, "leak:")) { if (++leaks > 100) return; }
			else viols++;
			emit("{\"type\":\"viol\",\"case\":" + std::to_string(i) + ",\"directed\":" + js(c.directed) + ",\"key\":" + js(k) + ",\"detail\":" + js(d) + ",\"input\":" + js(c.input) + "}\n");
			if (verbose) fprintf(stderr, "VIOL case %ld %s: %s: %s\n  input: %s\n", i, c.directed.c_str(), k.c_str(), d.c_str(), c.input.c_str());
		};
		c.soft = viol;
		bool failed = false;
		try {
			if (i < ndir) S.directed[i].second(c);
			else S.random(c);
		} catch (Fail &f) {
			failed = true;
			viol(f.key, f.detail);
		}
		evals++;
#ifdef VH_VALGRIND
		static unsigned long errs;
		unsigned long now_errs = VALGRIND_COUNT_ERRORS;
		if (now_errs != errs) { VALGRIND_PRINTF("VHCASE %ld\n", i); viol("uninit", sf("%lu memcheck errors", now_errs - errs)); }
		errs = now_errs;
#endif
		Str me = mem::error();
		if (!failed && !me.empty()) { viol("allocator", me); failed = true; }
		if (!failed && S.leakcheck && !c.allow_leak) {
			long now = mem::live();
			if (now != before) { viol("leak:" + mem::leak_site(), sf("%ld blocks of the installed allocator not released:", now - before) + mem::describe_live(mk)); }
		}
		mem::reset();
		if (c.nontrivial) { nontriv++; hs.push_back(c.hash); }
		if (verbose) fprintf(stderr, "case %ld %s: %s\n", i, c.directed.c_str(), c.input.c_str());
		if (c.nontrivial && i >= ndir && samples < 3 && !c.input.empty()) { samples++; emit("{\"type\":\"sample\",\"case\":" + std::to_string(i) + ",\"input\":" + js(c.input.substr(0, 600)) + "}\n"); }
		if (viols > 200) break;
	}
	struct itimerval z = {{0, 0}, {0, 0}};
	setitimer(ITIMER_PROF, &z, 0);
	Str l = "{\"type\":\"end\",\"evals\":" + std::to_string(evals) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"allocs\":" + std::to_string(mem::total()) + ",\"cov\":{";
	bool first = true;
	for (auto &kv : cov) { l += (first ? "" : ",") + js(kv.first) + ":" + std::to_string(kv.second); first = false; }
	l += "}}\n";
	emit(l);
	if (!hashes.empty()) {
		FILE *f = fopen(hashes.c_str(), "wb");
		if (f) { fwrite(hs.data(), 8, hs.size(), f); fclose(f); }
	}
	if (progress_) progress_[0] = -1;
	if (__llvm_profile_write_file) __llvm_profile_write_file();
	_exit((viols || leaks) && verbose ? 1 : 0);
}
#endif
