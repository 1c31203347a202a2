// Framework shared by all suites: deterministic cases, oracle failures, coverage counters,
// allocator monitor, and the independent OSC value model and codec.
#pragma once
#include <setjmp.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <utility>

#ifndef _Static_assert
#define restrict
#endif
extern "C" {
#include "osc.h"
#include "osc_mem.h"
#include "osc_util.h"
#include "osc_error.h"
#include "osc_byteorder.h"
#include "osc_array.h"
#include "osc_atom_s.h"
#include "osc_atom_u.h"
#include "osc_atom_array_s.h"
#include "osc_atom_array_u.h"
#include "osc_message_s.h"
#include "osc_message_u.h"
#include "osc_message_iterator_s.h"
#include "osc_message_iterator_u.h"
#include "osc_bundle_s.h"
#include "osc_bundle_u.h"
#include "osc_bundle_iterator_s.h"
#include "osc_bundle_iterator_u.h"
#include "osc_timetag.h"
#include "osc_strfmt.h"
}

typedef std::string Str;

struct Rng {
	uint64_t s[2];
	static uint64_t mix(uint64_t z) {
		z += 0x9E3779B97F4A7C15ull;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	void seed(uint64_t a, uint64_t b, uint64_t c) {
		s[0] = mix(a * 3 + mix(b * 5 + mix(c)));
		s[1] = mix(s[0] ^ 0xABCDEF);
	}
	uint64_t u64() {
		uint64_t a = s[0], b = s[1];
		s[0] = b;
		a ^= a << 23;
		s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
		return s[1] + b;
	}
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
	bool chance(int num, int den) { return (int)below(den) < num; }
	bool flip() { return u64() & 1; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	const char *pickc(const char *s) { return s + below(strlen(s)); }
};

struct Fail {
	Str key, detail;
};

struct Ctx {
	Rng rng;
	uint64_t seed = 1;
	long idx = 0;
	Str directed;      // name of the directed case, if it is one
	Str input;         // description of this case's input (for samples and replays)
	bool nontrivial = false;
	uint64_t hash = 1469598103934665603ull;
	bool thorough = false;
	int size_hint = 0;
	bool allow_leak = false;
	std::function<void(const Str &, const Str &)> soft; // non-fatal violation
	std::map<Str, long> *cov = nullptr;
	std::set<Str> *labels = nullptr;
	void cover(const Str &k, long n = 1) { (*cov)[k] += n; }
	void h(const void *p, size_t n) {
		const unsigned char *q = (const unsigned char *)p;
		for (size_t i = 0; i < n; i++) { hash ^= q[i]; hash *= 1099511628211ull; }
	}
	void h(const Str &s) { h(s.data(), s.size()); hash ^= 0xff; hash *= 1099511628211ull; }
	// describe the input: used for replays/samples and for counting distinct inputs
	void in(const Str &s) { h(s); if (input.size() < 3000) { if (!input.empty()) input += " | "; input += s; } }
};

[[noreturn]] void fail(const Str &key, const Str &detail);
#define CHECK(cond, key, detail) do { if (!(cond)) fail(key, detail); } while (0)

Str sf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
Str hex(const void *p, size_t n);
static inline Str hex(const Str &s) { return hex(s.data(), s.size()); }
Str q(const Str &s); // printable quoted

// ---------------------------------------------------------------- suite interface
struct Suite {
	const char *name = nullptr;
	std::vector<std::pair<Str, std::function<void(Ctx &)>>> directed;
	std::function<void(Ctx &)> random;
	bool leakcheck = true;
};
Suite &suite(); // defined by each suite file

// ---------------------------------------------------------------- allocator monitor
namespace mem {
void install();
void enter(); void leave();  // a further thread begins and ends
extern thread_local void (*hook)();
Str error();
long live();                 // live blocks obtained through the installed allocator
long total();                // allocations so far
bool owns(const void *p);
Str describe_live(long since, int max = 5);
void reset();                // forget all live blocks (after a failed case)
extern thread_local sigjmp_buf out_;        // where an abandoned case continues
void arm(size_t bytes, long blocks, size_t stack); void disarm(); void drop();
bool pause(); void resume(bool); // the monitor of an armed case does not spend
long mark();                 // sequence number for describe_live
}

// ---------------------------------------------------------------- OSC value model
struct Bundle;
struct Atom {
	char t = 'N';
	uint64_t v = 0;    // raw bits for numbers; 64-bit NTP for 't'
	Str s;             // 's' text, 'b' content
	std::shared_ptr<Bundle> b;
};
struct Msg {
	Str addr;
	std::vector<Atom> a;
};
struct Bundle {
	uint64_t tt = 0;
	std::vector<Msg> m;
};

bool operator==(const Atom &x, const Atom &y);
bool operator==(const Msg &x, const Msg &y);
bool operator==(const Bundle &x, const Bundle &y); // ignores time tags
inline bool operator!=(const Bundle &x, const Bundle &y) { return !(x == y); }
inline bool operator!=(const Msg &x, const Msg &y) { return !(x == y); }
inline bool operator!=(const Atom &x, const Atom &y) { return !(x == y); }

Atom A_i(int32_t v); Atom A_I(uint32_t v); Atom A_h(int64_t v); Atom A_H(uint64_t v);
Atom A_c(int8_t v); Atom A_C(uint8_t v); Atom A_u(int16_t v); Atom A_U(uint16_t v);
Atom A_f(float v); Atom A_d(double v); Atom A_s(const Str &s); Atom A_b(const Str &s);
Atom A_t(uint64_t ntp); Atom A_tag(char t); Atom A_bndl(const Bundle &b);
float atom_f(const Atom &a); double atom_d(const Atom &a);

Str show(const Atom &a);
Str show(const Msg &m);
Str show(const Bundle &b);

// independent encoder
Str enc_atom(const Atom &a);                  // data part only
Str enc_msg(const Msg &m);                    // without the size prefix
Str enc_bundle(const Bundle &b);              // whole packet
Str enc_bundle_untagged(const Bundle &b, Rng &r, int always); // messages without arguments may lack type tags
Str pad_str(const Str &s);
void put32(Str &o, uint32_t v);
void put64(Str &o, uint64_t v);
uint32_t get32(const char *p);
uint64_t get64(const char *p);

// strict independent decoder; returns false and a reason on any malformation
bool dec_bundle(const char *p, size_t n, Bundle &out, Str &why, int depth = 0);
inline bool dec_bundle(const Str &s, Bundle &out, Str &why) { return dec_bundle(s.data(), s.size(), out, why); }
// wire messages of a packet (size-prefixed slices), no strictness beyond sizes
std::vector<Str> wire_msgs(const Str &pkt);

// generators
struct GenOpt {
	Str types = "cCuUiIhHfdsbtTFN.";
	int max_msgs = 5, max_args = 5, max_depth = 2;
	bool dup_addrs = true;
	bool nan = true;
	bool text_safe_strings = false;
	bool header_tt = false;
	int empty_msg_pct = 15;
	Str alphabet;      // of strings; "" = any byte but NUL
	std::vector<Str> addr_pool;
};
Str gen_addr(Rng &r, int maxseg = 3);
Str gen_string(Rng &r, const GenOpt &o);
Atom gen_atom(Rng &r, const GenOpt &o, int depth = 0);
Msg gen_msg(Rng &r, const GenOpt &o, int depth = 0);
Bundle gen_bundle(Rng &r, const GenOpt &o, int depth = 0);

// building library objects from the model (rng selects among the equivalent construction routes)
t_osc_atom_u *mk_atom(Rng &r, const Atom &a);
void append_atom(Rng &r, t_osc_msg_u *m, const Atom &a); // through append<Type> or appendAtom
t_osc_msg_u *mk_msg(Rng &r, const Msg &m);
t_osc_bndl_u *mk_bundle(Rng &r, const Bundle &b);
t_osc_bndl_s *mk_bundle_s(const Str &bytes);             // deep copy owned by the result
t_osc_timetag mk_tt(uint64_t v);
uint64_t tt_val(t_osc_timetag t);

// exactly sized heap copy, to let ASan see any access outside it
struct Exact {
	char *p; size_t n;
	explicit Exact(const Str &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); if (!n) { free(p); p = (char *)malloc(0); } }
	~Exact() { free(p); }
	Exact(const Exact &) = delete;
	Str str() const { return Str(p, n); }
};

// reading library objects back through the public API
Atom rd_atom_u(t_osc_atom_u *a);
Msg rd_msg_u(t_osc_msg_u *m);
Bundle rd_bundle_u(t_osc_bndl_u *b);
Atom rd_atom_s(t_osc_atom_s *a);
Msg rd_msg_s(t_osc_msg_s *m);
Bundle rd_bundle_s(long len, char *ptr);
Str bytes_of(t_osc_bndl_s *b);
// checks that bytes are a well-formed bundle and returns the content
Bundle must_decode(const Str &bytes, const char *what);
Str first_diff(const Str &a, const Str &b);
std::vector<Str> addr_list(const Bundle &b);
