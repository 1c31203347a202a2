// C21: the other suites' cases, each with its own independent oracle, run by several threads at once under ThreadSanitizer,
// together with readers of one shared bundle, expression, table and list.
#define VH_THREADS
#include <sys/time.h>
#include <time.h>
#include <list>
#include "progmodel.h"
#include "libmodel.h"
#include "hofmodel.h"
#include "refmatch.h"
extern "C" {
#include "osc_hashtab.h"
#include "osc_linkedlist.h"
#include "osc_atom_u.r"
#include "osc_atom_s.r"
#include "osc_dispatch.h"
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_vtable.h"
#include "osc_parser.h"
#include "osc_match.h"
#include "osc_expr.h"
#include "osc_expr_rec.h"
}
#include <atomic>
#include <thread>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
namespace n_wire {
#include "wire.cpp"
}
namespace n_hostile {
#include "hostile.cpp"
}
namespace n_match {
#include "match.cpp"
}
namespace n_lookup {
#include "lookup.cpp"
}
namespace n_algebra {
#include "algebra.cpp"
}
namespace n_edit {
#include "edit.cpp"
}
namespace n_conv {
#include "conv.cpp"
}
namespace n_text {
#include "text.cpp"
}
namespace n_bounded {
#include "bounded.cpp"
}
namespace n_flat {
#include "flat.cpp"
}
namespace n_dispatch {
#include "dispatch.cpp"
}
namespace n_contain {
#include "contain.cpp"
}
namespace n_timetag {
#include "timetag.cpp"
}
namespace n_expr {
#include "expr.cpp"
}
namespace n_prog {
#include "prog.cpp"
}
namespace n_lib {
#include "lib.cpp"
}
namespace n_hof {
#include "hof.cpp"
}
namespace n_fuzztext {
#include "fuzztext.cpp"
}
namespace n_tree {
#include "tree.cpp"
}
namespace n_catalog {
#include "catalog.cpp"
}

// the C library's lgamma() sets its global signgam, which nothing here reads
extern "C" const char *__tsan_default_suppressions() { return "race:lgamma\n"; }
static std::atomic<int> races; // reports so far
extern "C" void __tsan_on_report(void *) { races.fetch_add(1, std::memory_order_relaxed); }

// ---------------------------------------------------------------- what the threads share, read only
struct Shared {
	Bundle b;
	Str bytes, spec;          // its encoding and its text
	char *raw = nullptr;      // the serialized bundle
	t_osc_bndl_s *s = nullptr;
	t_osc_bndl_u *u = nullptr;
	t_osc_expr *expr = nullptr;
	Str expr_text;
	Bundle env;
	Run want;                 // what the expression gives, alone
	t_osc_hashtab *ht = nullptr;
	std::vector<Str> keys;
	std::vector<Str> pats;
	std::vector<std::vector<Str>> hits; // messages each pattern matches completely, alone
	Str text_s, text_u;
};
static int cval[64];

static Str looked_s(const Shared &s, const Str &pat) {
	t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress((long)s.bytes.size(), s.raw, pat.c_str(), 1);
	Str o;
	if (ar) { for (int i = 0; i < osc_message_array_s_getLen(ar); i++) { Msg m = rd_msg_s(osc_message_array_s_get(ar, i)); o += show(m) + "\n"; } osc_message_array_s_free(ar); }
	return o;
}
static Str looked_u(const Shared &s, const Str &pat) {
	t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(s.u, pat.c_str(), 1);
	Str o;
	if (ar) { for (int i = 0; i < osc_message_array_u_getLen(ar); i++) { Msg m = rd_msg_u(osc_message_array_u_get(ar, i)); o += show(m) + "\n"; } osc_message_array_u_free(ar); }
	return o;
}
static Str format_s(const Shared &s) { long n = osc_bundle_s_nformat(nullptr, 0, (long)s.bytes.size(), s.raw, 0); Str t(n + 1, 0); osc_bundle_s_nformat(&t[0], n + 1, (long)s.bytes.size(), s.raw, 0); t.resize(n); return t; }
static Str format_u(const Shared &s) { long n = osc_bundle_u_nformat(nullptr, 0, s.u, 0); Str t(n + 1, 0); osc_bundle_u_nformat(&t[0], n + 1, s.u, 0); t.resize(n); return t; }

static void make_shared_objects(Ctx &c, Shared &s) {
	Rng &r = c.rng;
	GenOpt o; o.max_msgs = 6; o.max_args = 4; o.max_depth = 2; o.nan = false;
	s.b = gen_bundle(r, o);
	s.bytes = enc_bundle(s.b);
	s.raw = (char *)osc_mem_alloc(s.bytes.size());
	memcpy(s.raw, s.bytes.data(), s.bytes.size());
	s.s = osc_bundle_s_alloc((long)s.bytes.size(), s.raw);
	s.u = mk_bundle(r, s.b);
	int np = r.range(1, 4);
	for (int i = 0; i < np; i++) {
		Str p = !s.b.m.empty() && r.chance(2, 3) ? s.b.m[r.below(s.b.m.size())].addr : gen_addr(r);
		if (r.chance(1, 2) && p.size() > 1) p[1 + r.below(p.size() - 1)] = r.flip() ? '*' : '?';
		s.pats.push_back(p);
	}
	// an expression and the bundle it is evaluated on
	s.env = gx_bundle(r, 1, 6);
	for (int tries = 0; tries < 20 && !s.expr; tries++) {
		PGen g(r, s.env, c);
		P n = r.flip() ? g.asg(2) : g.gen(r.range(1, 4), 0);
		fix(n);
		PI in; in.b = s.env;
		try { in.ev(n); } catch (EvErr &) { if (r.chance(3, 4)) continue; } catch (Unspec &) { continue; }
		s.expr_text = stmt(r, n, false);
		if (r.chance(1, 3)) s.expr_text = "/r = map(lambda([x], x * 2 + 1), [1, 2, 3]), " + s.expr_text;
		if (osc_expr_parser_parseExpr((char *)s.expr_text.c_str(), &s.expr, nullptr)) fail("parse", "the program was rejected: " + s.expr_text);
	}
	s.ht = osc_hashtab_new(r.range(1, 40), nullptr);
	int nk = r.range(1, 40);
	std::set<Str> seen;
	for (int i = 0; i < nk; i++) {
		Str k = gen_addr(r);
		if (!seen.insert(k).second) continue;
		char *key = (char *)osc_mem_alloc(k.size() + 1);
		strcpy(key, k.c_str());
		osc_hashtab_store(s.ht, (int)k.size(), key, &cval[s.keys.size()]);
		s.keys.push_back(k);
	}
}
static void drop_shared(Shared &s) {
	if (s.s) osc_bundle_s_deepFree(s.s);
	if (s.u) osc_bundle_u_free(s.u);
	if (s.expr) osc_expr_free(s.expr);
	if (s.ht) osc_hashtab_destroy(s.ht);
}
static const char *SHARED_KIND[] = {"read serialized", "read unserialized", "evaluate", "lookup serialized", "lookup unserialized", "format", "table", "copy", "function catalogue"};
static const int NSHARED = 9;
// reads the shared objects in one way; returns everything observed, to be compared with what one thread alone observes
static Str shared_read(const Shared &s, int kind, Rng &r) {
	Str o;
	switch (kind) {
	case 0: {
		Bundle x = rd_bundle_s((long)s.bytes.size(), s.raw);
		o = show(x);
		t_osc_bndl_u *d = osc_bundle_s_deserialize((long)s.bytes.size(), s.raw);
		if (d) { o += show(rd_bundle_u(d)); osc_bundle_u_free(d); }
		int n = 0;
		osc_bundle_s_getMsgCount((long)s.bytes.size(), s.raw, &n);
		o += sf(" %d", n);
	} break;
	case 1: {
		o = show(rd_bundle_u(s.u));
		t_osc_bndl_s *x = osc_bundle_u_serialize(s.u);
		if (x) { o += hex(bytes_of(x)); osc_bundle_s_deepFree(x); }
		int n = osc_bundle_u_getMsgCount(s.u);
		o += sf(" %d", n);
	} break;
	case 2: if (s.expr) {
		Run x;
		run_list(s.expr, enc_bundle(s.env), x);
		o = sf("%d ", x.eval) + showv(x.out) + hex(x.bytes);
	} break;
	case 3: for (auto &p : s.pats) o += p + ": " + looked_s(s, p); break;
	case 4: for (auto &p : s.pats) o += p + ": " + looked_u(s, p); break;
	case 5: o = format_s(s) + format_u(s); break;
	case 6: for (auto &k : s.keys) { void *v = osc_hashtab_lookup(s.ht, (int)k.size(), (char *)k.c_str()); o += sf("%d ", v ? (int)((int *)v - cval) : -1); } break;
	case 7: {
		t_osc_bndl_u *d = nullptr;
		osc_bundle_u_copy(&d, s.u);
		if (d) { o = show(rd_bundle_u(d)); osc_bundle_u_free(d); }
		if (s.expr) { t_osc_expr *e = nullptr; osc_expr_copy(&e, s.expr); Run x; run_list(e, enc_bundle(s.env), x); osc_expr_free(e); o += sf("%d ", x.eval) + showv(x.out); }
	} break;
	case 8: {
		static const char *fn[] = {"+", "sqrt", "map", "nosuchfunction", "nth", "settimetag", "if"};
		const char *f = fn[r.below(7)];
		t_osc_bndl_u *d = nullptr;
		osc_expr_getDocForFunction((char *)f, &d);
		if (d) { o = show(rd_bundle_u(d)); osc_bundle_u_free(d); }
		t_osc_bndl_s *cats = osc_expr_getCategories();
		if (cats) o += hex(bytes_of(cats));
		static const char *cn[] = {"/math/*", "/math/operator/*", "/string/*", "/core", "/doc/category/core/*"};
		long n = 0; char *p = nullptr;
		osc_expr_getFunctionsForCategory((char *)cn[r.below(5)], &n, &p);
		if (p) { o += hex(p, n); osc_mem_free(p); }
	} break;
	}
	return o;
}

// ---------------------------------------------------------------- jobs and threads
struct Sub { const char *name; Suite *s; };
static std::vector<Sub> &subs() {
	static std::vector<Sub> v = {{"wire", &n_wire::suite()}, {"hostile", &n_hostile::suite()}, {"match", &n_match::suite()}, {"lookup", &n_lookup::suite()}, {"algebra", &n_algebra::suite()}, {"edit", &n_edit::suite()},
		{"conv", &n_conv::suite()}, {"text", &n_text::suite()}, {"bounded", &n_bounded::suite()}, {"flat", &n_flat::suite()}, {"dispatch", &n_dispatch::suite()}, {"contain", &n_contain::suite()},
		{"timetag", &n_timetag::suite()}, {"expr", &n_expr::suite()}, {"prog", &n_prog::suite()}, {"lib", &n_lib::suite()}, {"hof", &n_hof::suite()}, {"fuzztext", &n_fuzztext::suite()}, {"tree", &n_tree::suite()}, {"catalog", &n_catalog::suite()}};
	return v;
}
struct Job { int kind; uint64_t seed; }; // kind < 18: a case of that suite; from 100: a reader of the shared objects
struct Worker {
	int id = 0;
	std::vector<Job> jobs;
	const Shared *sh = nullptr;
	uint64_t delay = 0;
	int delay_in = 0;                 // a delay every so many allocations on average
	std::map<Str, long> cov;
	std::set<std::pair<int, int>> met; // own kind, kind running in another thread at a delay
	std::vector<Str> got;             // what the readers observed
	std::vector<Str> inputs;
	Str key, detail;
	std::vector<long> tickets;
	long allocs = 0, yields = 0;
};
static std::atomic<long> ticket;
static std::atomic<int> running[16]; // what each thread is doing: relaxed, so that it orders nothing
static thread_local Worker *me;
static thread_local Rng *mydelay;
static void at_alloc() {
	me->allocs++;
	if (mydelay->below(me->delay_in)) return;
	me->yields++;
	for (int i = 0; i < 16; i++) if (i != me->id) { int k = running[i].load(std::memory_order_relaxed); if (k >= 0) me->met.insert({running[me->id].load(std::memory_order_relaxed), k}); }
	if (mydelay->chance(1, 8)) usleep((useconds_t)mydelay->below(60)); else sched_yield();
}
static void run_worker(Worker *w, bool alone) {
	me = w;
	Rng d; d.seed(w->delay, 3, w->id);
	mydelay = &d;
	mem::enter();
	if (!alone) mem::hook = at_alloc;
	for (auto &j : w->jobs) {
		running[w->id].store(j.kind, std::memory_order_relaxed);
		w->tickets.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
		Ctx c;
		c.cov = &w->cov;
		c.soft = [w](const Str &k, const Str &dd) { if (w->key.empty()) { w->key = k; w->detail = dd; } };
		try {
			if (j.kind >= 1000) { // one library function, again and again
				c.seed = j.seed;
				for (int i = 0; i < 24 && w->key.empty(); i++) { c.rng.seed(j.seed, 22, (uint64_t)i); c.input.clear(); n_lib::run_case(c, n_lib::names()[j.kind - 1000], 0); }
			} else if (j.kind >= 100) { Rng r; r.seed(j.seed, 1, 1); w->got.push_back(shared_read(*w->sh, j.kind - 100, r)); }
			else {
				c.rng.seed(j.seed, 21, (uint64_t)j.kind);
				c.seed = j.seed;
				c.idx = 1000;
				subs()[j.kind].s->random(c);
			}
		} catch (Fail &f) {
			if (w->key.empty()) { w->key = (j.kind < 100 ? Str(subs()[j.kind].name) + ":" : j.kind < 1000 ? Str("shared:") : Str("lib:")) + f.key; w->detail = f.detail + (c.input.empty() ? "" : "; input " + c.input.substr(0, 1500)); }
		}
		Str e = mem::error();
		if (!e.empty() && w->key.empty()) { w->key = "allocator"; w->detail = e; }
		w->tickets.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
		running[w->id].store(-1, std::memory_order_relaxed);
		w->inputs.push_back(c.input);
	}
	mem::hook = nullptr;
	if (!alone) mem::leave();
}
static void *thread_main(void *p) { run_worker((Worker *)p, false); return nullptr; }
static Str job_name(int k) { return k >= 1000 ? "function " + n_lib::names()[k - 1000] : k >= 100 ? Str("shared ") + SHARED_KIND[k - 100] : Str(subs()[k].name); }

static void random_case(Ctx &c, int one = -1) {
	Rng &r = c.rng;
	int T = r.range(2, 6);
	// threads of one case do few kinds of things, so that the same code runs in several of them
	std::vector<int> kinds;
	int nk = r.range(1, 3);
	for (int i = 0; i < nk; i++) kinds.push_back(r.chance(1, 8) ? 1000 + (int)r.below(n_lib::names().size()) : r.chance(1, 3) ? 100 + (int)r.below(NSHARED) : (int)r.below(subs().size()));
	if (one >= 0) kinds = {one};
	bool sh = false;
	std::vector<Worker> ws(T);
	Str desc = sf("%d threads:", T);
	for (int t = 0; t < T; t++) {
		Worker &w = ws[t];
		w.id = t;
		w.delay = r.u64();
		static const int din[] = {3, 10, 40, 200};
		w.delay_in = din[r.below(4)];
		int n = r.range(1, 4);
		for (int i = 0; i < n; i++) {
			int k = r.pick(kinds);
			bool same = t && !ws[0].jobs.empty() && r.chance(1, 4); // the very same work as another thread
			Job j = same ? ws[0].jobs[r.below(ws[0].jobs.size())] : Job{k, r.u64()};
			w.jobs.push_back(j);
			if (j.kind >= 100 && j.kind < 1000) sh = true;
			desc += (i ? "," : " ") + job_name(j.kind);
		}
	}
	c.in(desc + sf(" seed %llu", (unsigned long long)ws[0].delay));
	Shared s;
	if (sh) make_shared_objects(c, s);
	int before = races.load(std::memory_order_relaxed);
	for (int i = 0; i < 16; i++) running[i].store(-1, std::memory_order_relaxed);
	std::vector<pthread_t> th(T);
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 32u << 20);
	for (int t = 0; t < T; t++) { ws[t].sh = &s; if (pthread_create(&th[t], &at, thread_main, &ws[t])) { fprintf(stderr, "cannot make a thread\n"); _exit(3); } }
	for (int t = 0; t < T; t++) pthread_join(th[t], nullptr);
	pthread_attr_destroy(&at);
	// the order in which the threads' jobs began and ended
	std::vector<std::pair<long, int>> ord;
	long overl = 0;
	for (auto &w : ws) for (size_t i = 0; i < w.tickets.size(); i++) { ord.push_back({w.tickets[i], w.id}); if (i % 2 == 0 && i + 1 < w.tickets.size() && w.tickets[i + 1] - w.tickets[i] > 1) overl++; }
	std::sort(ord.begin(), ord.end());
	Str sch; for (auto &x : ord) sch += (char)('a' + x.second);
	c.h(sch);
	c.cover("jobs that overlapped another thread's", overl);
	c.cover("threads", T);
	for (auto &w : ws) {
		for (auto &j : w.jobs) c.cover("job:" + job_name(j.kind));
		for (auto &m : w.met) c.cover("concurrent:" + job_name(std::min(m.first, m.second)) + " with " + job_name(std::max(m.first, m.second)));
		c.cover("allocations inside the library", w.allocs);
		c.cover("delays injected inside the library", w.yields);
	}
	c.nontrivial = overl > 0;
	for (auto &w : ws) if (!w.key.empty()) fail(w.key, sf("in thread %d of %s: ", w.id, desc.c_str()) + w.detail);
	CHECK(races.load(std::memory_order_relaxed) == before, "race", "ThreadSanitizer reported a data race in " + desc);
	if (sh) { // alone, afterwards
		for (auto &w : ws) {
			size_t k = 0;
			for (auto &j : w.jobs) if (j.kind >= 100 && j.kind < 1000) {
				Rng rr; rr.seed(j.seed, 1, 1);
				Str alone = shared_read(s, j.kind - 100, rr);
				CHECK(k < w.got.size() && w.got[k] == alone, "shared:" + Str(SHARED_KIND[j.kind - 100]), "with other threads running: " + (k < w.got.size() ? w.got[k] : Str("nothing")) + "; alone: " + alone);
				k++;
			}
		}
		CHECK(Str(s.raw, s.bytes.size()) == s.bytes, "shared:changed", "reading changed the shared bundle");
		CHECK(show(rd_bundle_u(s.u)) == show(Bundle{0, s.b.m}), "shared:changed", "reading changed the shared bundle");
		drop_shared(s);
	}
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "threads";
		subs();
		for (size_t i = 0; i < subs().size(); i++) s.directed.push_back({Str("only ") + subs()[i].name, [i](Ctx &c) { for (int k = 0; k < 6; k++) random_case(c, (int)i); }});
		for (int i = 0; i < NSHARED; i++) s.directed.push_back({Str("only shared ") + SHARED_KIND[i], [i](Ctx &c) { for (int k = 0; k < 6; k++) random_case(c, 100 + i); }});
		for (size_t i = 0; i < n_lib::names().size(); i++) s.directed.push_back({"only function " + n_lib::names()[i], [i](Ctx &c) { for (int k = 0; k < 2; k++) random_case(c, 1000 + (int)i); }});
		s.random = [](Ctx &c) { random_case(c); };
		s.leakcheck = false;
		osc_error_setHandler(count_report);
	}
	return s;
}
