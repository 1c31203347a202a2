// C13: hash tables, linked lists, arrays and atom arrays against map, list and vector models.
#include "vh.h"
#include <list>
extern "C" {
#include "osc_hashtab.h"
#include "osc_linkedlist.h"
#include "osc_atom_u.r"
#include "osc_atom_s.r"
}

// ------------------------------------------------------------------ hash tables
struct Ent { char *key; long id; };           // what the table holds: the caller's key block and a value
static thread_local std::vector<std::pair<Str, long>> g_dtor; // destructor calls: key text and value id
struct Val { long id; };
static void dtor_log(char *k, void *v) { g_dtor.push_back({k, v ? ((Val *)v)->id : -1}); }
static void dtor_free(char *k, void *v) {
	g_dtor.push_back({k, v ? ((Val *)v)->id : -1});
	osc_mem_free(k);
	osc_mem_free(v);
}
static void rm_dtor(char *k, void *v) { g_dtor.push_back({Str("rm:") + k, v ? ((Val *)v)->id : -1}); }
static void rm_dtor_free(char *k, void *v) { rm_dtor(k, v); osc_mem_free(k); osc_mem_free(v); }
static void each(char *k, void *v, void *ctx) { ((std::vector<std::pair<Str, long>> *)ctx)->push_back({k, v ? ((Val *)v)->id : -1}); }

static Str elf_collider(Rng &r, const Str &k) {
	// same ELF hash: moving one up by one and the next down by sixteen leaves h*16+c unchanged
	Str o = k;
	if (o.size() < 2) return o;
	size_t i = r.below(o.size() - 1);
	if ((unsigned char)o[i] < 0x7e && (unsigned char)o[i + 1] > 0x31) { o[i]++; o[i + 1] -= 16; }
	else if ((unsigned char)o[i] > 0x31 && (unsigned char)o[i + 1] < 0x6e) { o[i]--; o[i + 1] += 16; }
	return o;
}
static Str gen_key(Rng &r, const std::vector<Str> &pool) {
	if (!pool.empty() && r.chance(1, 2)) return r.pick(pool);
	if (!pool.empty() && r.chance(1, 3)) return elf_collider(r, r.pick(pool));
	if (!pool.empty() && r.chance(1, 5)) { Str k = r.pick(pool); return r.flip() ? k + (char)('a' + r.below(3)) : k.substr(0, k.size() / 2); }
	Str k;
	int n = r.chance(1, 20) ? r.range(40, 300) : r.range(0, 12);
	for (int i = 0; i < n; i++) k += r.chance(1, 15) ? (char)(128 + r.below(128)) : (char)('0' + r.below(75));
	return k;
}
static Str show_ents(const std::vector<std::pair<Str, long>> &v) { Str o; for (auto &x : v) o += q(x.first.substr(0, 40)) + sf("=%ld ", x.second); return o.substr(0, 400); }

static void hashtab(Ctx &c, int nslots, int steps, int keys) {
	Rng &r = c.rng;
	bool own = r.flip(), nodtor = !own && r.chance(1, 3);
	t_osc_hashtab *ht = osc_hashtab_new(nslots, own ? dtor_free : nodtor ? nullptr : dtor_log);
	CHECK(ht, "ht:new", "osc_hashtab_new returned NULL");
	std::map<Str, long> M;
	std::list<Str> keep; std::list<Val> vals; // storage the table points into when it does not own it
	std::vector<Str> pool;
	for (int i = 0; i < keys; i++) pool.push_back(gen_key(r, pool));
	long next = 1;
	Str hist = sf("hashtab slots=%d own=%d", nslots, own);
	g_dtor.clear();
	auto lookup = [&](const Str &k) -> long {
		Exact e(k + Str(1, 0));
		void *v = osc_hashtab_lookup(ht, (int)k.size(), e.p);
		return v ? ((Val *)v)->id : -1;
	};
	for (int st = 0; st < steps; st++) {
		Str k = r.chance(9, 10) ? r.pick(pool) : gen_key(r, pool);
		int op = (int)r.below(20);
		std::vector<std::pair<Str, long>> want;
		auto it = M.find(k);
		if (op < 11) {
			bool safe = op >= 8;
			if (steps < 60) hist += safe ? " storeSafe " + q(k) : " store " + q(k);
			char *kp; Val *vp;
			if (own) { kp = (char *)osc_mem_alloc(k.size() + 1); memcpy(kp, k.c_str(), k.size() + 1); vp = (Val *)osc_mem_alloc(sizeof(Val)); }
			else { keep.push_back(k); kp = &keep.back()[0]; vals.push_back({0}); vp = &vals.back(); }
			vp->id = next++;
			if (safe) {
				osc_hashtab_storeSafe(ht, (int)k.size(), kp, vp);
				if (it == M.end()) M[k] = vp->id;
				else { if (own) { osc_mem_free(kp); osc_mem_free(vp); } c.cover("ht-safe-duplicate"); }
			} else {
				osc_hashtab_store(ht, (int)k.size(), kp, vp);
				if (it != M.end()) { if (!nodtor) want.push_back({k, it->second}); it->second = vp->id; c.cover("ht-overwrite"); }
				else M[k] = vp->id;
			}
		} else if (op < 15) {
			bool d = own || r.flip();
			if (steps < 60) hist += " remove " + q(k);
			Exact e(k + Str(1, 0));
			osc_hashtab_remove(ht, (int)k.size(), e.p, d ? (own ? rm_dtor_free : rm_dtor) : nullptr);
			if (it != M.end()) { if (d) want.push_back({"rm:" + k, it->second}); M.erase(it); c.cover("ht-remove"); }
			else c.cover("ht-remove-missing");
		} else if (op < 18) {
			long got = lookup(k);
			long w = it == M.end() ? -1 : it->second;
			CHECK(got == w, "ht:lookup", hist + sf(": lookup of %s gave value %ld, expected %ld", q(k).c_str(), got, w));
			c.cover(w < 0 ? "ht-lookup-missing" : "ht-lookup-found");
		} else if (op == 18) {
			std::vector<std::pair<Str, long>> got, w(M.begin(), M.end());
			osc_hashtab_foreach(ht, each, &got);
			std::sort(got.begin(), got.end());
			CHECK(got == w, "ht:foreach", hist + ": foreach saw " + show_ents(got) + ", live entries " + show_ents(w));
			c.cover("ht-foreach");
		} else if (r.chance(1, 4)) {
			hist += " clear";
			if (!nodtor) want.assign(M.begin(), M.end());
			osc_hashtab_clear(ht);
			M.clear();
			c.cover("ht-clear");
		}
		std::sort(g_dtor.begin(), g_dtor.end());
		CHECK(g_dtor == want, "ht:dtor", hist + ": destructor calls " + show_ents(g_dtor) + ", expected " + show_ents(want));
		g_dtor.clear();
		if (st % 8 == 0 || steps < 60) for (auto &kk : {k, r.pick(pool)}) {
			long got = lookup(kk), w = M.count(kk) ? M[kk] : -1;
			CHECK(got == w, "ht:lookup", hist + sf(": lookup of %s gave value %ld, expected %ld", q(kk).c_str(), got, w));
		}
	}
	for (auto &kv : M) CHECK(lookup(kv.first) == kv.second, "ht:lookup", hist + sf(": lookup of %s gave value %ld, expected %ld", q(kv.first).c_str(), lookup(kv.first), kv.second));
	std::vector<std::pair<Str, long>> got, w(M.begin(), M.end());
	osc_hashtab_foreach(ht, each, &got);
	std::sort(got.begin(), got.end());
	CHECK(got == w, "ht:foreach", hist + ": foreach saw " + show_ents(got) + ", live entries " + show_ents(w));
	osc_hashtab_destroy(ht);
	if (nodtor) w.clear();
	std::sort(g_dtor.begin(), g_dtor.end());
	CHECK(g_dtor == w, "ht:destroy", hist + ": destroying called the destructor for " + show_ents(g_dtor) + ", live entries " + show_ents(w));
	c.in(hist + sf(" %d", (int)M.size()));
	c.nontrivial = true;
	c.cover("hashtab-steps", steps);
}

// ------------------------------------------------------------------ linked lists
static thread_local std::vector<long> g_ll;
static void ll_dtor(void *p) { g_ll.push_back(((Val *)p)->id); osc_mem_free(p); }
static void ll_copy(void **d, void *s) { Val *v = (Val *)osc_mem_alloc(sizeof(Val)); v->id = ((Val *)s)->id + 1000000; *d = v; }
struct Walk { std::vector<long> id; std::vector<int> idx; int ends = 0; bool after = false; };
static void ll_cb(void *ctx, int i, void *d) {
	Walk *w = (Walk *)ctx;
	if (i == -1 && !d) { w->ends++; return; }
	if (w->ends) w->after = true;
	w->idx.push_back(i);
	w->id.push_back(d ? ((Val *)d)->id : -7);
}
// a callback that takes the element it is given off the list
struct Eat { t_osc_linkedlist *ll; std::vector<long> id; int ends = 0; };
static void ll_eat(void *ctx, int i, void *d) {
	Eat *e = (Eat *)ctx;
	if (i == -1 && !d) { e->ends++; return; }
	e->id.push_back(((Val *)d)->id);
	if (osc_linkedlist_peekHead(e->ll) == d) osc_mem_free(osc_linkedlist_popHead(e->ll));
}
static Str show_l(const std::vector<long> &v) { Str o; for (long x : v) o += sf("%ld ", x); return o.substr(0, 300); }
static void ll_check(t_osc_linkedlist *ll, const std::vector<long> &m, const Str &h) {
	CHECK(osc_linkedlist_getCount(ll) == m.size(), "ll:count", h + sf(": count %lu, expected %zu", osc_linkedlist_getCount(ll), m.size()));
	Walk w;
	osc_linkedlist_iterate(ll, ll_cb, &w);
	CHECK(w.id == m, "ll:iterate", h + ": iterated " + show_l(w.id) + ", expected " + show_l(m));
	CHECK(w.ends == 1 && !w.after, "ll:end", h + sf(": %d end-of-list calls", w.ends));
	for (size_t i = 0; i < w.idx.size(); i++) CHECK(w.idx[i] == (int)i, "ll:index", h + sf(": element %zu given index %d", i, w.idx[i]));
	Val *p = (Val *)osc_linkedlist_peekHead(ll), *t = (Val *)osc_linkedlist_peekTail(ll);
	CHECK((p ? p->id : -1) == (m.empty() ? -1 : m.front()), "ll:head", h + ": wrong head");
	CHECK((t ? t->id : -1) == (m.empty() ? -1 : m.back()), "ll:tail", h + ": wrong tail");
	for (int i = -1; i <= (int)m.size() + 1; i++) {
		Val *v = (Val *)osc_linkedlist_peekNth(ll, i);
		long want = i == -1 ? (m.empty() ? -1 : m.back()) : i < (int)m.size() ? m[i] : -1;
		CHECK((v ? v->id : -1) == want, "ll:nth", h + sf(": peekNth(%d) gave %ld, expected %ld", i, v ? v->id : -1, want));
	}
}
static void linkedlist(Ctx &c, int steps) {
	Rng &r = c.rng;
	t_osc_linkedlist *ll = osc_linkedlist_new(ll_dtor);
	CHECK(ll, "ll:new", "osc_linkedlist_new returned NULL");
	std::vector<long> m;
	std::vector<std::pair<t_osc_linkedlist *, std::vector<long>>> clones;
	long next = 1;
	Str h = "list";
	g_ll.clear();
	auto mk = [&]() { Val *v = (Val *)osc_mem_alloc(sizeof(Val)); v->id = next++; return v; };
	if (steps > 500 && r.flip()) for (int i = r.range(100, 600); i > 0; i--) { if (r.chance(1, 3)) { osc_linkedlist_prepend(ll, mk()); m.insert(m.begin(), next - 1); } else { osc_linkedlist_append(ll, mk()); m.push_back(next - 1); } }
	for (int st = 0; st < steps; st++) {
		int op = (int)r.below(20);
		Val *got = nullptr;
		long want = -1;
		bool pop = false;
		if (op < 5) { h += " append"; osc_linkedlist_append(ll, mk()); m.push_back(next - 1); }
		else if (op < 9) { h += " prepend"; osc_linkedlist_prepend(ll, mk()); m.insert(m.begin(), next - 1); }
		else if (op < 11) { h += " popHead"; pop = true; got = (Val *)osc_linkedlist_popHead(ll); if (!m.empty()) { want = m[0]; m.erase(m.begin()); } }
		else if (op < 13) { h += " popTail"; pop = true; got = (Val *)osc_linkedlist_popTail(ll); if (!m.empty()) { want = m.back(); m.pop_back(); } }
		else if (op < 17) {
			int n = r.range(-1, (int)m.size() + (r.chance(1, 4) ? 3 : 0));
			h += sf(" popNth(%d)", n);
			pop = true;
			got = (Val *)osc_linkedlist_popNth(ll, n);
			if (n == -1 && !m.empty()) { want = m.back(); m.pop_back(); }
			else if (n >= 0 && n < (int)m.size()) { want = m[n]; m.erase(m.begin() + n); c.cover("ll-pop-middle"); }
			else c.cover("ll-pop-out-of-range");
		} else if (op == 17) { h += " append(NULL)"; if (r.flip()) osc_linkedlist_append(ll, nullptr); else osc_linkedlist_prepend(ll, nullptr); }
		else if (op == 18 && r.chance(1, 3)) {
			h += " clear";
			osc_linkedlist_clear(ll);
			CHECK(g_ll == m, "ll:dtor", h + ": destroyed " + show_l(g_ll) + ", held " + show_l(m));
			g_ll.clear();
			m.clear();
		} else if (op == 19 && clones.size() < 3) {
			h += " clone";
			auto w = m;
			for (auto &x : w) x += 1000000;
			clones.push_back({osc_linkedlist_clone(ll, ll_copy), w});
			ll_check(clones.back().first, w, h + " (clone)");
			c.cover("ll-clone");
		}
		if (pop) { CHECK((got ? got->id : -1) == want, "ll:pop", h + sf(": popped %ld, expected %ld", got ? got->id : -1, want)); osc_mem_free(got); }
		CHECK(g_ll.empty(), "ll:dtor", h + ": unexpected destructor call");
		if (steps < 80 || st % 16 == 0) ll_check(ll, m, h.size() > 600 ? "..." + h.substr(h.size() - 600) : h);
	}
	ll_check(ll, m, "at the end");
	if (r.chance(1, 8)) {
		Eat e{ll, {}, 0};
		osc_linkedlist_iterate(ll, ll_eat, &e);
		CHECK(e.id == m && e.ends == 1, "ll:iterate", "an iteration that takes off what it is given saw " + show_l(e.id) + ", the list held " + show_l(m));
		m.clear();
		ll_check(ll, m, "after an iteration that took off everything");
		CHECK(g_ll.empty(), "ll:dtor", "unexpected destructor call");
		c.cover("ll-eat");
	}
	osc_linkedlist_destroy(ll);
	CHECK(g_ll == m, "ll:destroy", h + ": destroyed " + show_l(g_ll) + ", held " + show_l(m));
	g_ll.clear();
	for (auto &x : clones) {
		ll_check(x.first, x.second, "clone after its original is gone");
		osc_linkedlist_destroy(x.first);
		CHECK(g_ll == x.second, "ll:destroy", h + ": clone destroyed " + show_l(g_ll) + ", held " + show_l(x.second));
		g_ll.clear();
	}
	c.in(h.substr(0, 500));
	c.nontrivial = true;
	c.cover("list-steps", steps);
}

// ------------------------------------------------------------------ raw arrays
struct RA { t_osc_array *a; std::vector<Str> m; };
// the arrays of messages and bundles have functions of their own for the same operations
struct AF {
	const char *name; size_t ms;
	t_osc_array *(*alloc)(long, size_t); void (*free)(t_osc_array *), (*clear)(t_osc_array *); void *(*get)(t_osc_array *, long); long (*len)(t_osc_array *); t_osc_array *(*copy)(t_osc_array *); t_osc_err (*resize)(t_osc_array *, long);
};
#define AFUNS(P, T, SZ, RESIZE) { #P, SZ, [](long n, size_t) -> t_osc_array * { return (t_osc_array *)P##_alloc(n); }, [](t_osc_array *a) { P##_free((T *)a); }, [](t_osc_array *a) { P##_clear((T *)a); }, \
	[](t_osc_array *a, long i) -> void * { return (void *)P##_get((T *)a, i); }, [](t_osc_array *a) -> long { return P##_getLen((T *)a); }, [](t_osc_array *a) -> t_osc_array * { return (t_osc_array *)P##_copy((T *)a); }, \
	[](t_osc_array *a, long n) -> t_osc_err { RESIZE; } }
static const AF &afuns(Rng &r) {
	static const AF plain = { "osc_array", 0, [](long n, size_t ms) { return osc_array_allocWithSize(n, ms); }, [](t_osc_array *a) { osc_array_free(a); }, [](t_osc_array *a) { osc_array_clear(a); }, [](t_osc_array *a, long i) -> void * { return osc_array_get(a, i); }, [](t_osc_array *a) -> long { return osc_array_getLen(a); }, [](t_osc_array *a) { return osc_array_copy(a); }, [](t_osc_array *a, long n) -> t_osc_err { return osc_array_resize(a, n); } };
	static const AF other[] = {
		AFUNS(osc_message_array_s, t_osc_message_array_s, osc_message_s_getStructSize(), osc_message_array_s_resize((t_osc_message_array_s *)a, n); return OSC_ERR_NONE),
		AFUNS(osc_bundle_array_s, t_osc_bundle_array_s, osc_bundle_s_getStructSize(), return osc_bundle_array_s_resize((t_osc_bundle_array_s *)a, n)),
		AFUNS(osc_bundle_array_u, t_osc_bundle_array_u, osc_bundle_u_getStructSize(), return osc_bundle_array_u_resize((t_osc_bundle_array_u *)a, n)),
		AFUNS(osc_message_array_u, t_osc_msg_ar_u, osc_message_u_getStructSize(), return osc_message_array_u_resize((t_osc_msg_ar_u *)a, n)),
	};
	return r.flip() ? plain : other[r.below(4)];
}
static void ra_check(const AF &f, const RA &x, size_t ms, const Str &h) {
	CHECK(f.len(x.a) == (long)x.m.size(), "ar:len", h + sf(": length %ld, expected %zu", f.len(x.a), x.m.size()));
	for (size_t i = 0; i < x.m.size(); i++) {
		char *p = (char *)f.get(x.a, (long)i);
		CHECK(p && Str(p, ms) == x.m[i], "ar:elem", h + sf(": element %zu is %s, expected %s", i, p ? hex(p, ms).c_str() : "NULL", hex(x.m[i]).c_str()));
	}
	for (long i : {-1l, -5l, (long)x.m.size(), (long)x.m.size() + 7}) CHECK(!f.get(x.a, i), "ar:range", h + sf(": get(%ld) of %zu elements is not NULL", i, x.m.size()));
}
static void array(Ctx &c, int steps) {
	Rng &r = c.rng;
	static const size_t sizes[] = {1, 2, 4, 8, 24, 3, 40};
	const AF &f = afuns(r);
	size_t ms = f.ms ? f.ms : sizes[r.below(7)];
	Str zero(ms, 0), h = sf("%s of %zu bytes", f.name, ms);
	c.cover(f.name);
	std::vector<RA> v;
	auto fresh = [&](int n) { RA x; x.a = f.alloc(n, ms); x.m.assign(n, zero); v.push_back(x); };
	auto rnd = [&]() { Str s; for (size_t i = 0; i < ms; i++) s += (char)r.u64(); return s; };
	fresh(r.range(0, 12));
	h += sf(" [%zu]", v[0].m.size());
	for (int st = 0; st < steps; st++) {
		size_t k = r.below(v.size());
		RA &x = v[k];
		switch (r.below(7)) {
		case 0: case 1: {
			if (x.m.empty()) break;
			size_t i = r.below(x.m.size());
			x.m[i] = rnd();
			memcpy(f.get(x.a, (long)i), x.m[i].data(), ms);
			break;
		}
		case 2: {
			int n = r.chance(1, 6) ? 0 : r.chance(1, 8) ? r.range(100, 3000) : r.range(0, 20);
			h += sf(" resize#%zu(%d)", k, n);
			t_osc_err e = f.resize(x.a, n);
			CHECK(e == OSC_ERR_NONE, "ar:resize", h + sf(": error %ld", (long)e));
			x.m.resize(n, zero);
			c.cover(n ? "ar-resize" : "ar-resize-to-none");
			break;
		}
		case 3: {
			if (v.size() > 4) break;
			h += sf(" copy#%zu", k);
			RA y; y.a = f.copy(x.a); y.m = x.m;
			CHECK(y.a, "ar:copy", h + ": NULL");
			v.push_back(y);
			break;
		}
		case 4: {
			size_t d = r.below(v.size() + 1);
			if (d == k) break;
			int off = r.range(0, 6);
			if (d < v.size() && r.flip()) off = (int)r.below(v[d].m.size() + 3);
			h += sf(" copyInto#%zu(#%zu,+%d)", d, k, off);
			auto src = x.m; // x may move
			t_osc_array *sa = x.a;
			if (d == v.size()) { RA y; y.a = nullptr; v.push_back(y); }
			RA &y = v[d];
			t_osc_err e = osc_array_copyInto(&y.a, sa, off);
			CHECK(e == OSC_ERR_NONE && y.a, "ar:copyinto", h + sf(": error %ld", (long)e));
			if (y.m.size() < src.size() + off) y.m.resize(src.size() + off, zero);
			std::copy(src.begin(), src.end(), y.m.begin() + off);
			c.cover("ar-copyinto");
			break;
		}
		case 5: {
			if (!r.chance(1, 4)) break;
			h += sf(" clear#%zu", k);
			f.clear(x.a);
			x.m.assign(x.m.size(), zero);
			break;
		}
		case 6: {
			t_osc_array *o = osc_array_allocWithSize(2, ms + 1), *oo = o;
			t_osc_err e = osc_array_copyInto(&oo, x.a, 0);
			CHECK(e != OSC_ERR_NONE && oo == o && osc_array_getLen(o) == 2, "ar:membersize", h + ": copying into an array of other element size was accepted");
			osc_array_free(o);
			if (v.size() < 6) fresh(r.range(0, 9));
			break;
		}
		}
		for (auto &y : v) ra_check(f, y, ms, h);
	}
	for (auto &y : v) { f.clear(y.a); f.free(y.a); } // freeing an array of messages frees what its elements point to
	c.in(h);
	c.nontrivial = true;
	c.cover("array-steps", steps);
}

// ------------------------------------------------------------------ atom arrays
static const char *AT = "cCuUiIhHfdsTFNt";
static Atom rnd_atom(Rng &r) {
	GenOpt o;
	o.types = AT;
	o.nan = false;
	o.alphabet = "abcXYZ 019.-_";
	Atom a = gen_atom(r, o);
	if (strchr("cC", a.t) && !(a.v & 0xff)) a = a.t == 'c' ? A_c(65) : A_C(65); // its text would hold a NUL
	if (a.t == 's' && r.chance(1, 12)) a.s = Str(r.range(200, 700), 'q') + "end";
	if (a.t == 's' && r.chance(1, 4)) a.s = sf("%d", r.range(-300, 300));
	if (a.t == 's' && r.chance(1, 4)) a.s = sf("%lu", (unsigned long)(r.u64() >> r.range(0, 60)));
	// mostly within what integers hold, and often only within the larger of them
	if (strchr("fd", a.t) && r.chance(2, 3)) { double x = (double)(r.u64() >> r.range(0, 60)) / r.range(1, 3); if (r.chance(1, 5)) x = -x; a = a.t == 'f' ? A_f((float)x) : A_d(x); }
	return a;
}
// whether every floating-point element lies strictly between two bounds: else its conversion is undefined in C
static bool fits(const std::vector<Atom> &m, double lo, double hi) {
	for (auto &a : m) {
		double x = 0;
		if (a.t == 'f') { uint32_t b = (uint32_t)a.v; float f; memcpy(&f, &b, 4); x = f; }
		else if (a.t == 'd') memcpy(&x, &a.v, 8);
		if (!(x > lo && x < hi)) return false;
	}
	return true;
}
// what a getter gives for this atom on its own (C08 judges the getters; here only that arrays agree with them)
template <class T, class A, class F, class G> static void typed(Ctx &c, t_osc_array *ar, F arr, G one, const Str &what, const Str &h) {
	long n = osc_array_getLen(ar);
	for (int pre = 0; pre < 2; pre++) {
		T *out = pre ? (T *)osc_mem_alloc(sizeof(T) * (n ? n : 1)) : nullptr;
		T *was = out;
		t_osc_err e = arr(ar, &out);
		CHECK(e == OSC_ERR_NONE && (out || !n), "conv:" + what, h + sf(": error %ld", (long)e));
		CHECK(!pre || out == was, "conv:" + what, h + ": a given buffer was replaced");
		for (long i = 0; i < n; i++) {
			T w = (T)one((A *)osc_array_get(ar, i));
			CHECK(!memcmp(&w, &out[i], sizeof w), "conv:" + what, h + sf(": element %ld differs from reading the atom", i));
		}
		if (out) osc_mem_free(out);
	}
	c.cover("conversions");
}
static void check_u(t_osc_atom_array_u *a, const std::vector<Atom> &m, const Str &h) {
	CHECK(osc_atom_array_u_getLen((t_osc_array *)a) == (long)m.size(), "au:len", h + sf(": length %ld, expected %zu", osc_array_getLen((t_osc_array *)a), m.size()));
	for (size_t i = 0; i < m.size(); i++) {
		t_osc_atom_u *x = (t_osc_atom_u *)osc_atom_array_u_get((t_osc_array *)a, (long)i);
		CHECK(x, "au:get", h + sf(": element %zu is NULL", i));
		if (!m[i].t) continue; // never set
		Atom g = rd_atom_u(x);
		CHECK(g == m[i], "au:elem", h + sf(": element %zu is %s, expected %s", i, show(g).c_str(), show(m[i]).c_str()));
	}
	CHECK(!osc_atom_array_u_get((t_osc_array *)a, (long)m.size()) && !osc_atom_array_u_get((t_osc_array *)a, -1), "au:range", h + ": out-of-range get");
}
static void strings(Ctx &c, t_osc_atom_array_u *a, const std::vector<Atom> &m, const Str &h) {
	Rng &r = c.rng;
	static const char *seps[] = {nullptr, "", " ", ",", ", ", "<separator>", "-------------------------------------------------------------------------------------------------------------------------------"};
	const char *sep = seps[r.below(7)];
	Str want;
	for (size_t i = 0; i < m.size(); i++) {
		t_osc_atom_u *x = (t_osc_atom_u *)osc_atom_array_u_get((t_osc_array *)a, (long)i);
		char *s = nullptr;
		osc_atom_u_getString(x, 0, &s);
		if (s) want += s;
		osc_mem_free(s);
		if (sep) want += sep;
	}
	for (int pre = 0; pre < 2; pre++) {
		long len = pre ? (r.flip() ? r.range(1, 20) : (long)want.size() + r.range(-3, 3)) : r.range(0, 500);
		if (pre && len < 1) len = 1;
		char *out = pre ? (char *)osc_mem_alloc(len) : nullptr;
		long given = len;
		t_osc_err e = osc_atom_array_u_getStringArray((t_osc_array *)a, &len, &out, sep);
		CHECK(e == OSC_ERR_NONE && out, "au:strings", h + sf(": error %ld", (long)e));
		Str g(out);
		CHECK(g == want, "au:strings", h + sf(": joined with %s (given %ld bytes): ", sep ? q(sep).c_str() : "nothing", pre ? given : -1l) + q(g.substr(0, 200)) + ", expected " + q(want.substr(0, 200)));
		CHECK(len == (long)want.size() + 1, "au:stringslen", h + sf(": reported length %ld, expected %zu", len, want.size() + 1));
		osc_mem_free(out);
		c.cover("string-joins");
	}
}
static void atoms_u(Ctx &c, int steps) {
	Rng &r = c.rng;
	struct AU { t_osc_atom_array_u *a; std::vector<Atom> m; };
	std::vector<AU> v;
	Atom unset; unset.t = 0;
	Str h = "atom array";
	auto fill = [&](AU &x, size_t i) {
		Atom a = rnd_atom(r);
		t_osc_atom_u *s = mk_atom(r, a), *d = (t_osc_atom_u *)osc_atom_array_u_get((t_osc_array *)x.a, (long)i);
		osc_atom_u_copyInto(&d, s);
		osc_atom_u_free(s);
		x.m[i] = a;
	};
	auto fresh = [&](int n) { AU x; x.a = osc_atom_array_u_alloc(n); x.m.assign(n, unset); for (int i = 0; i < n; i++) fill(x, i); v.push_back(x); };
	fresh(r.chance(1, 8) ? r.range(30, 90) : r.range(0, 9));
	for (auto &a : v[0].m) h += " " + show(a).substr(0, 40);
	for (int st = 0; st < steps; st++) {
		size_t k = r.below(v.size());
		switch (r.below(7)) {
		case 0: if (!v[k].m.empty()) { size_t i = r.below(v[k].m.size()); fill(v[k], i); h += sf(" set#%zu[%zu]=%s", k, i, show(v[k].m[i]).substr(0, 40).c_str()); } break;
		case 1: {
			if (v.size() > 4) break;
			h += sf(" copy#%zu", k);
			AU y; y.a = osc_atom_array_u_copy(v[k].a); y.m = v[k].m;
			v.push_back(y);
			c.cover("au-copy");
			break;
		}
		case 2: {
			size_t d = r.below(v.size() + 1);
			if (d == k) break;
			int off = r.range(0, 4);
			if (d < v.size() && r.flip()) off = (int)r.below(v[d].m.size() + 2);
			h += sf(" copyInto#%zu(#%zu,+%d)", d, k, off);
			auto src = v[k].m;
			if (d == v.size()) { AU y; y.a = nullptr; v.push_back(y); }
			AU &y = v[d];
			t_osc_err e = osc_atom_array_u_copyInto(&y.a, v[k].a, off);
			CHECK(e == OSC_ERR_NONE && y.a, "au:copyinto", h + sf(": error %ld", (long)e));
			size_t was = y.m.size();
			if (was < src.size() + off) y.m.resize(src.size() + off, unset);
			std::copy(src.begin(), src.end(), y.m.begin() + off);
			for (size_t i = was; i < (size_t)off && i < y.m.size(); i++) fill(y, i);
			c.cover("au-copyinto");
			break;
		}
		case 3: {
			size_t n = r.range(0, 12), was = v[k].m.size();
			h += sf(" resize#%zu(%zu)", k, n);
			for (size_t i = n; i < was; i++) osc_atom_u_clear((t_osc_atom_u *)osc_atom_array_u_get((t_osc_array *)v[k].a, (long)i));
			t_osc_err e = osc_atom_array_u_resize((t_osc_array *)v[k].a, (int)n);
			CHECK(e == OSC_ERR_NONE, "au:resize", h + sf(": error %ld", (long)e));
			v[k].m.resize(n, unset);
			for (size_t i = was; i < n; i++) fill(v[k], i);
			c.cover("au-resize");
			break;
		}
		case 4: strings(c, v[k].a, v[k].m, h); break;
		case 5: {
			t_osc_array *a = (t_osc_array *)v[k].a;
			if (fits(v[k].m, -0x1p31, 0x1p31)) typed<int32_t, t_osc_atom_u>(c, a, osc_atom_array_u_getInt32Array, osc_atom_u_getInt32, "u-int32", h);
			if (fits(v[k].m, -0x1p63, 0x1p63)) typed<int64_t, t_osc_atom_u>(c, a, osc_atom_array_u_getInt64Array, osc_atom_u_getInt64, "u-int64", h);
			if (fits(v[k].m, -1, 0x1p32)) typed<uint32_t, t_osc_atom_u>(c, a, osc_atom_array_u_getUInt32Array, osc_atom_u_getUInt32, "u-uint32", h);
			if (fits(v[k].m, -1, 0x1p64)) typed<uint64_t, t_osc_atom_u>(c, a, osc_atom_array_u_getUInt64Array, osc_atom_u_getUInt64, "u-uint64", h);
			typed<double, t_osc_atom_u>(c, a, osc_atom_array_u_getDoubleArray, osc_atom_u_getDouble, "u-double", h);
			typed<float, t_osc_atom_u>(c, a, osc_atom_array_u_getFloatArray, osc_atom_u_getFloat, "u-float", h);
			typed<char, t_osc_atom_u>(c, a, osc_atom_array_u_getBoolArray, osc_atom_u_getBool, "u-bool", h);
			break;
		}
		case 6: {
			// through a message and back
			Msg m; m.addr = "/x"; m.a = v[k].m;
			t_osc_msg_u *mu = osc_message_u_allocWithAddress((char *)"/x");
			t_osc_err e = osc_message_u_setArgArrayCopy(mu, (t_osc_array *)v[k].a);
			CHECK(e == OSC_ERR_NONE, "au:msg", h + sf(": setArgArrayCopy error %ld", (long)e));
			Msg g = rd_msg_u(mu);
			CHECK(g == m, "au:msg", h + ": setArgArrayCopy gave " + show(g) + ", expected " + show(m));
			t_osc_array *back = osc_message_u_getArgArrayCopy(mu);
			osc_message_u_free(mu);
			check_u((t_osc_atom_array_u *)back, v[k].m, h + " getArgArrayCopy");
			osc_atom_array_u_free((t_osc_array *)back);
			c.cover("au-through-message");
			break;
		}
		}
		for (auto &y : v) check_u(y.a, y.m, h);
	}
	for (auto &y : v) osc_atom_array_u_free((t_osc_array *)y.a);
	c.in(h.substr(0, 600));
	c.nontrivial = true;
	c.cover("atom-array-steps", steps);
}
static void atoms_s(Ctx &c) {
	Rng &r = c.rng;
	Bundle b;
	Msg m; m.addr = "/s";
	bool nums = r.flip();
	for (int i = r.range(0, 9); i > 0; i--) { Atom a; do a = rnd_atom(r); while (nums && strchr("fdts", a.t)); m.a.push_back(a); }
	b.m.push_back(m);
	Str h = show(m);
	Str bytes = enc_bundle(b);
	Exact e(bytes);
	t_osc_msg_s *ms = osc_message_s_alloc();
	osc_message_s_wrap(ms, e.p + 16);
	t_osc_array *a = osc_atom_array_s_alloc((long)m.a.size());
	for (size_t i = 0; i < m.a.size(); i++) {
		t_osc_atom_s *d = (t_osc_atom_s *)osc_atom_array_s_get(a, (long)i);
		t_osc_atom_s *x = nullptr;
		osc_message_s_getArg(ms, (int)i, &x);
		*d = *x;
		osc_atom_s_free(x);
	}
	t_osc_array *cp = osc_atom_array_s_copy(a), *into = nullptr;
	osc_atom_array_s_copyInto(&into, a, 2);
	if (r.flip()) osc_atom_array_s_resize(a, (int)m.a.size() + 3);
	t_osc_array *args = osc_array_copy(cp);
	CHECK(args && osc_array_getLen(args) == (long)m.a.size(), "as:msg", h + ": getArgArrayCopy length");
	for (size_t i = 0; i < m.a.size(); i++) for (t_osc_array *z : {a, cp, into, args}) {
		Atom g = rd_atom_s((t_osc_atom_s *)osc_atom_array_s_get(z, (long)(z == into ? i + 2 : i)));
		CHECK(g == m.a[i], z == a ? "as:resize" : z == cp ? "as:copy" : z == into ? "as:copyinto" : "as:msg", h + sf(": element %zu is %s", i, show(g).c_str()));
	}
	if (fits(m.a, -0x1p31, 0x1p31)) typed<int32_t, t_osc_atom_s>(c, cp, osc_atom_array_s_getInt32Array, osc_atom_s_getInt32, "s-int32", h);
	if (fits(m.a, -0x1p63, 0x1p63)) typed<int64_t, t_osc_atom_s>(c, cp, osc_atom_array_s_getInt64Array, osc_atom_s_getInt64, "s-int64", h);
	if (fits(m.a, -1, 0x1p32)) typed<uint32_t, t_osc_atom_s>(c, cp, osc_atom_array_s_getUInt32Array, osc_atom_s_getUInt32, "s-uint32", h);
	if (fits(m.a, -1, 0x1p64)) typed<uint64_t, t_osc_atom_s>(c, cp, osc_atom_array_s_getUInt64Array, osc_atom_s_getUInt64, "s-uint64", h);
	typed<double, t_osc_atom_s>(c, cp, osc_atom_array_s_getDoubleArray, osc_atom_s_getDouble, "s-double", h);
	typed<float, t_osc_atom_s>(c, cp, osc_atom_array_s_getFloatArray, osc_atom_s_getFloat, "s-float", h);
	typed<char, t_osc_atom_s>(c, cp, osc_atom_array_s_getBoolArray, osc_atom_s_getBool, "s-bool", h);
	for (t_osc_array *z : {a, cp, into, args}) osc_array_free(z);
	osc_message_s_free(ms);
	c.in(h);
	c.nontrivial = true;
}

static void random_case(Ctx &c) {
	Rng &r = c.rng;
	switch (r.below(6)) {
	case 0: hashtab(c, r.chance(1, 2) ? 1 : r.range(-1, 600), r.chance(1, 10) ? 1500 : r.range(3, 80), r.chance(1, 3) ? 200 : r.range(1, 30)); break;
	case 1: linkedlist(c, r.chance(1, 15) ? 600 : r.range(2, 50)); break;
	case 2: array(c, r.range(2, 25)); break;
	case 3: case 4: atoms_u(c, r.range(2, 20)); break;
	case 5: atoms_s(c); break;
	}
}
Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "contain";
		for (int n : {0, 16, 17, 152286, 152287, 200000}) s.directed.push_back({sf("slots-%d", n), [n](Ctx &c) { hashtab(c, n, 200, 40); }});
		s.directed.push_back({"crowded", [](Ctx &c) { hashtab(c, 1, 30000, 4000); }});
		s.directed.push_back({"long-list", [](Ctx &c) { linkedlist(c, 5000); }});
		s.random = random_case;
	}
	return s;
}
