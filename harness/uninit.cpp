// C24: the other suites' cases under Valgrind's memcheck, which tracks for every bit whether anybody wrote it and
// reports each branch, address and system call that depends on one nobody wrote, in the library or in the oracles
// that compare its results.
#define VH_THREADS
#include <sys/time.h>
#include <time.h>
#include <list>
#include "progmodel.h"
#include "libmodel.h"
#include "hofmodel.h"
#include "refmatch.h"
extern "C" {
#include "osc_hashtab.h"
#include "osc_linkedlist.h"
#include "osc_atom_u.r"
#include "osc_atom_s.r"
#include "osc_dispatch.h"
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_vtable.h"
#include "osc_parser.h"
#include "osc_match.h"
#include "osc_expr.h"
#include "osc_expr_rec.h"
}
#include <atomic>
#include <thread>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
namespace n_wire {
#include "wire.cpp"
}
namespace n_hostile {
#include "hostile.cpp"
}
namespace n_match {
#include "match.cpp"
}
namespace n_lookup {
#include "lookup.cpp"
}
namespace n_algebra {
#include "algebra.cpp"
}
namespace n_edit {
#include "edit.cpp"
}
namespace n_conv {
#include "conv.cpp"
}
namespace n_text {
#include "text.cpp"
}
namespace n_bounded {
#include "bounded.cpp"
}
namespace n_flat {
#include "flat.cpp"
}
namespace n_dispatch {
#include "dispatch.cpp"
}
namespace n_contain {
#include "contain.cpp"
}
namespace n_timetag {
#include "timetag.cpp"
}
namespace n_expr {
#include "expr.cpp"
}
namespace n_prog {
#include "prog.cpp"
}
namespace n_lib {
#include "lib.cpp"
}
namespace n_hof {
#include "hof.cpp"
}
namespace n_fuzztext {
#include "fuzztext.cpp"
}
namespace n_tree {
#include "tree.cpp"
}
namespace n_catalog {
#include "catalog.cpp"
}


struct Sub { const char *name; Suite *s; int weight; };
static std::vector<Sub> &subs() {
	static std::vector<Sub> v = {{"wire", &n_wire::suite(), 3}, {"hostile", &n_hostile::suite(), 5}, {"match", &n_match::suite(), 2}, {"lookup", &n_lookup::suite(), 2}, {"algebra", &n_algebra::suite(), 4}, {"edit", &n_edit::suite(), 4},
		{"conv", &n_conv::suite(), 4}, {"text", &n_text::suite(), 5}, {"bounded", &n_bounded::suite(), 1}, {"flat", &n_flat::suite(), 3}, {"dispatch", &n_dispatch::suite(), 4}, {"contain", &n_contain::suite(), 2},
		{"timetag", &n_timetag::suite(), 3}, {"expr", &n_expr::suite(), 6}, {"prog", &n_prog::suite(), 9}, {"lib", &n_lib::suite(), 12}, {"hof", &n_hof::suite(), 9}, {"fuzztext", &n_fuzztext::suite(), 10}, {"tree", &n_tree::suite(), 4}, {"catalog", &n_catalog::suite(), 2}};
	return v;
}
static void random_case(Ctx &c) {
	int sum = 0;
	for (auto &s : subs()) sum += s.weight;
	int k = (int)c.rng.below(sum);
	for (auto &s : subs()) if ((k -= s.weight) < 0) {
		c.cover(Str("cases of ") + s.name);
		s.s->random(c);
		return;
	}
}
// directed cases of other suites that are about size, and too slow here
static bool heavy(const Str &n) {
	for (const char *h : {"wire: wide", "fuzztext: a function that calls itself for ever", "fuzztext: nesting 1000", "fuzztext: nesting 5000", "fuzztext: a chain of 100000 operators", "bounded: large", "timetag: every-day", "hof: strings of megabytes", "tree: long texts"}) if (n == h) return true;
	for (const char *h : {"match: exhaustive", "fuzztext: large ", "flat: 1500 parts", "flat: parts of "}) if (!n.compare(0, strlen(h), h)) return true;
	return false;
}
Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "uninit";
		for (auto &x : subs()) for (auto &d : x.s->directed) if (!heavy(Str(x.name) + ": " + d.first)) s.directed.push_back({Str(x.name) + ": " + d.first, d.second});
		s.random = random_case;
	}
	return s;
}
