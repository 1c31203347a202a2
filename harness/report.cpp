// C25: every failure to parse or to evaluate reaches the error handler, and says what failed.
// The expression suites' cases run with a handler that records; further cases are about what the reports say.
#define VH_THREADS
#include <sys/time.h>
#include <time.h>
#include <list>
#include "progmodel.h"
#include "libmodel.h"
#include "hofmodel.h"
#include "refmatch.h"
extern "C" {
#include "osc_error.h"
}
#include <sys/mman.h>
extern "C" {
#include "osc_hashtab.h"
#include "osc_linkedlist.h"
#include "osc_atom_u.r"
#include "osc_atom_s.r"
#include "osc_dispatch.h"
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_vtable.h"
#include "osc_parser.h"
#include "osc_match.h"
#include "osc_expr.h"
#include "osc_expr_rec.h"
}
#include <atomic>
#include <thread>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

namespace n_expr {
#include "expr.cpp"
}
namespace n_prog {
#include "prog.cpp"
}
namespace n_lib {
#include "lib.cpp"
}
namespace n_hof {
#include "hof.cpp"
}
namespace n_fuzztext {
#include "fuzztext.cpp"
}
namespace n_tree {
#include "tree.cpp"
}
namespace n_catalog {
#include "catalog.cpp"
}




// ---------------------------------------------------------------- the monitor
struct Rep { void *ctx; Str s; };
static thread_local std::vector<Rep> *reps; // outlives abandoned runs
static thread_local int pass_back = 0;
static int record(void *ctx, const char *const s) {
	g_reports++;
	if (reps && reps->size() < 500) { // a loop may report for ever
		size_t n = strnlen(s, 4097); CHECK(n < 4096, "length", "a report of more than 4095 bytes"); reps->push_back({ctx, Str(s, n)}); }
	return pass_back;
}
static const int CODES[] = {0x1, 0x2, 0x4, 0x8, 0x10, 0x11, 0x12, 0x14, 0x18, 0x20, 0x21, 0x22, 0x24, 0x100, 0x101, 0x102, 0x104, 0x108, 0x1000};
static thread_local Str *cur, *bndl;
static thread_local Ctx *cc;
static thread_local char marker[8];
static Str all_reports() { Str s; for (auto &r : *reps) s += (s.empty() ? "" : " | ") + q(r.s.substr(0, 400)); return s; }
// starts with the description of a code, perhaps after the name of a source file
static bool described(const Str &s, int *code = nullptr) {
	static thread_local std::vector<Str> texts;
	if (texts.empty()) for (int k : CODES) texts.push_back(Str(osc_error_string(k)) + ": \n");
	for (size_t j = 0; j < texts.size(); j++) {
		int k = CODES[j];
		const Str &d = texts[j];
		size_t i = s.find(d);
		if (i == 0 || (i != Str::npos && i < 400 && (s[i - 1] == '\n' || s[i - 1] == ' '))) { if (code) *code = k; return true; }
	}
	return false;
}
// a report of a syntax error shows the text, with a mark in it
static Str shows(const Str &rep, const Str &text) {
	Str d = Str(osc_error_string(OSC_ERR_EXPPARSE)) + ": \n";
	size_t i = rep.find(d);
	if (i == Str::npos) return "it is not about parsing";
	if (text.empty()) return "";
	Str body = rep.substr(i + d.size());
	static const Str mark = "\n-->                ";
	if (body.compare(0, text.size() + 1, text + "\n") == 0) return ""; // without a mark
	bool cut = rep.size() >= 4095;
	if (cut) { // perhaps in the mark
		size_t a = 0;
		while (a < body.size() && a < text.size() && body[a] == text[a]) a++;
		for (size_t m = 0; m <= a; m++) if (body.size() - m <= mark.size() && mark.compare(0, body.size() - m, body, m) == 0) return "";
	}
	for (size_t m = body.find(mark); m != Str::npos; m = body.find(mark, m + 1)) {
		if (text.compare(0, m, body, 0, m)) break;
		Str rest = body.substr(m + mark.size());
		// the marked part, the end of a line, and what follows it
		size_t a = 0;
		while (a < rest.size() && m + a < text.size() && rest[a] == text[m + a]) a++;
		if (cut && a == rest.size()) return "";
		for (size_t e = 0; e <= a; e++) {
			if (rest[e] != '\n') continue;
			Str want = text.substr(m + e) + "\n", got = rest.substr(e + 1);
			if (got.compare(0, want.size(), want) == 0) return "";
			if (cut && want.compare(0, got.size(), got) == 0) return "";
		}
	}
	return "it does not show the text";
}
static void before(Stage st, const char *t, const Str *b) {
	if (!reps) reps = new std::vector<Rep>;
	if (!cur) { cur = new Str; bndl = new Str; }
	reps->clear();
	if (st != EVAL) *cur = t;
	*bndl = b ? *b : Str();
}
static bool may_warn() { // successful evaluations that report something all the same
	for (const char *w : {"eval", "[[", "quickhull", "exists", "bound", "emptybundle", "getaddresses", "assign_to_index"}) if (cur->find(w) != Str::npos || bndl->find(w) != Str::npos) return true;
	return false;
}
static void after(Stage st, int e) {
	struct P { bool a = mem::pause(); ~P() { mem::resume(a); } } p;
	const char *what = st == EVAL ? "evaluating" : st == PARSE ? "parsing" : "parsing the function";
	const char *id = st == EVAL ? "eval" : "parse";
	for (auto &r : *reps) {
		CHECK(r.ctx == g_ctx, "context", Str("while ") + what + " " + q(*cur) + " the handler got another context with " + q(r.s));
		CHECK(described(r.s), "description", Str("while ") + what + " " + q(*cur) + " a report without the description of an error: " + q(r.s));
	}
	if (e) {
		cc->cover(Str(id) + (reps->size() > 1 ? " failures with several reports" : " failures reported"));
		CHECK(!reps->empty(), Str("silent:") + id, Str(what) + " failed with error " + sf("%d", e) + " and nothing was reported: " + q(*cur));
	} else {
		cc->cover(Str(id) + (reps->empty() ? " successes without a report" : " successes with a report"));
		if (st != EVAL || !may_warn()) CHECK(reps->empty(), Str("noise:") + id, Str(what) + " succeeded and reported " + all_reports() + ": " + q(*cur));
	}
	if (e && st != EVAL) {
		Str why = shows((*reps)[0].s, *cur);
		CHECK(why.empty(), "shows", "the report of a syntax error: " + why + ": " + q((*reps)[0].s.substr(0, 1500)) + " of " + q(cur->substr(0, 1500)));
	}
	if (e && st == EVAL && e == OSC_ERR_EXPR_ADDRESSUNBOUND && reps->size() < 500) {
		bool said = false;
		for (auto &r : *reps) { int code; described(r.s, &code); if (code == OSC_ERR_EXPR_ADDRESSUNBOUND) said = true; }
		CHECK(said, "unbound", "an address is unbound and no report says so: " + q(*cur) + ": " + all_reports());
		cc->cover("unbound addresses reported");
	}
}
static void watch(Ctx &c) { cc = &c; g_ctx = marker + 1 + c.rng.below(5); g_before = before; g_after = after; osc_error_setHandler(record); }
static void unwatch() { g_before = nullptr; g_after = nullptr; g_ctx = nullptr; osc_error_setHandler(record); }
static bool reported(const std::vector<Str> &parts, Str *why) {
	for (auto &r : *reps) {
		bool ok = true;
		for (auto &p : parts) if (r.s.find(p) == Str::npos) ok = false;
		if (ok) return true;
	}
	if (why) { *why = ""; for (auto &p : parts) *why += " " + q(p); }
	return false;
}

// ---------------------------------------------------------------- what the reports say
struct FnDoc { Str name; int req, opt; };
static const std::vector<FnDoc> &fns() {
	static thread_local std::vector<FnDoc> v;
	if (v.empty()) for (auto &n : n_catalog::names()) {
		if (!n_catalog::callable(n)) continue;
		Exact e(n + Str(1, 0));
		t_osc_bndl_u *u = nullptr;
		osc_expr_getDocForFunction(e.p, &u);
		Bundle b = rd_bundle_u(u);
		osc_bundle_u_free(u);
		v.push_back({n, n_catalog::int1(b, "/doc/function/num_required_args"), n_catalog::int1(b, "/doc/function/num_optional_args")});
	}
	return v;
}
static Str word(Rng &r, int n) { static const char *A = "abcdefghijklmnopqrstuvwxyz_"; Str s = "zz"; while ((int)s.size() < n) s += A[r.below(27)]; return s; }
static void parse_only(Ctx &c, const Str &text, bool ok, std::vector<Str> parts, const char *key) {
	c.in(text.substr(0, 500));
	Exact t(Str(text.c_str(), text.size() + 1));
	t_osc_expr *f = nullptr;
	int e = lib_parse(t.p, &f);
	if (f) osc_expr_free(f);
	if (ok) { CHECK(!e, key, "rejected: " + q(text)); return; }
	CHECK(e, key, "accepted: " + q(text));
	Str why;
	CHECK(reported(parts, &why), key, "no report has" + why + ": " + all_reports());
}
// an unknown function is named
static void unknown(Ctx &c) {
	Rng &r = c.rng;
	Str n = word(r, r.range(3, r.chance(1, 6) ? 200 : 20));
	Str t = r.flip() ? n + "(1, 2)" : r.flip() ? "/a = 1 + " + n + "(/b)" : "abs(" + n + "(\"%s%n%d\", 3))";
	parse_only(c, t, false, {"unknown function \"" + n + "\""}, "unknown");
	c.cover("unknown functions named");
}
// too few or too many arguments: the function, and how many it takes
static void count(Ctx &c) {
	Rng &r = c.rng;
	const FnDoc &f = r.pick(fns());
	int n = r.range(0, 8);
	bool ok = n >= f.req && (f.opt < 0 || n <= f.req + f.opt);
	Str t = f.name + "(";
	for (int i = 0; i < n; i++) t += (i ? ", " : "") + (r.flip() ? Str("/a") : std::to_string(r.below(100)));
	t += ")";
	if (f.name == "lambda" || f.name == "quote" || f.name == "apply" || f.name == "map") return;
	if (r.flip()) t = "/x = " + t;
	if (ok) return;
	int want = n < f.req ? f.req : f.req + f.opt;
	parse_only(c, t, false, {sf("expected %d argument", want), "function " + f.name + " ", sf("found %d", n)}, "count");
	c.cover("wrong numbers of arguments described");
}
// an address that is not bound is named by whatever function needs its value
static void unbound(Ctx &c) {
	Rng &r = c.rng;
	Str a = "/" + word(r, r.range(3, r.chance(1, 8) ? 3000 : 12));
	Bundle b;
	Msg m; m.addr = "/n"; m.a = {A_i(3)}; b.m.push_back(m);
	m.addr = "/l"; m.a = {A_i(1), A_i(2), A_i(3)}; b.m.push_back(m);
	m.addr = "/s"; m.a = {A_s("abs")}; b.m.push_back(m);
	static const char *OPS[] = {"+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "&", "|"};
	Str t, who;
	switch (r.below(6)) {
	case 0: { who = OPS[r.below(16)]; bool andor = who == "&&" || who == "||" || who == "&" || who == "|"; Str o = andor ? (who[0] == '&' ? "true" : "false") : r.flip() ? "/n" : "2"; t = r.flip() ? a + " " + who + " " + o : o + " " + who + " " + a; if (andor || who == "^" || who == "%") who = ""; break; }
	case 1: t = r.flip() ? "- " + a : "! " + a; break;
	case 2: t = "/n = " + a; break;
	case 3: t = r.flip() ? a + "[[0]]" : r.flip() ? "/l[[" + a + "]]" : "/l[[0]] = " + a; break;
	case 4: t = a + " ? 1 : 2"; break;
	default: {
		const FnDoc *f;
		do f = &r.pick(fns()); while (f->req + (f->opt < 0 ? 2 : f->opt) < 1 || f->name == "bound" || f->name == "exists" || f->name == "delete" || f->name == "quote" || f->name == "assign" || f->name == "compile" || f->name == "lambda" || f->name == "if" || f->name == "apply" || f->name == "map" || f->name == "lreduce" || f->name == "rreduce" || f->name == "emptybundle" || f->name == "getaddresses" || f->name == "eval" || f->name == "value" || f->name.find("bundlemember") != Str::npos || f->name.find("to_index") != Str::npos || f->name == "nil" || f->name == "tokenize" || f->name == "andalso" || f->name == "orelse" || f->name == "and" || f->name == "or");
		int n = f->opt < 0 ? std::max(1, f->req) + r.below(3) : std::max(1, f->req + (int)r.below(f->opt + 1));
		int at = r.below(n);
		t = f->name + "(";
		for (int i = 0; i < n; i++) t += (i ? ", " : "") + (i == at ? a : r.flip() ? Str("/n") : Str("2"));
		t += ")";
		who = f->name;
	}
	}
	if (r.chance(1, 4)) t = "/x = (" + t + ")";
	c.in(t + "   on   " + show(b));
	Run x = run_text(t, enc_bundle(b));
	CHECK(!x.parse, "parse", "rejected: " + t);
	CHECK(x.eval, "noerror", "evaluated although " + a + " is unbound: " + t);
	Str why;
	std::vector<Str> parts = {osc_error_string(OSC_ERR_EXPR_ADDRESSUNBOUND), a};
	if (!who.empty()) parts.push_back(who);
	CHECK(reported(parts, &why), "unbound-name", "no report has" + why + ": " + q(t) + ": " + all_reports());
	c.cover("unbound addresses named" + (who.empty() ? Str() : Str(" with the function")));
}
// an operator that cannot take its operands is shown with them
static void operands(Ctx &c) {
	Rng &r = c.rng;
	static const char *OPS[] = {"-", "*", "/"};
	Str op = OPS[r.below(3)];
	Str w = word(r, r.range(3, r.chance(1, 8) ? 6000 : 12));
	if (r.chance(1, 4)) w += "%s%n%d";
	int n = r.below(100000);
	bool left = r.flip();
	Str t = left ? "\"" + w + "\" " + op + " " + std::to_string(n) : std::to_string(n) + " " + op + " \"" + w + "\"";
	if (r.chance(1, 4)) { t = left ? "/s " + op + " " + std::to_string(n) : std::to_string(n) + " " + op + " /s"; }
	Bundle b; Msg m; m.addr = "/s"; m.a = {A_s(w)}; b.m.push_back(m);
	c.in(t.substr(0, 300) + "   on   " + show(b).substr(0, 300));
	Run x = run_text(t, enc_bundle(b));
	CHECK(!x.parse, "parse", "rejected: " + t);
	CHECK(x.eval, "noerror", "evaluated: " + t);
	std::vector<Str> parts = {osc_error_string(OSC_ERR_EXPR_ARGCHK), w.substr(0, 3900)};
	if (w.size() < 3900) { parts.push_back(left ? " " + op + " " + std::to_string(n) : std::to_string(n) + " " + op + " "); }
	Str why;
	CHECK(reported(parts, &why), "operands", "no report has" + why + ": " + q(t) + ": " + all_reports());
	c.cover("operands shown");
}
// texts of any length, with whatever in them
static void texts(Ctx &c) {
	Rng &r = c.rng;
	static const char *P[] = {"/a", "/b = 1", "+", "%s", "%n", "%", "\"abc\"", "\"%s\"", "(", ")", "[ ", "]", "1", "2.5", " ", "foo(", ",", "\\", "'x'", "?", "\n", "/foo/bar/baz", "lambda", "\t", "# no\n", "-->", "{", "}"};
	size_t n = r.chance(1, 5) ? r.range(3000, 9000) : r.range(1, 200);
	Str t;
	if (r.flip()) { t = r.flip() ? "/a = 1" : "foo(2)"; while (t.size() < n) t += r.flip() ? " + 1" : ", /b = /c * 2"; size_t at = r.below(t.size()); t.insert(at, P[r.below(28)]); }
	else while (t.size() < n) t += P[r.below(28)];
	c.in(t.substr(0, 300));
	Exact x(Str(t.c_str(), t.size() + 1));
	t_osc_expr *f = nullptr;
	int e = lib_parse(x.p, &f);
	if (f) osc_expr_free(f);
	c.cover(e ? (t.size() > 4095 ? "long texts rejected" : "texts rejected") : "texts accepted");
}
// the handler itself
static void direct(Ctx &c) {
	Rng &r = c.rng;
	auto len = [&]() { return r.chance(1, 12) ? r.range(3900, 4300) : r.range(1, 60); };
	Str file = r.flip() ? (r.chance(1, 4) ? "a%sb%n/" : "") + word(r, len()) : "", fn = r.flip() ? word(r, len()) : "", more = r.chance(3, 4) ? word(r, len()) + " %s and %d." : "";
	Str arg = r.flip() ? word(r, len()) : "%s%n%d\x80\xff";
	int line = r.flip() ? r.range(1, 100000) : r.range(-2, 0), num = r.range(-1000000, 1000000);
	int code = r.chance(1, 5) ? 0 : CODES[r.below(19)];
	Str want;
	if (file.size()) want += file + ":\n";
	if (fn.size()) want += fn + "(): ";
	if (line > 0) want += std::to_string(line) + ": ";
	if (code) want += Str(osc_error_string(code)) + ": \n";
	want += more.size() ? more.substr(0, more.size() - 11) + " " + arg + " and " + std::to_string(num) + "." : "";
	c.in("report " + q(file).substr(0, 100) + " " + q(fn).substr(0, 100) + sf(" %d %d ", line, code) + q(more).substr(0, 100));
	if (!reps) reps = new std::vector<Rep>;
	reps->clear();
	pass_back = r.range(-5, 5);
	int ret = osc_error_handler(g_ctx, file.size() ? file.c_str() : nullptr, fn.size() ? fn.c_str() : nullptr, line, code, more.size() ? more.c_str() : nullptr, arg.c_str(), num);
	int pb = pass_back;
	pass_back = 0;
	CHECK(reps->size() == 1, "direct:count", sf("%zu reports instead of one", reps->size()));
	CHECK(ret == pb, "direct:result", sf("returned %d and the handler %d", ret, pb));
	CHECK((*reps)[0].ctx == g_ctx, "context", "another context");
	const Str &got = (*reps)[0].s;
	bool cut = want.size() > 4095;
	if (cut) want.resize(4095);
	CHECK(got == want, "direct:text", "reported " + q(got.substr(0, 600)) + " instead of " + q(want.substr(0, 600)));
	c.cover(cut ? "long reports cut" : "reports compared");
}
// no handler, the standard one, and one handler after another
static Str grab(const std::function<void()> &f) { // what f writes to stderr
	fflush(stderr);
	int old = dup(2), p = memfd_create("e", 0);
	dup2(p, 2);
	f();
	fflush(stderr);
	dup2(old, 2); close(old);
	Str s; char b[65536]; ssize_t n; lseek(p, 0, SEEK_SET);
	while ((n = read(p, b, sizeof b)) > 0) s.append(b, n);
	close(p);
	return s;
}
static void fail_one() { char t[] = "1 + "; t_osc_expr *f = nullptr; osc_expr_parser_parseExpr(t, &f, g_ctx); }
static Str at_start = grab(fail_one); // before a handler is set
static thread_local int other_count;
static int other(void *, const char *const) { other_count++; return 0; }
static void handlers(Ctx &c) {
	Rng &r = c.rng;
	if (!reps) reps = new std::vector<Rep>;
	osc_error_setHandler(record); fail_one(); // tables are made
	Str tried;
	for (int i = 0; i < 6; i++) {
		reps->clear(); other_count = 0;
		int k = r.below(4);
		tried += "nosd"[k];
		switch (k) {
		case 0: osc_error_setHandler(nullptr); { Str s = grab(fail_one); CHECK(s.empty() && reps->empty() && !other_count, "handler:none", "a report without a handler: " + q(s)); } break;
		case 1: osc_error_setHandler(other); fail_one(); CHECK(other_count >= 1 && reps->empty(), "handler:switch", "the new handler was not called, or the old one was"); break;
		case 2: osc_error_setHandler(record); fail_one(); CHECK(!other_count && reps->size() >= 1, "handler:switch", "the new handler was not called, or the old one was"); break;
		default:
			osc_error_setHandler(record); fail_one();
			Str want;
			for (auto &x : *reps) want += x.s + "\n";
			CHECK(at_start == want, "handler:default", "without any handler set, " + q(at_start) + " was written to stderr instead of " + q(want));
		}
		c.cover("handlers tried");
	}
	osc_error_setHandler(record);
	c.in("handlers " + tried);
}
static void codes(Ctx &c) {
	c.in("codes");
	std::map<Str, int> seen;
	Str unknown = osc_error_string(0x7777);
	CHECK(!unknown.empty(), "codes", "no description of an unknown code");
	CHECK(Str(osc_error_string(0)) == "no error", "codes", "no error is described as " + q(osc_error_string(0)));
	for (int k : CODES) {
		Str s = osc_error_string(k);
		CHECK(!s.empty() && s != unknown && s != "no error", "codes", sf("code 0x%x is described as ", k) + q(s));
		auto x = seen.insert({s, k});
		CHECK(x.second || (k == 0x101 && x.first->second == 0x100), "codes", sf("codes 0x%x and 0x%x are both described as ", x.first->second, k) + q(s));
		c.cover("codes described");
	}
	c.nontrivial = true;
}
static void validate(Ctx &c) {
	Rng &r = c.rng;
	CHECK(osc_error_validateAddress(nullptr) == OSC_ERR_NULLPTR, "validate", "no address");
	static const char *P[] = {"/", "a", "b c", "#", " ", "*", "?", "\x80", "[x]", "foo", "{a,b}", "\t"};
	Str s = r.chance(1, 8) ? "" : r.chance(7, 8) ? "/" : P[r.below(12)];
	for (int n = r.below(5); n > 0; n--) s += P[r.below(12)];
	Exact e(Str(s.c_str(), s.size() + 1));
	t_osc_err got = osc_error_validateAddress(e.p), want = s[0] != '/' || s.size() < 2 ? OSC_ERR_MALFORMEDADDRESS : s.find_first_of("# ") != Str::npos ? OSC_ERR_INVALIDCHARINADDRESS : OSC_ERR_NONE;
	c.in("address " + q(s));
	CHECK(got == want, "validate", q(s) + sf(" gave 0x%x instead of 0x%x", (int)got, (int)want));
	c.cover(want ? "addresses refused" : "addresses accepted");
}

struct Sub { const char *name; Suite *s; int weight; };
static std::vector<Sub> &subs() {
	static std::vector<Sub> v = {{"expr", &n_expr::suite(), 6}, {"prog", &n_prog::suite(), 9}, {"lib", &n_lib::suite(), 12}, {"hof", &n_hof::suite(), 9}, {"fuzztext", &n_fuzztext::suite(), 10}, {"tree", &n_tree::suite(), 2}, {"catalog", &n_catalog::suite(), 1}};
	return v;
}
static void random_case(Ctx &c) {
	watch(c);
	struct Off { ~Off() { unwatch(); } } off;
	if (c.rng.chance(1, 3)) {
		static void (*const F[])(Ctx &) = {unknown, count, unbound, unbound, operands, texts, texts, direct, handlers, validate};
		F[c.rng.below(10)](c);
		c.nontrivial = true;
		return;
	}
	int sum = 0;
	for (auto &s : subs()) sum += s.weight;
	int k = (int)c.rng.below(sum);
	for (auto &s : subs()) if ((k -= s.weight) < 0) {
		c.cover(Str("cases of ") + s.name);
		s.s->random(c);
		return;
	}
}
Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "report";
		s.random = random_case;
		s.directed.push_back({"codes", codes});
		for (auto &x : subs()) for (auto &d : x.s->directed) {
			Str n = Str(x.name) + ": " + d.first;
			if (n == "fuzztext: a function that calls itself for ever" || n == "fuzztext: nesting 1000" || n == "fuzztext: nesting 5000" || n == "fuzztext: a chain of 100000 operators" || n == "tree: long texts" || !n.compare(0, 16, "fuzztext: large ")) continue; // too slow, or known to fail: C19 is about them
			auto f = d.second;
			s.directed.push_back({n, [f](Ctx &c) { watch(c); struct Off { ~Off() { unwatch(); } } off; f(c); }});
		}
		osc_error_setHandler(record);
	}
	return s;
}
