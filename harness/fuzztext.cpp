// C19: arbitrary text as expressions and as bundle text: no memory error, syntax errors reported with nothing to free,
// and the same text gives the same result again.
#include "progmodel.h"
#include "libmodel.h"
extern "C" {
#include "osc_parser.h"
#include <pthread.h>
}

// functions called with anything; jn and yn loop for as long as their order says, so they get small orders only
static const char *FN[] = {"add", "sub", "mul", "div", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "andalso", "orelse", "mod", "assign", "plus1", "minus1", "abs", "acos", "asin", "atan", "atan2", "ceil", "cos", "cosh", "exp", "floor", "fmod", "log", "log10", "pow", "sin", "sinh", "sqrt", "tan", "tanh", "erf", "erfc", "gamma", "hypot", "j0", "j1", "lgamma", "y0", "y1", "acosh", "asinh", "atanh", "cbrt", "expm1", "ilogb", "logb", "nextafter", "remainder", "round", "nth", "assign_to_index", "product", "sum", "cumsum", "length", "avg", "mean", "median", "reverse", "rev", "sort", "list", "nfill", "aseq", "interleave", "first", "last", "rest", "butlast", "not", "dot", "cross", "det", "l2norm", "min", "max", "range", "extrema", "clip", "scale", "mtof", "ftom", "sign", "if", "strcmp", "split", "join", "bound", "exists", "emptybundle", "getaddresses", "delete", "getmsgcount", "identity", "eval", "tokenize", "prog1", "prog2", "progn", "apply", "map", "lreduce", "rreduce", "value", "gettimetag", "settimetag", "getbundlemember", "assigntobundlemember", "bitand", "bitor", "pi", "twopi", "halfpi", "e", "float32", "float64", "int8", "char", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "string", "blob", "cast", "typetags", "hton32", "ntoh32", "hton64", "ntoh64", "readstring", "strtotime", "floattotime", "match", "quickhull", "bundle", "phi", "strlen", "strchar", "strfind", "substr", "nosuchfunction"};
static const int NFN = sizeof FN / sizeof *FN;
static const char *OP[] = {"+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "==", "!=", "&", "|", "&&", "||", "=", "+=", "-=", "*=", "/=", "%=", "^=", "??", "??=", "++", "--", "!", "?", ":", ".", ",", ";", "`"};
static const int NOP = sizeof OP / sizeof *OP;

static Str num_text(Rng &r) {
	static const char *big[] = {"2147483647", "4294967296", "0xFFFFFFFF", "0xFFFFFFFFFFFFFFFF", "1e308", "1e400", "1e-320", "99999999999999999999", "0x1p-1074", "0x8000000000000000", "1000000", "65536", "1e10"};
	switch (r.below(8)) {
	case 0: return big[r.below(13)];
	case 1: return sf("%d.%d", r.range(0, 99), r.range(0, 99));
	case 2: return sf("0x%X", r.range(0, 300));
	case 3: { static const char *t[] = {"true", "false", "nil", "'a'", "' '", "'''", "1.", ".5", "1e3", "0.0"}; return t[r.below(10)]; }
	default: return sf("%d", r.range(0, 9));
	}
}
static Str addr_text(Rng &r) { static const char *t[] = {"/nowhere", "/fn1", "/bx", "/by", "/a/b/c", "//", "/a'b", "/1", "/txt", "/blob"}; return r.chance(1, 4) ? t[r.below(10)] : GX_ADDR[r.below(GX_NADDR)]; }
static Str str_text(Rng &r) { static const char *t[] = {"\"%s%n\"", "\"/a\"", "\"\\\"\"", "\"lambda([x], x)\"", "\"/a = 1\"", "\"1 +\"", "\"2014-01-01T00:00:00Z\"", "\"sqrt\"", "\"i\"", "\"fff\"", "\"\"", "\"\\\\\"", "\"#bundle\"", "\"ss\""}; return r.flip() ? t[r.below(14)] : quote_lit(gx_word(r)); }
// an argument of any kind; text
static Str any_arg(Rng &r, int d);
static Str any_list(Rng &r, int d, int lo, int hi) { Str s; int n = r.range(lo, hi); for (int i = 0; i < n; i++) { if (i) s += ", "; s += any_arg(r, d); } return s; }
static Str any_call(Rng &r, int d) {
	Str f = FN[r.below(r.chance(1, 40) ? NFN : NFN - 1)];
	int lo = 1, hi = 4;
	t_osc_expr_rec *rec = osc_expr_lookupFunction((char *)f.c_str());
	if (rec && !r.chance(1, 30)) { // a number of arguments the parser accepts
		lo = osc_expr_rec_getNumRequiredArgs(rec);
		int o = osc_expr_rec_getNumOptionalArgs(rec);
		hi = o < 0 ? lo + 4 : lo + o;
	}
	return f + "(" + any_list(r, d - 1, lo, hi) + ")";
}
static Str any_arg(Rng &r, int d) {
	switch (r.below(d > 0 ? 20 : 9)) {
	case 0: case 1: case 2: return num_text(r);
	case 3: case 4: case 5: return addr_text(r);
	case 6: case 7: return str_text(r);
	case 8: return FN[r.below(NFN)];
	case 9: case 10: return any_call(r, d);
	case 11: return "[ " + any_list(r, d - 1, 0, 5) + " ]";
	case 12: return "lambda([" + Str(r.flip() ? "x" : r.flip() ? "x, y" : "") + "], " + any_list(r, d - 1, 1, 2) + ")";
	case 13: return "{" + (r.chance(1, 6) ? Str() : addr_text(r) + " : " + any_arg(r, d - 1)) + "}";
	case 14: return "(" + any_arg(r, d - 1) + " " + OP[r.below(16)] + " " + any_arg(r, d - 1) + ")";
	case 15: return addr_text(r) + "[[ " + any_list(r, d - 1, 1, 2) + " ]]";
	case 16: return "(" + addr_text(r) + (r.flip() ? Str("=") : r.flip() ? "[[ " + (r.flip() ? any_list(r, d - 1, 1, 2) : any_list(r, d - 1, 1, 1) + " : " + any_list(r, d - 1, 1, 1)) + " ]] =" : Str(OP[16 + r.below(7)])) + " " + any_arg(r, d - 1) + ")";
	case 17: return (r.flip() ? "-" : "!") + any_arg(r, d - 1);
	case 18: return addr_text(r) + (r.flip() ? "." + addr_text(r) : "(" + any_list(r, d - 1, 1, 2) + ")");
	default: return "(" + any_arg(r, d - 1) + " ? " + any_arg(r, d - 1) + " : " + any_arg(r, d - 1) + ")";
	}
}
// one call of a library function with plain values: every function meets short, empty, negative and oversized arguments of each type
static Str flat_value(Rng &r, int kind) {
	switch (kind) {
	case 0: { int v = r.chance(1, 8) ? r.range(0, 70000) : r.range(0, 9); return r.chance(1, 3) ? sf("-%d", v) : sf("%d", v); }
	case 1: return r.chance(1, 3) ? "\"\"" : str_text(r);
	case 2: return sf("%s%d.%d", r.flip() ? "-" : "", r.range(0, 12), r.range(0, 99));
	default: return num_text(r);
	}
}
static Str plain_call(Rng &r) {
	Str f = FN[r.below(NFN - 1)];
	int lo = 1, hi = 4;
	if (t_osc_expr_rec *rec = osc_expr_lookupFunction((char *)f.c_str())) {
		lo = osc_expr_rec_getNumRequiredArgs(rec);
		int o = osc_expr_rec_getNumOptionalArgs(rec);
		hi = o < 0 ? lo + 3 : lo + o;
	}
	int n = r.range(lo, hi);
	Str s = f + "(";
	for (int i = 0; i < n; i++) {
		if (i) s += ", ";
		int kind = (int)r.below(4);
		switch (r.below(8)) {
		case 0: case 1: { int k = r.chance(1, 8) ? r.range(15, 40) : r.range(0, 4); s += "[ "; for (int j = 0; j < k; j++) { if (j) s += ", "; s += flat_value(r, kind); } s += " ]"; break; }
		case 2: { static const char *cast[] = {"int8", "uint8", "int16", "uint16", "uint32", "int64", "uint64", "float32", "string", "blob", "bool", "char"}; s += Str(r.pick(std::vector<const char *>(cast, cast + 12))) + "(" + flat_value(r, kind) + ")"; break; }
		case 3: s += addr_text(r); break;
		default: s += flat_value(r, kind);
		}
	}
	return s + ")";
}
static Str soup_token(Rng &r) {
	switch (r.below(10)) {
	case 0: case 1: return num_text(r);
	case 2: return addr_text(r);
	case 3: return str_text(r);
	case 4: return FN[r.below(NFN)];
	case 5: { static const char *b[] = {"(", ")", "[", "]", "{", "}", "[[", "]]", "(", ")"}; return b[r.below(10)]; }
	case 6: { static const char *b[] = {"lambda", "quote(", "quote (", "\"", "'", "#", "\\", "\n", "$", "@", "\x01", "\xff", "\t", "\r", ";", "~"}; return b[r.below(16)]; }
	default: return OP[r.below(NOP)];
	}
}
static Str soup(Rng &r) { Str s; int n = r.range(1, r.chance(1, 10) ? 60 : 12); for (int i = 0; i < n; i++) { if (r.chance(2, 3)) s += " "; s += soup_token(r); } return s; }
static Str bytes_text(Rng &r) { Str s; int n = r.range(0, 40); bool print = r.flip(); for (int i = 0; i < n; i++) s += print ? (char)r.range(32, 126) : (char)r.range(1, 255); return s; }
static Str mutate(Rng &r, Str s) {
	int n = r.range(1, 3);
	for (int i = 0; i < n && !s.empty(); i++) {
		size_t p = r.below(s.size());
		switch (r.below(8)) {
		case 0: s.erase(p, 1); break;
		case 1: s.insert(p, 1, s[r.below(s.size())]); break;
		case 2: s[p] = (char)r.range(1, 255); break;
		case 3: s.insert(p, soup_token(r)); break;
		case 4: s = s.substr(0, p); break;
		case 5: s.erase(p, r.below(12)); break;
		case 6: { Str x = s.substr(p, r.below(10)); s.insert(r.below(s.size()), x); break; }
		default: { static const char *b = "()[]{}\"'`,:.#\\"; s.insert(p, 1, *r.pickc(b)); }
		}
	}
	return s;
}

// ---------------------------------------------------------------- texts that cannot be expressions, whatever the grammar's details
// Tokens of the language: N operand, s a name or string, l lambda, ( ) [ ] { } , and others by themselves; b binary operator.
struct Lexeme { char k; Str s; };
static bool tokenise(const Str &t, std::vector<Lexeme> &out, Str &bad) {
	auto stop = [](char c) { return strchr("+-*/%^!=[]:;,?<>&|\\{}() \n\t`.", c) != nullptr || c == 0; };
	size_t i = 0, n = t.size();
	while (i < n) {
		char c = t[i];
		if (c == ' ' || c == '\t' || c == '\n') { i++; continue; }
		if (c == '#') { while (i < n && t[i] != '\n') i++; continue; }
		if (c == '"') {
			size_t j = i + 1;
			while (j < n && t[j] != '"') { if (t[j] == '\\') { j++; } j++; }
			if (j >= n) { bad = "an unfinished string"; return true; }
			out.push_back({'s', t.substr(i, j + 1 - i)});
			i = j + 1;
			continue;
		}
		if (c == '\'') {
			if (i + 2 < n && t[i + 2] == '\'' && t[i + 1] != '\n') { out.push_back({'N', t.substr(i, 3)}); i += 3; continue; }
			bad = "a lone quotation mark"; return true;
		}
		if (c == '\\') { bad = "a stray backslash"; return true; }
		if (isdigit((unsigned char)c) || (c == '.' && i + 1 < n && isdigit((unsigned char)t[i + 1]))) {
			size_t j = i;
			while (j < n && (isalnum((unsigned char)t[j]) || t[j] == '.' || ((t[j] == '+' || t[j] == '-') && strchr("eEpP", t[j - 1])))) j++;
			Str w = t.substr(i, j - i);
			bool plain = true;
			for (char ch : w) if (!isdigit((unsigned char)ch) && ch != '.') plain = false;
			if (!plain || std::count(w.begin(), w.end(), '.') > 1 || (w.size() > 1 && w[0] == '0' && w[1] != '.')) return false; // leave unusual numbers alone
			out.push_back({'N', w});
			i = j;
			continue;
		}
		if (c == '/' && i + 1 < n && (t[i + 1] == '/' || !stop(t[i + 1]))) { size_t j = i + 1; while (j < n && (t[j] == '/' || !stop(t[j]))) j++; out.push_back({'A', t.substr(i, j - i)}); i = j; continue; }
		if (stop(c)) {
			static const char *two[] = {"<=", ">=", "!=", "==", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^="};
			Str o(1, c);
			if (t.compare(i, 3, "?\?=") == 0) o = "?\?=";
			else if (t.compare(i, 2, "++") == 0 || t.compare(i, 2, "--") == 0 || t.compare(i, 2, "??") == 0) o = t.substr(i, 2);
			else for (auto x : two) if (t.compare(i, 2, x) == 0) o = x;
			static const std::set<Str> bin = {"*", "%", "^", "<", ">", "<=", ">=", "==", "&", "|", "&&", "||", "*=", "/=", "%=", "^=", "+=", "-=", "=", "+", "!=", "/"};
			if (bin.count(o)) out.push_back({'b', o});
			else out.push_back({strchr("()[]{},", c) ? c : 'o', o});
			i += o.size();
			continue;
		}
		size_t j = i;
		while (j < n && !stop(t[j]) && t[j] != '\'' && t[j] != '"') j++;
		Str w = t.substr(i, j - i);
		if (w == "quote") return false; // raw text may follow
		static const std::set<Str> lit = {"true", "True", "TRUE", "false", "False", "FALSE", "nil", "Nil", "NIL"};
		out.push_back({w == "lambda" ? 'l' : lit.count(w) ? 'N' : 's', w});
		i = j;
	}
	return true;
}
static Str not_an_expression(const Str &t) {
	std::vector<Lexeme> k;
	Str bad;
	if (!tokenise(t, k, bad)) return "";
	if (!bad.empty()) return bad;
	Str st;
	char prev = 0;
	for (size_t i = 0; i < k.size(); i++) {
		char c = k[i].k;
		if (c == '(' || c == '[' || c == '{') st += c;
		if (c == ')' || c == ']' || c == '}') { char o = c == ')' ? '(' : c == ']' ? '[' : '{'; if (st.empty() || st.back() != o) return sf("a %c that closes nothing", c); st.pop_back(); }
		bool operand = c == 'N' || c == 's' || c == 'A' || c == 'l', after = prev == 'N' || prev == 's' || prev == 'A' || prev == ')' || prev == ']' || prev == '}';
		if (operand && after) return "two operands with nothing between them: " + k[i].s;
		if (prev == 'N' && (c == '(' || c == '{')) return "a number applied to something";
		if (prev == 'l' && c != '(') return "a lambda without its parenthesis";
		if (c == 'b' && (prev == 0 || prev == 'b' || prev == '(' || prev == '[' || prev == '{' || prev == ',')) return "an operator without its left operand: " + k[i].s;
		if (prev == 'b' && (c == ')' || c == ']' || c == '}' || c == ',')) return "an operator without its right operand";
		if (c == ',' && (prev == ',' || prev == '(' || prev == '[' || prev == '{')) return "an empty element";
		if (prev == ',' && (c == ')' || c == ']' || c == '}')) return "a trailing comma";
		prev = c;
	}
	if (!st.empty()) return sf("a %c never closed", st.back());
	if (prev == 'b') return "an operator without its right operand";
	if (prev == ',') return "a trailing comma";
	return "";
}

// ---------------------------------------------------------------- running
struct Out { int parse; bool held; std::vector<int> errs; std::vector<Val> vals; Str bytes; };
static void one_run(char *text, const Str &bundle, Out &o) {
	t_osc_expr *f = nullptr;
	o.parse = lib_parse(text, &f);
	o.held = f != nullptr;
	if (o.parse) return;
	long len = (long)bundle.size();
	char *p = (char *)osc_mem_alloc(len);
	memcpy(p, bundle.data(), len);
	for (t_osc_expr *e = f; e; e = osc_expr_next(e)) {
		t_osc_atom_ar_u *a = nullptr;
		int err = lib_eval(e, &len, &p, &a);
		o.errs.push_back(err);
		o.vals.push_back(Val());
		if (a) { if (!err) o.vals.back() = take_out(a); osc_atom_array_u_free(a); }
		if (err) break;
	}
	o.bytes = Str(p, len);
	osc_mem_free(p);
	osc_expr_free(f);
}
static Str same_val(const Val &a, const Val &b) {
	if (a.size() != b.size()) return "another number of values";
	for (size_t i = 0; i < a.size(); i++) {
		if (a[i].t != b[i].t) return "another type";
		if (a[i].t == 'r') continue; // a function has no value to compare
		if (a[i].t == '.') { if (show(a[i]) != show(b[i])) return "another bundle"; }
		else if (!(a[i] == b[i]) && show(a[i]) != show(b[i])) return show(b[i]) + " instead of " + show(a[i]);
	}
	return "";
}
static void warm() { static thread_local bool done; if (!done) { done = true; t_osc_expr *f = nullptr; char t[] = "1 + 1"; lib_parse(t, &f); osc_expr_free(f); } }
static bool huge(const Str &t) { for (const char *f : {"jn", "yn"}) if (t.find(f) != Str::npos) return true; return false; }

static void run_expr(Ctx &c, const Str &text0, const Bundle &b, const char *cls) {
	Str text = text0.c_str();
	c.in("expression (" + Str(cls) + ") " + q(text) + "   on   " + show(b));
	Str bytes = enc_bundle(b);
	Exact t(Str(text.c_str(), text.size() + 1));
	static thread_local Out *a, *z; // outlive an abandoned run
	delete a; delete z;
	a = new Out; z = new Out;
	static thread_local int runs;
	runs = 0;
	if (int why = sigsetjmp(mem::out_, 0)) {
		c.allow_leak = true;
		mem::drop();
		static const char *w[] = {"", "too much memory", "too many steps", "too deep"};
		c.cover(Str("abandoned: ") + w[why]);
		return;
	}
	mem::arm(200u << 20, 300000, 3u << 20);
	one_run(t.p, bytes, *a);
	runs = 1;
	one_run(t.p, bytes, *z);
	mem::disarm();
	CHECK(Str(t.p, t.n - 1) == text, "text-changed", "parsing changed the text " + q(text));
	c.cover(Str(cls) + (a->parse ? ": rejected" : a->errs.empty() ? ": empty" : a->errs.back() ? ": parsed, evaluation failed" : ": parsed and evaluated"));
	if (a->parse) CHECK(!a->held, "error-result", "a syntax error left a result: " + q(text));
	if (!a->parse) { Str why = not_an_expression(text); CHECK(why.empty(), "accepted", "accepted although it has " + why + ": " + q(text)); }
	CHECK(a->parse == z->parse && a->errs == z->errs, "repeat", "the same text gave another error the second time: " + q(text));
	for (size_t i = 0; i < a->vals.size(); i++) { Str why = same_val(a->vals[i], z->vals[i]); CHECK(why.empty(), "repeat", "the same text gave " + why + " the second time: " + q(text)); }
	CHECK(a->bytes == z->bytes, "repeat", "the same text gave another bundle the second time: " + q(text));
	if (!a->parse) {
		Bundle d; Str why;
		CHECK(dec_bundle(a->bytes, d, why) || why.find("nesting too deep") != Str::npos, "wellformed", "the bundle is not well-formed (" + why + ") after " + q(text));
	}
	c.nontrivial = true;
}
static void run_function(Ctx &c, const Str &text0, const char *cls) {
	Str text = text0.c_str();
	c.in("function (" + Str(cls) + ") " + q(text));
	Exact t(Str(text.c_str(), text.size() + 1));
	t_osc_expr_rec *f = nullptr;
	int e = lib_parse_fn(t.p, &f);
	c.cover(e ? "function text rejected" : "function text parsed");
	if (e) CHECK(!f, "error-result", "a syntax error left a function: " + q(text));
	else {
		CHECK(f, "no-function", "no function and no error: " + q(text));
		Str why = not_an_expression(text);
		CHECK(why.empty(), "accepted", "accepted although it has " + why + ": " + q(text));
		t_osc_expr *body = nullptr;
		osc_expr_rec_free(f, (void **)&body);
		osc_expr_free(body);
	}
	c.nontrivial = true;
}
// what is as large as the input must not be on the stack
static void small_stack(void *(*f)(void *), void *arg) {
	pthread_t th; pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 1 << 20);
	if (pthread_create(&th, &at, f, arg)) { perror("no thread"); abort(); }
	pthread_join(th, nullptr);
	pthread_attr_destroy(&at);
}
static void run_bundle(Ctx &c, const Str &text0, const char *cls) {
	Str text = text0.c_str();
	c.in("bundle (" + Str(cls) + ") " + q(text));
	Str got[2]; int err[2]; bool held[2];
	for (int k = 0; k < 2; k++) {
		Exact t(Str(text.c_str(), text.size() + 1));
		t_osc_bndl_u *b = nullptr;
		err[k] = osc_parser_parseString((long)text.size(), t.p, &b);
		held[k] = b != nullptr;
		if (err[k]) { CHECK(!b, "error-result", "a syntax error left a bundle: " + q(text)); continue; }
		if (b) {
			t_osc_bndl_s *s = osc_bundle_u_serialize(b);
			CHECK(s, "serialize", "the parsed bundle does not serialize: " + q(text));
			got[k] = bytes_of(s);
			Bundle d; Str why;
			CHECK(dec_bundle(got[k], d, why) || why.find("nesting too deep") != Str::npos, "wellformed", "the parsed bundle is malformed (" + why + "): " + q(text));
			osc_bundle_s_deepFree(s);
			osc_bundle_u_free(b);
		}
	}
	CHECK(err[0] == err[1] && held[0] == held[1] && got[0] == got[1], "repeat", "the same text gave another result the second time: " + q(text));
	c.cover(Str("bundle text, ") + cls + (err[0] ? ": rejected" : ": parsed"));
	c.nontrivial = true;
}

static Str bundle_text(Rng &r, int d) {
	Str s;
	int n = r.range(0, 4);
	for (int i = 0; i < n; i++) {
		s += addr_text(r) + " : ";
		int k = r.range(0, 3);
		if (k != 1) s += "[";
		for (int j = 0; j < k; j++) { if (j) s += ", "; s += r.chance(1, 5) && d > 0 ? "{" + bundle_text(r, d - 1) + "}" : r.chance(1, 8) ? "`now`" : r.flip() ? num_text(r) : str_text(r); }
		if (k != 1) s += "]";
		s += r.flip() ? ",\n" : ", ";
	}
	if (s.size() > 2) s.resize(s.size() - 2);
	return s;
}

static Bundle fuzz_bundle(Rng &r) {
	Bundle b = gx_bundle(r, 0, 8);
	b.tt = r.u64();
	auto put = [&](const char *ad, std::vector<Atom> v) { Msg m; m.addr = ad; m.a = v; b.m.push_back(m); };
	if (r.flip()) put("/fn1", {A_s(r.flip() ? "lambda([x], x + 1)" : any_arg(r, 2))});
	if (r.flip()) put("/txt", {A_s(any_arg(r, 2))});
	if (r.flip()) { Bundle x = gx_bundle(r, 0, 3); x.tt = 0; put("/bx", {A_bndl(x)}); }
	if (r.chance(1, 4)) { GenOpt o; o.max_depth = 1; Msg m = gen_msg(r, o); m.addr = "/by"; b.m.push_back(m); }
	if (r.chance(1, 6)) put("/blob", {A_b(Str("\0\1\2\3abc", 7))});
	return b;
}
static Str valid(Rng &r, Ctx &c, const Bundle &b) {
	Str t;
	int n = r.range(1, 3);
	for (int i = 0; i < n; i++) { PGen g(r, b, c); P s = r.flip() ? g.stmt() : g.asg(3); fix(s); if (i) t += ", "; t += stmt(r, s, r.chance(1, 3)); }
	return t;
}

static void random_case(Ctx &c) {
	Rng &r = c.rng;
	warm();
	switch (r.below(16)) {
	case 0: case 1: { Bundle b = fuzz_bundle(r); Str t = soup(r); if (!huge(t)) run_expr(c, t, b, "token soup"); return; }
	case 2: { Bundle b = fuzz_bundle(r); run_expr(c, bytes_text(r), b, "bytes"); return; }
	case 11: case 12: { Bundle b = fuzz_bundle(r); Str t = plain_call(r); if (r.flip()) t = addr_text(r) + " = " + t; if (!huge(t)) run_expr(c, t, b, "plain calls"); return; }
	case 3: case 4: case 5: { Bundle b = fuzz_bundle(r); Str t = mutate(r, valid(r, c, b)); if (!huge(t)) run_expr(c, t, b, "mutated program"); return; }
	case 6: case 7: { Bundle b = fuzz_bundle(r); Str t = mutate(r, any_call(r, 3)); if (!huge(t)) run_expr(c, t, b, "mutated calls"); return; }
	case 8: { Str t = r.flip() ? "lambda([x], " + any_list(r, 2, 1, 3) + ")" : any_arg(r, 2); run_function(c, r.flip() ? mutate(r, t) : t, "any"); return; }
	case 9: run_bundle(c, mutate(r, bundle_text(r, 2)), "mutated"); return;
	case 10: run_bundle(c, r.flip() ? soup(r) : bytes_text(r), "soup"); return;
	default: { // well-formed programs that mean anything
		Bundle b = fuzz_bundle(r);
		Str t = r.chance(1, 3) ? any_arg(r, 3) : any_call(r, r.range(1, 4));
		int n = r.range(0, 2);
		for (int i = 0; i < n; i++) t += ", " + (r.flip() ? addr_text(r) + " = " : Str()) + any_call(r, 2);
		run_expr(c, t, b, "arbitrary calls");
	}
	}
}

Suite &suite() {
	static Suite s;
	if (!s.name) {
		s.name = "fuzztext";
		s.random = random_case;
		s.directed.push_back({"every truncation", [](Ctx &c) { warm(); Bundle b; Msg m; m.addr = "/a"; m.a = {A_i(1), A_i(2)}; b.m = {m};
			for (const char *t : {"/b = /a[[0]] + 2 * (3 - lreduce(lambda([x, y], x + y), [1, 2, 3])), /c = \"a\\\"b\" == 'c' ? {/x : 1, /y : [2, 3]} : nil # done", "/a[[0 : 1]] = map(lambda(x, x ^ 2), [1., 0x1F, .5e3]), /a++, --/a, /q ??= /q ?? quote((a) + b), (/a = 3) && !true", "(lambda([x], x, /z = x), 4) , /a./b = 1, /d += 1"})
				for (size_t i = 0; i <= strlen(t); i++) { c.input.clear(); run_expr(c, Str(t, i), b, "truncation"); } }});
		s.directed.push_back({"every truncation of a bundle", [](Ctx &c) { const char *t = "/a : 1, /b : [2, \"x\\\"y\", 3.5e2, 'c', true, nil], /c : {/d : [], /e : {/f : \"abc\"}}, /t : 2014-01-01T00:00:00Z # end";
			for (size_t i = 0; i <= strlen(t); i++) { c.input.clear(); run_bundle(c, Str(t, i), "truncation"); } }});
		s.directed.push_back({"not expressions", [](Ctx &c) { warm(); Bundle b; for (const char *t : {"/a = \"abc", "/a = \"abc\\\"", "/a = \"", "/a = 1 \\ + 2", "/a = 'ab'", "/a = '", "/a = 1,", "(1 + 2", "1 + 2)", "[1, 2", "{/a : 1", "1 +", "* 2", "/a /b", "1 2", "f(1,)", "f(,1)", "/a = ", "lambda", "lambda(", "quote(", "quote(abc", "quote((abc)", "/a[[0]", "/a[[0", "[1,,2]", "1 ? 2", "1 ? 2 :", "? 1 : 2", "/a = \"abc\" \"", "\"\\", "/a = \"x\\"}) {
			c.input.clear();
			Exact x(Str(t, strlen(t) + 1)); t_osc_expr *f = (t_osc_expr *)1;
			int e = lib_parse(x.p, &f);
			if (!e) { if (f && f != (t_osc_expr *)1) osc_expr_free(f); c.soft("accepted", Str("accepted although it is not an expression: ") + q(t)); continue; }
			CHECK(!f, "error-result", Str("a syntax error left a result: ") + q(t)); } c.nontrivial = true; }});
		for (int n : {10, 100, 1000, 5000}) s.directed.push_back({sf("nesting %d", n), [n](Ctx &c) { warm(); Bundle b; Msg m; m.addr = "/a"; m.a = {A_i(1)}; b.m = {m};
			auto rep = [&](const char *x, int k) { Str s; for (int i = 0; i < k; i++) s += x; return s; };
			for (const Str &t : {rep("(", n) + "1 + 1" + rep(")", n), rep("[ ", n) + "1" + rep(" ]", n), rep("abs(", n) + "1" + rep(")", n), rep("!", n) + "/a", rep("- ", n) + "/a", rep("/a = ", n) + "1", rep("1 ? 1 : ", n) + "1", "1" + rep(" + 1", n), rep("{/a : ", n) + "1" + rep("}", n), rep("(", n), rep("[ ", n), rep("{/a : ", n), rep("lambda([x], ", n), "/a" + rep("[[0]]", n), "apply(" + rep("lambda([x], ", n) + "1" + rep(")", n) + ", 1)", "\"" + rep("\\\"", n) + "\"", rep("1, ", n) + "1", "/a = [1" + rep(", 1", n) + "]", "1" + rep(" ^ 1", n), "1" + rep(" && 1", n), rep("eval(quote(", std::min(n, 100)) + "1" + rep("))", std::min(n, 100))}) { c.input.clear(); run_expr(c, t, b, "nesting"); }
			for (const Str &t : {"/a : " + rep("{/a : ", n) + "1" + rep("}", n), "/a : " + rep("[", n), "/a : " + rep("{/a : ", n), "/a : [1" + rep(", 1", n) + "]", "/a : 1" + rep(", /a : 1", n), "/a : \"" + rep("\\\"", n) + "\""}) { c.input.clear(); run_bundle(c, t, "nesting"); } }});
		// the evaluator recurs without a bound: see DESIGN.md, known findings
		s.directed.push_back({"a chain of 100000 operators", [](Ctx &c) { warm(); c.in("1 + 1 + ... + 1, 100000 operators"); Str t = "1"; for (int i = 0; i < 100000; i++) t += " + 1"; Out o; Exact x(Str(t.c_str(), t.size() + 1)); one_run(x.p, enc_bundle(Bundle()), o); if (!o.parse && !o.errs[0]) CHECK(o.vals[0].size() == 1 && o.vals[0][0] == A_i(100001), "value", "the sum is wrong"); }});
		// lists much longer than a stack has room for: what is kept per element belongs on the heap
		for (auto &big : std::vector<std::pair<const char *, int>>{{"last(sortidx(/n))", 149999}, {"length(nonzero(/n))", 149999}, {"strlen(join(\"\", /z))", 300000}, {"length(quickhull(/n, /z))", 0}, {"length(match(\"/a\", /w))", 1}, {"if({/a : /n} == {/a : /n}, 1, 0)", 1}, {"if({/a : /n} != {/a : /n}, 1, 0)", 0},
			{"last(sort(/n, /z))", 149999}, {"length(reverse(/n))", 150000}, {"median(/z)", 12}, {"sum(/z)", 1800000}, {"length(nfill(3, /n))", 450000}, {"length(interleave(/n, /z))", 300000}, {"last(/n + /z)", 150011}, {"length([/n, /z])", 300000}, {"length(nth(/n, /n))", 150000}})
			s.directed.push_back({Str("large lists: ") + big.first, [big](Ctx &c) {
				warm();
				Bundle b;
				Msg n, z, w; n.addr = "/n"; z.addr = "/z"; w.addr = "/w";
				for (int i = 0; i < 150000; i++) { n.a.push_back(A_i(i)); z.a.push_back(A_i(12)); w.a.push_back(A_s("/w")); }
				b.m = {n, z, w};
				c.in(Str("/r = ") + big.first + ", on a stack of 1 MB, with lists of 150000 elements: /n from 0 up, /z of 12s, /w of \"/w\"");
				struct J { Str text, bundle, err, leak; Run r; static void *go(void *p) {
					J *j = (J *)p;
					mem::enter();
					j->r = run_text(j->text, j->bundle);
					j->err = mem::error();
					if (mem::live()) j->leak = mem::describe_live(0);
					mem::leave();
					return nullptr;
				} } j;
				j.text = Str("/r = ") + big.first;
				j.bundle = enc_bundle(b);
				small_stack(J::go, &j);
				CHECK(j.err.empty(), "allocator", j.err);
				CHECK(j.leak.empty(), "leak:large", j.leak);
				CHECK(!j.r.parse && !j.r.eval, "error", Str("failed: ") + big.first);
				if (!strstr(big.first, "quickhull")) { double got = -1; if (j.r.out.size() == 1) got = j.r.out[0].t == 's' ? atof(j.r.out[0].s.c_str()) : dval(j.r.out[0]); CHECK(got == big.second, "value", Str("the value is ") + showv(j.r.out) + ": " + big.first); }
				c.cover("large lists");
				c.nontrivial = true;
			}});
		// single tokens larger than the stack
		{
			Str A(3 << 20, 'a'), N(3 << 20, '1'), sp(3 << 20, ' ');
			for (auto &t : std::vector<std::pair<const char *, Str>>{{"string", "/r = \"" + A + "\""}, {"address", "/" + A + " = 1"}, {"number", "/r = " + N}, {"fraction", "/r = 1." + N}, {"comment", "/r = 1 #" + A + "\n, /q = 2"}, {"blanks", "/r" + sp + "=" + sp + "1"}, {"incremented in vain", "++" + A + " = 1"}, {"decremented in vain", "--" + A + " = 1"}, {"incremented then", A + "++ = 1"}, {"decremented then", A + "-- = 1"}, {"incremented after in vain", "/" + A + "++ = 1"}, {"unknown function", A + "(1)"}, {"unknown function in a call", "/r = 1 + " + A + "(2)"}, {"quoted", "/r = quote(" + A + ")"},
				{"string unfinished", "/r = \"" + A}, {"error after a string", "/r = \"" + A + "\" +"}, {"error after an address", "/" + A + " = = 1"}, {"strings joined", "/r = \"" + A + "\" + \"" + A + "\""}, {"strings compared", "/r = \"" + A + "\" == \"" + A + "b\""}, {"length", "/r = strlen(\"" + A + "\")"}, {"found", "/r = strfind(\"ab\", \"" + A + "b\")"}, {"unbound", "/r = /" + A}, {"parameter", "/r = map(lambda([" + A + "], " + A + " + 1), [1, 2])"}, {"bundle", "/r = {/" + A + " : \"" + A + "\"}"}, {"evaluated", "/r = eval(\"/q = /" + A + "\")"}, {"member", "/r = {/a : 1}, /r./" + A + " = 2"}, {"bad argument", "/r = sqrt(\"" + A + "\") / \"x\""}, {"cast", "/r = double(\"" + N + "\")"}, {"matched", "/r = match(\"/" + A + "\", \"/" + A + "\")"}, {"assigned by name", "assign(\"/" + A + "\", 1), /r = exists(\"/" + A + "\")"}})
				s.directed.push_back({Str("large token: ") + t.first, [t](Ctx &c) {
					warm();
					c.in(Str("a token of three million characters, on a stack of 1 MB: ") + t.first);
					struct J { Str text, err, leak; static void *go(void *p) {
						J *j = (J *)p;
						mem::enter();
						{ Out o; Exact x(Str(j->text.c_str(), j->text.size() + 1)); one_run(x.p, enc_bundle(Bundle()), o); if (o.parse && o.held) j->err = "a syntax error left a result"; }
						if (j->err.empty()) j->err = mem::error();
						if (mem::live()) j->leak = mem::describe_live(0);
						mem::leave();
						return nullptr;
					} } j;
					j.text = t.second;
					small_stack(J::go, &j);
					CHECK(j.err.empty(), "allocator", j.err);
					CHECK(j.leak.empty(), "leak:large", j.leak);
					c.cover("large token");
					c.nontrivial = true;
				}});
			for (auto &t : std::vector<std::pair<const char *, Str>>{{"string", "/r : \"" + A + "\""}, {"address", "/" + A + " : 1"}, {"number", "/r : " + N}, {"fraction", "/r : 1." + N}, {"comment", "/r : 1 #" + A + "\n"}, {"blanks", "/r" + sp + ":" + sp + "1"}, {"string unfinished", "/r : \"" + A}, {"error after an address", "/" + A + " : : 1"}, {"nested", "{/" + A + " : {/" + A + " : \"" + A + "\"}}"}})
				s.directed.push_back({Str("large bundle token: ") + t.first, [t](Ctx &c) {
					warm();
					c.in(Str("bundle text with a token of three million characters, on a stack of 1 MB: ") + t.first);
					struct J { Str text, err, leak; static void *go(void *p) {
						J *j = (J *)p;
						mem::enter();
						{
							Exact x(Str(j->text.c_str(), j->text.size() + 1));
							t_osc_bndl_u *b = nullptr;
							int e = osc_parser_parseString((long)j->text.size(), x.p, &b);
							if (e && b) j->err = "a syntax error left a bundle";
							if (b) { t_osc_bndl_s *s = osc_bundle_u_serialize(b); if (s) osc_bundle_s_deepFree(s); osc_bundle_u_free(b); }
						}
						if (j->err.empty()) j->err = mem::error();
						if (mem::live()) j->leak = mem::describe_live(0);
						mem::leave();
						return nullptr;
					} } j;
					j.text = t.second;
					small_stack(J::go, &j);
					CHECK(j.err.empty(), "allocator", j.err);
					CHECK(j.leak.empty(), "leak:large", j.leak);
					c.cover("large bundle token");
					c.nontrivial = true;
				}});
		}
		s.directed.push_back({"a function that calls itself for ever", [](Ctx &c) { warm(); Bundle b; Msg m; m.addr = "/f"; m.a = {A_s("lambda([x], /f(x))")}; b.m = {m}; c.in("/f(1) on " + show(b)); c.allow_leak = true; Str t = "/f(1)"; Out o; Exact x(Str(t.c_str(), t.size() + 1)); one_run(x.p, enc_bundle(b), o); CHECK(!o.parse && o.errs[0], "noerror", "endless recursion returned"); }});
		osc_error_setHandler(count_report);
	}
	return s;
}
