// An independent matcher for OSC 1.0 address patterns (segment-wise set simulation, no backtracking).
#pragma once
#include "vh.h"
extern "C" {
#include "osc_match.h"
}

struct Tok {
	enum K { LIT, ANY, STAR, SET, ALT, SLASH } k;
	char c = 0;
	bool neg = false;
	std::set<unsigned char> set;
	std::vector<Str> alt;
	Str text;
};
typedef std::vector<Tok> Seg;

static Tok lit(char c) { Tok t; t.k = Tok::LIT; t.c = c; t.text = Str(1, c); return t; }
static Tok tk(Tok::K k, const char *s) { Tok t; t.k = k; t.text = s; return t; }
static Tok setof_(const Str &text) { // text is the full [...] form with simple content
	Tok t; t.k = Tok::SET; t.text = text;
	size_t i = 1;
	if (text[i] == '!') { t.neg = true; i++; }
	size_t end = text.size() - 1;
	if (text[i] == ']') { t.set.insert(']'); i++; } // a ] that comes first is an ordinary character
	while (i < end) {
		unsigned char a = text[i];
		if (i + 2 < end && text[i + 1] == '-') {
			unsigned char b = text[i + 2];
			for (int x = std::min(a, b); x <= std::max(a, b); x++) t.set.insert((unsigned char)x);
			i += 3;
		} else { t.set.insert(a); i++; }
	}
	return t;
}
static Tok alts(const std::vector<Str> &v) {
	Tok t; t.k = Tok::ALT; t.alt = v; t.text = "{";
	for (size_t i = 0; i < v.size(); i++) { if (i) t.text += ','; t.text += v[i]; }
	t.text += '}';
	return t;
}

static bool seg_match(const Seg &p, const Str &s) {
	// set-of-positions simulation: no backtracking
	std::vector<char> cur(s.size() + 1, 0), nx;
	cur[0] = 1;
	for (auto &t : p) {
		nx.assign(s.size() + 1, 0);
		if (t.k == Tok::STAR) {
			bool on = false;
			for (size_t i = 0; i <= s.size(); i++) { if (cur[i]) on = true; nx[i] = on; }
		} else for (size_t i = 0; i <= s.size(); i++) if (cur[i]) {
			switch (t.k) {
			case Tok::LIT: if (i < s.size() && s[i] == t.c) nx[i + 1] = 1; break;
			case Tok::ANY: if (i < s.size()) nx[i + 1] = 1; break;
			case Tok::SET: if (i < s.size() && (t.set.count((unsigned char)s[i]) != 0) != t.neg) nx[i + 1] = 1; break;
			case Tok::ALT: for (auto &a : t.alt) if (s.compare(i, a.size(), a) == 0 && i + a.size() <= s.size()) nx[i + a.size()] = 1; break;
			default: break;
			}
		}
		cur.swap(nx);
	}
	return cur[s.size()];
}

struct Want { int r; int po, ao; };
static std::vector<Str> split(const Str &a) { // a starts with '/'
	std::vector<Str> v;
	size_t i = 1;
	while (true) {
		size_t j = a.find('/', i);
		if (j == Str::npos) { v.push_back(a.substr(i)); return v; }
		v.push_back(a.substr(i, j - i));
		i = j + 1;
	}
}
static Want expect(const std::vector<Seg> &ps, const Str &pat, const Str &addr) {
	std::vector<Str> as = split(addr);
	size_t n = std::min(ps.size(), as.size());
	for (size_t i = 0; i < n; i++) if (as[i] != "*" && !seg_match(ps[i], as[i])) return {0, 0, 0};
	if (ps.size() == as.size()) return {3, (int)pat.size(), (int)addr.size()};
	int off = 0;
	if (ps.size() < as.size()) {
		for (size_t i = 0; i < n; i++) off += 1 + (int)as[i].size();
		return {2, (int)pat.size(), off};
	}
	for (size_t i = 0; i < n; i++) { off += 1; for (auto &t : ps[i]) off += (int)t.text.size(); }
	return {1, off, (int)addr.size()};
}
static Str text(const std::vector<Seg> &ps) {
	Str s;
	for (auto &g : ps) { s += '/'; for (auto &t : g) s += t.text; }
	return s;
}


// parses a well-formed pattern text
static inline std::vector<Seg> parse_pat(const Str &p) {
	std::vector<Seg> ps;
	for (size_t i = 0; i < p.size(); i++) {
		switch (p[i]) {
		case '/': ps.emplace_back(); break;
		case '?': ps.back().push_back(tk(Tok::ANY, "?")); break;
		case '*': ps.back().push_back(tk(Tok::STAR, "*")); break;
		case '[': { size_t j = p.find(']', i + (p[i + 1] == '!' ? 3 : 2)); ps.back().push_back(setof_(p.substr(i, j - i + 1))); i = j; } break;
		case '{': {
			size_t j = p.find('}', i);
			std::vector<Str> v(1);
			for (size_t k = i + 1; k < j; k++) if (p[k] == ',') v.emplace_back(); else v.back() += p[k];
			ps.back().push_back(alts(v));
			i = j;
		} break;
		default: ps.back().push_back(lit(p[i]));
		}
	}
	return ps;
}
static inline Want ref_match(const Str &pat, const Str &addr) { return expect(parse_pat(pat), pat, addr); }
// the rule lookups use: complete, or (partial allowed) one side consumed at a segment boundary
static inline bool ref_lookup(const Str &pat, const Str &addr, bool full) {
	Want w = ref_match(pat, addr);
	return full ? w.r == 3 : w.r != 0;
}
static const char *RM_WORDS[] = {"a", "b", "ab", "foo", "fo", "bar", "baz", "x1", "x2", "1", "longer_name_here", "a.b", "A"};
// an address over a small vocabulary, so that matches are frequent
static inline Str rm_addr(Rng &r, int maxseg = 3) {
	Str s;
	int n = r.range(1, maxseg);
	for (int i = 0; i < n; i++) { s += '/'; s += RM_WORDS[r.below(13)]; }
	return s;
}
// a well-formed pattern over the same vocabulary
static inline Str rm_pattern(Rng &r, int maxseg = 3) {
	Str s;
	int n = r.range(1, maxseg);
	for (int i = 0; i < n; i++) {
		s += '/';
		Str w = RM_WORDS[r.below(13)];
		switch (r.below(8)) {
		case 0: s += "*"; break;
		case 1: w[r.below(w.size())] = '?'; s += w; break;
		case 2: s += w.substr(0, r.below(w.size() + 1)) + "*"; break;
		case 3: s += "*" + w.substr(r.below(w.size() + 1)); break;
		case 4: { size_t k = r.below(w.size()); s += w.substr(0, k) + (r.flip() ? "[a-f]" : r.flip() ? "[!a-f]" : "[12xb]") + w.substr(k + 1); } break;
		case 5: { s += "{" + w + "," + RM_WORDS[r.below(13)]; if (r.flip()) s += Str(",") + RM_WORDS[r.below(13)]; s += "}"; if (r.chance(1, 4)) s += "*"; } break;
		default: s += w;
		}
	}
	return s;
}
