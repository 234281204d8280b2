// C19: tokenizers and filters against references written from their documentation.
#include "LuceneInc.h"
#include "anal.h"
#include "unitab.h"
#include "engine.h"
#include <map>
#include <set>
#include <memory>
#include "StandardTokenizer.h"
#include "StandardAnalyzer.h"
#include "StopAnalyzer.h"
#include "SimpleAnalyzer.h"
#include "WhitespaceAnalyzer.h"
#include "KeywordAnalyzer.h"
#include "ChineseAnalyzer.h"
#include "CJKAnalyzer.h"
#include "NGramTokenizer.h"
#include "EdgeNGramTokenizer.h"
#include "NGramTokenFilter.h"
#include "EdgeNGramTokenFilter.h"
#include "LengthFilter.h"
#include "StopFilter.h"
#include "WhitespaceTokenizer.h"
#include "LetterTokenizer.h"
#include "KeywordTokenizer.h"
#include "ASCIIFoldingFilter.h"
#include "ISOLatin1AccentFilter.h"
#include "PorterStemFilter.h"
#include "MappingCharFilter.h"
#include "NormalizeCharMap.h"
#include "CharReader.h"
#include "MiscUtils.h"
#include "UnicodeUtils.h"
#include "CharFolder.h"
#include "StringUtils.h"

using namespace Lucene;
using namespace vf;

namespace {

struct Unmodelled {};
const LuceneVersion::Version V = LuceneVersion::LUCENE_CURRENT;

// ---- character properties -------------------------------------------------------------------------------------
unsigned classOf(wchar_t ch) {
    unsigned c = (unsigned)ch;
    size_t lo = 0, hi = sizeof uniRanges / sizeof *uniRanges;
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if (uniRanges[m].hi < c) lo = m + 1; else hi = m;
    }
    return lo < sizeof uniRanges / sizeof *uniRanges && uniRanges[lo].lo <= c ? uniRanges[lo].f : 0;
}
unsigned known(wchar_t ch) { unsigned f = classOf(ch); if (!f) throw Unmodelled(); return f; }
bool is(wchar_t ch, unsigned f) { return (known(ch) & f) != 0; }
template <size_t N> std::map<wchar_t, wchar_t> pairs(const UniPair (&t)[N]) { std::map<wchar_t, wchar_t> m; for (auto& p : t) m[(wchar_t)p.a] = (wchar_t)p.b; return m; }
wchar_t lower(wchar_t ch) {
    static const std::map<wchar_t, wchar_t> m = pairs(uniLower);
    auto it = m.find(ch);
    if (it != m.end()) return it->second;
    unsigned f = known(ch);
    if ((f & UUPPER) || ch > 0xffff) throw Unmodelled();
    return ch;
}
Str lowerAll(Str s) { for (auto& x : s) x = lower(x); return s; }
Str cleaned(Str s) { for (auto& x : s) if (!classOf(x)) x = L'~'; return s; }

// ---- the standard grammar, as an automaton built from its definition --------------------------------------------
struct Nfa {
    struct Edge { int to; std::string on; };      // on: empty = spontaneous
    std::vector<std::vector<Edge>> st;
    std::map<int, int> acc;                         // state -> rule
    int node() { st.push_back({}); return (int)st.size() - 1; }
};
struct Rx { enum K { SET, SEQ, ALT, PLUS, STAR } k; std::string set; std::vector<Rx> sub; };
Rx S(const std::string& s) { return Rx{Rx::SET, s, {}}; }
Rx operator+(const Rx& a, const Rx& b) { return Rx{Rx::SEQ, "", {a, b}}; }
Rx operator|(const Rx& a, const Rx& b) { return Rx{Rx::ALT, "", {a, b}}; }
Rx plus(const Rx& a) { return Rx{Rx::PLUS, "", {a}}; }
Rx star(const Rx& a) { return Rx{Rx::STAR, "", {a}}; }
void put(Nfa& n, const Rx& r, int from, int to) {
    switch (r.k) {
    case Rx::SET: n.st[from].push_back({to, r.set}); break;
    case Rx::SEQ: { int m = n.node(); put(n, r.sub[0], from, m); put(n, r.sub[1], m, to); break; }
    case Rx::ALT: put(n, r.sub[0], from, to); { int a = n.node(), b = n.node(); n.st[from].push_back({a, ""}); put(n, r.sub[1], a, b); n.st[b].push_back({to, ""}); } break;
    case Rx::PLUS: case Rx::STAR: {
        int a = n.node(), b = n.node();
        n.st[from].push_back({a, ""});
        put(n, r.sub[0], a, b);
        n.st[b].push_back({a, ""});
        n.st[b].push_back({to, ""});
        if (r.k == Rx::STAR) n.st[a].push_back({to, ""});
        break;
    }
    }
}
enum { T_ALPHANUM, T_APOSTROPHE, T_ACRONYM, T_COMPANY, T_EMAIL, T_HOST, T_NUM, T_CJ, T_ACRONYM_DEP };
const wchar_t* typeName(int t) {
    static const wchar_t* n[] = {L"<ALPHANUM>", L"<APOSTROPHE>", L"<ACRONYM>", L"<COMPANY>", L"<EMAIL>", L"<HOST>", L"<NUM>", L"<CJ>", L"<ACRONYM_DEP>"};
    return n[t];
}
const Nfa& grammar() {
    static const Nfa g = [] {
        Nfa n;
        n.node();
        // L letter, D digit, T other Thai, C Chinese or Japanese
        Rx an = plus(S("LDT")), alpha = plus(S("L")), letter = S("L"), dot = S("."), p = S("_-/.,");
        Rx hasDigit = star(S("LD")) + (S("D") + star(S("LD")));
        std::vector<Rx> rules{
            an,
            alpha + plus(S("'") + alpha),
            letter + (dot + plus(letter + dot)),
            alpha + (S("&@") + alpha),
            (an + star(S(".-_") + an)) + (S("@") + (an + plus(S(".-") + an))),
            an + plus(dot + an),
            (an + (p + hasDigit)) | (hasDigit + (p + an)) | (an + plus(p + (hasDigit + (p + an)))) | (hasDigit + plus(p + (an + (p + hasDigit)))) |
                ((an + (p + hasDigit)) + plus(p + (an + (p + hasDigit)))) | ((hasDigit + (p + an)) + plus(p + (hasDigit + (p + an)))),
            S("C"),
            an + (dot + plus(an + dot))};
        for (size_t i = 0; i < rules.size(); ++i) {
            int a = n.node(), b = n.node();
            n.st[0].push_back({a, ""});
            put(n, rules[i], a, b);
            n.acc[b] = (int)i;
        }
        return n;
    }();
    return g;
}
char symbol(wchar_t ch) {
    unsigned c = (unsigned)ch;
    if (c > 0xffff) return 'L';
    if ((c >= 0x3100 && c <= 0x312f) || (c >= 0x3040 && c <= 0x30ff) || (c >= 0x31f0 && c <= 0x31ff) || (c >= 0x3300 && c <= 0x337f) || (c >= 0x3400 && c <= 0x4dbf) || (c >= 0x4e00 && c <= 0x9fff) ||
        (c >= 0xf900 && c <= 0xfaff) || (c >= 0xff65 && c <= 0xff9f)) return 'C';
    unsigned f = known(ch);
    if (f & UALPHA) return 'L';
    if (f & UDIGIT) return 'D';
    if (c >= 0xe00 && c <= 0xe59) return 'T';
    return c < 127 && c > 32 ? (char)c : ' ';
}
// the characters whose class the scanner's (older) tables and the grammar agree on
bool standardKnows(wchar_t ch) {
    unsigned c = (unsigned)ch;
    if (c > 0xffff) return true;
    if (!classOf(ch)) return false;
    return c < 0x220 || (c >= 0x388 && c <= 0x3ce) || (c >= 0x410 && c <= 0x44f) || (c >= 0x5d0 && c <= 0x5ea) || (c >= 0x621 && c <= 0x63a) || (c >= 0x660 && c <= 0x669) || (c >= 0xe01 && c <= 0xe2e) || (c >= 0xe31 && c <= 0xe32) ||
        (c >= 0xe40 && c <= 0xe59) || (c >= 0x2010 && c <= 0x2027) || (c >= 0x3001 && c <= 0x3003) || (c >= 0x3041 && c <= 0x3094) || (c >= 0x30a1 && c <= 0x30fa) || (c >= 0x3105 && c <= 0x312c) || (c >= 0x4e00 && c <= 0x9fa5) ||
        (c >= 0xac00 && c <= 0xd7a3) || (c >= 0xff10 && c <= 0xff19) || (c >= 0xff21 && c <= 0xff3a) || (c >= 0xff66 && c <= 0xff9d) || c == 0x301 || c == 0x3000;
}
std::vector<ATok> standard(const Str& s, size_t maxLen, bool depAsHost) {
    const Nfa& g = grammar();
    std::vector<ATok> r;
    int incr = 1;
    for (size_t i = 0; i < s.size();) {
        std::set<int> cur;
        auto add = [&](int x, auto& self) -> void { if (cur.insert(x).second) for (auto& e : g.st[x]) if (e.on.empty()) self(e.to, self); };
        add(0, add);
        size_t best = 0;
        int rule = -1;
        for (size_t j = i; j < s.size() && !cur.empty(); ++j) {
            char y = symbol(s[j]);
            std::set<int> prev;
            prev.swap(cur);
            if (y != ' ') for (int x : prev) for (auto& e : g.st[x]) if (!e.on.empty() && e.on.find(y) != std::string::npos) add(e.to, add);
            int hit = -1;
            for (int x : cur) { auto it = g.acc.find(x); if (it != g.acc.end() && (hit < 0 || it->second < hit)) hit = it->second; }
            if (hit >= 0) { best = j + 1 - i; rule = hit; }
        }
        if (rule < 0) { ++i; continue; }
        if (best <= maxLen) {
            ATok t{s.substr(i, best), (int)i, (int)(i + best), incr, typeName(rule), ""};
            if (rule == T_ACRONYM_DEP) {
                if (depAsHost) { t.type = typeName(T_HOST); t.term.pop_back(); }
                else t.type = typeName(T_ACRONYM);
            }
            r.push_back(t);
            incr = 1;
        } else ++incr;
        i += best;
    }
    return r;
}

// ---- the other tokenizers --------------------------------------------------------------------------------------
template <class In> std::vector<ATok> runs(const Str& s, In in, bool lowerIt) {
    std::vector<ATok> r;
    for (size_t i = 0; i < s.size();) {
        if (!in(s[i])) { ++i; continue; }
        size_t j = i;
        while (j < s.size() && j - i < 255 && in(s[j])) ++j;
        Str t = s.substr(i, j - i);
        r.push_back({lowerIt ? lowerAll(t) : t, (int)i, (int)j, 1, L"word", ""});
        i = j;
    }
    return r;
}
std::vector<ATok> grams(const Str& s, int lo, int hi, bool edge) {
    std::vector<ATok> r;
    for (int i = 0; i < (edge ? 1 : (int)s.size()); ++i)
        for (int n = lo; n <= hi && i + n <= (int)s.size(); ++n) r.push_back({s.substr((size_t)i, (size_t)n), i, i + n, 1, L"word", ""});
    return r;
}
std::vector<ATok> cjk(const Str& s) {
    auto folded = [](wchar_t c) -> wchar_t { return c >= 0xff01 && c <= 0xff5e ? (wchar_t)(c - 0xfee0) : c; };
    auto kind = [&](wchar_t ch) {
        unsigned c = (unsigned)ch;
        if (c < 0x80 || (c >= 0xff00 && c <= 0xffef)) {
            wchar_t f = folded(ch);
            return is(f, UALPHA | UDIGIT | UNUM) || f == L'_' || f == L'+' || f == L'#' ? 1 : 0;
        }
        return is(ch, UALPHA) ? 2 : 0;
    };
    std::vector<ATok> r;
    for (size_t i = 0; i < s.size();) {
        int k = kind(s[i]);
        if (!k) { ++i; continue; }
        size_t j = i;
        while (j < s.size() && kind(s[j]) == k) ++j;
        if (k == 1) {
            for (size_t a = i; a < j; a += 255) {
                size_t b = std::min(j, a + 255);
                Str t;
                for (size_t x = a; x < b; ++x) t += lower(folded(s[x]));
                r.push_back({t, (int)a, (int)b, 1, L"single", ""});
            }
        } else if (j - i == 1) r.push_back({s.substr(i, 1), (int)i, (int)j, 1, L"double", ""});
        else for (size_t a = i; a + 1 < j; ++a) r.push_back({s.substr(a, 2), (int)a, (int)a + 2, 1, L"double", ""});
        i = j;
    }
    return r;
}
std::vector<ATok> chinese(const Str& s) {
    auto kind = [&](wchar_t ch) { return is(ch, UUPPER | ULOWER) ? 1 : is(ch, UDIGIT) ? 2 : is(ch, UOTHER) ? 3 : 0; };
    std::vector<ATok> r;
    for (size_t i = 0; i < s.size();) {
        int k = kind(s[i]);
        if (!k) { ++i; continue; }
        size_t j = i + 1;
        if (k != 3) while (j < s.size() && j - i < 255 && kind(s[j]) == k) ++j;
        r.push_back({lowerAll(s.substr(i, j - i)), (int)i, (int)j, 1, L"word", ""});
        i = j;
    }
    return r;
}
// the order of tks() in anal.cpp
std::vector<ATok> tokenizeModel(int k, const Str& s) {
    switch (k) {
    case 0: return runs(s, [](wchar_t c) { return !is(c, USPACE); }, false);
    case 1: return runs(s, [](wchar_t c) { return is(c, UALPHA); }, false);
    case 2: return runs(s, [](wchar_t c) { return is(c, UALPHA); }, true);
    case 3: return {ATok{s, 0, (int)s.size(), 1, L"word", ""}};
    case 4: return standard(s, 255, true);
    case 5: return standard(s, 255, false);
    case 6: return grams(s, 1, 2, false);
    case 7: return grams(s, 2, 4, false);
    case 8: return grams(s, 1, 1, true);
    case 9: return grams(s, 1, 3, true);
    case 10: return runs(s, [](wchar_t c) { return is(c, UALPHA | UMARK); }, false);
    case 11: return cjk(s);
    case 12: return chinese(s);
    case 13: return runs(s, [](wchar_t c) { return is(c, UALPHA | UDIGIT); }, false);
    }
    throw Unmodelled();
}

// ---- filters ---------------------------------------------------------------------------------------------------
typedef std::vector<ATok> Toks;
template <class F> Toks mapTerms(Toks v, F f) { for (auto& t : v) t.term = f(t.term); return v; }
Toks stops(const Toks& in, const std::set<Str>& words, bool ignoreCase, bool increments) {
    Toks r;
    int skipped = 0;
    for (auto& t : in) {
        if (words.count(ignoreCase ? lowerAll(t.term) : t.term)) { skipped += t.incr; continue; }
        r.push_back(t);
        if (increments) r.back().incr += skipped;
        skipped = 0;
    }
    return r;
}
Toks gramFilter(const Toks& in, int lo, int hi, bool keep, bool edge) {
    Toks r;
    int incr = 0;
    for (auto& t : in) {
        incr += t.incr;
        int n = (int)t.term.size();
        if (n < lo) { if (keep) { r.push_back(t); r.back().incr = incr; incr = 0; } continue; }
        for (int i = 0; i < (edge ? 1 : n); ++i)
            for (int k = lo; k <= hi && i + k <= n; ++k) {
                r.push_back({t.term.substr((size_t)i, (size_t)k), t.so, t.eo, incr, t.type, t.rest});
                incr = 0;
            }
        if (keep && n > hi) { r.push_back(t); r.back().incr = 0; }
    }
    return r;
}
const std::map<wchar_t, Str>& latin1() {          // the table in the documentation of ISOLatin1AccentFilter
    static const std::map<wchar_t, Str> m = [] {
        std::map<wchar_t, Str> r;
        static const std::map<wchar_t, wchar_t> base = pairs(uniBase);
        for (auto& p : base) if (p.first <= 0xff || p.first == 0x178) r[p.first] = Str(1, p.second);
        r[0xc6] = L"AE"; r[0xe6] = L"ae"; r[0x132] = L"IJ"; r[0x133] = L"ij"; r[0xd0] = L"D"; r[0xf0] = L"d"; r[0xd8] = L"O"; r[0xf8] = L"o"; r[0x152] = L"OE"; r[0x153] = L"oe"; r[0xde] = L"TH"; r[0xfe] = L"th"; r[0xdf] = L"ss";
        r[0xfb05] = L"ft"; r[0xfb06] = L"st"; r[0xfb00] = L"ff"; 
        r[0xfb01] = L"fi"; r[0xfb02] = L"fl";
        return r;
    }();
    return m;
}
Str isoFold(const Str& s) {
    Str r;
    for (wchar_t ch : s) {
        if (ch == 0xfb00) throw Unmodelled();
        auto it = latin1().find(ch);
        if (it != latin1().end()) r += it->second; else r += ch;
    }
    return r;
}
bool maybeFolded(wchar_t ch) {
    unsigned c = (unsigned)ch;
    return (c >= 0x80 && c < 0x370) || (c >= 0x1d00 && c < 0x1f00) || (c >= 0x2000 && c < 0x2c80) || (c >= 0x2e00 && c < 0x2e80) || (c >= 0xa700 && c < 0xa800) || (c >= 0xfb00 && c < 0xfb10) || (c >= 0xff00 && c <= 0xff5e);
}
bool foldChar(wchar_t ch, Str& out) {
    static const std::map<wchar_t, wchar_t> base = pairs(uniBase);
    auto it = base.find(ch);
    if (it != base.end()) { out = Str(1, it->second); return true; }
    if (ch == 0xfb05 || ch == 0xff40 || ch == 0xff5c) return false;      // not in the documented table
    if (ch >= 0xff01 && ch <= 0xff5e) { out = Str(1, (wchar_t)(ch - 0xfee0)); return true; }
    auto l = latin1().find(ch);
    if (l != latin1().end()) { out = l->second; return true; }
    static const std::map<wchar_t, Str> more{{0x110, L"D"}, {0x111, L"d"}, {0x126, L"H"}, {0x127, L"h"}, {0x131, L"i"}, {0x141, L"L"}, {0x142, L"l"}, {0x166, L"T"}, {0x167, L"t"}, {0x2018, L"'"}, {0x2019, L"'"}, {0x201c, L"\""}, {0x201d, L"\""}, {0x2013, L"-"}, {0x2014, L"-"},
        {0xab, L"\""}, {0xbb, L"\""}, {0x2080, L"0"}, {0x2460, L"1"}, {0x1c4, L"DZ"}, {0x1c6, L"dz"}, {0x1c7, L"LJ"}, {0x1c9, L"lj"}, {0x1ca, L"NJ"}, {0x1cc, L"nj"}};
    auto m = more.find(ch);
    if (m != more.end()) { out = m->second; return true; }
    if (ch < 0x80 || !maybeFolded(ch)) { out = Str(1, ch); return true; }
    return false;
}
Str asciiFold(const Str& s) {
    Str r, x;
    for (wchar_t ch : s) { if (!foldChar(ch, x)) throw Unmodelled(); r += x; }
    return r;
}
Str arabicNormal(const Str& s) {
    Str r;
    for (wchar_t ch : s) switch ((unsigned)ch) {
        case 0x622: case 0x623: case 0x625: r += (wchar_t)0x627; break;
        case 0x649: r += (wchar_t)0x64a; break;
        case 0x629: r += (wchar_t)0x647; break;
        default: if (ch == 0x640 || (ch >= 0x64b && ch <= 0x652)) break; r += ch;
        }
    return r;
}
Str persianNormal(const Str& s) {
    Str r;
    for (wchar_t ch : s) switch ((unsigned)ch) {
        case 0x6cc: case 0x6d2: r += (wchar_t)0x64a; break;
        case 0x6a9: r += (wchar_t)0x643; break;
        case 0x6c0: case 0x6c1: r += (wchar_t)0x647; break;
        case 0x654: break;
        default: r += ch;
        }
    return r;
}
bool starts(const Str& s, const Str& p) { return s.compare(0, p.size(), p) == 0; }
bool endsWith(const Str& s, const Str& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
Str arabicStem(Str s) {       // Light10: one prefix (if two letters remain, three after a single waw), then every suffix that leaves two
    static const std::vector<Str> pre{L"\u0627\u0644", L"\u0648\u0627\u0644", L"\u0628\u0627\u0644", L"\u0643\u0627\u0644", L"\u0641\u0627\u0644", L"\u0644\u0644", L"\u0648"};
    static const std::vector<Str> suf{L"\u0647\u0627", L"\u0627\u0646", L"\u0627\u062a", L"\u0648\u0646", L"\u064a\u0646", L"\u064a\u0647", L"\u064a\u0629", L"\u0647", L"\u0629", L"\u064a"};
    for (auto& p : pre) if (starts(s, p) && s.size() >= p.size() + (p.size() == 1 ? 3 : 2)) { s.erase(0, p.size()); break; }
    for (auto& x : suf) if (endsWith(s, x) && s.size() >= x.size() + 2) s.erase(s.size() - x.size());
    return s;
}
Str elide(const Str& s) {
    static const std::set<Str> art{L"l", L"m", L"t", L"qu", L"n", L"s", L"j"};
    size_t p = s.find_first_of(L"'\u2019");
    return p != Str::npos && art.count(lowerAll(s.substr(0, p))) ? s.substr(p + 1) : s;
}
Str greekLower(const Str& s) {
    static const std::map<wchar_t, wchar_t> m{{0x3c2, 0x3c3}, {0x386, 0x3b1}, {0x3ac, 0x3b1}, {0x388, 0x3b5}, {0x3ad, 0x3b5}, {0x389, 0x3b7}, {0x3ae, 0x3b7}, {0x38a, 0x3b9}, {0x3aa, 0x3b9}, {0x3af, 0x3b9}, {0x3ca, 0x3b9}, {0x390, 0x3b9}, {0x38e, 0x3c5}, {0x3ab, 0x3c5},
        {0x3cd, 0x3c5}, {0x3cb, 0x3c5}, {0x3b0, 0x3c5}, {0x38c, 0x3bf}, {0x3cc, 0x3bf}, {0x38f, 0x3c9}, {0x3ce, 0x3c9}, {0x3a2, 0x3c2}};
    Str r;
    for (wchar_t ch : s) { auto it = m.find(ch); r += it != m.end() ? it->second : lower(ch); }
    return r;
}

// Porter's algorithm, as tables
struct Porter {
    Str w;
    bool cons(size_t i) const {
        switch (w[i]) { case L'a': case L'e': case L'i': case L'o': case L'u': return false; case L'y': return i == 0 || !cons(i - 1); }
        return true;
    }
    int m(size_t n) const { int r = 0; for (size_t i = 1; i < n; ++i) if (cons(i) && !cons(i - 1)) ++r; return r; }
    bool vowel(size_t n) const { for (size_t i = 0; i < n; ++i) if (!cons(i)) return true; return false; }
    bool twice(size_t n) const { return n >= 2 && w[n - 1] == w[n - 2] && cons(n - 1); }
    bool cvc(size_t n) const { return n >= 3 && cons(n - 1) && !cons(n - 2) && cons(n - 3) && w[n - 1] != L'w' && w[n - 1] != L'x' && w[n - 1] != L'y'; }
    bool ends(const Str& s) const { return endsWith(w, s); }
    size_t stem(const Str& s) const { return w.size() - s.size(); }
    void to(const Str& s, const Str& r) { w = w.substr(0, stem(s)) + r; }
    // the rule with the longest suffix decides
    void table(const std::vector<std::pair<Str, Str>>& t, int minM) {
        const std::pair<Str, Str>* best = nullptr;
        for (auto& x : t) if (ends(x.first) && (!best || x.first.size() > best->first.size())) best = &x;
        if (best && m(stem(best->first)) > minM) to(best->first, best->second);
    }
    static Str run(const Str& s) {
        if (s.size() <= 2) return s;
        Porter p{s};
        if (p.ends(L"sses")) p.to(L"es", L""); else if (p.ends(L"ies")) p.to(L"ies", L"i"); else if (p.ends(L"s") && !p.ends(L"ss")) p.to(L"s", L"");
        if (p.ends(L"eed")) { if (p.m(p.stem(L"eed")) > 0) p.to(L"eed", L"ee"); }
        else {
            Str x = p.ends(L"ed") && p.vowel(p.stem(L"ed")) ? L"ed" : p.ends(L"ing") && p.vowel(p.stem(L"ing")) ? L"ing" : L"";
            if (!x.empty()) {
                p.to(x, L"");
                if (p.ends(L"at") || p.ends(L"bl") || p.ends(L"iz")) p.w += L"e";
                else if (p.twice(p.w.size())) { wchar_t l = p.w.back(); if (l != L'l' && l != L's' && l != L'z') p.w.pop_back(); }
                else if (p.m(p.w.size()) == 1 && p.cvc(p.w.size())) p.w += L"e";
            }
        }
        if (p.ends(L"y") && p.vowel(p.w.size() - 1)) p.to(L"y", L"i");
        static const std::vector<std::pair<Str, Str>> two{{L"ational", L"ate"}, {L"tional", L"tion"}, {L"enci", L"ence"}, {L"anci", L"ance"}, {L"izer", L"ize"}, {L"bli", L"ble"}, {L"alli", L"al"}, {L"entli", L"ent"}, {L"eli", L"e"}, {L"ousli", L"ous"},
            {L"ization", L"ize"}, {L"ation", L"ate"}, {L"ator", L"ate"}, {L"alism", L"al"}, {L"iveness", L"ive"}, {L"fulness", L"ful"}, {L"ousness", L"ous"}, {L"aliti", L"al"}, {L"iviti", L"ive"}, {L"biliti", L"ble"}, {L"logi", L"log"}};
        static const std::vector<std::pair<Str, Str>> three{{L"icate", L"ic"}, {L"ative", L""}, {L"alize", L"al"}, {L"iciti", L"ic"}, {L"ical", L"ic"}, {L"ful", L""}, {L"ness", L""}};
        p.table(two, 0);
        p.table(three, 0);
        static const std::vector<Str> four{L"al", L"ance", L"ence", L"er", L"ic", L"able", L"ible", L"ant", L"ement", L"ment", L"ent", L"ion", L"ou", L"ism", L"ate", L"iti", L"ous", L"ive", L"ize"};
        const Str* best = nullptr;
        for (auto& x : four) {
            if (!p.ends(x)) continue;
            if (x == L"ion" && (p.stem(x) == 0 || (p.w[p.stem(x) - 1] != L's' && p.w[p.stem(x) - 1] != L't'))) continue;
            if (!best || x.size() > best->size()) best = &x;
        }
        if (best && p.m(p.stem(*best)) > 1) p.to(*best, L"");
        if (p.ends(L"e")) {
            int a = p.m(p.w.size() - 1);
            if (a > 1 || (a == 1 && !p.cvc(p.w.size() - 1))) p.w.pop_back();
        }
        if (p.ends(L"ll") && p.m(p.w.size()) > 1) p.w.pop_back();
        return p.w;
    }
};

const std::set<Str> SOME{L"the", L"and", L"der", L"und", L"le", L"et", L"\u0438", L"de", L"a"};
const std::set<Str> ENGLISH{L"a", L"an", L"and", L"are", L"as", L"at", L"be", L"but", L"by", L"for", L"if", L"in", L"into", L"is", L"it", L"no", L"not", L"of", L"on", L"or", L"such", L"that", L"the", L"their", L"then", L"there", L"these", L"they", L"this", L"to", L"was", L"will", L"with"};
Toks standardFilter(Toks v) {
    for (auto& t : v) {
        if (t.type == L"<APOSTROPHE>" && (endsWith(t.term, L"'s") || endsWith(t.term, L"'S"))) t.term.resize(t.term.size() - 2);
        else if (t.type == L"<ACRONYM>") { Str x; for (wchar_t ch : t.term) if (ch != L'.') x += ch; t.term = x; }
    }
    return v;
}
Toks chineseFilter(const Toks& in) {
    std::set<Str> no = ENGLISH;
    no.erase(L"a"); no.erase(L"an");
    Toks r;
    for (auto& t : in) {
        if (no.count(t.term) || t.term.empty()) continue;
        if (is(t.term[0], UUPPER | ULOWER) ? t.term.size() > 1 : is(t.term[0], UOTHER | UDIGIT)) r.push_back(t);
    }
    return r;
}
// the order of fis() in anal.cpp
const std::vector<int> MODELLED{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 19, 24, 25, 26, 27};
Toks filterModel(int k, const Toks& in) {
    switch (k) {
    case 0: return mapTerms(in, lowerAll);
    case 1: return stops(in, SOME, false, true);
    case 2: return stops(in, SOME, true, false);
    case 3: { Toks r; for (auto& t : in) if (t.term.size() >= 2 && t.term.size() <= 6) r.push_back(t); return r; }
    case 4: return mapTerms(in, asciiFold);
    case 5: return mapTerms(in, isoFold);
    case 6: return mapTerms(in, Porter::run);
    case 7: return gramFilter(in, 1, 2, false, false);
    case 8: return gramFilter(in, 2, 3, true, false);
    case 9: return gramFilter(in, 1, 3, false, true);
    case 10: return gramFilter(in, 2, 4, true, true);
    case 11: return standardFilter(in);
    case 12: return mapTerms(in, arabicNormal);
    case 13: return mapTerms(in, arabicStem);
    case 16: return chineseFilter(in);
    case 19: return mapTerms(in, elide);
    case 24: return mapTerms(in, greekLower);
    case 25: return mapTerms(in, persianNormal);
    case 26: return mapTerms(in, [](const Str& s) { return Str(s.rbegin(), s.rend()); });
    case 27: return mapTerms(in, [](const Str& s) { return Str(1, L'\x1') + Str(s.rbegin(), s.rend()); });
    }
    throw Unmodelled();
}

void compare(const Analysed& got, const Toks& want, int end) {
    REQUIRE_EQ(got.error, std::string(), "analysis");
    size_t n = std::min(got.toks.size(), want.size());
    for (size_t i = 0; i < n; ++i) REQUIRE_EQ(show(got.toks[i]), show(want[i]), "token " << i);
    REQUIRE_EQ(got.toks.size(), want.size(), "number of tokens" << (got.toks.size() > n ? ", first too many: " + show(got.toks[n]) : want.size() > n ? ", first missing: " + show(want[n]) : std::string()));
    REQUIRE_EQ(got.end, end, "final offset");
}
ReaderPtr readerOf(Case& c, const Str& s) {
    if (c.chance(1, 2)) return newLucene<StringReader>(s);
    return newLucene<ChunkReader>(s, c.pick(std::vector<int>{1, 2, 3, 7, 100, 1024, 5000}), -1);
}
bool standardText(const Str& s) { for (wchar_t ch : s) if (!standardKnows(ch)) return false; return true; }

Str genText19(Case& c) {
    Str s = genTextFor(c, c.chance(1, 10) ? 40 : 8);
    if (c.chance(1, 60)) {     // long: across every buffer
        Str w = genTextFor(c, 4) + L" ";
        size_t n = (size_t)c.pick(std::vector<int>{1024, 1026, 2050, 4096, 8192, 16384, 20000}) + (size_t)c.range(0, 6) - 3;
        Str pad;
        while (pad.size() < n && w.size() > 0) pad += w;
        pad.resize(n, L'x');
        s = pad + s;
    }
    return s;
}

}

VF_SUB(unicode, 1, 1) {
    (void)c;
    for (unsigned cp = 0; cp < 0x20000; ++cp) {
        unsigned f = classOf((wchar_t)cp);
        if (!f) continue;
        wchar_t ch = (wchar_t)cp;
        REQUIRE_EQ(UnicodeUtil::isAlpha(ch), (f & UALPHA) != 0, "letter " << std::hex << cp << std::dec);
        REQUIRE_EQ(UnicodeUtil::isDigit(ch), (f & UDIGIT) != 0, "digit " << std::hex << cp << std::dec);
        REQUIRE_EQ(UnicodeUtil::isAlnum(ch), (f & (UALPHA | UDIGIT | UNUM)) != 0, "letter or number " << std::hex << cp << std::dec);
        REQUIRE_EQ(UnicodeUtil::isSpace(ch), (f & USPACE) != 0, "space " << std::hex << cp << std::dec);
        REQUIRE_EQ(UnicodeUtil::isUpper(ch), (f & UUPPER) != 0, "upper case " << std::hex << cp << std::dec);
        REQUIRE_EQ(UnicodeUtil::isLower(ch), (f & ULOWER) != 0, "lower case " << std::hex << cp << std::dec);
        REQUIRE_EQ(UnicodeUtil::isOther(ch), (f & UOTHER) != 0, "other letter " << std::hex << cp << std::dec);
        REQUIRE_EQ(UnicodeUtil::isNonSpacing(ch), (f & UMARK) != 0, "mark " << std::hex << cp << std::dec);
        try {
            wchar_t l = lower(ch);
            REQUIRE_EQ((unsigned)CharFolder::toLower(ch), (unsigned)l, "lower case of " << std::hex << cp << std::dec);
            REQUIRE(StringUtils::toLower(Str(1, ch)) == Str(1, l), "lower case string of " << std::hex << cp << std::dec);
        } catch (Unmodelled&) {}
        Str want;
        if (foldChar(ch, want)) {
            Analysed a = consume(newLucene<ASCIIFoldingFilter>(newLucene<KeywordTokenizer>(newLucene<StringReader>(Str(1, ch)))));
            REQUIRE_EQ(printable(a.toks.at(0).term), printable(want), "ASCII folding of " << std::hex << cp << std::dec);
        }
        if (cp != 0xfb00) {
            Analysed a = consume(newLucene<ISOLatin1AccentFilter>(newLucene<KeywordTokenizer>(newLucene<StringReader>(Str(1, ch)))));
            REQUIRE_EQ(printable(a.toks.at(0).term), printable(isoFold(Str(1, ch))), "accent removal of " << std::hex << cp << std::dec);
        }
    }
    c.nontrivial();
}

VF_SUB(chains, 30000, 1500000) {
    int tk = c.chance(1, 3) ? (int)c.range(4, 5) : (int)c.range(0, tokenizers() - 1);
    std::vector<int> f;
    int nf = c.chance(1, 3) ? 0 : (int)c.range(1, 3);
    for (int i = 0; i < nf; ++i) f.push_back(c.pick(MODELLED));
    Str s = cleaned(genText19(c));
    if (tk == 4 || tk == 5) { if (!standardText(s)) for (auto& x : s) if (!standardKnows(x)) x = L' '; }
    if ((tk == 6 || tk == 7) && s.size() > 3000) s.resize(3000);
    c.note(tokenizerName(tk));
    for (int i : f) c.note(filterName(i));
    c.note("text '" + printable(s.substr(0, 300)) + "' " + std::to_string(s.size()));
    Toks want;
    try {
        want = tokenizeModel(tk, s);
        for (int i : f) {
            size_t n = 0;
            for (auto& t : want) n += t.term.size() + 40;
            if (n > 1000000) throw Unmodelled();      // too large to keep
            want = filterModel(i, want);
        }
    } catch (Unmodelled&) { ++c.excluded; return; }
    TokenStreamPtr ts = makeTokenizer(tk, readerOf(c, s));
    for (int i : f) ts = makeFilter(i, ts);
    compare(consume(ts), want, (tk == 8 || tk == 9 || tk == 6 || tk == 7) ? consume(makeTokenizer(tk, newLucene<StringReader>(s))).end : (int)s.size());
    if (want.size() > 1) c.nontrivial();
}

VF_SUB(grammar, 30000, 1500000) {
    // words over the characters the grammar is made of
    static const std::vector<Str> bit{L"a", L"B", L"9", L"0", L".", L".", L"-", L"_", L"/", L",", L"@", L"&", L"'", L" ", L"\u0e31", L"\u0e01", L"\u4e2d", L"\u30a2", L"\uff71", L"\ud55c", L"\u00e9", L"\u0660", L"\x10400", L"ab", L"c3", L"\u2019", L"\n", L"+"};
    Str s;
    int n = (int)c.range(0, c.chance(1, 20) ? 80 : 24);
    bool plain = c.chance(2, 3);
    for (int i = 0; i < n; ++i) s += bit[(size_t)c.range(0, plain ? 13 : (int64_t)bit.size() - 1)];
    int maxLen = c.chance(1, 4) ? (int)c.range(1, 8) : 255;
    bool dep = c.chance(3, 4);
    c.note("text '" + printable(s) + "'");
    StandardTokenizerPtr t = newLucene<StandardTokenizer>(dep ? V : LuceneVersion::LUCENE_20, readerOf(c, s));
    t->setMaxTokenLength(maxLen);
    Toks want = standard(s, (size_t)maxLen, dep);
    compare(consume(t), want, (int)s.size());
    if (want.size() > 1) c.nontrivial();
}

VF_SUB(analyzerRules, 8000, 400000) {
    Str s = cleaned(genText19(c));
    int k = (int)c.range(0, 6);
    if (k <= 1 && !standardText(s)) for (auto& x : s) if (!standardKnows(x)) x = L' ';
    c.note("analyzer " + std::to_string(k) + " text '" + printable(s.substr(0, 300)) + "' " + std::to_string(s.size()));
    AnalyzerPtr a;
    Toks want;
    try {
        switch (k) {
        case 0: a = newLucene<StandardAnalyzer>(V); want = stops(mapTerms(standardFilter(standard(s, 255, true)), lowerAll), ENGLISH, false, true); break;
        case 1: { StandardAnalyzerPtr x = newLucene<StandardAnalyzer>(LuceneVersion::LUCENE_23); x->setMaxTokenLength(6); a = x; want = stops(mapTerms(standardFilter(standard(s, 6, false)), lowerAll), ENGLISH, false, false); break; }
        case 2: a = newLucene<StopAnalyzer>(V); want = stops(tokenizeModel(2, s), ENGLISH, false, true); break;
        case 3: a = newLucene<SimpleAnalyzer>(); want = tokenizeModel(2, s); break;
        case 4: a = newLucene<WhitespaceAnalyzer>(); want = tokenizeModel(0, s); break;
        case 5: a = newLucene<KeywordAnalyzer>(); want = tokenizeModel(3, s); break;
        case 6: a = newLucene<ChineseAnalyzer>(); want = chineseFilter(chinese(s)); break;
        }
    } catch (Unmodelled&) { ++c.excluded; return; }
    bool reuse = c.chance(1, 2);
    if (reuse) consume(a->reusableTokenStream(L"f", newLucene<StringReader>(L"x")));
    compare(consume(reuse ? a->reusableTokenStream(L"f", readerOf(c, s)) : a->tokenStream(L"f", readerOf(c, s))), want, (int)s.size());
    if (want.size() > 1) c.nontrivial();
}

VF_SUB(ngrams, 12000, 500000) {
    int lo = (int)c.range(1, 5), hi = lo + (int)c.range(0, 5);
    bool edge = c.chance(1, 3), keep = c.chance(1, 2);
    if (c.chance(1, 2)) {
        Str s = c.chance(1, 30) ? Str((size_t)c.pick(std::vector<int>{1020, 2047, 2048, 2060, 3100, 5000}) + (size_t)c.range(0, 20), L'q') : c.word(L"abcde ", 0, 20);
        for (size_t i = 0; i < s.size(); i += 7) s[i] = (wchar_t)(L'a' + i % 23);
        c.note("tokenizer " + std::to_string(lo) + "-" + std::to_string(hi) + (edge ? " edge" : "") + " length " + std::to_string(s.size()));
        ReaderPtr r = readerOf(c, s);
        TokenizerPtr t = edge ? TokenizerPtr(newLucene<EdgeNGramTokenizer>(r, lo, hi)) : TokenizerPtr(newLucene<NGramTokenizer>(r, lo, hi));
        Analysed got = consume(t);
        got.end = 0;
        Toks want = grams(s, lo, hi, edge);
        compare(got, want, 0);
        if (want.size() > 2) c.nontrivial();
    } else {
        std::vector<Str> w;
        int n = (int)c.range(0, 6);
        Str s;
        for (int i = 0; i < n; ++i) s += c.word(L"abcdef", 1, 12) + L" ";
        c.note("filter " + std::to_string(lo) + "-" + std::to_string(hi) + (edge ? " edge" : "") + (keep ? " keep" : "") + " '" + printable(s) + "'");
        TokenStreamPtr in = newLucene<WhitespaceTokenizer>(newLucene<StringReader>(s));
        Toks words = tokenizeModel(0, s);
        if (c.chance(1, 2)) {
            HashSet<String> st = HashSet<String>::newInstance();
            st.add(L"a");
            in = newLucene<StopFilter>(true, in, st);
            words = stops(words, {L"a"}, false, true);
        }
        TokenStreamPtr t = edge ? TokenStreamPtr(newLucene<EdgeNGramTokenFilter>(in, lo, hi, keep)) : TokenStreamPtr(newLucene<NGramTokenFilter>(in, lo, hi, keep));
        Toks want = gramFilter(words, lo, hi, keep, edge);
        compare(consume(t), want, (int)s.size());
        if (want.size() > 2) c.nontrivial();
    }
}

VF_SUB(porter, 40000, 2000000) {
    static const std::vector<Str> end{L"", L"s", L"es", L"ies", L"sses", L"ed", L"eed", L"ing", L"ational", L"tional", L"enci", L"anci", L"izer", L"bli", L"alli", L"entli", L"eli", L"ousli", L"ization", L"ation", L"ator", L"alism", L"iveness", L"fulness", L"ousness", L"aliti",
        L"iviti", L"biliti", L"logi", L"icate", L"ative", L"alize", L"iciti", L"ical", L"ful", L"ness", L"al", L"ance", L"ence", L"er", L"ic", L"able", L"ible", L"ant", L"ement", L"ment", L"ent", L"ion", L"sion", L"tion", L"ou", L"ism", L"ate", L"iti", L"ous", L"ive", L"ize", L"e", L"ll", L"y", L"ated", L"bled", L"izing", L"lling"};
    Str s = c.word(L"abctlsyeiou", 0, 7) + c.pick(end);
    if (c.chance(1, 3)) s += c.pick(end);
    if (c.chance(1, 10)) s[c.chance(1, 2) || s.empty() ? 0 : s.size() / 2] = c.pick(std::vector<wchar_t>{L'E', L'\u00e9', L'1', L'y', L'\x10400'});
    if (!s.empty() && s[0] == 0) s.erase(0, 1);
    c.note(printable(s));
    TokenStreamPtr t = newLucene<PorterStemFilter>(newLucene<KeywordTokenizer>(newLucene<StringReader>(s)));
    Analysed a = consume(t);
    REQUIRE_EQ(a.toks.size(), (size_t)1, "tokens");
    REQUIRE_EQ(printable(a.toks[0].term), printable(Porter::run(s)), "stem");
    if (Porter::run(s) != s) c.nontrivial();
}

VF_SUB(charFilters, 20000, 800000) {
    // a mapping, its reference (longest match, left to right) with the origin of every character it yields
    std::map<Str, Str> m;
    int n = (int)c.range(1, 6);
    NormalizeCharMapPtr map = newLucene<NormalizeCharMap>();
    for (int i = 0; i < n; ++i) {
        Str k = c.word(L"abcx", 1, 4), v = c.word(L"pqr ", 0, 5);
        if (!m.emplace(k, v).second) continue;
        map->add(k, v);
        c.note("'" + printable(k) + "' -> '" + printable(v) + "'");
    }
    Str s = c.chance(1, 40) ? Str((size_t)c.range(4090, 4110), L'y') + c.word(L"abcxyz  ", 0, 30) : c.word(L"abcxyz  ", 0, 30);
    c.note("text '" + printable(s.substr(0, 100)) + "'");
    struct Out { wchar_t ch; int from, to; bool same; };
    std::vector<Out> out;
    Str o;
    for (size_t i = 0; i < s.size();) {
        size_t best = 0;
        for (auto& p : m) if (p.first.size() > best && s.compare(i, p.first.size(), p.first) == 0) best = p.first.size();
        if (!best) { out.push_back({s[i], (int)i, (int)i + 1, true}); o += s[i]; ++i; continue; }
        for (wchar_t ch : m[s.substr(i, best)]) { out.push_back({ch, (int)i, (int)(i + best), false}); o += ch; }
        i += best;
    }
    MappingCharFilterPtr f = newLucene<MappingCharFilter>(map, readerOf(c, s));
    int how = (int)c.range(0, 4);
    c.note("read by " + std::to_string(how));
    bool moved = o != s;
    // where a token [a, b) of the mapped text must come from
    auto starts = [&](int a, int got, const std::string& w) {
        int len = (int)s.size();
        if (a >= (int)out.size()) { REQUIRE(got <= len && got >= (out.empty() ? 0 : out.back().to), w << ": offset " << a << " became " << got << " of " << len); return; }
        if (out[a].same) REQUIRE_EQ(got, out[a].from, w << ": offset " << a);
        else REQUIRE(got >= out[a].from && got <= out[a].to, w << ": offset " << a << " became " << got << ", replaced text is [" << out[a].from << ", " << out[a].to << ")");
    };
    auto ends = [&](int b, int got, const std::string& w) {
        int lo = b ? out[b - 1].same ? out[b - 1].to : out[b - 1].from : 0, hi = b < (int)out.size() ? out[b].same ? out[b].from : out[b].to : (int)s.size();
        REQUIRE(got >= lo && got <= hi, w << ": end " << b << " became " << got << ", not in [" << lo << ", " << hi << "]");
    };
    if (how == 0) {
        Str got;
        if (c.chance(1, 2)) { for (int32_t x; (x = f->read()) != -1;) { got += (wchar_t)x; REQUIRE(got.size() < 100000, "endless"); } }
        else {
            int chunk = (int)c.range(1, 40);
            std::vector<wchar_t> b((size_t)chunk + 4, L'#');
            for (int32_t k; (k = f->read(b.data(), 2, chunk)) != -1;) {
                REQUIRE(k > 0 && k <= chunk, "read " << k);
                REQUIRE(b[1] == L'#' && b[2 + chunk] == L'#', "wrote outside");
                got.append(b.data() + 2, (size_t)k);
                REQUIRE(got.size() < 100000, "endless");
            }
        }
        REQUIRE_EQ(printable(got), printable(o), "mapped text");
        int last = 0;
        for (int i = 0; i <= (int)o.size(); ++i) {
            int x = CharStreamPtr(f)->correctOffset(i);
            REQUIRE(x >= last, "offset " << i << " became " << x << " after " << last);
            last = x;
            starts(i, x, "character");
        }
    } else {
        TokenizerPtr t;
        Toks want;
        bool reused = c.chance(1, 3);
        ReaderPtr r = f;
        if (reused) {
            Str first = c.word(L"abcxyz  ", 0, 30);
            c.note("after '" + printable(first) + "'");
            r = newLucene<MappingCharFilter>(map, readerOf(c, first));
        }
        switch (how) {
        case 1: t = newLucene<WhitespaceTokenizer>(r); want = tokenizeModel(0, o); break;
        case 2: t = newLucene<LetterTokenizer>(r); want = tokenizeModel(1, o); break;
        case 3: t = newLucene<KeywordTokenizer>(r); want = tokenizeModel(3, o); break;
        case 4: t = newLucene<StandardTokenizer>(V, r); want = standard(o, 255, true); break;
        }
        if (reused) { consume(t); t->reset(f); }
        Analysed a = consume(t);
        REQUIRE_EQ(a.error, std::string(), "analysis");
        REQUIRE_EQ(a.toks.size(), want.size(), "number of tokens, got " << show(a));
        int last = 0;
        for (size_t i = 0; i < want.size(); ++i) {
            REQUIRE_EQ(printable(a.toks[i].term), printable(want[i].term), "term " << i);
            starts(want[i].so, a.toks[i].so, "token " + std::to_string(i));
            ends(want[i].eo, a.toks[i].eo, "token " + std::to_string(i));
            REQUIRE(a.toks[i].so >= last && a.toks[i].eo >= a.toks[i].so, "offsets of token " << i << " go back: " << show(a));
            last = a.toks[i].so;
        }
        ends((int)o.size(), a.end, "final offset");
    }
    if (moved) c.nontrivial();
}

VF_SUB(offsets, 8000, 400000) {
    // every analyzer: offsets lie inside the text, the start never goes back, tokens are not empty stretches before them
    const Kind_& k = analyzers()[(size_t)c.range(0, (int64_t)analyzers().size() - 1)];
    Str s = genText19(c);
    c.note(k.name + " '" + printable(s.substr(0, 300)) + "'");
    Analysed a = consume(k.make()->tokenStream(L"f", readerOf(c, s)));
    REQUIRE_EQ(a.error, std::string(), "analysis");
    int last = 0;
    for (size_t i = 0; i < a.toks.size(); ++i) {
        const ATok& t = a.toks[i];
        REQUIRE(t.so >= last && t.eo >= t.so && t.eo <= (int)s.size(), "token " << i << " " << show(t) << " in a text of " << s.size() << " after " << last);
        REQUIRE(t.incr >= (i ? 0 : 1), "increment of " << show(t));
        last = t.so;
    }
    REQUIRE(a.end >= (a.toks.empty() ? 0 : a.toks.back().eo) && a.end <= (int)s.size(), "final offset " << a.end << " of " << s.size());
    if (a.toks.size() > 1) c.nontrivial();
}
