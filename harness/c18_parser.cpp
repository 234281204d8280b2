// C18: the query parser accepts or rejects every string cleanly and means what the documented grammar says.
#include "LuceneInc.h"
#include "common.h"
#include "QueryParser.h"
#include "QueryParserToken.h"
#include "MultiFieldQueryParser.h"
#include "KeywordAnalyzer.h"
#include "Analyzer.h"
#include "TokenStream.h"
#include "TermAttribute.h"
#include "PositionIncrementAttribute.h"
#include "Reader.h"
#include "Term.h"
#include "TermQuery.h"
#include "PhraseQuery.h"
#include "MultiPhraseQuery.h"
#include "PrefixQuery.h"
#include "WildcardQuery.h"
#include "FuzzyQuery.h"
#include "TermRangeQuery.h"
#include "MatchAllDocsQuery.h"
#include "BooleanQuery.h"
#include "BooleanClause.h"
#include "MultiTermQuery.h"
#include "StringUtils.h"
#include "DateTools.h"
#include "DateField.h"
#include <climits>

using namespace vf;

namespace {

typedef std::wstring Str;

// ------------------------------------------------------------------ the analysis used
// Words are separated by white space and lower-cased; "the" is dropped and leaves a gap; a word that
// starts with "syn" is followed by "alt" + the rest at the same position.
struct T { Str term; int incr; };
Str lower(Str s) { for (auto& c : s) if (c >= L'A' && c <= L'Z') c += 32; return s; }
bool blank(wchar_t c) { return c == L' ' || c == L'\t' || c == L'\n' || c == L'\r'; }
std::vector<T> analyse(const Str& text) {
    std::vector<T> r;
    int gap = 0;
    for (size_t i = 0; i < text.size();) {
        if (blank(text[i])) { ++i; continue; }
        size_t j = i;
        while (j < text.size() && !blank(text[j])) ++j;
        Str w = lower(text.substr(i, j - i));
        i = j;
        if (w == L"the") { ++gap; continue; }
        r.push_back({w, gap + 1});
        gap = 0;
        if (w.compare(0, 3, L"syn") == 0) r.push_back({L"alt" + w.substr(3), 0});
    }
    return r;
}
class QStream : public TokenStream {
public:
    QStream(const Str& text) : toks(analyse(text)), at(0) {}
    virtual ~QStream() {}
    LUCENE_CLASS(QStream);
    virtual void initialize() { TokenStream::initialize(); term = addAttribute<TermAttribute>(); inc = addAttribute<PositionIncrementAttribute>(); }
    virtual bool incrementToken() {
        if (at >= toks.size()) return false;
        clearAttributes();
        term->setTermBuffer(toks[at].term);
        inc->setPositionIncrement(toks[at].incr);
        ++at;
        return true;
    }
    virtual void reset() { at = 0; }
    std::vector<T> toks;
    size_t at;
    TermAttributePtr term;
    PositionIncrementAttributePtr inc;
};
class QAnalyzer : public Analyzer {
public:
    virtual ~QAnalyzer() {}
    LUCENE_CLASS(QAnalyzer);
    virtual TokenStreamPtr tokenStream(const String&, const ReaderPtr& reader) {
        Str s;
        for (int32_t c; (c = reader->read()) != Reader::READER_EOF;) s += (wchar_t)c;
        return newLucene<QStream>(s);
    }
};

// ------------------------------------------------------------------ what a query looks like
struct N;
typedef std::shared_ptr<N> NP;
struct N {
    std::string head;                       // everything but boost and clauses
    double boost = 1.0;
    bool isBool = false;
    std::vector<std::pair<char, NP>> cl;    // '+', '-', ' '
};
std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string quote(const Str& s) { std::string r; for (wchar_t c : s) { if (c >= 33 && c < 127 && c != '\'' && c != '%') r += (char)c; else { char b[16]; snprintf(b, sizeof b, "%%%x;", (unsigned)c); r += b; } } return "'" + r + "'"; }
std::string show(const NP& n) {
    std::string r = n->head;
    if (n->isBool) { r += "("; for (auto& c : n->cl) { r += c.first; r += show(c.second); r += " "; } r += ")"; }
    return r + (n->boost == 1.0 ? "" : "^" + num(n->boost));
}
RewriteMethodPtr theRewrite;
std::string rw(const RewriteMethodPtr& m) { return m == theRewrite ? "" : "!rewrite"; }
struct Peek : public QueryParser { using QueryParser::escape; };
std::string show(const QueryPtr& q) {
    std::string r;
    if (!q) return "null";
    std::string b = q->getBoost() == 1.0 ? "" : "^" + num(q->getBoost());
    if (TermQueryPtr x = boost::dynamic_pointer_cast<TermQuery>(q)) return "term " + quote(x->getTerm()->field()) + quote(x->getTerm()->text()) + b;
    if (PrefixQueryPtr x = boost::dynamic_pointer_cast<PrefixQuery>(q)) return "prefix " + quote(x->getPrefix()->field()) + quote(x->getPrefix()->text()) + rw(x->getRewriteMethod()) + b;
    if (WildcardQueryPtr x = boost::dynamic_pointer_cast<WildcardQuery>(q)) return "wild " + quote(x->getTerm()->field()) + quote(x->getTerm()->text()) + rw(x->getRewriteMethod()) + b;
    if (FuzzyQueryPtr x = boost::dynamic_pointer_cast<FuzzyQuery>(q)) return "fuzzy " + quote(x->getTerm()->field()) + quote(x->getTerm()->text()) + "~" + num(x->getMinSimilarity()) + "/" + str(x->getPrefixLength()) + b;
    if (TermRangeQueryPtr x = boost::dynamic_pointer_cast<TermRangeQuery>(q))
        return "range " + quote(x->getField()) + (x->includesLower() ? "[" : "{") + quote(x->getLowerTerm()) + quote(x->getUpperTerm()) + (x->includesUpper() ? "]" : "}") + rw(x->getRewriteMethod()) + b;
    if (boost::dynamic_pointer_cast<MatchAllDocsQuery>(q)) return "all" + b;
    if (PhraseQueryPtr x = boost::dynamic_pointer_cast<PhraseQuery>(q)) {
        r = "phrase";
        Collection<TermPtr> t = x->getTerms(); Collection<int32_t> p = x->getPositions();
        for (int i = 0; i < t.size(); ++i) r += " " + quote(t[i]->field()) + quote(t[i]->text()) + "@" + str(p[i]);
        return r + "~" + str(x->getSlop()) + b;
    }
    if (MultiPhraseQueryPtr x = boost::dynamic_pointer_cast<MultiPhraseQuery>(q)) {
        r = "multi";
        Collection< Collection<TermPtr> > a = x->getTermArrays(); Collection<int32_t> p = x->getPositions();
        for (int i = 0; i < a.size(); ++i) { r += " "; for (int k = 0; k < a[i].size(); ++k) r += quote(a[i][k]->field()) + quote(a[i][k]->text()); r += "@" + str(p[i]); }
        return r + "~" + str(x->getSlop()) + b;
    }
    if (BooleanQueryPtr x = boost::dynamic_pointer_cast<BooleanQuery>(q)) {
        r = x->isCoordDisabled() ? "or(" : "bool(";
        for (Collection<BooleanClausePtr>::iterator c = x->begin(); c != x->end(); ++c)
            r += std::string((*c)->isRequired() ? "+" : (*c)->isProhibited() ? "-" : " ") + show((*c)->getQuery()) + " ";
        return r + ")" + (x->getMinimumNumberShouldMatch() ? "~" + str(x->getMinimumNumberShouldMatch()) : "") + b;
    }
    return "?" + str(q->toString());
}

// ------------------------------------------------------------------ the grammar as documented
enum K { END, AND, OR, NOT, PLUS, MINUS, LP, RP, COLON, STAR, CARAT, QUOTED, TERM, FUZZY, PREFIX, WILD, RIN, REX, NUMBER, TO, REND, RQ, GOOP, BAD };
struct Tk { K k; Str s; };
struct Reject {};

bool ws(wchar_t c) { return blank(c) || c == 0x3000; }
bool termStart(const Str& s, size_t i, size_t& n) {
    wchar_t c = s[i];
    if (c == L'\\') { n = 2; return i + 1 < s.size(); }
    n = 1;
    return !ws(c) && !wcschr(L"+-!():^[]\"{}~*?", c) ? true : c == 0;
}
bool termChar(const Str& s, size_t i, size_t& n) {
    if (s[i] == L'-' || s[i] == L'+') { n = 1; return true; }
    return termStart(s, i, n);
}
bool digit(wchar_t c) { return c >= L'0' && c <= L'9'; }
size_t number(const Str& s, size_t i) {     // length of digits(.digits)? at i
    size_t j = i;
    while (j < s.size() && digit(s[j])) ++j;
    if (j == i) return 0;
    if (j + 1 < s.size() && s[j] == L'.' && digit(s[j + 1])) { ++j; while (j < s.size() && digit(s[j])) ++j; }
    return j - i;
}
std::vector<Tk> lex(const Str& s) {
    std::vector<Tk> r;
    enum { DEF, BOOST, IN, EX } st = DEF;
    size_t i = 0;
    while (true) {
        if (i >= s.size()) { r.push_back({END, L""}); return r; }
        K best = BAD; size_t len = 0; bool skip = false;
        auto cand = [&](K k, size_t n, bool sk = false) { if (n > len) { len = n; best = k; skip = sk; } };   // earlier candidates win ties
        wchar_t c = s[i];
        if (st == DEF) {
            if (ws(c)) cand(END, 1, true);
            auto lit = [&](const wchar_t* x, K k) { size_t n = wcslen(x); if (s.compare(i, n, x) == 0) cand(k, n); };
            lit(L"AND", AND); lit(L"&&", AND); lit(L"OR", OR); lit(L"||", OR); lit(L"NOT", NOT); lit(L"!", NOT);
            lit(L"+", PLUS); lit(L"-", MINUS); lit(L"(", LP); lit(L")", RP); lit(L":", COLON); lit(L"*", STAR); lit(L"^", CARAT);
            if (c == L'"') {
                size_t j = i + 1; bool closed = false;
                while (j < s.size()) {
                    if (s[j] == L'"') { closed = true; break; }
                    j += s[j] == L'\\' ? 2 : 1;
                }
                if (closed) cand(QUOTED, j + 1 - i);
            }
            size_t n;
            size_t term = 0;
            if (termStart(s, i, n)) {
                size_t j = i + n;
                while (j < s.size() && termChar(s, j, n)) j += n;
                term = j - i;
                cand(TERM, term);
            }
            if (c == L'~') { size_t m = number(s, i + 1); cand(FUZZY, 1 + m); }
            if (c == L'*') cand(PREFIX, 1);
            if (term && i + term < s.size() && s[i + term] == L'*') cand(PREFIX, term + 1);
            if (c == L'*' || c == L'?' || termStart(s, i, n)) {
                if (c == L'*' || c == L'?') n = 1;
                size_t j = i + n;
                while (j < s.size() && (s[j] == L'*' || s[j] == L'?' ? (n = 1, true) : termChar(s, j, n))) j += n;
                cand(WILD, j - i);
            }
            lit(L"[", RIN); lit(L"{", REX);
        } else if (st == BOOST) {
            cand(NUMBER, number(s, i));
        } else {
            wchar_t close = st == IN ? L']' : L'}';
            if (ws(c)) cand(END, 1, true);
            if (s.compare(i, 2, L"TO") == 0) cand(TO, 2);
            if (c == close) cand(REND, 1);
            if (c == L'"')
                for (size_t j = i + 1; j < s.size(); ++j)
                    if (s[j] == L'"') {
                        if (j > i + 1) cand(RQ, j + 1 - i);
                        if (j == i + 1 || s[j - 1] != L'\\') break;   // cannot be inside
                    }
            size_t j = i;
            while (j < s.size() && s[j] != L' ' && s[j] != close) ++j;
            cand(GOOP, j - i);
        }
        if (!len) { r.push_back({BAD, L""}); return r; }
        if (!skip) {
            r.push_back({best, s.substr(i, len)});
            if (best == CARAT) st = BOOST;
            if (best == NUMBER || best == REND) st = DEF;
            if (best == RIN) st = IN;
            if (best == REX) st = EX;
        }
        i += len;
    }
}

struct Cfg {
    Str field = L"f";
    bool andOp = false, lowerExp = true, leading = false, posInc = true;
    int slop = 0, fuzzyPrefix = 0, maxClauses = 1024;
    double fuzzySim = 0.5;
    int res = -1;                                   // date resolution
    std::map<Str, int> fieldRes;
    std::vector<Str> multi;                           // MultiFieldQueryParser: the fields
    std::map<Str, double> boosts;
    std::string describe() const {
        std::string r = "field " + str(field) + (andOp ? " AND" : " OR") + (lowerExp ? " lower" : "") + (leading ? " leading" : "") + (posInc ? " posInc" : "") + " slop " + str(slop) +
            " prefix " + str(fuzzyPrefix) + " sim " + num(fuzzySim) + " maxClauses " + str(maxClauses) + " res " + str(res);
        for (auto& f : fieldRes) r += " res(" + str(f.first) + ")=" + str(f.second);
        for (auto& f : multi) r += " +" + str(f) + (boosts.count(f) ? "^" + num(boosts.at(f)) : "");
        return r;
    }
};

struct Ref {
    const Cfg& cfg;
    std::vector<Tk> t;
    size_t at = 0;
    int kinds = 0, depth = 0, maxDepth = 0;
    Ref(const Cfg& cfg, const Str& s) : cfg(cfg), t(lex(s)) {}

    K peek(size_t n = 0) { return at + n < t.size() ? t[at + n].k : BAD; }
    Str take(K k) { if (peek() != k) throw Reject(); return t[at++].s; }
    static Str unescape(const Str& s) {
        Str r;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i] != L'\\') { r += s[i]; continue; }
            if (++i >= s.size()) throw Reject();
            if (s[i] != L'u') { r += s[i]; continue; }
            int v = 0;
            for (int k = 0; k < 4; ++k) {
                if (++i >= s.size()) throw Reject();
                wchar_t c = s[i];
                int d = digit(c) ? c - L'0' : c >= L'a' && c <= L'f' ? c - L'a' + 10 : c >= L'A' && c <= L'F' ? c - L'A' + 10 : -1;
                if (d < 0) throw Reject();
                v = v * 16 + d;
            }
            r += (wchar_t)v;
        }
        return r;
    }
    NP leaf(const std::string& h) { NP n(new N); n->head = h; return n; }
    NP boolean(std::vector<std::pair<char, NP>> cl, bool noCoord) {
        if ((int)cl.size() > cfg.maxClauses) throw Reject();
        NP n(new N); n->head = noCoord ? "or" : "bool"; n->isBool = true; n->cl = cl; return n;
    }
    // a field query built from analysed text
    NP words(const Str& f, const Str& text, int slop, int multiSlop) {
        if (f.empty() && !cfg.multi.empty()) {
            std::vector<std::pair<char, NP>> cl;
            for (auto& x : cfg.multi) {
                NP q = words(x, text, multiSlop, multiSlop);
                if (!q) continue;
                if (cfg.boosts.count(x)) q->boost = cfg.boosts.at(x);
                cl.push_back({' ', q});
            }
            return cl.empty() ? NP() : boolean(cl, true);
        }
        std::vector<T> a = analyse(text);
        if (a.empty()) return NP();
        auto tm = [&](const Str& s) { return quote(f) + quote(s); };
        if (a.size() == 1) return leaf("term " + tm(a[0].term));
        bool stacked = false; int places = 0;
        for (auto& x : a) { stacked |= x.incr == 0; places += x.incr; }
        if (stacked && places <= 1) {
            std::vector<std::pair<char, NP>> cl;
            for (auto& x : a) cl.push_back({' ', leaf("term " + tm(x.term))});
            return boolean(cl, true);
        }
        std::string h = stacked ? "multi" : "phrase";
        int pos = -1, n = -1;
        for (size_t i = 0; i < a.size(); ++i) {
            pos += a[i].incr; if (a[i].incr) ++n;
            int p = cfg.posInc ? pos : n;
            if (a[i].incr) h += " ";
            h += tm(a[i].term);
            if (i + 1 == a.size() || a[i + 1].incr) h += "@" + str(p);
        }
        return leaf(h + "~" + str(slop));
    }
    template <class Fn> NP perField(const Str& f, Fn fn) {
        if (!f.empty() || cfg.multi.empty()) return fn(f);
        std::vector<std::pair<char, NP>> cl;
        for (auto& x : cfg.multi) cl.push_back({' ', fn(x)});
        return boolean(cl, true);
    }
    Str exp(const Str& s) { return cfg.lowerExp ? StringUtils::toLower(s) : s; }

    NP query(const Str& f) {
        maxDepth = std::max(maxDepth, ++depth);
        std::vector<std::pair<char, NP>> cl;
        NP first;
        bool begin = true;
        while (true) {
            bool isAnd = false, isOr = false;
            if (!begin) {
                K k = peek();
                if (k != AND && k != OR && k != NOT && k != PLUS && k != MINUS && k != LP && k != STAR && k != QUOTED && k != TERM && k != PREFIX && k != WILD && k != RIN && k != REX) break;
                if (k == AND) { isAnd = true; ++at; } else if (k == OR) { isOr = true; ++at; }
            }
            char mod = 0;
            if (peek() == PLUS) { mod = '+'; ++at; } else if (peek() == MINUS || peek() == NOT) { mod = '-'; ++at; }
            NP q = clause(f);
            if (begin && !mod) first = q;
            if (isAnd && !cl.empty() && cl.back().first != '-') cl.back().first = '+';
            if (isOr && cfg.andOp && !cl.empty() && cl.back().first != '-') cl.back().first = ' ';
            if (q) {
                char o = mod == '-' ? '-' : cfg.andOp ? (isOr ? ' ' : '+') : (mod == '+' || isAnd ? '+' : ' ');
                cl.push_back({o, q});
            }
            begin = false;
        }
        --depth;
        if (cl.size() == 1 && first) return first;
        return cl.empty() ? NP() : boolean(cl, false);
    }
    NP clause(Str f) {
        if ((peek() == TERM || peek() == STAR) && peek(1) == COLON) {
            f = peek() == STAR ? Str(L"*") : unescape(t[at].s);
            at += 2;
        }
        if (peek() == LP) {
            ++at;
            NP q = query(f);
            take(RP);
            if (peek() == CARAT) { ++at; double b = wcstod(take(NUMBER).c_str(), 0); if (q) q->boost = b; }
            return q;
        }
        NP q;
        double boost = 1.0; bool boosted = false;
        auto carat = [&] { if (peek() != CARAT) return false; ++at; boost = wcstod(take(NUMBER).c_str(), 0); return boosted = true; };
        K k = peek();
        if (k == TERM || k == STAR || k == PREFIX || k == WILD) {
            Str s = t[at++].s, fz; bool fuzzy = false;
            if (peek() == FUZZY) { fuzzy = true; fz = t[at++].s; }
            if (carat() && peek() == FUZZY) { fuzzy = true; fz = t[at++].s; }
            Str text = unescape(s);
            if (k == STAR || k == WILD) {
                kinds |= 1;
                q = perField(f, [&](const Str& x) {
                    if (x == L"*" && text == L"*") return leaf("all");
                    if (!cfg.leading && (text[0] == L'*' || text[0] == L'?')) throw Reject();
                    return leaf("wild " + quote(x) + quote(exp(text)));
                });
            } else if (k == PREFIX) {
                kinds |= 2;
                Str p = unescape(s.substr(0, s.size() - 1));
                q = perField(f, [&](const Str& x) {
                    if (!cfg.leading && !p.empty() && p[0] == L'*') throw Reject();
                    return leaf("prefix " + quote(x) + quote(exp(p)));
                });
            } else if (fuzzy) {
                kinds |= 4;
                double sim = fz.size() > 1 ? wcstod(fz.c_str() + 1, 0) : cfg.fuzzySim;
                if (sim >= 1.0) throw Reject();
                q = perField(f, [&](const Str& x) { return leaf("fuzzy " + quote(x) + quote(exp(text)) + "~" + num(sim) + "/" + str(cfg.fuzzyPrefix)); });
            } else {
                kinds |= 8;
                q = words(f, text, cfg.slop, 0);
            }
        } else if (k == RIN || k == REX) {
            kinds |= 16;
            ++at;
            Str e[2];
            for (int i = 0; i < 2; ++i) {
                if (i && peek() == TO) ++at;
                if (peek() == RQ) { e[i] = t[at].s.substr(1, t[at].s.size() - 2); ++at; }
                else e[i] = take(GOOP);
            }
            take(REND);
            carat();
            for (auto& x : e) x = exp(unescape(x));
            q = perField(f, [&](const Str& x) {
                Str a = e[0], b = e[1];
                dates(x, a, b, k == RIN);
                return leaf("range " + quote(x) + (k == RIN ? "[" : "{") + quote(a) + quote(b) + (k == RIN ? "]" : "}"));
            });
        } else if (k == QUOTED) {
            kinds |= 32;
            Str s = t[at++].s; int slop = cfg.slop;
            if (peek() == FUZZY) {
                Str z = t[at++].s;
                if (z.size() > 1) { double d = wcstod(z.c_str() + 1, 0); slop = d >= INT_MAX ? INT_MAX : (int)d; }
            }
            carat();
            q = words(f, unescape(s.substr(1, s.size() - 2)), slop, slop);
        } else throw Reject();
        if (boosted && q) q->boost = boost;
        return q;
    }
    void dates(const Str& f, Str& a, Str& b, bool inclusive) {
        try {
            boost::posix_time::ptime x = DateTools::parseDate(a, std::locale()), y = DateTools::parseDate(b, std::locale());
            if (inclusive) y += boost::posix_time::hours(24) - boost::posix_time::millisec(1);
            int res = cfg.fieldRes.count(f) ? cfg.fieldRes.at(f) : cfg.res;
            if (res < 0) { Str p = DateField::dateToString(x); a = p; b = DateField::dateToString(y); }
            else { a = DateTools::dateToString(x, (DateTools::Resolution)res); b = DateTools::dateToString(y, (DateTools::Resolution)res); }
        } catch (...) {}
    }
    std::string run() {
        NP q = query(cfg.multi.empty() ? cfg.field : Str());
        take(END);
        return q ? show(q) : "bool()";
    }
};

// ------------------------------------------------------------------ the parser under test
QueryParserPtr parser(const Cfg& cfg, const AnalyzerPtr& an) {
    QueryParserPtr p;
    if (cfg.multi.empty()) p = newLucene<QueryParser>(LuceneVersion::LUCENE_CURRENT, cfg.field, an);
    else {
        Collection<String> f = Collection<String>::newInstance();
        for (auto& x : cfg.multi) f.add(x);
        if (cfg.boosts.empty()) p = newLucene<MultiFieldQueryParser>(LuceneVersion::LUCENE_CURRENT, f, an);
        else {
            MapStringDouble b = MapStringDouble::newInstance();
            for (auto& x : cfg.boosts) b.put(x.first, x.second);
            p = newLucene<MultiFieldQueryParser>(LuceneVersion::LUCENE_CURRENT, f, an, b);
        }
    }
    p->setDefaultOperator(cfg.andOp ? QueryParser::AND_OPERATOR : QueryParser::OR_OPERATOR);
    p->setLowercaseExpandedTerms(cfg.lowerExp);
    p->setAllowLeadingWildcard(cfg.leading);
    p->setEnablePositionIncrements(cfg.posInc);
    p->setPhraseSlop(cfg.slop);
    p->setFuzzyPrefixLength(cfg.fuzzyPrefix);
    p->setFuzzyMinSim(cfg.fuzzySim);
    if (cfg.res >= 0) p->setDateResolution((DateTools::Resolution)cfg.res);
    for (auto& x : cfg.fieldRes) p->setDateResolution(x.first, (DateTools::Resolution)x.second);
    p->setMultiTermRewriteMethod(theRewrite);
    return p;
}
std::string parsed(const QueryParserPtr& p, const Str& s) {
    try {
        return show(p->parse(s));
    } catch (QueryParserError&) {
        return "rejected";
    }
}
struct MaxClauses {
    int old;
    MaxClauses(int n) : old(BooleanQuery::getMaxClauseCount()) { BooleanQuery::setMaxClauseCount(n); }
    ~MaxClauses() { BooleanQuery::setMaxClauseCount(old); }
};

Cfg genCfg(Case& c) {
    Cfg g;
    g.andOp = c.chance(1, 3); g.lowerExp = !c.chance(1, 4); g.leading = c.chance(1, 2); g.posInc = !c.chance(1, 4);
    if (c.chance(1, 4)) g.slop = (int)c.range(1, 3);
    if (c.chance(1, 4)) g.fuzzyPrefix = (int)c.range(1, 3);
    if (c.chance(1, 4)) g.fuzzySim = 0.25 * (double)c.range(0, 3);
    if (c.chance(1, 10)) g.maxClauses = (int)c.range(1, 4);
    if (c.chance(1, 5)) g.res = (int)c.range(DateTools::RESOLUTION_YEAR, DateTools::RESOLUTION_MILLISECOND);
    if (c.chance(1, 6)) g.fieldRes[c.pick(std::vector<Str>{L"f", L"g"})] = (int)c.range(DateTools::RESOLUTION_YEAR, DateTools::RESOLUTION_MILLISECOND);
    std::vector<RewriteMethodPtr> m{MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT(), MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE(), MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE()};
    theRewrite = c.chance(1, 3) ? c.pick(m) : m[0];
    return g;
}

// ------------------------------------------------------------------ input strings
std::vector<Str> special = {L"\\", L"+", L"-", L"!", L"(", L")", L":", L"^", L"[", L"]", L"\"", L"{", L"}", L"~", L"*", L"?", L"|", L"&"};
Str genWord(Case& c, bool plain) {
    static const std::vector<Str> w{L"a", L"b", L"ab", L"c1", L"7", L"10", L"1.5", L"synx", L"syn", L"the", L"The", L"Ab", L"x-y", L"x+", L"and", L"ANDY", L"TO", L"to", L"T", L"OR", L"N",
        L"\u00e9t\u00e9", L"\u4e2d", L"a.b", L"a@b", L"_", L"'", L"=a", L"<", L"a/b", L",", L"1/2/2000", L"3-4-1999", L"\x1f600", L"a\x1f600", L"\xffff", L"\xfffe\x80", L"\x7f", L"\x30ff", L"&", L"|", L"a&b", L"null"};
    static const std::vector<Str> p{L"a", L"b", L"ab", L"c1", L"7", L"1.5", L"x-y", L"x+", L"z_", L"\u00e9t\u00e9", L"\u4e2d", L"a.b", L"a\x1f600", L"=a", L"a/b", L"aandb", L"not", L"or"};
    if (plain) return c.pick(p);
    Str s = c.pick(w);
    while (c.chance(1, 5)) {
        Str e;
        switch (c.weighted({4, 2, 1, 1, 1})) {
        case 0: e = L"\\" + c.pick(special); break;
        case 1: { static const std::vector<Str> u{L"\\u0041", L"\\u00e9", L"\\u002a", L"\\u0020", L"\\u005C", L"\\uABCD", L"\\uabcd", L"\\u004", L"\\u00g1", L"\\u"}; e = c.pick(u); break; }
        case 2: e = L"\\ "; break;
        case 3: e = L"\\" + c.pick(std::vector<Str>{L"A", L"u0", L"n", L"\t", L"\x1f600"}); break;
        case 4: e = Str(1, L'\0'); break;
        }
        s.insert((size_t)c.range(0, (int64_t)s.size()), e);
    }
    return s;
}
Str space(Case& c) {
    static const std::vector<Str> s{L" ", L" ", L" ", L"  ", L"\t", L"\n", L"\r ", L"\u3000", L""};
    return c.pick(s);
}
Str genNum(Case& c) {
    static const std::vector<Str> n{L"2", L"0", L"0.5", L"1", L"1.0", L"3.25", L"0.999", L"007", L"0.125", L"12345678", L"1.", L".5", L"", L"2.5.1", L"0.1234567", L"0.00001", L"3000000000", L"4294967297", L"99999999999999999999", L"1e3", L"-1"};
    return c.pick(n);
}
Str genExpr(Case& c, int depth, bool plain);
Str genClause(Case& c, int depth, bool plain) {
    Str s;
    if (c.chance(1, 4)) s = (plain || !c.chance(1, 6) ? c.pick(std::vector<Str>{L"f", L"g", L"fi"}) : c.chance(1, 3) ? Str(L"*") : genWord(c, false)) + L":" + (plain || !c.chance(1, 8) ? L"" : L" ");
    auto n = [&](bool frac) { static const std::vector<Str> x{L"2", L"0.5", L"1", L"3.25", L"0.125", L"0.05", L"10", L"0", L"1.1", L"2.000001"}; return plain ? (frac ? c.pick(std::vector<Str>{L"0.5", L"0.25", L"0", L"0.1234567", L"0.00001", L"0.99"}) : c.pick(x)) : genNum(c); };
    auto boost = [&] { return c.chance(1, 4) ? L"^" + n(false) : Str(); };
    switch (c.weighted({8, 4, 2, 2, 2, 2, depth > 0 ? 4 : 0, 1})) {
    case 0: return s + genWord(c, plain) + boost();
    case 1: {
        Str t = L"\"";
        int k = (int)c.range(plain ? 2 : 0, 3);
        for (int i = 0; i < k; ++i) t += (i ? (plain ? Str(L" ") : space(c)) : Str()) + genWord(c, plain);
        t += plain || !c.chance(1, 20) ? L"\"" : L"";
        if (c.chance(1, 3)) t += L"~" + (plain ? c.pick(std::vector<Str>{L"1", L"2", L"100", L"3000000000"}) : genNum(c));
        return s + t + boost();
    }
    case 2: return s + genWord(c, plain) + L"~" + n(true) + boost() + (plain || !c.chance(1, 8) ? Str() : L"~" + genNum(c));
    case 3: return s + genWord(c, plain) + L"*" + boost();
    case 4: {
        Str t = genWord(c, plain);
        int k = (int)c.range(1, 3);
        for (int i = 0; i < k; ++i) t.insert((size_t)c.range(plain ? 1 : 0, (int64_t)t.size()), c.chance(1, 2) ? L"?" : L"*");
        if (plain) t += L"?";
        return s + t + boost();
    }
    case 5: {
        bool in = c.chance(1, 2);
        Str e[2];
        for (auto& x : e) {
            x = genWord(c, plain);
            if (!plain && c.chance(1, 4)) x = L"\"" + x + (c.chance(1, 3) ? L" " + genWord(c, false) : Str()) + (c.chance(1, 8) ? L"" : L"\"");
            if (c.chance(1, 8)) x = L"*";
        }
        if (plain && e[0] == L"7" && e[1] == L"7") e[0] = L"a";
        Str gap = plain ? Str(L" ") : c.chance(1, 8) ? space(c) : Str(L" ");
        Str t = (in ? L"[" : L"{") + e[0] + gap + (plain || !c.chance(1, 10) ? L"TO" + gap : Str()) + e[1] + (in == !c.chance(1, 30) || plain ? (in ? L"]" : L"}") : (in ? L"}" : L"]"));
        return s + t + boost();
    }
    case 6: return s + L"(" + (plain ? Str() : c.chance(1, 4) ? space(c) : Str()) + genExpr(c, depth - 1, plain) + (plain || !c.chance(1, 30) ? L")" : L"") + boost();
    default: return L"*:*" + boost();
    }
}
Str genExpr(Case& c, int depth, bool plain) {
    Str s;
    int n = (int)c.range(1, 4);
    for (int i = 0; i < n; ++i) {
        if (i) {
            s += plain ? Str(L" ") : space(c);
            if (c.chance(2, 5)) s += c.pick(std::vector<Str>{L"AND", L"OR", L"&&", L"||"}) + (plain ? Str(L" ") : space(c));
        }
        if (c.chance(1, 4)) s += c.pick(std::vector<Str>{L"+", L"-", L"!", L"NOT "});
        s += genClause(c, depth, plain);
    }
    return s;
}
Str genString(Case& c) {
    static const std::vector<Str> bits{L"AND", L"OR", L"NOT", L"&&", L"||", L"&", L"|", L"!", L"+", L"-", L"(", L")", L":", L"^", L"^2", L"[", L"]", L"{", L"}", L"\"", L"~", L"~0.5", L"~2", L"*", L"?", L"\\", L"\\u00", L"41",
        L" ", L"  ", L"TO", L" TO ", L"a", L"b", L"the", L"syn", L"0", L"9", L".", L"f:", L"*:*", L"[a TO b]", L"{a TO b}", L"\"a b\"", L"\t", L"\n", L"\u3000", L"\x1f600", L"\u00e9"};
    if (c.chance(1, 3)) {
        Str s;
        int n = (int)c.range(0, 14);
        for (int i = 0; i < n; ++i) s += c.chance(1, 12) ? Str(1, (wchar_t)c.range(0, 0x2ff)) : c.pick(bits);
        return s;
    }
    Str s = genExpr(c, (int)c.range(0, 3), false);
    if (c.chance(1, 10)) s = space(c) + s + space(c);
    while (c.chance(1, 4)) {
        size_t at = (size_t)c.range(0, (int64_t)s.size());
        if (c.chance(1, 2)) s.insert(at, c.pick(bits));
        else if (at < s.size()) s.erase(at, (size_t)c.range(1, 3));
    }
    return s;
}

std::string expected(const Cfg& cfg, const Str& s, int* kinds = 0, bool* deep = 0) {
    Ref r(cfg, s);
    std::string e;
    try { e = r.run(); } catch (Reject&) { e = "rejected"; }
    if (kinds) *kinds = r.kinds | (r.maxDepth > 1 ? 64 : 0);
    return e;
}

}

// Every string is parsed as the documented grammar says, or rejected; the same parser is used again and again.
VF_SUB(grammar, 60000, 3000000) {
    Cfg cfg = genCfg(c);
    MaxClauses mc(cfg.maxClauses);
    QueryParserPtr p = parser(cfg, newLucene<QAnalyzer>());
    c.note(cfg.describe());
    int n = (int)c.range(1, 4), bits = 0, ok = 0;
    for (int i = 0; i < n; ++i) {
        Str s = genString(c);
        c.note("parse " + quote(s));
        int kinds = 0;
        std::string want = expected(cfg, s, &kinds);
        std::string got = parsed(p, s);
        REQUIRE_EQ(got, want, quote(s));
        if (want != "rejected" && kinds) { ++ok; bits |= kinds; }
    }
    if (ok && (bits & (bits - 1))) c.nontrivial();
}

// Long inputs: the tokens lie across the places where the reading buffer is refilled, clauses by the thousand, deep nesting.
VF_SUB(large, 600, 30000) {
    Cfg cfg = genCfg(c);
    cfg.maxClauses = c.chance(1, 2) ? 1024 : 1000000;
    MaxClauses mc(cfg.maxClauses);
    QueryParserPtr p = parser(cfg, newLucene<QAnalyzer>());
    c.note(cfg.describe());
    Str s;
    switch (c.weighted({6, 2, 2})) {
    case 0: {                                     // filling up to a refill
        int size = (int)c.pick(std::vector<int>{2048, 4096, 8192}) - (int)c.range(0, 12);
        int how = (int)c.range(0, 3);
        if (how == 0) s = Str(size, L' ');
        else if (how == 1) s = Str(size, L'a') + (c.chance(1, 2) ? L" " : L"");
        else if (how == 2) while ((int)s.size() < size) s += c.chance(1, 3) ? L"b AND " : L"a ";
        else s = L"\"" + Str(size, L'a') + L" ";
        s += genString(c);
        if (how == 3 && c.chance(2, 3)) s += L"\"~2";
        break;
    }
    case 1: {                                     // many clauses
        int k = c.chance(1, 4) ? (int)c.range(2000, 60000) : (int)c.range(1000, 1100);
        s = c.pick(std::vector<Str>{L"", L"f:(", L"+(", L"g:(f:("});
        int open = (int)std::count(s.begin(), s.end(), L'(');
        Str unit = c.pick(std::vector<Str>{L"a ", L"a OR ", L"+a ", L"f:a ", L"\"a b\" "});
        for (int i = 0; i < k; ++i) s += unit;
        s += L"b" + Str(open, L')');
        break;
    }
    default: {                                    // nesting
        int k = c.chance(1, 4) ? (int)c.range(1000, 100000) : (int)c.range(10, 500);
        Str open = c.pick(std::vector<Str>{L"(", L"f:(", L"+(", L"a ("});
        if (k > 900 && k < 1100) k = 1100;
        for (int i = 0; i < k; ++i) s += open;
        s += L"b" + Str(k, L')');
        c.note("nesting " + str(k) + " of " + quote(open));
        if (k > 900) {
            std::string got;
            try { p->parse(s); got = "accepted"; } catch (QueryParserError&) { got = "rejected"; }
            c.nontrivial();
            return;
        }
    }
    }
    c.note("length " + str(s.size()) + ": " + quote(s.substr(0, 20)) + " ... " + quote(s.size() > 60 ? s.substr(s.size() - 60) : s));
    std::string want = expected(cfg, s), got = parsed(p, s);
    REQUIRE(got == want, "parsed as " << got.substr(0, 300) << " (" << got.size() << "), expected " << want.substr(0, 300) << " (" << want.size() << ")");
    if (want != "rejected") c.nontrivial();
}

// Escaped text is searched literally.
VF_SUB(literal, 20000, 1000000) {
    static const std::vector<wchar_t> pool{L'\\', L'+', L'-', L'!', L'(', L')', L':', L'^', L'[', L']', L'"', L'{', L'}', L'~', L'*', L'?', L'|', L'&', L'a', L'b', L'u', L'0', L'4', L'1', L'.', L'/', L'\'', L'A', L'N', L'D', L'O', L'R', L'T', 0xe9, 0x1f600, 0x4e2d, 0xffff, 0x80};
    Cfg cfg = genCfg(c);
    cfg.maxClauses = 1024; cfg.leading = true; cfg.lowerExp = false;
    AnalyzerPtr an = newLucene<KeywordAnalyzer>();
    QueryParserPtr p = parser(cfg, an);
    int n = (int)c.range(1, 8);
    Str s;
    bool spaces = c.chance(1, 3), hard = false;
    for (int i = 0; i < n; ++i) s += spaces && c.chance(1, 4) ? c.pick(std::vector<wchar_t>{L' ', L'\t', L'\n', 0x3000}) : c.pick(pool);
    for (wchar_t ch : s) hard |= std::find(pool.begin(), pool.begin() + 18, ch) != pool.begin() + 18;
    bool inner = false;
    for (wchar_t ch : s) inner |= ws(ch);
    Str esc;
    bool every = inner || c.chance(1, 3) || s == L"AND" || s == L"OR" || s == L"NOT";
    if (every) for (wchar_t ch : s) esc += ch == L'u' ? Str(L"\\u0075") : Str(L"\\") + ch;
    else esc = Peek::escape(s);
    c.note(cfg.describe());
    c.note("text " + quote(s) + " written " + quote(esc));
    Str f = cfg.field;
    std::string term = quote(f) + quote(s);
    REQUIRE_EQ(parsed(p, esc), "term " + term, "as a term");
    REQUIRE_EQ(parsed(p, L"\"" + esc + L"\""), "term " + term, "in quotes");
    REQUIRE_EQ(parsed(p, L"\"" + Peek::escape(s) + L"\""), "term " + term, "escaped and in quotes");
    REQUIRE_EQ(parsed(p, esc + L":x"), "term " + quote(s) + "'x'", "as a field name");
    REQUIRE_EQ(parsed(p, L"(" + esc + L")^2"), "term " + term + "^2", "in parentheses");
    REQUIRE_EQ(parsed(p, esc + L"*"), "prefix " + term, "as a prefix");
    REQUIRE_EQ(parsed(p, esc + L"~0.5"), "fuzzy " + term + "~0.5/" + str(cfg.fuzzyPrefix), "as a fuzzy term");
    REQUIRE_EQ(parsed(p, L"+x:y -" + esc + L"^0.5"), "bool(+term 'x''y' -term " + term + "^0.5 )", "among others");
    // in quotes within a range everything can be written but a backslash right before the closing quote
    if (s.back() != L'\\') {
        std::string r = parsed(p, L"[\"" + Peek::escape(s) + L"\" TO zzz]");
        Str a = s, b = L"zzz";
        Ref ref(cfg, L"");
        ref.dates(f, a, b, true);
        REQUIRE_EQ(r, "range " + quote(f) + "[" + quote(a) + quote(b) + "]", "as the end of a range");
    }
    if (hard) c.nontrivial();
}

// The printed form of a query parses back to an equal one.
VF_SUB(printed, 20000, 1000000) {
    Cfg cfg = genCfg(c);
    cfg.andOp = false; cfg.leading = true; cfg.maxClauses = 1024; cfg.slop = 0; cfg.res = -1; cfg.fieldRes.clear();
    QueryParserPtr p = parser(cfg, newLucene<QAnalyzer>());
    Str s = genExpr(c, (int)c.range(0, 3), true);
    c.note(cfg.describe());
    c.note("query " + quote(s));
    QueryPtr q = p->parse(s);
    std::string want = show(q);
    REQUIRE_EQ(want, expected(cfg, s), "parsed");
    for (int all = 0; all < 2; ++all) {
        Str text = q->toString(all ? L"" : cfg.field);
        c.note("printed " + quote(text));
        QueryPtr again = p->parse(text);
        REQUIRE_EQ(show(again), want, "printed as " << quote(text));
        REQUIRE(again->equals(q) && q->equals(again), "the query parsed back from " << quote(text) << " is not equal");
        REQUIRE_EQ(again->hashCode(), q->hashCode(), "hash of equal queries");
    }
    if (s.find(L' ') != Str::npos && s.find_first_of(L"(^~:[{*?") != Str::npos) c.nontrivial();
}

// The same over several fields at once.
VF_SUB(multiField, 20000, 1000000) {
    Cfg cfg = genCfg(c);
    cfg.slop = 0;
    cfg.multi = c.chance(1, 3) ? std::vector<Str>{L"f"} : c.chance(1, 2) ? std::vector<Str>{L"f", L"g"} : std::vector<Str>{L"g", L"f", L"h"};
    if (c.chance(1, 2)) for (auto& x : cfg.multi) if (c.chance(2, 3)) cfg.boosts[x] = 0.5 * (double)c.range(0, 6);
    MaxClauses mc(cfg.maxClauses);
    AnalyzerPtr an = newLucene<QAnalyzer>();
    QueryParserPtr p = parser(cfg, an);
    c.note(cfg.describe());
    int n = (int)c.range(1, 3), ok = 0;
    for (int i = 0; i < n; ++i) {
        Str s = genString(c);
        c.note("parse " + quote(s));
        std::string want = expected(cfg, s);
        REQUIRE_EQ(parsed(p, s), want, quote(s));
        ok += want != "rejected" && want.find("or(") != std::string::npos;
    }
    if (ok) c.nontrivial();
    // the static forms: one string per field, combined
    if (c.chance(1, 3) && cfg.maxClauses == 1024) {
        theRewrite = MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT();
        Collection<String> f = Collection<String>::newInstance(), qs = Collection<String>::newInstance();
        Collection<BooleanClause::Occur> fl = Collection<BooleanClause::Occur>::newInstance();
        std::string want[3] = {"bool(", "bool(", "bool("};
        Str one = genString(c);
        bool bad = false, badOne = false;
        for (auto& x : cfg.multi) {
            Str s = genString(c);
            BooleanClause::Occur o = c.pick(std::vector<BooleanClause::Occur>{BooleanClause::MUST, BooleanClause::SHOULD, BooleanClause::MUST_NOT});
            f.add(x); qs.add(s); fl.add(o);
            Cfg d; d.field = x;
            std::string e = expected(d, s), e1 = expected(d, one), mark = o == BooleanClause::MUST ? "+" : o == BooleanClause::MUST_NOT ? "-" : " ";
            bad |= e == "rejected"; badOne |= e1 == "rejected";
            if (e != "bool()") { want[0] += " " + e + " "; want[2] += mark + e + " "; }
            if (e1 != "bool()") want[1] += mark + e1 + " ";
        }
        auto run = [&](int k) -> std::string {
            try {
                return show(k == 0 ? MultiFieldQueryParser::parse(LuceneVersion::LUCENE_CURRENT, qs, f, an) : k == 1 ? MultiFieldQueryParser::parse(LuceneVersion::LUCENE_CURRENT, one, f, fl, an)
                          : MultiFieldQueryParser::parse(LuceneVersion::LUCENE_CURRENT, qs, f, fl, an));
            } catch (QueryParserError&) { return "rejected"; }
        };
        for (int k = 0; k < 3; ++k) {
            c.note("static form " + str(k));
            REQUIRE_EQ(run(k), ((k == 1 ? badOne : bad) ? std::string("rejected") : want[k] + ")"), "static form");
        }
    }
}
