// C30: query objects compare, hash, copy and print consistently; using them never changes them.
#include "LuceneInc.h"
#include "fmodel.h"
#include "BooleanClause.h"
#include "CachingSpanFilter.h"
#include "CachingWrapperFilter.h"
#include "ConstantScoreQuery.h"
#include "CustomScoreQuery.h"
#include "DisjunctionMaxQuery.h"
#include "Explanation.h"
#include "FieldCache.h"
#include "FieldCacheRangeFilter.h"
#include "FieldScoreQuery.h"
#include "FilteredQuery.h"
#include "FuzzyQuery.h"
#include "MatchAllDocsQuery.h"
#include "AveragePayloadFunction.h"
#include "MaxPayloadFunction.h"
#include "MinPayloadFunction.h"
#include "MultiPhraseQuery.h"
#include "MultiSearcher.h"
#include "MultiTermQuery.h"
#include "NumericRangeFilter.h"
#include "NumericRangeQuery.h"
#include "OrdFieldSource.h"
#include "FieldMaskingSpanQuery.h"
#include "PrefixQuery.h"
#include "WildcardQuery.h"
#include "TermRangeQuery.h"
#include "ReverseOrdFieldSource.h"
#include "PayloadNearQuery.h"
#include "PayloadTermQuery.h"
#include "PhraseQuery.h"
#include "QueryWrapperFilter.h"
#include "Sort.h"
#include "SortField.h"
#include "SpanFilter.h"
#include "SpanNearQuery.h"
#include "SpanNotQuery.h"
#include "SpanFirstQuery.h"
#include "SpanOrQuery.h"
#include "SpanQueryFilter.h"
#include "SpanTermQuery.h"
#include "TermRangeFilter.h"
#include "TopFieldDocs.h"
#include "ValueSourceQuery.h"

#include "Weight.h"
#include "TermQuery.h"

using namespace vf;

namespace {
// something built from a choice list: raw names every part as given, meaning leaves out the parts that have no effect
struct Obj {
    QueryPtr q;
    FilterPtr f;
    SortPtr s;
    std::string raw, meaning;
    std::vector<std::wstring> parts;     // texts the printed form has to show
    LuceneObjectPtr get() const { if (q) return q; if (f) return f; return s; }
};

// the parts of a specification that have an effect
Q effective(Q q) {
    if (q.openLo) { q.text.clear(); q.incLo = true; }
    if (q.openHi) { q.text2.clear(); q.incHi = true; }
    for (auto& s : q.subs) s = effective(s);
    return q;
}
void partsOf(const Q& q, std::vector<std::wstring>& out) {
    if (q.kind == Q_RANGE) { if (!q.openLo) out.push_back(q.text); if (!q.openHi) out.push_back(q.text2); }
    else if (q.kind != Q_ALL) out.push_back(q.text);
    for (auto& a : q.terms) for (auto& t : a) out.push_back(t);
    for (auto& s : q.subs) partsOf(s, out);
}
void setQ(Obj& o, const Q& q) {
    o.q = build(q);
    o.raw = describe(q);
    o.meaning = describe(effective(q));
    partsOf(q, o.parts);
}
double boostOf(Case& c) { static const double B[] = {1.0, 2.0, 0.5, 3.25, 2.00000001, 0.0}; return c.chance(1, 2) ? B[c.draw(6)] : 1.0; }
PayloadFunctionPtr func(int k) {
    switch (k) { case 0: return newLucene<AveragePayloadFunction>(); case 1: return newLucene<MinPayloadFunction>(); default: return newLucene<MaxPayloadFunction>(); }
}
std::wstring wd(Case& c) { QCfg g; return c.pick(g.words); }
std::wstring fd(Case& c) { QCfg g; return c.pick(g.fields); }
Obj genObjQ(Case& c, int depth);

// a query used as a filter is described as the query itself, as in describe()
std::string bare(const std::string& s) { return s.compare(0, 5, "wrap(") == 0 && s.back() == ')' ? s.substr(5, s.size() - 6) : s; }
Obj genObjF(Case& c, int depth) {
    Obj o;
    std::ostringstream r, m;
    r.precision(17); m.precision(17);
    switch (c.weighted({3, 2, 2, 2, depth > 0 ? 3 : 0, 2})) {
        case 0: {
            Obj i = genObjQ(c, depth - 1);
            o.f = newLucene<QueryWrapperFilter>(i.q);
            r << "wrap(" << i.raw << ")"; m << "wrap(" << i.meaning << ")";
            o.parts = i.parts;
            break;
        }
        case 1: {
            std::wstring f = fd(c), a = wd(c), b = wd(c);
            bool il = c.chance(1, 2), ih = c.chance(1, 2);
            int open = c.weighted({4, 1, 1});
            if (open == 1) { o.f = TermRangeFilter::Less(f, b); r << "less(" << str(f) << " " << str(b) << ")"; o.parts = {b}; }
            else if (open == 2) { o.f = TermRangeFilter::More(f, a); r << "more(" << str(f) << " " << str(a) << ")"; o.parts = {a}; }
            else { o.f = newLucene<TermRangeFilter>(f, a, b, il, ih); r << "range(" << str(f) << " " << str(a) << " " << str(b) << " " << il << ih << ")"; o.parts = {a, b}; }
            m << r.str();
            break;
        }
        case 2: {
            std::wstring f = c.chance(1, 2) ? L"i" : L"n";
            int ps = c.range(1, 8), lo = c.range(-5, 20), hi = c.range(-5, 20);
            bool il = c.chance(1, 2), ih = c.chance(1, 2);
            int type = (int)c.draw(3);
            if (type == 0) o.f = NumericRangeFilter::newIntRange(f, ps, lo, hi, il, ih);
            else if (type == 1) o.f = NumericRangeFilter::newLongRange(f, ps, (int64_t)lo, (int64_t)hi, il, ih);
            else o.f = NumericRangeFilter::newDoubleRange(f, ps, lo + 0.25, hi + 0.25, il, ih);
            r << "numeric(" << str(f) << " " << type << " step " << ps << " " << lo << " " << hi << " " << il << ih << ")";
            m << r.str();
            o.parts = {std::to_wstring(lo), std::to_wstring(hi)};
            if (type == 2) o.parts.clear();
            break;
        }
        case 3: {
            bool il = c.chance(1, 2), ih = c.chance(1, 2);
            if (c.chance(1, 2)) {
                std::wstring f = c.chance(1, 2) ? L"k" : L"id", a = wd(c), b = wd(c);
                o.f = FieldCacheRangeFilter::newStringRange(f, a, b, il, ih);
                r << "fcrange(" << str(f) << " " << str(a) << " " << str(b) << " " << il << ih << ")";
                o.parts = {a, b};
            } else {
                int lo = c.range(-5, 20), hi = c.range(-5, 20), type = (int)c.draw(4);
                std::wstring f = c.chance(1, 2) ? L"n2" : L"i";
                if (type == 3) f = f == L"i" ? L"n3" : f;
                if (type == 0) o.f = FieldCacheRangeFilter::newIntRange(f, lo, hi, il, ih);
                else if (type == 1) o.f = FieldCacheRangeFilter::newLongRange(f, (int64_t)lo, (int64_t)hi, il, ih);
                else if (type == 2) o.f = FieldCacheRangeFilter::newDoubleRange(f, (double)lo, (double)hi, il, ih);
                else o.f = FieldCacheRangeFilter::newIntRange(f, FieldCache::NUMERIC_UTILS_INT_PARSER(), lo, hi, il, ih);
                r << "fcnum(" << str(f) << " " << type << " " << lo << " " << hi << " " << il << ih << ")";
                if (type != 2) o.parts = {std::to_wstring(lo), std::to_wstring(hi)};
            }
            m << r.str();
            break;
        }
        case 4: {
            Obj i = genObjF(c, depth - 1);
            static const CachingWrapperFilter::DeletesMode M[] = {CachingWrapperFilter::DELETES_IGNORE, CachingWrapperFilter::DELETES_RECACHE, CachingWrapperFilter::DELETES_DYNAMIC};
            int k = (int)c.draw(3);
            o.f = newLucene<CachingWrapperFilter>(i.f, M[k]);
            r << "cached" << k << "(" << i.raw << ")"; m << "cached(" << i.meaning << ")";
            o.parts = i.parts;
            break;
        }
        default: {
            QCfg g;
            Q q = genSpan(c, g, 2, c.pick(g.fields));
            SpanFilterPtr sf = newLucene<SpanQueryFilter>(buildSpan(q));
            int k = (int)c.draw(3);
            if (k) sf = newLucene<CachingSpanFilter>(sf, k == 1 ? CachingWrapperFilter::DELETES_RECACHE : CachingWrapperFilter::DELETES_IGNORE);
            o.f = sf;
            r << (k ? "cspans" : "spans") << k << "(" << describe(q) << ")"; m << (k ? "cspans" : "spans") << "(" << describe(q) << ")";
            partsOf(q, o.parts);
        }
    }
    o.raw = r.str();
    o.meaning = m.str();
    return o;
}

Obj genObjQ(Case& c, int depth) {
    Obj o;
    std::ostringstream r, m;
    r.precision(17); m.precision(17);
    double boost = 1.0;
    int kind = c.weighted({12, 2, 2, 2, depth > 0 ? 2 : 0, 2, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0, 1, depth > 0 ? 1 : 0, 1});
    switch (kind) {
        case 0: { QCfg g; setQ(o, genQ(c, g, depth)); return o; }
        case 1: {
            boost = boostOf(c);
            std::wstring f = c.chance(1, 2) ? L"i" : L"n";
            int ps = c.range(1, 8), lo = c.range(-5, 20), hi = c.range(-5, 20);
            bool il = c.chance(1, 2), ih = c.chance(1, 2);
            int type = (int)c.draw(3);
            NumericRangeQueryPtr q;
            if (type == 0) q = NumericRangeQuery::newIntRange(f, ps, lo, hi, il, ih);
            else if (type == 1) q = NumericRangeQuery::newLongRange(f, ps, (int64_t)lo, (int64_t)hi, il, ih);
            else q = NumericRangeQuery::newDoubleRange(f, ps, lo + 0.25, hi + 0.25, il, ih);
            o.q = q;
            r << "numeric(" << str(f) << " " << type << " step " << ps << " " << lo << " " << hi << " " << il << ih << ")";
            m << r.str();
            if (type != 2) o.parts = {std::to_wstring(lo), std::to_wstring(hi)};
            break;
        }
        case 2: {
            boost = boostOf(c);
            std::wstring f = fd(c), t = wd(c);
            int k = (int)c.draw(3);
            bool inc = c.chance(1, 2);
            o.q = newLucene<PayloadTermQuery>(newLucene<Term>(f, t), func(k), inc);
            r << "payterm(" << str(f) << " " << str(t) << " " << k << " " << inc << ")"; m << r.str();
            o.parts = {t};
            break;
        }
        case 3: {
            boost = boostOf(c);
            QCfg g;
            std::wstring f = fd(c);
            int n = c.range(1, 3), k = (int)c.draw(3), slop = c.range(0, 4);
            bool ord = c.chance(1, 2);
            Collection<SpanQueryPtr> cl = Collection<SpanQueryPtr>::newInstance();
            r << "paynear(";
            for (int i = 0; i < n; ++i) { Q q = genSpan(c, g, 1, f); cl.add(buildSpan(q)); r << describe(q) << " "; partsOf(q, o.parts); }
            o.q = newLucene<PayloadNearQuery>(cl, slop, ord, func(k));
            r << " " << slop << " " << ord << " " << k << ")"; m << r.str();
            break;
        }
        case 4: {
            boost = boostOf(c);
            Obj i = genObjQ(c, depth - 1);
            int n = c.range(0, 2);
            bool strict = c.chance(1, 3);
            Collection<ValueSourceQueryPtr> vs = Collection<ValueSourceQueryPtr>::newInstance();
            r << "custom(" << i.raw; m << "custom(" << i.meaning;
            for (int k = 0; k < n; ++k) {
                int t = (int)c.draw(2);
                std::wstring f = c.chance(1, 2) ? L"i" : L"n2";
                ValueSourceQueryPtr v = newLucene<FieldScoreQuery>(f, t == 0 ? FieldScoreQuery::INT : FieldScoreQuery::DOUBLE);
                vs.add(v);
                r << " " << str(f) << t; m << " " << str(f) << t;
            }
            CustomScoreQueryPtr q = newLucene<CustomScoreQuery>(i.q, vs);
            q->setStrict(strict);
            o.q = q;
            o.parts = i.parts;
            r << " " << strict << ")"; m << " " << strict << ")";
            break;
        }
        case 5: {
            boost = boostOf(c);
            std::wstring f = c.chance(1, 2) ? L"i" : L"n2";
            int t = (int)c.draw(4);
            if (t < 2) o.q = newLucene<FieldScoreQuery>(f, t == 0 ? FieldScoreQuery::INT : FieldScoreQuery::DOUBLE);
            else {
                f = f == L"i" ? L"k" : L"id";
                if (t == 2) o.q = newLucene<ValueSourceQuery>(newLucene<OrdFieldSource>(f)); else o.q = newLucene<ValueSourceQuery>(newLucene<ReverseOrdFieldSource>(f));
            }
            r << "value(" << str(f) << " " << t << ")"; m << r.str();
            break;
        }
        case 6: {
            boost = boostOf(c);
            Obj f = genObjF(c, depth - 1);
            o.q = newLucene<ConstantScoreQuery>(f.f);
            r << "const(" << bare(f.raw) << ")"; m << "const(" << bare(f.meaning) << ")";
            o.parts = f.parts;
            break;
        }
        case 7: {
            boost = boostOf(c);
            Obj i = genObjQ(c, depth - 1), f = genObjF(c, depth - 1);
            o.q = newLucene<FilteredQuery>(i.q, f.f);
            r << "filtered(" << i.raw << " " << bare(f.raw) << ")"; m << "filtered(" << i.meaning << " " << bare(f.meaning) << ")";
            o.parts = i.parts;
            o.parts.insert(o.parts.end(), f.parts.begin(), f.parts.end());
            break;
        }
        case 8: {
            boost = boostOf(c);
            int n = c.range(0, 3), mm = c.weighted({3, 1, 1}), nc = c.chance(1, 4);
            BooleanQueryPtr b = newLucene<BooleanQuery>(nc != 0);
            r << "bool("; m << "bool(";
            for (int k = 0; k < n; ++k) {
                Obj i = genObjQ(c, depth - 1);
                static const BooleanClause::Occur O[] = {BooleanClause::MUST, BooleanClause::SHOULD, BooleanClause::MUST_NOT};
                static const char* P[] = {"+", "", "-"};
                int w = c.weighted({3, 4, 2});
                b->add(i.q, O[w]);
                r << (k ? " " : "") << P[w] << i.raw; m << (k ? " " : "") << P[w] << i.meaning;
                o.parts.insert(o.parts.end(), i.parts.begin(), i.parts.end());
            }
            b->setMinimumNumberShouldMatch(mm);
            o.q = b;
            for (auto* x : {&r, &m}) { *x << ")"; if (mm) *x << "~" << mm; if (nc) *x << "nocoord"; }
            break;
        }
        case 9: {
            boost = boostOf(c);
            std::wstring f = c.chance(1, 2) ? fd(c) : L"";
            o.q = newLucene<MatchAllDocsQuery>(f);
            r << "all(" << str(f) << ")"; m << r.str();
            break;
        }
        case 10: {
            boost = boostOf(c);
            int n = c.range(0, 3);
            double tie = c.draw(3) * 0.25;
            DisjunctionMaxQueryPtr d = newLucene<DisjunctionMaxQuery>(tie);
            r << "dismax("; m << "dismax(";
            for (int k = 0; k < n; ++k) {
                Obj i = genObjQ(c, depth - 1);
                d->add(i.q);
                r << (k ? " " : "") << i.raw; m << (k ? " " : "") << i.meaning;
                o.parts.insert(o.parts.end(), i.parts.begin(), i.parts.end());
            }
            o.q = d;
            r << ")tie" << tie; m << ")tie" << tie;
            break;
        }
        default: {
            boost = boostOf(c);
            std::wstring f = fd(c), t = wd(c);
            static const double S[] = {0.5, 0.25, 0.500000001, 0.9};
            double s = S[c.draw(4)];
            int p = c.range(0, 2);
            o.q = newLucene<FuzzyQuery>(newLucene<Term>(f, t), s, p);
            r << "fuzzy(" << str(f) << ":" << str(t) << " sim=" << s << " prefix=" << p << ")"; m << r.str();
            o.parts = {t};
        }
    }
    o.q->setBoost(boost);
    if (boost != 1.0) { r << "^" << boost; m << "^" << boost; }
    o.raw = r.str();
    o.meaning = m.str();
    return o;
}
struct MyLongParser : public LongParser { LUCENE_CLASS(MyLongParser); virtual int64_t parseLong(const String& s) { return 1; } };
Obj genObjS(Case& c) {
    Obj o;
    int n = c.range(1, 3);
    Collection<SortFieldPtr> fs = Collection<SortFieldPtr>::newInstance();
    std::ostringstream r;
    for (int i = 0; i < n; ++i) {
        std::wstring f = c.chance(1, 2) ? L"i" : c.chance(1, 2) ? L"k" : L"id";
        bool rev = c.chance(1, 2);
        int k = (int)c.draw(8);
        static const int T[] = {0 /*SCORE*/, 1 /*DOC*/, SortField::STRING, SortField::INT, SortField::LONG, SortField::DOUBLE, SortField::STRING_VAL};
        if (k == 7) { fs.add(newLucene<SortField>(f, std::locale("C"), rev)); r << "locale(" << str(f) << rev << ") "; }
        else if (k < 2) { fs.add(newLucene<SortField>(L"", T[k], rev)); r << (k ? "doc" : "score") << rev << " "; }
        else {
            if (k >= 3 && k <= 5) f = c.chance(1, 2) ? L"i" : L"n2";
            if (k == 3 && c.chance(1, 3)) { fs.add(newLucene<SortField>(f, FieldCache::DEFAULT_INT_PARSER(), rev)); r << "parsed"; }
            else fs.add(newLucene<SortField>(f, T[k], rev));
            r << "type" << k << "(" << str(f) << " " << rev << ") ";
        }
    }
    o.s = newLucene<Sort>(fs);
    o.raw = o.meaning = r.str();
    return o;
}
typedef std::vector<uint64_t> Choices;
enum What { QUERY, FILTER, SORT };
Obj gen(Case& c, What w) { return w == QUERY ? genObjQ(c, c.range(0, 3)) : w == FILTER ? genObjF(c, 2) : genObjS(c); }
Obj make(What w, const Choices& v, Choices* used = nullptr) {
    Case sub;
    sub.source = &v;
    sub.tailRandom = false;
    sub.inner = true;
    Obj o = gen(sub, w);
    if (used) *used = sub.choices;
    return o;
}
Choices genChoices(Case& c, What w) {
    size_t from = c.choices.size();
    gen(c, w);
    return Choices(c.choices.begin() + (long)from, c.choices.end());
}
std::vector<Hit> resultsOf(const SearcherPtr& s, const Obj& o) {
    if (o.q) return collect(s, o.q);
    if (o.f) return collect(s, newLucene<MatchAllDocsQuery>(), o.f);
    TopFieldDocsPtr t = s->search(newLucene<MatchAllDocsQuery>(L"x"), FilterPtr(), 1000, o.s);
    std::vector<Hit> h;
    for (int i = 0; i < t->scoreDocs.size(); ++i) h.push_back({t->scoreDocs[i]->doc, 0});
    return h;
}
bool sameHits(const std::vector<Hit>& a, const std::vector<Hit>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].doc != b[i].doc || !(a[i].score == b[i].score || (std::isnan(a[i].score) && std::isnan(b[i].score)))) return false;
    return true;
}
std::string printed(const Obj& o, const String& f = L"") { return o.q ? narrow(o.q->toString(f)) : narrow(o.get()->toString()); }
void sameAs(const Obj& a, const Obj& b, const std::string& when) {
    REQUIRE(a.get()->equals(b.get()) && b.get()->equals(a.get()), when << ": objects built the same way are not equal: " << a.raw);
    REQUIRE_EQ((int)a.get()->hashCode(), (int)b.get()->hashCode(), when << ": hash of " << a.raw);
    REQUIRE_EQ(printed(a), printed(b), when << ": printed form of " << a.raw);
}
QIndex anIndex(Case& c) {
    QIndexCfg ig;
    ig.maxDocs = 10;
    ig.ints = true;
    ig.payloads = true;
    return genIndex(c, ig);
}
}  // namespace

VF_SUB(equality, 50000, 800000) {
    What w = (What)c.weighted({8, 3, 1});
    Choices v = genChoices(c, w), used;
    Obj a = make(w, v, &used), a2 = make(w, v);
    c.note("object " + a.raw);
    LUCENE_GUARD(
        REQUIRE(a.raw == a2.raw, "harness: same choices, other object");
        sameAs(a, a, "an object and itself");
        sameAs(a, a2, "two built alike");
        if (w == QUERY) {
            std::string p = printed(a);
            for (auto& t : a.parts) REQUIRE(p.find(narrow(t)) != std::string::npos, "the printed form " << p << " of " << a.raw << " does not show " << narrow(t));
            REQUIRE_EQ(narrow(a.q->toString(L"x")), narrow(a2.q->toString(L"x")), "printed with a default field");
        } else if (w == FILTER) {
            std::string p = printed(a);
            for (auto& t : a.parts) REQUIRE(p.find(narrow(t)) != std::string::npos, "the printed form " << p << " of " << a.raw << " does not show " << narrow(t));
        }
        REQUIRE(!a.get()->equals(newLucene<Term>(L"x", L"a")), "equal to a term: " << a.raw);
        REQUIRE(!a.get()->equals(LuceneObjectPtr()), "equal to nothing: " << a.raw);
        // change one or two draws
        int k = 0;
        do {
            Choices m = used;
            int changes = c.weighted({4, 1}) + 1;
            for (int i = 0; i < changes; ++i) { size_t at = (size_t)c.draw(m.size()); m[at] = m[at] + 1 + c.draw(6); }
            Obj b = make(w, m);
            if (b.raw == a.raw) { sameAs(a, b, "same parts"); continue; }
            if (b.meaning == a.meaning) continue;
            bool e = a.get()->equals(b.get());
            bool e2 = b.get()->equals(a.get());
            REQUIRE_EQ(e2, e, "equality is not symmetric: " << a.raw << " and " << b.raw);
            REQUIRE(!e, "different objects are equal: " << a.raw << " and " << b.raw);
            c.nontrivial();
        } while (++k < 8 && c.more(6)););
    c.label(w == QUERY ? "query" : w == FILTER ? "filter" : "sort");
}

// queries of different classes made of the same parts
VF_SUB(relatives, 6000, 100000) {
    std::wstring f = fd(c), t = c.chance(1, 4) ? L"a*" : wd(c);
    double boost = boostOf(c);
    TermPtr term = newLucene<Term>(f, t);
    std::vector<QueryPtr> q;
    std::vector<std::string> n;
    auto add = [&](const QueryPtr& x, const std::string& name) { x->setBoost(boost); q.push_back(x); n.push_back(name); };
    int slop = c.range(0, 3);
    LUCENE_GUARD(
        add(newLucene<TermQuery>(term), "term");
        add(newLucene<SpanTermQuery>(term), "span term");
        for (int k = 0; k < 3; ++k) for (int i = 0; i < 2; ++i) add(newLucene<PayloadTermQuery>(term, func(k), i != 0), "payload term " + str(k) + str(i));
        add(newLucene<PrefixQuery>(term), "prefix");
        add(newLucene<WildcardQuery>(term), "wildcard");
        add(newLucene<FuzzyQuery>(term), "fuzzy");
        add(newLucene<TermRangeQuery>(f, t, t, true, true), "range");
        PhraseQueryPtr p = newLucene<PhraseQuery>();
        p->add(term);
        p->setSlop(slop);
        add(p, "phrase");
        MultiPhraseQueryPtr mp = newLucene<MultiPhraseQuery>();
        mp->add(term);
        mp->setSlop(slop);
        add(mp, "multi phrase");
        Collection<SpanQueryPtr> sub = Collection<SpanQueryPtr>::newInstance();
        int m = c.range(1, 2);
        for (int i = 0; i < m; ++i) sub.add(newLucene<SpanTermQuery>(term));
        for (int o = 0; o < 2; ++o) {
            add(newLucene<SpanNearQuery>(sub, slop, o != 0), "span near " + str(o));
            for (int k = 0; k < 3; ++k) add(newLucene<PayloadNearQuery>(sub, slop, o != 0, func(k)), "payload near " + str(k) + str(o));
        }
        add(newLucene<SpanOrQuery>(sub), "span or");
        add(newLucene<SpanFirstQuery>(sub[0], slop), "span first");
        add(newLucene<SpanNotQuery>(sub[0], sub[0]), "span not");
        add(newLucene<FieldMaskingSpanQuery>(sub[0], f), "span mask");
        for (int nc = 0; nc < 2; ++nc) for (int k = 0; k < 2; ++k) {
            BooleanQueryPtr b = newLucene<BooleanQuery>(nc != 0);
            b->add(q[0], k ? BooleanClause::MUST : BooleanClause::SHOULD);
            add(b, "boolean " + str(nc) + str(k));
        }
        DisjunctionMaxQueryPtr d = newLucene<DisjunctionMaxQuery>(0.5);
        d->add(q[0]);
        add(d, "dismax");
        FilterPtr w = newLucene<QueryWrapperFilter>(q[0]);
        add(newLucene<ConstantScoreQuery>(w), "constant");
        add(newLucene<ConstantScoreQuery>(newLucene<CachingWrapperFilter>(w)), "constant cached");
        add(newLucene<FilteredQuery>(q[0], w), "filtered");
        add(newLucene<CustomScoreQuery>(q[0]), "custom");
        add(newLucene<MatchAllDocsQuery>(), "all");
        for (size_t i = 0; i < q.size(); ++i) for (size_t k = 0; k < q.size(); ++k)
            REQUIRE_EQ(q[i]->equals(q[k]), i == k, "a " << n[i] << " query of " << str(f) << ":" << str(t) << " equals a " << n[k] << " query");
        c.nontrivial(););
}

// copies: equal, and independent both ways
static std::string change(Case& c, const QueryPtr& q) {
    typedef boost::shared_ptr<MultiPhraseQuery> MP;
    if (BooleanQueryPtr b = boost::dynamic_pointer_cast<BooleanQuery>(q)) {
        if (c.chance(2, 3)) {
            int k = (int)c.draw(2);
            if (k == 0) { b->add(newLucene<TermQuery>(newLucene<Term>(L"x", L"added")), BooleanClause::SHOULD); return "added a clause"; }
            b->setMinimumNumberShouldMatch(b->getMinimumNumberShouldMatch() + 1);
            return "changed the minimum number of clauses";
        }
    } else if (PhraseQueryPtr p = boost::dynamic_pointer_cast<PhraseQuery>(q)) {
        if (c.chance(2, 3)) {
            if (c.chance(1, 2)) { p->add(newLucene<Term>(p->getTerms().size() ? p->getTerms()[0]->field() : L"x", L"added")); return "added a term"; }
            p->setSlop(p->getSlop() + 1);
            return "changed the slop";
        }
    } else if (MP p = boost::dynamic_pointer_cast<MultiPhraseQuery>(q)) {
        if (c.chance(2, 3)) {
            if (c.chance(1, 2)) { p->add(newLucene<Term>(p->getTermArrays().size() ? p->getTermArrays()[0][0]->field() : L"x", L"added")); return "added a term"; }
            p->setSlop(p->getSlop() + 1);
            return "changed the slop";
        }
    } else if (DisjunctionMaxQueryPtr d = boost::dynamic_pointer_cast<DisjunctionMaxQuery>(q)) {
        if (c.chance(2, 3)) { d->add(newLucene<TermQuery>(newLucene<Term>(L"x", L"added"))); return "added a disjunct"; }
    } else if (CustomScoreQueryPtr s = boost::dynamic_pointer_cast<CustomScoreQuery>(q)) {
        if (c.chance(1, 2)) { s->setStrict(!s->isStrict()); return "changed strictness"; }
    } else if (MultiTermQueryPtr m = boost::dynamic_pointer_cast<MultiTermQuery>(q)) {
        if (c.chance(1, 2) && !boost::dynamic_pointer_cast<FuzzyQuery>(q)) {
            m->setRewriteMethod(m->getRewriteMethod() == MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE() ? MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE() : MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE());
            return "changed the rewrite method";
        }
    }
    q->setBoost(q->getBoost() + 1.5);
    return "changed the boost";
}
VF_SUB(copying, 7000, 300000) {
    Choices v = genChoices(c, QUERY);
    Obj a = make(QUERY, v), fresh = make(QUERY, v);
    c.note("query " + a.raw);
    QIndex ix = anIndex(c);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    LUCENE_GUARD(
        Obj b = a;
        b.q = boost::dynamic_pointer_cast<Query>(a.q->clone());
        REQUIRE(b.q, "the copy is not a query");
        REQUIRE(b.q != a.q, "the copy is the original");
        sameAs(b, a, "copy");
        auto ha = resultsOf(s, a);
        auto hb = resultsOf(s, b);
        REQUIRE(sameHits(ha, hb), "the copy of " << a.raw << " finds " << show(hb) << " instead of " << show(ha));
        bool which = c.chance(1, 2);
        Obj& changed = which ? a : b;
        Obj& other = which ? b : a;
        std::string whatChanged;
        whatChanged = change(c, changed.q);
        c.note(std::string(which ? "original" : "copy") + ": " + whatChanged);
        REQUIRE(!changed.q->equals(fresh.q) && !fresh.q->equals(changed.q), a.raw << ": " << whatChanged << ", and it still equals what it was");
        sameAs(other, fresh, std::string("after the ") + (which ? "original" : "copy") + " changed");
        auto ho = resultsOf(s, other);
        REQUIRE(sameHits(ha, ho), "after the " << (which ? "original" : "copy") << " " << whatChanged << " the other finds " << show(ho) << " instead of " << show(ha));
        REQUIRE_EQ(other.q->getBoost(), fresh.q->getBoost(), "boost");
        c.nontrivial(!ha.empty()););
    s->close();
}

// using an object never changes it
VF_SUB(using_, 5000, 150000) {
    What w = (What)c.weighted({6, 2, 1});
    Choices v = genChoices(c, w);
    Obj a = make(w, v), fresh = make(w, v);
    c.note("object " + a.raw);
    QIndex ix = anIndex(c), ix2 = anIndex(c);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true), s2 = newLucene<IndexSearcher>(ix2.dir, true);
    LUCENE_GUARD(
        auto first = resultsOf(s, make(w, v));
        int n = 0;
        do {
            std::string what;
            Obj o;
            switch (c.draw(w == QUERY ? 12 : 4)) {
                case 0: what = "search"; resultsOf(s, a); break;
                case 1: what = "search of another index"; resultsOf(s2, a); break;
                case 2: what = "search of two indexes"; {
                    MultiSearcherPtr ms = newLucene<MultiSearcher>(newCollection<SearchablePtr>(s, s2));
                    if (w == QUERY) ms->search(a.q, FilterPtr(), 5);
                    else if (w == FILTER) ms->search(newLucene<MatchAllDocsQuery>(), a.f, 5);
                    else ms->search(newLucene<MatchAllDocsQuery>(), FilterPtr(), 5, a.s);
                    break;
                }
                case 3: what = "printing, hashing, comparing"; a.get()->toString(); a.get()->hashCode(); a.get()->equals(fresh.get()); break;
                case 4: what = "rewriting"; {
                    QueryPtr r = a.q->rewrite(s->getIndexReader());
                    if (c.chance(1, 2)) { r = s->rewrite(a.q); }
                    if (r != a.q && c.chance(1, 2)) {
                        auto hr = collect(s, r);
                        REQUIRE(sameHits(hr, first), "the rewritten query finds " << show(hr) << " instead of " << show(first) << ": " << a.raw);
                    }
                    break;
                }
                case 5: what = "extracting terms"; { SetTerm t = SetTerm::newInstance(); s->rewrite(a.q)->extractTerms(t); break; }
                case 6: what = "explaining"; if (ix.maxDoc()) s->explain(a.q, (int)c.draw((uint64_t)ix.maxDoc()))->toString(); break;
                case 7: what = "weighing"; { WeightPtr x = a.q->weight(s); x->scorer(s->getIndexReader(), true, true); x->toString(); break; }
                case 8: what = "combining"; {
                    QueryPtr r = a.q->combine(newCollection<QueryPtr>(a.q, make(QUERY, genChoices(c, QUERY)).q));
                    break;
                }
                case 9: what = "use inside another query"; {
                    BooleanQueryPtr b = newLucene<BooleanQuery>();
                    b->setBoost(3.0);
                    b->add(a.q, c.chance(1, 2) ? BooleanClause::MUST : BooleanClause::SHOULD);
                    if (c.chance(1, 2)) b->add(newLucene<TermQuery>(newLucene<Term>(L"x", L"b")), BooleanClause::SHOULD);
                    DisjunctionMaxQueryPtr d = newLucene<DisjunctionMaxQuery>(0.5);
                    d->add(a.q);
                    d->add(b);
                    d->setBoost(2.0);
                    collect(s, d);
                    collect(s, b);
                    s->rewrite(d)->setBoost(9.0);
                    s->rewrite(b)->setBoost(9.0);
                    break;
                }
                case 10: what = "use as a filter"; {
                    FilterPtr f = newLucene<QueryWrapperFilter>(a.q);
                    collect(s, newLucene<MatchAllDocsQuery>(), f);
                    collect(s, newLucene<FilteredQuery>(a.q, f));
                    break;
                }
                default: what = "copying and changing the copy"; change(c, boost::dynamic_pointer_cast<Query>(a.q->clone())); break;
            }
            c.note(what);
            sameAs(a, fresh, "after " + what);
            auto h = resultsOf(s, a);
            REQUIRE(sameHits(h, first), "after " << what << ", " << a.raw << " finds " << show(h) << " instead of " << show(first));
        } while (++n < 8 && c.more(5));
        c.nontrivial(!first.empty() && n > 1););
    s->close();
    s2->close();
}
