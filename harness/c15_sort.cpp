// C15: top hits and sorting return the right documents in the right order.
#include "LuceneInc.h"
#include "qmodel.h"
#include "StringUtils.h"
#include "MiscUtils.h"
#include "VariantUtils.h"
#include "TopScoreDocCollector.h"
#include "TopFieldCollector.h"
#include "TopFieldDocs.h"
#include "FieldDoc.h"
#include "Sort.h"
#include "SortField.h"
#include "FieldCache.h"
#include "FieldComparator.h"
#include "FieldComparatorSource.h"
#include "Weight.h"
#include "MultiSearcher.h"
#include "ParallelMultiSearcher.h"
#include "TermQuery.h"
#include "MatchAllDocsQuery.h"
#include "NumericField.h"
#include "QueryWrapperFilter.h"
#include "SerialMergeScheduler.h"

using namespace vf;

static void noteIndex(Case& c, const QIndex& ix) {
    for (int i = 0; i < ix.maxDoc(); ++i) c.note("doc " + str(i) + (ix.live[i] ? "" : " (deleted)") + ": " + describe(ix.docs[i]));
}
// passes on to another collector, keeping what was passed
class Spy : public Collector {
public:
    explicit Spy(const CollectorPtr& c) : c(c) {}
    virtual ~Spy() {}
    LUCENE_CLASS(Spy);
    CollectorPtr c;
    ScorerPtr s;
    int base = 0;
    std::vector<Hit> seen;
    virtual void setScorer(const ScorerPtr& x) { s = x; c->setScorer(x); }
    virtual void collect(int32_t d) { seen.push_back(Hit{d + base, s->score()}); c->collect(d); }
    virtual void setNextReader(const IndexReaderPtr& r, int32_t b) { base = b; c->setNextReader(r, b); }
    virtual bool acceptsDocsOutOfOrder() { return c->acceptsDocsOutOfOrder(); }
};

static void sameHits(const std::vector<Hit>& got, const std::vector<Hit>& want, const std::string& what) {
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i].doc == want[i].doc && (got[i].score == want[i].score || std::isnan(got[i].score));
    REQUIRE(ok, what << ": got " << show(got) << ", the first of the complete ranking are " << show(want));
}
static std::vector<Hit> slice(const std::vector<Hit>& v, size_t from, size_t n) {
    std::vector<Hit> r;
    for (size_t i = from; i < v.size() && i < from + n; ++i) r.push_back(v[i]);
    return r;
}
static int genN(Case& c, size_t total) { return c.chance(1, 6) ? 1000 : 1 + (int)c.draw(total + 2); }

// by score
VF_SUB(byScore, 7000, 300000) {
    QIndexCfg ig;
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    QCfg g;
    g.sloppyRepeats = false;
    bool nt = false;
    int n = 0;
    do {
        Q q = genQ(c, g, 2);
        if (c.chance(1, 3)) { q = Q(); q.kind = Q_TERM; q.field = L"y"; q.text = c.pick(g.words); }     // many ties
        c.note("query " + describe(q));
        QueryPtr lq = build(q);
        LUCENE_GUARD(
            FilterPtr f;
            if (c.chance(1, 4)) { Q fq = genQ(c, g, 0); f = newLucene<QueryWrapperFilter>(build(fq)); c.note("filter " + describe(fq)); }
            bool ooo = lq->weight(s)->scoresDocsOutOfOrder();
            auto all = collect(s, lq, f, ooo);
            std::sort(all.begin(), all.end(), [](const Hit& a, const Hit& b) { return a.score != b.score ? a.score > b.score : a.doc < b.doc; });
            for (size_t i = 1; i < all.size(); ++i) nt |= all[i].score == all[i - 1].score && all.front().score != all.back().score;
            int k = 0;
            do {
                int want = genN(c, all.size());
                TopDocsPtr t = f || c.chance(1, 2) ? s->search(lq, f, want) : s->search(lq, want);
                std::string what = "best " + str(want) + " of " + describe(q);
                sameHits(hits(t), slice(all, 0, (size_t)want), what);
                REQUIRE_EQ((int)t->totalHits, (int)all.size(), what << ": total hits");
                if (!all.empty()) REQUIRE_EQ((double)t->maxScore, all[0].score, what << ": maximum score");
                // pages of a collector
                for (bool inOrder : {true, false}) {
                    TopScoreDocCollectorPtr tc = TopScoreDocCollector::create(want, inOrder);
                    boost::shared_ptr<Spy> spy = newLucene<Spy>(tc);
                    if (f) s->search(lq, f, spy); else s->search(lq, spy);
                    auto seen = spy->seen;
                    std::sort(seen.begin(), seen.end(), [](const Hit& a, const Hit& b) { return a.score != b.score ? a.score > b.score : a.doc < b.doc; });
                    REQUIRE_EQ(seen.size(), all.size(), what << ": documents collected");
                    REQUIRE_EQ((int)tc->getTotalHits(), (int)seen.size(), what << ": collector's total hits");
                    size_t start = (size_t)c.draw((uint64_t)want + 2), len = c.chance(1, 3) ? 1000 : (size_t)c.draw(5);
                    bool toEnd = c.chance(1, 3);
                    TopDocsPtr p = start == 0 && toEnd ? tc->topDocs() : toEnd ? tc->topDocs((int32_t)start) : tc->topDocs((int32_t)start, (int32_t)len);
                    if (toEnd) len = 1000;
                    auto first = slice(seen, 0, (size_t)want);
                    sameHits(hits(p), slice(first, start, len), what + (inOrder ? " (in order)" : " (out of order)") + ": page of " + str(len) + " from " + str(start));
                    if (start < first.size() && len) {
                        REQUIRE_EQ((int)p->totalHits, (int)seen.size(), what << ": total hits of a page");
                        REQUIRE_EQ((double)p->maxScore, seen[0].score, what << ": maximum score of a page");
                    }
                }
            } while (++k < 3 && c.more(1)););
    } while (++n < 4 && c.more(2));
    c.nontrivial(nt);
    s->close();
}

namespace {
struct ModParser : public IntParser {
    int m;
    explicit ModParser(int m) : m(m) {}
    virtual ~ModParser() {}
    LUCENE_CLASS(ModParser);
    virtual int32_t parseInt(const String& s) { return std::stoi(s) % m; }
};
// distance of an int field from a number
class DistComparator : public FieldComparator {
public:
    DistComparator(int n, const String& f, int from) : v((size_t)n), f(f), from(from) {}
    virtual ~DistComparator() {}
    LUCENE_CLASS(DistComparator);
    std::vector<int> v;
    String f;
    int from, bottom = 0;
    Collection<int32_t> cur;
    int d(int doc) { return std::abs(cur[doc] - from); }
    virtual int32_t compare(int32_t a, int32_t b) { return v[(size_t)a] - v[(size_t)b]; }
    virtual void setBottom(int32_t s) { bottom = v[(size_t)s]; }
    virtual int32_t compareBottom(int32_t doc) { return bottom - d(doc); }
    virtual void copy(int32_t s, int32_t doc) { v[(size_t)s] = d(doc); }
    virtual void setNextReader(const IndexReaderPtr& r, int32_t) { cur = FieldCache::DEFAULT()->getInts(r, f); }
    virtual ComparableValue value(int32_t s) { return (int32_t)v[(size_t)s]; }
};
class DistSource : public FieldComparatorSource {
public:
    explicit DistSource(int from) : from(from) {}
    virtual ~DistSource() {}
    LUCENE_CLASS(DistSource);
    int from;
    virtual FieldComparatorPtr newComparator(const String& f, int32_t n, int32_t, bool) { return newLucene<DistComparator>(n, f, from); }
};
struct Key {                     // one sort key
    SortFieldPtr f;
    bool reverse = false;
    std::string desc;
    std::function<ComparableValue(const Hit&, const QIndex&)> value;
    bool desending = false;      // score
};
int cmp(const ComparableValue& a, const ComparableValue& b) { return a < b ? -1 : b < a ? 1 : 0; }
std::string showv(const ComparableValue& v) {
    if (auto* s = boost::get<String>(&v)) return "\"" + narrow(*s) + "\"";
    if (auto* i = boost::get<uint8_t>(&v)) return "byte " + str((int)*i);
    if (auto* i = boost::get<int32_t>(&v)) return "int " + str(*i);
    if (auto* i = boost::get<int64_t>(&v)) return "long " + str(*i);
    if (auto* i = boost::get<double>(&v)) return "double " + str(*i);
    return "null";
}
const wchar_t* const BIG[] = {L"9223372036854775807", L"-9223372036854775807", L"4294967296", L"-4294967297", L"0", L"1", L"-1", L"2147483648"};
const wchar_t* const DBL[] = {L"0.5", L"-0.5", L"0.25", L"1e10", L"-3e5", L"2.75", L"0"};
// fields: i int text, n int text incl. extremes, l long text, f double text, b byte text, k and w strings, ti/tl/td trie numbers kept in `i`-like text too
void addSortFields(Case& c, DocSpec& d) {
    auto kw = [&](const wchar_t* n, const std::wstring& v) { d.fields.push_back(keyword(n, v, false)); };
    if (!c.chance(1, 4)) kw(L"n", c.chance(1, 8) ? (c.chance(1, 2) ? L"2147483647" : L"-2147483648") : std::to_wstring(c.range(-4, 4)));
    if (!c.chance(1, 4)) kw(L"l", c.chance(1, 2) ? std::wstring(BIG[c.draw(8)]) : std::to_wstring(c.range(-4, 4)));
    if (!c.chance(1, 4)) kw(L"f", DBL[c.draw(7)]);
    if (!c.chance(1, 4)) kw(L"b", std::to_wstring(c.chance(1, 3) ? c.range(0, 255) : c.range(0, 3)));
    if (!c.chance(1, 4)) kw(L"w", c.word(L"ab\x00e9\xff01\x10400", 1, 3));
}
template <class T> T num(const std::wstring& s) { return s.empty() ? T() : (T)std::stold(s); }
int64_t lnum(const std::wstring& s) { return s.empty() ? 0 : std::stoll(s); }
Key genKey(Case& c, const IntParserPtr& p2, const IntParserPtr& p3, const FieldComparatorSourcePtr& dist) {
    Key k;
    k.reverse = c.chance(1, 2);
    bool r = k.reverse;
    switch (c.draw(12)) {
        case 0: k.f = newLucene<SortField>(L"", SortField::SCORE, r); k.desc = "score"; k.desending = true; k.value = [](const Hit& h, const QIndex&) { return ComparableValue(h.score); }; break;
        case 1: k.f = newLucene<SortField>(L"", SortField::DOC, r); k.desc = "doc"; k.value = [](const Hit& h, const QIndex&) { return ComparableValue((int32_t)h.doc); }; break;
        case 2: k.f = newLucene<SortField>(L"k", SortField::STRING, r); k.desc = "string k"; k.value = [](const Hit& h, const QIndex& ix) { return ComparableValue(String(ix.docs[(size_t)h.doc].first(L"k"))); }; break;
        case 3: k.f = newLucene<SortField>(L"w", SortField::STRING, r); k.desc = "string w"; k.value = [](const Hit& h, const QIndex& ix) { return ComparableValue(String(ix.docs[(size_t)h.doc].first(L"w"))); }; break;
        case 4: k.f = newLucene<SortField>(L"w", SortField::STRING_VAL, r); k.desc = "string value w"; k.value = [](const Hit& h, const QIndex& ix) { return ComparableValue(String(ix.docs[(size_t)h.doc].first(L"w"))); }; break;
        case 5: k.f = newLucene<SortField>(L"n", c.chance(1, 4) ? SortField::SHORT : SortField::INT, r); k.desc = "int n"; k.value = [](const Hit& h, const QIndex& ix) { return ComparableValue((int32_t)lnum(ix.docs[(size_t)h.doc].first(L"n"))); }; break;
        case 6: k.f = newLucene<SortField>(L"l", SortField::LONG, r); k.desc = "long l"; k.value = [](const Hit& h, const QIndex& ix) { return ComparableValue(lnum(ix.docs[(size_t)h.doc].first(L"l"))); }; break;
        case 7: k.f = newLucene<SortField>(L"f", c.chance(1, 2) ? SortField::DOUBLE : SortField::FLOAT, r); k.desc = "double f"; k.value = [](const Hit& h, const QIndex& ix) { auto t = ix.docs[(size_t)h.doc].first(L"f"); return ComparableValue(t.empty() ? 0.0 : std::stod(t)); }; break;
        case 8: k.f = newLucene<SortField>(L"b", SortField::BYTE, r); k.desc = "byte b"; k.value = [](const Hit& h, const QIndex& ix) { return ComparableValue((uint8_t)lnum(ix.docs[(size_t)h.doc].first(L"b"))); }; break;
        case 9: { bool two = c.chance(1, 2); k.f = newLucene<SortField>(L"n", boost::static_pointer_cast<Parser>(two ? p2 : p3), r); int m = two ? 2 : 3; k.desc = "int n modulo " + str(m); k.value = [m](const Hit& h, const QIndex& ix) { return ComparableValue((int32_t)(lnum(ix.docs[(size_t)h.doc].first(L"n")) % m)); }; break; }
        case 10: k.f = newLucene<SortField>(L"i", dist, r); k.desc = "distance of i from 7"; k.value = [](const Hit& h, const QIndex& ix) { return ComparableValue((int32_t)std::abs((int)lnum(ix.docs[(size_t)h.doc].first(L"i")) - 7)); }; break;
        default: k.f = newLucene<SortField>(L"i", SortField::INT, r); k.desc = "int i"; k.value = [](const Hit& h, const QIndex& ix) { return ComparableValue((int32_t)lnum(ix.docs[(size_t)h.doc].first(L"i"))); }; break;
    }
    k.desc += r ? " reversed" : "";
    return k;
}
bool before(const std::vector<Key>& ks, const QIndex& ix, const Hit& a, const Hit& b) {
    for (auto& k : ks) {
        int x = cmp(k.value(a, ix), k.value(b, ix));
        if (k.desending) x = -x;
        if (k.reverse) x = -x;
        if (x) return x < 0;
    }
    return a.doc < b.doc;
}
void checkFields(const TopDocsPtr& t, const std::vector<Key>& ks, const QIndex& ix, const std::vector<Hit>& want, const std::string& what) {
    for (int i = 0; i < t->scoreDocs.size(); ++i) {
        FieldDocPtr fd = boost::dynamic_pointer_cast<FieldDoc>(t->scoreDocs[i]);
        REQUIRE(fd && fd->fields, what << ": hit " << i << " has no field values");
        REQUIRE_EQ((int)fd->fields.size(), (int)ks.size(), what << ": number of field values");
        for (size_t j = 0; j < ks.size(); ++j) {
            auto w = ks[j].value(want[(size_t)i], ix);
            REQUIRE(cmp(fd->fields[(int)j], w) == 0, what << ": value " << j << " of document " << fd->doc << " is " << showv(fd->fields[(int)j]) << ", indexed " << showv(w));
        }
    }
}
}

static QIndex sortIndex(Case& c, int maxDocs, std::vector<DocSpec>& docs, QIndexCfg& ig) {
    ig.ints = true;
    ig.maxDocs = maxDocs;
    QIndex ix;
    int n = 1 + c.size(maxDocs - 1);
    for (int i = 0; i < n; ++i) { DocSpec d = genQDoc(c, ig, i); addSortFields(c, d); docs.push_back(d); }
    setDocs(ix, docs);
    if (c.chance(1, 2)) for (int i = 0; i < n; ++i) if (c.chance(1, 6)) ix.live[(size_t)i] = false;
    return ix;
}

// by generated sort keys
VF_SUB(byKeys, 7000, 300000) {
    QIndexCfg ig;
    std::vector<DocSpec> docs;
    QIndex ix = sortIndex(c, 30, docs, ig);
    buildInto(c, ix);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    QCfg g;
    g.sloppyRepeats = false;
    IntParserPtr p2 = newLucene<ModParser>(2), p3 = newLucene<ModParser>(3);
    FieldComparatorSourcePtr dist = newLucene<DistSource>(7);
    bool nt = false;
    int n = 0;
    do {
        Q q = genQ(c, g, 1);
        if (c.chance(1, 2)) { q = Q(); q.kind = Q_ALL; }
        std::vector<Key> ks;
        Collection<SortFieldPtr> sf = Collection<SortFieldPtr>::newInstance();
        std::string what = "sorting " + describe(q) + " by";
        do { ks.push_back(genKey(c, p2, p3, dist)); sf.add(ks.back().f); what += " [" + ks.back().desc + "]"; } while (ks.size() < 4 && c.more(1));
        c.note(what);
        QueryPtr lq = build(q);
        SortPtr sort = newLucene<Sort>(sf);
        LUCENE_GUARD(
            bool ooo = lq->weight(s)->scoresDocsOutOfOrder();
            auto rank = [&](std::vector<Hit> v) { std::sort(v.begin(), v.end(), [&](const Hit& a, const Hit& b) { return before(ks, ix, a, b); }); return v; };
            auto all = rank(collect(s, lq, FilterPtr(), ooo));
            int want = genN(c, all.size());
            TopFieldDocsPtr t = s->search(lq, FilterPtr(), want, sort);
            REQUIRE_EQ((int)t->totalHits, (int)all.size(), what << ": total hits");
            auto w = slice(all, 0, (size_t)want);
            std::vector<Hit> nosc = hits(t);
            sameHits(nosc, w, what + ", best " + str(want));
            checkFields(t, ks, ix, w, what);
            // every kind of collector
            bool fill = c.chance(1, 2), sc = c.chance(1, 2), mx = c.chance(1, 2), inOrder = c.chance(1, 2);
            TopFieldCollectorPtr tc = TopFieldCollector::create(sort, want, fill, sc, mx, inOrder);
            boost::shared_ptr<Spy> spy = newLucene<Spy>(tc);
            s->search(lq, spy);
            auto seen = rank(spy->seen);
            std::string cw = what + " with a collector (" + (fill ? "fill fields " : "") + (sc ? "scores " : "") + (mx ? "max " : "") + (inOrder ? "in order)" : "out of order)") + " best " + str(want);
            auto first = slice(seen, 0, (size_t)want);
            size_t start = c.chance(1, 2) ? 0 : (size_t)c.draw((uint64_t)want + 1), len = c.chance(1, 2) ? 1000 : (size_t)c.draw(6);
            TopDocsPtr p = tc->topDocs((int32_t)start, (int32_t)len);
            auto page = slice(first, start, len);
            sameHits(hits(p), page, cw + " page " + str(start) + "+" + str(len));
            if ((sc || mx)) for (int i = 0; i < p->scoreDocs.size(); ++i) REQUIRE(!std::isnan(p->scoreDocs[i]->score), cw << ": score of hit " << i << " missing");
            REQUIRE_EQ((int)p->totalHits, (int)seen.size(), cw << ": total hits");
            if (fill) checkFields(p, ks, ix, page, cw);
            if (mx && !page.empty()) {
                double m = 0;
                bool f1 = true;
                for (auto& h : seen) { if (f1 || h.score > m) m = h.score; f1 = false; }
                REQUIRE_EQ((double)p->maxScore, m, cw << ": maximum score");
            }
            bool ties = false;
            for (size_t i = 1; i < all.size(); ++i) { bool same = true; for (auto& k : ks) same &= cmp(k.value(all[i], ix), k.value(all[i - 1], ix)) == 0; ties |= same; }
            nt |= all.size() > (size_t)want && (ties || ks.size() > 1););
    } while (++n < 5 && c.more(3));
    c.nontrivial(nt);
    s->close();
}

// the same through a multi-searcher over several indexes
VF_SUB(multi, 3000, 120000) {
    QIndexCfg ig;
    std::vector<DocSpec> docs;
    QIndex ix = sortIndex(c, 24, docs, ig);
    buildInto(c, ix);
    noteIndex(c, ix);
    Collection<SearchablePtr> parts = Collection<SearchablePtr>::newInstance();
    std::vector<RAMDirectoryPtr> dirs;
    for (size_t i = 0; i < docs.size();) {
        size_t k = std::min(docs.size() - i, (size_t)(1 + c.draw(docs.size())));
        QIndex px;
        setDocs(px, std::vector<DocSpec>(docs.begin() + (long)i, docs.begin() + (long)(i + k)));
        for (size_t j = 0; j < k; ++j) px.live[j] = ix.live[i + j];
        buildInto(c, px);
        dirs.push_back(px.dir);
        parts.add(newLucene<IndexSearcher>(px.dir, true));
        i += k;
    }
    c.note(str(dirs.size()) + " indexes");
    bool par = c.chance(1, 4);
    LUCENE_GUARD(
        SearcherPtr s = par ? SearcherPtr(newLucene<ParallelMultiSearcher>(parts)) : SearcherPtr(newLucene<MultiSearcher>(parts));
        IntParserPtr p2 = newLucene<ModParser>(2), p3 = newLucene<ModParser>(3);
        FieldComparatorSourcePtr dist = newLucene<DistSource>(7);
        bool nt = false;
        int n = 0;
        do {
            Q q = Q();
            q.kind = Q_ALL;
            if (c.chance(1, 2)) { q.kind = Q_TERM; q.field = c.chance(1, 2) ? L"y" : L"x"; q.text = c.pick(QCfg().words); }
            std::vector<Key> ks;
            Collection<SortFieldPtr> sf = Collection<SortFieldPtr>::newInstance();
            std::string what = "multi-searcher sorting " + describe(q) + " by";
            do { ks.push_back(genKey(c, p2, p3, dist)); sf.add(ks.back().f); what += " [" + ks.back().desc + "]"; } while (ks.size() < 4 && c.more(1));
            c.note(what);
            QueryPtr lq = build(q);
            auto all = collect(s, lq);
            int want = genN(c, all.size());
            auto byScore = all;
            std::sort(byScore.begin(), byScore.end(), [](const Hit& a, const Hit& b) { return a.score != b.score ? a.score > b.score : a.doc < b.doc; });
            TopDocsPtr t = s->search(lq, want);
            sameHits(hits(t), slice(byScore, 0, (size_t)want), "multi-searcher best " + str(want) + " of " + describe(q));
            REQUIRE_EQ((int)t->totalHits, (int)all.size(), "multi-searcher total hits");
            if (!all.empty()) REQUIRE_EQ((double)t->maxScore, byScore[0].score, "multi-searcher maximum score");
            std::sort(all.begin(), all.end(), [&](const Hit& a, const Hit& b) { return before(ks, ix, a, b); });
            TopFieldDocsPtr tf = s->search(lq, FilterPtr(), want, newLucene<Sort>(sf));
            auto w = slice(all, 0, (size_t)want);
            sameHits(hits(tf), w, what + ", best " + str(want));
            REQUIRE_EQ((int)tf->totalHits, (int)all.size(), what << ": total hits");
            checkFields(tf, ks, ix, w, what);
            nt |= dirs.size() > 1 && all.size() > 1;
        } while (++n < 5 && c.more(3));
        c.nontrivial(nt);
        s->close(););
}

// cached field values equal the indexed ones for every parser, also when the same field is read in several ways
VF_SUB(cache, 3000, 120000) {
    QIndexCfg ig;
    std::vector<DocSpec> docs;
    QIndex ix = sortIndex(c, 20, docs, ig);
    buildInto(c, ix);
    noteIndex(c, ix);
    IndexReaderPtr r = IndexReader::open(ix.dir, true);
    IntParserPtr ps[] = {IntParserPtr(), newLucene<ModParser>(2), newLucene<ModParser>(3), newLucene<ModParser>(5)};
    int mods[] = {0, 2, 3, 5};
    int n = 0;
    LUCENE_GUARD(
        FieldCachePtr fc = FieldCache::DEFAULT();
        do {
            int w = (int)c.draw(5);
            c.note("read " + str(w));
            if (w == 0) {
                int k = (int)c.draw(4);
                auto v = ps[k] ? fc->getInts(r, L"n", ps[k]) : fc->getInts(r, L"n");
                for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[(size_t)d]) { int x = (int)lnum(ix.docs[(size_t)d].first(L"n")); REQUIRE_EQ((int)v[d], mods[k] ? x % mods[k] : x, "int value of document " << d << " read modulo " << mods[k]); }
            } else if (w == 1) {
                auto v = fc->getLongs(r, L"n");
                for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[(size_t)d]) REQUIRE_EQ((int64_t)v[d], lnum(ix.docs[(size_t)d].first(L"n")), "long value of document " << d);
            } else if (w == 2) {
                auto v = fc->getDoubles(r, L"n");
                for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[(size_t)d]) REQUIRE_EQ((double)v[d], (double)lnum(ix.docs[(size_t)d].first(L"n")), "double value of document " << d);
            } else if (w == 3) {
                auto v = fc->getStrings(r, L"w");
                for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[(size_t)d]) REQUIRE_EQ(std::wstring(v[d]), ix.docs[(size_t)d].first(L"w"), "string value of document " << d);
            } else {
                auto si = fc->getStringIndex(r, L"w");
                for (int i = 2; i < si->lookup.size(); ++i) REQUIRE(si->lookup[i - 1] < si->lookup[i], "string index out of order");
                for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[(size_t)d]) REQUIRE_EQ(std::wstring(si->lookup[si->order[d]]), ix.docs[(size_t)d].first(L"w"), "string index value of document " << d);
                for (int i = 1; i < si->lookup.size(); ++i) REQUIRE_EQ((int)si->binarySearchLookup(si->lookup[i]), i, "binary search of a value");
            }
            if (c.chance(1, 6)) { fc->purge(r); c.note("purge"); }
        } while (++n < 10 && c.more(5)););
    c.nontrivial(n > 1 && ix.numLive() > 1);
    r->close();
}
