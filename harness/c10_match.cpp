// C10: a query matches exactly the documents it describes.
#include "LuceneInc.h"
#include "qmodel.h"
#include "BooleanClause.h"
#include "TermQuery.h"
#include "PositiveScoresOnlyCollector.h"
#include "TopScoreDocCollector.h"

using namespace vf;

static std::string docsOf(const std::set<int>& s) { std::string r; for (int d : s) r += str(d) + " "; return r; }
static std::set<int> want(const QIndex& ix, const Q& q) {
    std::set<int> r;
    for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[d] && matches(ix, q, d)) r.insert(d);
    return r;
}
static std::set<int> asSet(const std::vector<Hit>& h, const char* what) {
    std::set<int> r;
    for (auto& x : h) REQUIRE(r.insert(x.doc).second, what << ": document " << x.doc << " collected twice");
    return r;
}
static void noteIndex(Case& c, const QIndex& ix) {
    for (int i = 0; i < ix.maxDoc(); ++i) c.note("doc " + str(i) + (ix.live[i] ? "" : " (deleted)") + ": " + describe(ix.docs[i]));
}
static void checkQuery(Case& c, const QIndex& ix, const IndexSearcherPtr& s, const Q& q, const QueryPtr& lq, const char* what) {
    std::set<int> w = want(ix, q);
    auto in = collect(s, lq, FilterPtr(), false);
    auto is = asSet(in, what);
    REQUIRE(is == w, what << " (in order): matched [" << docsOf(is) << "] but the query describes [" << docsOf(w) << "]");
    for (size_t i = 1; i < in.size(); ++i) REQUIRE(in[i - 1].doc < in[i].doc, what << ": collected out of order");
    auto out = asSet(collect(s, lq, FilterPtr(), true), what);
    REQUIRE(out == w, what << " (out of order): matched [" << docsOf(out) << "] but the query describes [" << docsOf(w) << "]");
    int n = c.weighted({3, 1}) ? 1 + (int)c.draw(5) : ix.maxDoc() + 3;
    TopDocsPtr t = s->search(lq, FilterPtr(), n);
    REQUIRE_EQ((int)t->totalHits, (int)w.size(), what << ": total hits asking for " << n);
    REQUIRE_EQ((int)t->scoreDocs.size(), std::min(n, (int)w.size()), what << ": number of hits returned asking for " << n);
    auto th = asSet(hits(t), what);
    for (int d : th) REQUIRE(w.count(d), what << ": top hits hold document " << d << " which does not match");
}

static void run(Case& c, const QCfg& g, const QIndexCfg& ig, int depth) {
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    bool some = false, none = false;
    int n = 0;
    do {
        Q q = genQ(c, g, depth);
        if (stackedSloppy(ix, q)) { ++c.excluded; continue; }
        c.note("query " + describe(q));
        auto w = want(ix, q);
        some |= !w.empty();
        none |= (int)w.size() < ix.numLive();
        QueryPtr lq = build(q);
        LUCENE_GUARD(
            checkQuery(c, ix, s, q, lq, "query");
            if (c.chance(1, 3)) {
                QueryPtr rw = s->rewrite(lq);
                checkQuery(c, ix, s, q, rw, "rewritten query");
                Collection<QueryPtr> qs = Collection<QueryPtr>::newInstance();
                qs.add(rw);
                qs.add(boost::dynamic_pointer_cast<Query>(rw->clone()));
                // combining per-index rewritten forms unites them
                checkQuery(c, ix, s, q, lq->combine(qs), "combined query");
            }
            if (c.chance(1, 4)) checkQuery(c, ix, s, q, boost::dynamic_pointer_cast<Query>(lq->clone()), "cloned query"););
    } while (++n < 6 && c.more(3));
    c.nontrivial(some && none && ix.maxDoc() >= 3);
    s->close();
}

// arbitrary nestings of every query kind
VF_SUB(anyQuery, 9000, 400000) {
    QCfg g;
    g.sloppyRepeats = false;
    run(c, g, QIndexCfg(), 3);
}
// boolean combinations of simple clauses, large indexes (out-of-order boolean scoring works in chunks of 2048)
VF_SUB(manyDocs, 60, 3000) {
    QIndexCfg ig;
    ig.boosts = false;
    QIndex ix;
    int nd = 1500 + (int)c.draw(5000);
    std::vector<DocSpec> docs;
    Rng r(c.draw(1u << 30));
    static const wchar_t* Wd[] = {L"a", L"b", L"c", L"d", L"e"};
    int density = 1 + (int)c.draw(6);
    for (int i = 0; i < nd; ++i) {
        DocSpec d;
        d.fields.push_back(keyword(L"id", L"d" + std::to_wstring(i), false));
        std::wstring t;
        for (int k = 0; k < 5; ++k) if ((int)(r.next() % (uint64_t)(density + k * 3)) == 0) t += (t.empty() ? L"" : L" ") + std::wstring(Wd[k]);
        if (!t.empty()) d.fields.push_back(text(L"x", t));
        docs.push_back(d);
    }
    setDocs(ix, docs);
    for (int i = 0; i < nd; ++i) if (r.next() % 37 == 0) ix.live[i] = false;
    ix.dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(ix.dir, blankAnalyzer(), true, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMergeFactor(1000);
    w->setMaxBufferedDocs(c.chance(1, 2) ? 100000 : 700);
    for (auto& d : docs) w->addDocument(build(d));
    for (int i = 0; i < nd; ++i) if (!ix.live[i]) w->deleteDocuments(newLucene<Term>(L"id", ix.docs[i].id()));
    w->close();
    c.note(str(nd) + " documents, density " + str(density));
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    QCfg g;
    g.fields = {L"x"};
    g.words = {L"a", L"b", L"c", L"d", L"e"};
    g.sloppyRepeats = false;
    g.spans = false;
    int n = 0;
    do {
        Q q = genQ(c, g, 2);
        c.note("query " + describe(q));
        auto ww = want(ix, q);
        c.nontrivial(!ww.empty() && (int)ww.size() < ix.numLive());
        LUCENE_GUARD(checkQuery(c, ix, s, q, build(q), "query"););
    } while (++n < 8 && c.more(6));
    s->close();
}
// phrases, exact and sloppy, over few words so that repeated terms are common
VF_SUB(phrases, 8000, 300000) {
    QCfg g;
    g.words = {L"a", L"b", L"c"};
    g.only = {Q_PHRASE, Q_MPHRASE};
    g.sloppyRepeats = false;
    QIndexCfg ig;
    ig.words = g.words;
    ig.maxWords = 14;
    ig.maxDocs = 12;
    run(c, g, ig, 0);
}
// a sloppy phrase that repeats a term: every reported document holds the terms within the slop
VF_SUB(sloppyRepeats, 3000, 100000) {
    QCfg g;
    g.words = {L"a", L"b", L"c"};
    g.only = {Q_PHRASE};
    QIndexCfg ig;
    ig.words = g.words;
    ig.maxWords = 14;
    ig.maxDocs = 12;
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    Q q = genQ(c, g, 0);
    c.note("query " + describe(q));
    LUCENE_GUARD(
        auto got = asSet(collect(s, build(q)), "sloppy phrase");
        Q all;
        all.kind = Q_BOOL;
        for (auto& a : q.terms) { Q t; t.kind = Q_TERM; t.field = q.field; t.text = a[0]; all.subs.push_back(t); all.occ.push_back(MUST); }
        auto cand = want(ix, all);
        for (int d : got) REQUIRE(cand.count(d), "document " << d << " matches the phrase without holding its terms");
        Q exact = q;
        exact.n = 0;
        bool distinct = q.field != L"z";
        for (size_t i = 1; i < q.pos.size(); ++i) distinct &= q.pos[i] > q.pos[i - 1];
        if (distinct) for (int d : want(ix, exact)) REQUIRE(got.count(d), "document " << d << " holds the exact phrase but does not match the sloppy one");
        c.nontrivial(!cand.empty() && q.n > 0););
    s->close();
}

// recorded finding: two different terms at one position are taken for one repeated term
VF_SUB(sloppyStacked, 0, 0) {
    QIndex ix;
    DocSpec d;
    d.fields.push_back(keyword(L"id", L"d0"));
    FieldSpec f;
    f.name = L"z";
    f.kind = STREAM;
    Tok t;
    t.t = L"c"; t.eo = 1;
    f.toks.push_back(t);
    t.t = L"b"; t.inc = 0;
    f.toks.push_back(t);
    f.endOffset = 1;
    d.fields.push_back(f);
    setDocs(ix, {d});
    buildInto(c, ix);
    Q q;
    q.kind = Q_PHRASE;
    q.field = L"z";
    q.terms = {{L"b"}, {L"c"}};
    q.pos = {0, 1};
    q.n = 1;
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    checkQuery(c, ix, s, q, build(q), "query");
    s->close();
}
