// C16: filters restrict exactly, and caching them never changes an answer.
#include "LuceneInc.h"
#include "fmodel.h"
#include "ConstantScoreQuery.h"
#include "FilteredQuery.h"
#include "MatchAllDocsQuery.h"
#include "SpanFilterResult.h"
#include "SpanQueryFilter.h"
#include "CachingWrapperFilter.h"
#include "SerialMergeScheduler.h"
#include "MultiSearcher.h"
#include "Sort.h"
#include "TopFieldDocs.h"

using namespace vf;

static std::string docsOf(const std::set<int>& s) { std::string r; for (int d : s) r += str(d) + " "; return r; }
static std::set<int> docSet(const std::vector<Hit>& h) { std::set<int> r; for (auto& x : h) REQUIRE(r.insert(x.doc).second, "document " << x.doc << " collected twice"); return r; }
static void noteIndex(Case& c, const QIndex& ix) {
    for (int i = 0; i < ix.maxDoc(); ++i) c.note("doc " + str(i) + (ix.live[i] ? "" : " (deleted)") + ": " + describe(ix.docs[i]));
}
static void checkFilter(Case& c, const QIndex& ix, const IndexSearcherPtr& s, const F& f, const Q& q, const QueryPtr& lq, const char* when) {
    std::set<int> w;
    for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[d] && matches(ix, q, d) && f.ok(ix, d)) w.insert(d);
    auto all = collect(s, lq);
    std::map<int, double> sc;
    for (auto& h : all) sc[h.doc] = h.score;
    for (int ooo = 0; ooo < 2; ++ooo) {
        auto h = collect(s, lq, f.f, ooo);
        auto got = docSet(h);
        REQUIRE(got == w, when << ": searching " << describe(q) << " with filter [" << f.desc << "] gives [" << docsOf(got) << "], expected [" << docsOf(w) << "]");
        for (auto& x : h) REQUIRE(std::abs(x.score - sc[x.doc]) <= 1e-9 * std::abs(x.score), when << ": the filter changes the score of document " << x.doc << " from " << sc[x.doc] << " to " << x.score);
    }
    TopDocsPtr t = s->search(lq, f.f, 3);
    REQUIRE_EQ((int)t->totalHits, (int)w.size(), when << ": total hits with the filter");
    if (c.chance(1, 3)) {
        auto got = docSet(collect(s, newLucene<FilteredQuery>(lq, f.f)));
        REQUIRE(got == w, when << ": filtered query gives [" << docsOf(got) << "], expected [" << docsOf(w) << "]");
    }
    if (c.chance(1, 3)) {
        TopFieldDocsPtr tf = s->search(lq, f.f, 5, Sort::INDEXORDER());
        REQUIRE_EQ((int)tf->totalHits, (int)w.size(), when << ": total hits of a sorted search with the filter");
        std::vector<int> wv(w.begin(), w.end());
        for (int i = 0; i < tf->scoreDocs.size(); ++i) REQUIRE_EQ((int)tf->scoreDocs[i]->doc, wv[i], when << ": hit " << i << " in index order");
    }
    if (w.size() >= 1 && w.size() < all.size()) c.nontrivial();
}

VF_SUB(restrict, 9000, 300000) {
    QIndexCfg ig;
    ig.ints = true;
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    QCfg g;
    g.sloppyRepeats = false;
    int n = 0;
    do {
        F f = genFilter(c, ix, 2);
        c.note("filter " + f.desc);
        int k = 0;
        do {
            Q q = genQ(c, g, c.chance(1, 3) ? 2 : 0);
            if (c.chance(1, 4)) { q = Q(); q.kind = Q_ALL; }
            if (stackedSloppy(ix, q)) { ++c.excluded; continue; }
            LUCENE_GUARD(checkFilter(c, ix, s, f, q, build(q), "search"););
            if (c.chance(1, 4)) {
                // as a query of its own
                std::set<int> w;
                for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[d] && f.ok(ix, d)) w.insert(d);
                LUCENE_GUARD(
                    auto got = docSet(collect(s, newLucene<ConstantScoreQuery>(f.f)));
                    for (auto i = got.begin(); i != got.end();) if (!ix.live[*i]) i = got.erase(i); else ++i;
                    REQUIRE(got == w, "constant score query over filter [" << f.desc << "] gives [" << docsOf(got) << "], expected [" << docsOf(w) << "]"););
            }
        } while (++k < 3 && c.more(1));
    } while (++n < 4 && c.more(2));
    s->close();
}

// the same filter objects over a reader that is reopened as documents are deleted and added
VF_SUB(reopened, 5000, 200000) {
    QIndexCfg ig;
    ig.ints = true;
    ig.maxDocs = 14;
    QIndex ix;
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(dir, blankAnalyzer(), true, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMergeFactor(1000);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    std::vector<DocSpec> docs;
    auto addSome = [&]() {
        do {
            DocSpec d = genQDoc(c, ig, (int)docs.size());
            docs.push_back(d);
            w->addDocument(build(d));
        } while (c.more(4) && docs.size() < 40);
        auto lv = ix.live;
        setDocs(ix, docs);
        for (size_t i = 0; i < lv.size(); ++i) ix.live[i] = lv[i];
    };
    bool nrt = c.chance(1, 2);
    addSome();
    w->commit();
    IndexReaderPtr r = nrt ? w->getReader() : IndexReader::open(dir, true);
    std::vector<F> fs;
    do fs.push_back(genFilter(c, ix, 2)); while (fs.size() < 3 && c.more(2));
    for (auto& f : fs) c.note("filter " + f.desc);
    QCfg g;
    g.sloppyRepeats = false;
    int changes = 0;
    std::vector<std::pair<IndexReaderPtr, QIndex> > held;
    for (int step = 0; step < 8 && c.more(4); ++step) {
        // 0: search, 1: delete and reopen, 2: add and reopen
        int op = c.weighted({3, 2, 1});
        if (op) {
            if (op == 1) {
                for (int i = 0; i < ix.maxDoc(); ++i) if (ix.live[i] && c.chance(1, 4)) { ix.live[i] = false; w->deleteDocuments(newLucene<Term>(L"id", docs[(size_t)i].id())); c.note("delete " + str(i)); }
            } else { addSome(); c.note("now " + str(ix.maxDoc()) + " documents"); }
            if (!nrt) w->commit();
            ++changes;
            IndexReaderPtr nr = nrt ? w->getReader() : r->reopen();
            if (nr != r) {
                if (c.chance(1, 2)) r->close();
                r = nr;
            }
        }
        IndexSearcherPtr s = newLucene<IndexSearcher>(r);
        auto& f = fs[(size_t)c.draw(fs.size())];
        Q q = genQ(c, g, 1);
        if (c.chance(1, 2)) { q = Q(); q.kind = Q_ALL; }
        if (stackedSloppy(ix, q)) { ++c.excluded; continue; }
        LUCENE_GUARD(checkFilter(c, ix, s, f, q, build(q), changes ? "after reopening" : "search"););
        if (c.chance(1, 2)) {
            auto h = docSet(collect(s, newLucene<ConstantScoreQuery>(f.f)));
            for (int d = 0; d < ix.maxDoc(); ++d) {
                if (ix.live[d]) REQUIRE_EQ(h.count(d) != 0, f.ok(ix, d), "constant score query over filter [" << f.desc << "] and live document " << d);
                else if (f.desc.find("mode 0") == std::string::npos && f.desc.find("field cache range") == std::string::npos && f.desc.find("field cache terms") == std::string::npos && f.desc.find("ids(") == std::string::npos && f.desc.find("cached spans") == std::string::npos)
                    REQUIRE(!h.count(d), "constant score query over filter [" << f.desc << "] returns the deleted document " << d);
            }
        }
        s->close();
    }
    c.nontrivial(changes >= 1 && c.isNontrivial);
    if (!changes) c.isNontrivial = false;
    w->close();
}

// positions reported by a span filter
VF_SUB(spanFilter, 3000, 100000) {
    QIndexCfg ig;
    ig.maxDocs = 12;
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexReaderPtr r = IndexReader::open(ix.dir, true);
    QCfg g;
    Q q = genSpan(c, g, 2, c.pick(g.fields));
    c.note("spans " + describe(q));
    LUCENE_GUARD(
        SpanQueryFilterPtr f = newLucene<SpanQueryFilter>(buildSpan(q));
        SpanFilterResultPtr res = f->bitSpans(r);
        Collection<PositionInfoPtr> p = res->getPositions();
        int i = 0;
        for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[d]) {
            auto sp = spansOf(ix, q, d);
            if (sp.empty()) continue;
            REQUIRE(i < p.size(), "document " << d << " has matches but no positions");
            REQUIRE_EQ((int)p[i]->getDoc(), d, "document of entry " << i);
            {
                std::vector<std::pair<int, int> > got;
                for (int k = 0; k < p[i]->getPositions().size(); ++k) got.push_back({p[i]->getPositions()[k]->getStart(), p[i]->getPositions()[k]->getEnd()});
                std::sort(got.begin(), got.end());
                got.erase(std::unique(got.begin(), got.end()), got.end());
                std::sort(sp.begin(), sp.end());
                sp.erase(std::unique(sp.begin(), sp.end()), sp.end());
                REQUIRE(got == sp, "positions in document " << d << " differ");
            }
            ++i;
        }
        REQUIRE_EQ((int)p.size(), i, "number of documents with positions");
        c.nontrivial(i >= 1););
    r->close();
}
