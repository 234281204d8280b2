// C09: search results do not depend on how the index is laid out.
#include "LuceneInc.h"
#include "fmodel.h"
#include "world.h"
#include "MultiReader.h"
#include "ParallelReader.h"
#include "FilterIndexReader.h"
#include "MultiSearcher.h"
#include "ParallelMultiSearcher.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "SerialMergeScheduler.h"
#include "Sort.h"
#include "SortField.h"
#include "TopFieldDocs.h"
#include "FieldDoc.h"
#include "Weight.h"
#include "Explanation.h"
#include "LogDocMergePolicy.h"
#include "NoLockFactory.h"
#include "MatchAllDocsQuery.h"
#include "QueryWrapperFilter.h"
#include "CachingWrapperFilter.h"
#include "IndexDeletionPolicy.h"

using namespace vf;

namespace {
struct PeekStarts : public MultiSearcher {
    static Collection<int32_t> of(MultiSearcher& m) { return (m.*(&PeekStarts::getStarts))(); }
};
struct Layouts {
    Case& c;
    QIndex& ix;
    bool deleted;                       // some documents are deleted
    int dirs = 0, leaves = 0, levels = 0;
    std::string d;                      // description
    std::vector<std::string> paths;
    std::vector<IndexWriterPtr> writers;
    std::vector<IndexReaderPtr> readers;
    Layouts(Case& c, QIndex& ix) : c(c), ix(ix), deleted(ix.numLive() != ix.maxDoc()) {}
    ~Layouts() {
        try {
            for (auto& r : readers) r->close();
            for (auto& w : writers) w->close();
        } catch (...) {}
        for (auto& p : paths) { std::string cmd = "rm -rf '" + p + "'"; if (p.find(scratchDir()) == 0 && system(cmd.c_str())) {} }
    }

    DirectoryPtr newDir() {
        ++dirs;
        int k = c.weighted({8, 1, 1});
        if (k == 0) { d += "ram "; return newLucene<RAMDirectory>(); }
        std::string p = scratchDir() + "/l" + str(dirs) + "_" + str((int)paths.size());
        paths.push_back(p);
        if (k == 1) { d += "fs "; return newLucene<SimpleFSDirectory>(W(p)); }
        d += "mmap ";
        return newLucene<MMapDirectory>(W(p));
    }
    // cuts [from, to) into parts, some of them possibly empty
    std::vector<std::pair<int, int> > parts(int from, int to) {
        std::vector<std::pair<int, int> > r;
        int at = from;
        for (int k = 0; k < 4 && c.more(2); ++k) {
            int n = (int)c.draw((uint64_t)(to - at) + 1);
            r.push_back({at, at + n});
            at += n;
        }
        r.push_back({at, to});
        if (c.chance(1, 6)) r.push_back({to, to});
        return r;
    }
    IndexWriterPtr writer(const DirectoryPtr& dir) {
        IndexWriterPtr w = newLucene<IndexWriter>(dir, blankAnalyzer(), true, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
        w->setMergeScheduler(newLucene<SerialMergeScheduler>());
        if (deleted) w->setMergeFactor(1000);
        else {
            if (c.chance(1, 2)) w->setMergePolicy(newLucene<LogDocMergePolicy>(w));
            int mf = c.chance(1, 2) ? c.range(2, 4) : 1000;
            w->setMergeFactor(mf);
            d += "mf" + str(mf) + " ";
        }
        int mb = c.weighted({1, 1}) ? c.range(2, 5) : 1000;
        w->setMaxBufferedDocs(mb);
        bool cf = c.chance(1, 2);
        w->setUseCompoundFile(cf);
        w->setTermIndexInterval(c.chance(1, 2) ? 128 : c.range(1, 3));
        d += "mb" + str(mb) + (cf ? " cfs " : " ");
        return w;
    }
    // writes documents [from, to) restricted to some fields
    void fill(const DirectoryPtr& dir, int from, int to, const std::set<std::wstring>* only = nullptr, IndexReaderPtr* nrt = nullptr) {
        ++leaves;
        IndexWriterPtr w = writer(dir);
        bool ghosts = !deleted && !only && c.chance(1, 4);
        bool byReader = deleted && (only || c.chance(1, 3));
        if (!only && !deleted && to - from >= 2 && c.chance(1, 4)) {
            // imported piece by piece
            d += "import( ";
            auto ps = parts(from, to);
            for (auto& p : ps) {
                DirectoryPtr sub = newDir();
                fill(sub, p.first, p.second);
                if (c.chance(1, 2)) {
                    IndexReaderPtr r = IndexReader::open(sub, true);
                    w->addIndexes(newCollection<IndexReaderPtr>(r));
                    r->close();
                } else w->addIndexesNoOptimize(newCollection<DirectoryPtr>(sub));
            }
            d += ") ";
        } else {
            for (int i = from; i < to; ++i) {
                if (ghosts && c.chance(1, 3)) { QIndexCfg g; DocSpec gd = genQDoc(c, g, 900 + i); w->addDocument(build(gd)); }
                DocSpec s = ix.docs[(size_t)i];
                if (only) { std::vector<FieldSpec> f; for (auto& x : s.fields) if (only->count(x.name)) f.push_back(x); s.fields = f; }
                w->addDocument(build(s));
                if (c.chance(1, 8)) w->commit();
            }
        }
        if (ghosts) {
            d += "ghosts ";
            for (int i = from; i < to; ++i) w->deleteDocuments(newLucene<Term>(L"id", L"d" + std::to_wstring(900 + i)));
            if (c.chance(1, 2)) { d += "optimized "; w->optimize(); } else { d += "expunged "; w->commit(); w->expungeDeletes(); }
        }
        if (!byReader) for (int i = from; i < to; ++i) if (!ix.live[(size_t)i]) w->deleteDocuments(newLucene<Term>(L"id", ix.docs[(size_t)i].id()));
        if (!deleted && c.chance(1, 3)) { int k = c.range(1, 3); d += "optimize" + str(k) + " "; w->optimize(k); }
        if (nrt && !byReader) { d += "nrt "; *nrt = w->getReader(); writers.push_back(w); return; }
        w->close();
        if (byReader) {
            IndexReaderPtr r = IndexReader::open(dir, false);
            for (int i = from; i < to; ++i) if (!ix.live[(size_t)i]) r->deleteDocument(i - from);
            r->close();
        }
        if (nrt) *nrt = IndexReader::open(dir, true);
    }
    IndexReaderPtr keep(const IndexReaderPtr& r) { readers.push_back(r); return r; }

    IndexReaderPtr reader(int from, int to, int depth, bool parallel = true) {
        levels = std::max(levels, 3 - depth);
        switch (depth > 0 ? c.weighted({4, 5, 2, parallel ? 2 : 0, 1}) : 0) {
            case 0: {
                d += "[";
                IndexReaderPtr r;
                DirectoryPtr dir = newDir();
                if (c.chance(1, 4)) fill(dir, from, to, nullptr, &r);
                else {
                    fill(dir, from, to);
                    r = IndexReader::open(dir, IndexDeletionPolicyPtr(), c.chance(1, 2), c.chance(1, 2) ? 1 : c.range(2, 4));
                }
                d += "] ";
                return keep(r);
            }
            case 1: {
                d += "multi( ";
                Collection<IndexReaderPtr> subs = Collection<IndexReaderPtr>::newInstance();
                for (auto& p : parts(from, to)) subs.add(reader(p.first, p.second, depth - 1, parallel));
                d += ") ";
                return keep(newLucene<MultiReader>(subs, false));
            }
            case 2: {
                d += "filter( ";
                IndexReaderPtr r = newLucene<FilterIndexReader>(reader(from, to, depth - 1, parallel));
                d += ") ";
                return keep(r);
            }
            case 3: {
                // the fields of each document are spread over parallel indexes
                d += "parallel( ";
                std::vector<std::wstring> f{L"id", L"x", L"y", L"z", L"k", L"i"};
                int n = c.range(1, 3);
                std::vector<std::set<std::wstring> > g((size_t)n);
                for (auto& x : f) g[x == L"id" ? 0 : (size_t)c.draw((uint64_t)n)].insert(x);
                ParallelReaderPtr pr = newLucene<ParallelReader>(false);
                for (auto& fs : g) {
                    DirectoryPtr dir = newDir();
                    fill(dir, from, to, &fs);
                    d += "| ";
                    pr->add(keep(IndexReader::open(dir, true)));
                }
                d += ") ";
                return keep(pr);
            }
            default: {
                d += "clone( ";
                IndexReaderPtr r = reader(from, to, depth - 1, parallel);
                d += ") ";
                if (r->getSequentialSubReaders() && boost::dynamic_pointer_cast<FilterIndexReader>(r)) return r;
                if (boost::dynamic_pointer_cast<FilterIndexReader>(r)) return r;
                // cloning is not possible through filter readers
                if (d.find("filter(") != std::string::npos) return r;
                return keep(boost::dynamic_pointer_cast<IndexReader>(r->clone()));
            }
        }
    }
    SearcherPtr searcher(int from, int to, int depth) {
        if (depth == 0 || c.chance(1, 3)) return newLucene<IndexSearcher>(reader(from, to, c.range(0, 1)));
        bool par = c.chance(1, 3);
        d += par ? "parallel searcher( " : "multi searcher( ";
        Collection<SearchablePtr> subs = Collection<SearchablePtr>::newInstance();
        for (auto& p : parts(from, to)) subs.add(searcher(p.first, p.second, depth - 1));
        d += ") ";
        if (par) return newLucene<ParallelMultiSearcher>(subs);
        return newLucene<MultiSearcher>(subs);
    }
};

bool multiTerm(const Q& q) { return q.kind == Q_PREFIX || q.kind == Q_WILD || q.kind == Q_FUZZY || q.kind == Q_RANGE; }
bool anyMulti(const Q& q, bool filterOnes) {
    if (multiTerm(q)) return filterOnes || q.rewrite != 1;
    for (auto& s : q.subs) if (anyMulti(s, filterOnes)) return true;
    return false;
}
bool prohibits(const Q& q) {       // a prohibited clause holding a multi-term query
    for (size_t i = 0; i < q.subs.size(); ++i)
        if ((q.kind == Q_BOOL && q.occ[i] == MUSTNOT && anyMulti(q.subs[i], false)) || prohibits(q.subs[i])) return true;
    return false;
}
void noteIndex(Case& c, const QIndex& ix) {
    for (int i = 0; i < ix.maxDoc(); ++i) c.note("doc " + str(i) + (ix.live[i] ? "" : " (deleted)") + ": " + describe(ix.docs[i]));
}
bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-9 * std::max(std::abs(a), std::abs(b)); }

// the reference layout: one segment in memory (deletions kept)
IndexSearcherPtr reference(QIndex& ix) {
    ix.dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(ix.dir, blankAnalyzer(), true, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMergeFactor(1000);
    w->setUseCompoundFile(false);
    for (auto& d : ix.docs) w->addDocument(build(d));
    for (size_t i = 0; i < ix.docs.size(); ++i) if (!ix.live[i]) w->deleteDocuments(newLucene<Term>(L"id", ix.docs[i].id()));
    w->close();
    return newLucene<IndexSearcher>(ix.dir, true);
}
QIndex genDocs(Case& c, bool streams = true) {
    QIndexCfg ig;
    ig.ints = true;
    ig.streams = streams;
    ig.payloads = c.chance(1, 2);
    QIndex ix;
    std::vector<DocSpec> docs;
    bool vec = c.chance(1, 2);
    while ((int)docs.size() < 24 && c.more(12)) {
        docs.push_back(genQDoc(c, ig, (int)docs.size()));
        for (auto& f : docs.back().fields) {
            if (f.name == L"x" && c.chance(1, 3)) f.stored = true;
            if (vec && (f.name == L"x" || f.name == L"k") && c.chance(1, 2)) f.tv = Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS;
        }
    }
    setDocs(ix, docs);
    if (c.chance(1, 2)) for (size_t i = 0; i < docs.size(); ++i) if (c.chance(1, 6)) ix.live[i] = false;
    return ix;
}

void compareHits(const std::vector<Hit>& got, const std::vector<Hit>& want, bool scores, const std::string& what) {
    std::map<int, double> a, b;
    for (auto& h : got) REQUIRE(a.insert({h.doc, h.score}).second, what << ": document " << h.doc << " returned twice");
    for (auto& h : want) b[h.doc] = h.score;
    std::string diff;
    for (auto& x : a) if (!b.count(x.first)) diff += "additional document " + str(x.first) + "; ";
    for (auto& x : b) if (!a.count(x.first)) diff += "missing document " + str(x.first) + "; ";
    REQUIRE(diff.empty(), what << ": " << diff << "one segment gives " << show(want));
    if (scores) for (auto& x : a) REQUIRE(near(x.second, b[x.first]), what << ": document " << x.first << " scores " << x.second << ", in one segment " << b[x.first]);
}
void compareTop(const std::vector<Hit>& got, const std::vector<Hit>& want, std::map<int, double>& sc, std::map<int, double>& own, const std::string& what) {
    REQUIRE_EQ(got.size(), want.size(), what << ": number of best hits");
    for (size_t i = 0; i < got.size(); ++i) {
        REQUIRE(near(got[i].score, want[i].score), what << ": rank " << i << " scores " << got[i].score << ", in one segment " << want[i].score);
        // of documents with (almost) the same score only exact ties have a defined order
        if (got[i].doc != want[i].doc)
            REQUIRE((sc[got[i].doc] != sc[want[i].doc] || own[got[i].doc] != own[want[i].doc]) && near(sc[got[i].doc], sc[want[i].doc]), what << ": rank " << i << " is document " << got[i].doc << ", in one segment " << want[i].doc);
    }
}
SortPtr genSort(Case& c, std::string& d) {
    Collection<SortFieldPtr> f = Collection<SortFieldPtr>::newInstance();
    do {
        bool rev = c.chance(1, 2);
        switch (c.weighted({2, 2, 2, 1, 1, 1})) {
            case 0: f.add(newLucene<SortField>(L"i", (int32_t)SortField::INT, rev)); d += "i"; break;
            case 1: f.add(newLucene<SortField>(L"i", (int32_t)SortField::STRING, rev)); d += "i(string)"; break;
            case 2: f.add(newLucene<SortField>(L"id", (int32_t)SortField::STRING, rev)); d += "id"; break;
            case 3: f.add(newLucene<SortField>(L"", (int32_t)SortField::DOC, rev)); d += "doc"; break;
            case 4: f.add(newLucene<SortField>(L"i", (int32_t)SortField::STRING_VAL, rev)); d += "i(string value)"; break;
            default: f.add(newLucene<SortField>(L"i", (int32_t)SortField::LONG, rev)); d += "i(long)"; break;
        }
        d += rev ? " reversed, " : ", ";
    } while (f.size() < 3 && c.more(1));
    return newLucene<Sort>(f);
}

void search(Case& c, const QIndex& ix, const SearcherPtr& ref, const SearcherPtr& s, const Q& q, bool scores, bool& nt) {
    QueryPtr lq = build(q);
    std::string what = describe(q);
    FilterPtr f;
    if (c.chance(1, 4)) { Q fq; fq.kind = Q_TERM; fq.field = c.chance(1, 2) ? L"k" : L"y"; fq.text = c.pick(QCfg().words); f = newLucene<QueryWrapperFilter>(build(fq)); if (c.chance(1, 2)) f = newLucene<CachingWrapperFilter>(f); what += " filtered by " + describe(fq); }
    auto want = collect(ref, lq, f), got = collect(s, lq, f, c.chance(1, 3));
    compareHits(got, want, scores, what);
    if (!want.empty() && (int)want.size() < ix.numLive()) nt = true;
    std::map<int, double> sc;
    std::map<int, double> own;
    for (auto& h : want) sc[h.doc] = h.score;
    for (auto& h : got) own[h.doc] = h.score;
    int n = c.chance(1, 6) ? 1000 : 1 + (int)c.draw(want.size() + 2);
    TopDocsPtr a = s->search(lq, f, n), b = ref->search(lq, f, n);
    REQUIRE_EQ((int)a->totalHits, (int)b->totalHits, what << ": total hits of best " << n);
    if (scores) {
        compareTop(hits(a), hits(b), sc, own, what + ", best " + str(n));
        if (!want.empty()) REQUIRE(near(a->maxScore, b->maxScore), what << ": maximum score " << a->maxScore << ", in one segment " << b->maxScore);
    }
    if (c.chance(1, 2)) {
        std::string sd;
        SortPtr so = genSort(c, sd);
        TopFieldDocsPtr x = s->search(lq, f, n, so), y = ref->search(lq, f, n, so);
        REQUIRE_EQ((int)x->totalHits, (int)y->totalHits, what << " sorted by " << sd << ": total hits");
        REQUIRE_EQ((int)x->scoreDocs.size(), (int)y->scoreDocs.size(), what << " sorted by " << sd << ": hits");
        for (int i = 0; i < x->scoreDocs.size(); ++i) {
            REQUIRE_EQ((int)x->scoreDocs[i]->doc, (int)y->scoreDocs[i]->doc, what << " sorted by " << sd << ", best " << n << ": rank " << i);
            FieldDocPtr fx = boost::dynamic_pointer_cast<FieldDoc>(x->scoreDocs[i]), fy = boost::dynamic_pointer_cast<FieldDoc>(y->scoreDocs[i]);
            REQUIRE(fx && fy && fx->fields.size() == fy->fields.size(), what << " sorted by " << sd << ": number of sort values");
            for (int k = 0; k < fx->fields.size(); ++k) REQUIRE(fx->fields[k] == fy->fields[k], what << " sorted by " << sd << ": value " << k << " of rank " << i << " differs");
        }
    }
    if (scores && !want.empty() && c.chance(1, 4)) {
        int d = c.pick(want).doc;
        double e = s->explain(lq, d)->getValue(), e2 = ref->explain(lq, d)->getValue();
        REQUIRE(std::abs(e - e2) <= 1e-6 * std::max(1.0, std::abs(e2)), what << ": explanation of document " << d << " gives " << e << ", in one segment " << e2);
    }
    if (!want.empty()) {
        int d = c.pick(want).doc;
        REQUIRE_EQ(narrow(s->doc(d)->get(L"id")), narrow(ref->doc(d)->get(L"id")), what << ": id of document " << d);
    }
}
void statistics(Case& c, const QIndex& ix, const SearcherPtr& ref, const SearcherPtr& s) {
    REQUIRE_EQ((int)s->maxDoc(), (int)ref->maxDoc(), "maximum document number");
    Collection<TermPtr> ts = Collection<TermPtr>::newInstance();
    for (int i = 0; i < 4; ++i) ts.add(newLucene<Term>(c.pick(QCfg().fields), c.pick(QCfg().words)));
    for (int i = 0; i < ts.size(); ++i) REQUIRE_EQ((int)s->docFreq(ts[i]), (int)ref->docFreq(ts[i]), "document frequency of " << narrow(ts[i]->toString()));
    Collection<int32_t> a = s->docFreqs(ts);
    for (int i = 0; i < ts.size(); ++i) REQUIRE_EQ((int)a[i], (int)ref->docFreq(ts[i]), "document frequency (of several) of " << narrow(ts[i]->toString()));
    for (int i = 0; i < ix.maxDoc(); ++i) if (ix.live[(size_t)i]) REQUIRE_EQ(narrow(s->doc(i)->get(L"id")), narrow(ix.docs[(size_t)i].id()), "id of document " << i);
}
}

// any nesting of readers over any partition of the documents
VF_SUB(readers, 2000, 250000) {
    QIndex ix = genDocs(c);
    noteIndex(c, ix);
    Layouts L(c, ix);
    LUCENE_GUARD(
        IndexSearcherPtr ref = reference(ix);
        IndexReaderPtr r = L.reader(0, ix.maxDoc(), 2);
        c.note("layout " + L.d);
        IndexSearcherPtr s = newLucene<IndexSearcher>(r);
        bool nt = false;
        statistics(c, ix, ref, s);
        int n = 0;
        do {
            QCfg g;
            Q q = genQ(c, g, 2);
            c.note("query " + describe(q));
            if (stackedSloppy(ix, q)) { ++c.excluded; continue; }
            search(c, ix, ref, s, q, true, nt);
        } while (++n < 4 && c.more(2));
        c.nontrivial(nt && (L.leaves > 1 || L.d.find("mb") != std::string::npos) && ix.maxDoc() > 3););
}

// any nesting of searchers, each over its own reader
VF_SUB(searchers, 1500, 200000) {
    QIndex ix = genDocs(c);
    noteIndex(c, ix);
    Layouts L(c, ix);
    LUCENE_GUARD(
        IndexSearcherPtr ref = reference(ix);
        SearcherPtr s = L.searcher(0, ix.maxDoc(), 2);
        c.note("layout " + L.d);
        bool nt = false;
        statistics(c, ix, ref, s);
        if (MultiSearcherPtr ms = boost::dynamic_pointer_cast<MultiSearcher>(s)) {
            Collection<int32_t> st = PeekStarts::of(*ms);
            for (int i = 0; i < ix.maxDoc(); ++i) {
                int k = ms->subSearcher(i);
                REQUIRE(k >= 0 && k + 1 < st.size() && st[k] <= i && i < st[k + 1], "document " << i << " assigned to sub-searcher " << k);
                REQUIRE_EQ((int)ms->subDoc(i), i - st[k], "sub-document of " << i);
            }
        }
        int n = 0;
        do {
            QCfg g;
            if (c.chance(1, 2)) g.multi = false;
            Q q = genQ(c, g, 2);
            c.note("query " + describe(q));
            if (stackedSloppy(ix, q)) { ++c.excluded; continue; }
            // recorded findings: multi-term queries are rewritten per sub-searcher
            if (prohibits(q)) { ++c.excluded; continue; }
            search(c, ix, ref, s, q, !anyMulti(q, false), nt);
        } while (++n < 4 && c.more(2));
        c.nontrivial(nt && L.leaves > 1 && ix.maxDoc() > 3);
        s->close(););
}

// what a reader enumerates
VF_SUB(contents, 1800, 200000) {
    QIndex ix = genDocs(c);
    noteIndex(c, ix);
    Layouts L(c, ix);
    LUCENE_GUARD(
        IndexSearcherPtr ref = reference(ix);
        IndexReaderPtr rr = ref->getIndexReader();
        IndexReaderPtr r = L.reader(0, ix.maxDoc(), 3);
        c.note("layout " + L.d);
        DumpCfg dc;
        Dump got = dumpReader(r, dc), want = dumpReader(rr, dc);
        auto sorted = [](Dump& m) {
            for (auto& x : m) if (x.first[0] == 'S') {
                std::vector<std::string> f;
                std::stringstream ss(x.second);
                for (std::string t; std::getline(ss, t, ';');) f.push_back(t);
                std::stable_sort(f.begin(), f.end(), [](const std::string& a, const std::string& b) { return a.substr(0, a.find('=')) < b.substr(0, b.find('=')); });
                x.second.clear();
                for (auto& t : f) x.second += t + ";";
            }
        };
        sorted(got);
        sorted(want);
        std::string df = diff(got, want);
        REQUIRE(df.empty(), "contents differ from those of one segment: " << df);
        REQUIRE_EQ((int)r->maxDoc(), ix.maxDoc(), "maximum document number");
        for (int i = 0; i < ix.maxDoc(); ++i) REQUIRE_EQ((bool)r->isDeleted(i), (bool)!ix.live[(size_t)i], "deletion of document " << i);
        REQUIRE_EQ((bool)r->hasDeletions(), L.deleted, "whether there are deletions");
        // terms from a given one on, with document frequencies
        int n = 0;
        do {
            TermPtr t = newLucene<Term>(c.pick(std::vector<std::wstring>{L"", L"id", L"k", L"x", L"y", L"z", L"zz", L"i", L"j"}), c.chance(1, 2) ? c.pick(QCfg().words) : c.word(L"abcd", 0, 3));
            if (t->field().empty() && t->text().empty()) { ++c.excluded; continue; } // recorded finding, see emptyTerm
            TermEnumPtr a = r->terms(t), b = rr->terms(t);
            // terms of deleted documents stay until merged away in both
            for (int k = 0; k < 10; ++k) {
                TermPtr x = a->term(), y = b->term();
                REQUIRE((bool)x == (bool)y && (!x || x->compareTo(y) == 0), "term " << k << " after " << narrow(t->toString()) << " is " << (x ? narrow(x->toString()) : "none") << ", in one segment " << (y ? narrow(y->toString()) : "none"));
                if (!x) break;
                REQUIRE_EQ((int)a->docFreq(), (int)b->docFreq(), "document frequency of enumerated term " << narrow(x->toString()));
                REQUIRE_EQ((int)r->docFreq(x), (int)b->docFreq(), "document frequency of term " << narrow(x->toString()));
                // the enumeration and the postings advance together
                TermDocsPtr da = r->termDocs(); TermDocsPtr db = rr->termDocs(x);
                da->seek(a);
                for (int m = 0; m < 40; ++m) {
                    bool na = da->next(), nb = db->next();
                    REQUIRE_EQ(na, nb, "posting " << m << " of " << narrow(x->toString()) << " exists");
                    if (!na) break;
                    REQUIRE_EQ((int)da->doc(), (int)db->doc(), "posting " << m << " of " << narrow(x->toString()));
                    REQUIRE_EQ((int)da->freq(), (int)db->freq(), "frequency of posting " << m << " of " << narrow(x->toString()));
                }
                if (!a->next()) { REQUIRE(!b->next(), "terms after " << narrow(x->toString()) << " are missing"); break; }
                REQUIRE(b->next(), "additional terms after " << narrow(x->toString()));
            }
        } while (++n < 4 && c.more(2));
        for (auto& f : {L"x", L"z", L"id"}) {
            std::wstring fw(f);
            if (rr->hasNorms(fw) || L.d.find("ghosts") == std::string::npos) REQUIRE_EQ((bool)r->hasNorms(fw), (bool)rr->hasNorms(fw), "whether field " << narrow(fw) << " has norms");
            ByteArray a = r->norms(fw), b = rr->norms(fw);
            if (a && b && ix.maxDoc()) {
                int off = c.range(0, 3);
                ByteArray o = ByteArray::newInstance(ix.maxDoc() + off + 1);
                for (int i = 0; i < o.size(); ++i) o[i] = 77;
                r->norms(fw, o, off);
                for (int i = 0; i < off; ++i) REQUIRE_EQ((int)o[i], 77, "norms written before the offset");
                for (int i = 0; i < ix.maxDoc(); ++i) REQUIRE_EQ((int)o[i + off], (int)a[i], "norm of document " << i << " in field " << narrow(fw) << " written to an array");
            }
        }
        auto names = [](const IndexReaderPtr& x, IndexReader::FieldOption o) { std::set<std::wstring> r; HashSet<String> h = x->getFieldNames(o); for (auto i = h.begin(); i != h.end(); ++i) r.insert(*i); std::string t; for (auto& i : r) t += narrow(i) + " "; return t; };
        if (!L.dirs || L.d.find("ghosts") == std::string::npos)
            for (auto o : {IndexReader::FIELD_OPTION_ALL, IndexReader::FIELD_OPTION_INDEXED, IndexReader::FIELD_OPTION_UNINDEXED, IndexReader::FIELD_OPTION_INDEXED_WITH_TERMVECTOR})
                REQUIRE_EQ(names(r, o), names(rr, o), "field names for option " << (int)o);
        c.nontrivial(L.leaves > 1 && ix.maxDoc() > 3););
}

namespace {
// a filter that fails on readers holding at least a number of documents
struct FailingFilter : public Filter {
    int from;
    explicit FailingFilter(int from) : from(from) {}
    virtual ~FailingFilter() {}
    LUCENE_CLASS(FailingFilter);
    virtual DocIdSetPtr getDocIdSet(const IndexReaderPtr& reader) {
        if (reader->numDocs() >= from) boost::throw_exception(IOException(L"generated failure"));
        return newLucene<QueryWrapperFilter>(newLucene<MatchAllDocsQuery>())->getDocIdSet(reader);
    }
};
}
// a failure in one part is reported by the whole, which stays usable
VF_SUB(failing, 400, 50000) {
    QIndex ix = genDocs(c);
    Layouts L(c, ix);
    LUCENE_GUARD(
        IndexSearcherPtr ref = reference(ix);
        SearcherPtr s = L.searcher(0, ix.maxDoc(), 2);
        c.note("layout " + L.d);
        int from = c.range(0, 4), failed = 0, n = 0;
        bool nt = false;
        c.note("failing from " + str(from));
        do {
            FilterPtr f = newLucene<FailingFilter>(from);
            Q all;
            all.kind = Q_ALL;
            QueryPtr q = build(all);
            int total = -1;
            try {
                total = c.chance(1, 2) ? (int)s->search(q, f, 5)->totalHits : (int)s->search(q, f, 5, newLucene<Sort>(newLucene<SortField>(L"i", (int32_t)SortField::INT)))->totalHits;
            } catch (IOException&) { ++failed; }
            if (total >= 0) REQUIRE_EQ(total, ix.numLive(), "hits of a search that reported no failure");
            search(c, ix, ref, s, all, true, nt);
        } while (++n < 4 && c.more(2));
        c.nontrivial(failed && L.leaves > 1);
        s->close(););
}

// recorded finding: a multi-searcher rewrites a prohibited multi-term clause separately for each part
VF_SUB(prohibitedMulti, 0, 0) {
    QIndex ix;
    std::vector<DocSpec> docs;
    for (int i = 0; i < 2; ++i) {
        DocSpec d;
        d.fields.push_back(keyword(L"id", L"d" + std::to_wstring(i)));
        d.fields.push_back(text(L"x", i ? L"a cb" : L"a ca"));
        docs.push_back(d);
    }
    setDocs(ix, docs);
    LUCENE_GUARD(
        Layouts L(c, ix);
        IndexSearcherPtr ref = reference(ix);
        Collection<SearchablePtr> subs = Collection<SearchablePtr>::newInstance();
        for (int i = 0; i < 2; ++i) {
            RAMDirectoryPtr dir = newLucene<RAMDirectory>();
            L.fill(dir, i, i + 1);
            subs.add(newLucene<IndexSearcher>(dir, true));
        }
        Q q;
        q.kind = Q_BOOL;
        Q a;
        a.kind = Q_TERM; a.field = L"x"; a.text = L"a";
        Q p;
        p.kind = Q_PREFIX; p.field = L"x"; p.text = L"c"; p.rewrite = 2;
        q.subs = {a, p};
        q.occ = {MUST, MUSTNOT};
        SearcherPtr s = newLucene<MultiSearcher>(subs);
        compareHits(collect(s, build(q)), collect(ref, build(q)), false, describe(q) + " by a multi-searcher"););
}

// recorded finding: enumerating from the empty term on
VF_SUB(emptyTerm, 0, 0) {
    QIndex ix;
    std::vector<DocSpec> docs(1);
    docs[0].fields.push_back(keyword(L"id", L"d0"));
    setDocs(ix, docs);
    LUCENE_GUARD(
        IndexSearcherPtr ref = reference(ix);
        TermPtr t = ref->getIndexReader()->terms(newLucene<Term>(L"", L""))->term();
        REQUIRE((bool)t, "the enumeration from the empty term on is positioned at no term, although the index has terms"););
}
