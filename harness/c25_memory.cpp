// C25: a memory index answers like an ordinary index holding just that document.
#include "LuceneInc.h"
#include "qmodel.h"
#include "DefaultSimilarity.h"
#include "Explanation.h"
#include "TermVectorMapper.h"
#include "MemoryIndex.h"
#include "StringReader.h"
#include "Sort.h"
#include "SortField.h"
#include "TopFieldDocs.h"
#include "FieldDoc.h"

using namespace vf;

namespace {

class LenSim : public DefaultSimilarity {
public:
    LenSim(double p) : p(p) {}
    virtual ~LenSim() {}
    LUCENE_CLASS(LenSim);
    double p;
    virtual double lengthNorm(const String& f, int32_t n) { return p / (n + (f == L"y" ? 3.0 : 1.0)); }
    virtual double tf(double freq) { return freq; }
    virtual double idf(int32_t docFreq, int32_t numDocs) { return 1.0 + docFreq * 0.25; }
};

class Collect : public TermVectorMapper {
public:
    virtual ~Collect() {}
    LUCENE_CLASS(Collect);
    std::wstring field;
    bool off = false, pos = false;
    int num = 0;
    std::map<std::wstring, std::string> got;
    virtual void setExpectations(const String& f, int32_t numTerms, bool storeOffsets, bool storePositions) {
        field = f; num = numTerms; off = storeOffsets; pos = storePositions;
    }
    virtual void map(const String& term, int32_t frequency, Collection<TermVectorOffsetInfoPtr> offsets, Collection<int32_t> positions) {
        std::string r = "freq " + str(frequency);
        if (pos) { REQUIRE(positions, "the mapper was promised positions"); r += " pos"; for (int i = 0; i < positions.size(); ++i) r += " " + str(positions[i]); }
        if (off) {
            REQUIRE(offsets, "the mapper was promised offsets");
            r += " off";
            for (int i = 0; i < offsets.size(); ++i) r += " " + str(offsets[i]->getStartOffset()) + "-" + str(offsets[i]->getEndOffset());
        }
        got[term] = r;
    }
};

struct Fld { std::wstring name; bool stream; std::wstring text; std::vector<Tok> toks; double boost; };

struct Pair {
    std::vector<Fld> flds;
    MemoryIndexPtr mem;
    bool offsets;
    RAMDirectoryPtr dir;
    IndexSearcherPtr ms, os;
    IndexReaderPtr mr, orr;
    SimilarityPtr sim;
};

std::vector<Tok> genToks(Case& c, const std::vector<std::wstring>& words) {
    std::vector<Tok> v;
    int o = 0;
    int n = (int)c.draw(c.chance(1, 12) ? 60 : 9);
    for (int i = 0; i < n; ++i) {
        Tok t;
        t.t = c.chance(1, 15) ? std::wstring(1 + (size_t)c.draw(40), (wchar_t)(L'q' + c.draw(3))) : c.pick(words);
        if (c.chance(1, 20)) t.t = L"\u00e9" + t.t;
        t.inc = (int)c.pick(std::vector<int>{1, 1, 1, 0, 0, 2, 3});
        if (c.chance(3, 4)) o += (int)c.draw(3);
        t.so = o;
        t.eo = o + (int)c.draw(4);
        v.push_back(t);
    }
    return v;
}
std::string show(const Fld& f) {
    std::string r = "field " + str(f.name) + (f.boost != 1 ? " boost " + str(f.boost) : "") + ": ";
    if (!f.stream) return r + "\"" + str(f.text) + "\"";
    for (auto& t : f.toks) r += "[" + str(t.t) + " +" + str(t.inc) + " " + str(t.so) + "-" + str(t.eo) + "]";
    return r;
}
TokenStreamPtr streamOf(const Fld& f) {
    int e = f.toks.empty() ? 0 : f.toks.back().eo;
    return newLucene<SpecStream>(f.toks, e);
}

void make(Case& c, Pair& p, const std::vector<std::wstring>& words) {
    p.offsets = c.chance(1, 2);
    p.mem = newLucene<MemoryIndex>(p.offsets);
    int n = 1 + (int)c.draw(4);
    std::vector<std::wstring> names{L"x", L"y", L"z", L"xx"};
    // fields are added in any order
    for (int i = 0; i < n; ++i) {
        Fld f;
        size_t k = c.draw(names.size());
        f.name = names[k];
        names.erase(names.begin() + k);
        f.stream = c.chance(2, 3);
        f.boost = 1.0;
        if (f.stream) {
            f.toks = genToks(c, words);
            if (c.chance(1, 3)) f.boost = c.pick(std::vector<double>{0.5, 2.0, 3.7, 0.01});
        } else {
            GenCfg g;
            g.words = words;
            f.text = genText(c, g, 9);
            if (f.text.empty()) f.text = L"a";
            f.toks = blankTokens(f.text);
        }
        p.flds.push_back(f);
        c.note(show(f));
    }
    if (c.chance(1, 4)) p.sim = newLucene<LenSim>(c.chance(1, 2) ? 1.0 : 5.0);
    else if (c.chance(1, 4)) {
        DefaultSimilarityPtr d = newLucene<DefaultSimilarity>();
        d->setDiscountOverlaps(c.chance(1, 2));
        p.sim = d;
    }
    if (p.sim) c.note("a similarity of its own");
    // refused calls change nothing
    auto refused = [&](const std::function<void()>& f, const char* what) {
        bool threw = false;
        try { f(); } catch (LuceneException& e) { threw = true; }
        REQUIRE(threw, what << " was accepted");
    };
    for (auto& f : p.flds) {
        if (c.chance(1, 12)) refused([&] { p.mem->addField(L"", L"a b", blankAnalyzer()); }, "a field without name");
        if (c.chance(1, 12)) refused([&] { p.mem->addField(f.name, L"", blankAnalyzer()); }, "an empty text");
        if (c.chance(1, 12)) refused([&] { p.mem->addField(f.name, streamOf(f), c.chance(1, 2) ? 0.0 : -1.0); }, "a boost that is not positive");
        if (c.chance(1, 12)) refused([&] { p.mem->addField(f.name, L"b d !x a", blankAnalyzer()); }, "a failing stream");
        LUCENE_GUARD(
            if (f.stream) {
                if (f.boost == 1.0) p.mem->addField(f.name, streamOf(f));
                else p.mem->addField(f.name, streamOf(f), f.boost);
            } else
                p.mem->addField(f.name, f.text, blankAnalyzer()););
        if (!f.toks.empty() && c.chance(1, 12)) refused([&] { p.mem->addField(f.name, L"c c c", blankAnalyzer()); }, "a field added twice");
        // searching between two additions does not disturb
        if (c.chance(1, 8)) {
            LUCENE_GUARD(
                IndexSearcherPtr s = p.mem->createSearcher();
                TermEnumPtr te = s->getIndexReader()->terms(newLucene<Term>(f.name, L"b"));
                while (te->next()) {});
        }
    }
    p.dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(p.dir, blankAnalyzer(), true, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
    if (p.sim) w->setSimilarity(p.sim);
    DocumentPtr d = newLucene<Document>();
    for (auto& f : p.flds) {
        if (f.toks.empty()) continue;     // a field without tokens counts as not added
        FieldPtr lf = newLucene<Field>(f.name, streamOf(f), p.offsets ? Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS : Field::TERM_VECTOR_WITH_POSITIONS);
        lf->setBoost(f.boost);
        d->add(lf);
    }
    w->addDocument(d);
    w->close();
    p.os = newLucene<IndexSearcher>(p.dir, true);
    p.ms = p.mem->createSearcher();
    if (p.sim) { p.os->setSimilarity(p.sim); p.ms->setSimilarity(p.sim); }
    p.mr = p.ms->getIndexReader();
    p.orr = p.os->getIndexReader();
}
bool close(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }

std::string vec(const TermFreqVectorPtr& v) {
    if (!v) return "none";
    std::string r = str(v->getField()) + " size " + str(v->size()) + ":";
    Collection<String> t = v->getTerms();
    Collection<int32_t> f = v->getTermFrequencies();
    TermPositionVectorPtr pv = boost::dynamic_pointer_cast<TermPositionVector>(v);
    for (int i = 0; i < t.size(); ++i) {
        r += " " + str(t[i]) + " x" + str(f[i]);
        REQUIRE_EQ((int)v->indexOf(t[i]), i, "indexOf(" << str(t[i]) << ")");
        if (pv) {
            Collection<int32_t> ps = pv->getTermPositions(i);
            r += " @";
            for (int k = 0; ps && k < ps.size(); ++k) r += str(ps[k]) + ",";
            Collection<TermVectorOffsetInfoPtr> os = pv->getOffsets(i);
            r += " #";
            for (int k = 0; os && k < os.size(); ++k) r += str(os[k]->getStartOffset()) + "-" + str(os[k]->getEndOffset()) + ",";
        }
    }
    return r;
}

}  // namespace

// queries: match, score, explanation, and search()
VF_SUB(queries, 9000, 400000) {
    QCfg g;
    g.fields = {L"x", L"y", L"z", L"xx"};
    Pair p;
    LUCENE_GUARD(make(c, p, g.words));
    int hitsSeen = 0, misses = 0, n = 0;
    do {
        Q q = genQ(c, g, 3);
        c.note("query " + describe(q));
        QueryPtr lq = build(q);
        LUCENE_GUARD(
            bool ooo = c.chance(1, 2);
            auto a = collect(p.ms, lq, FilterPtr(), ooo);
            auto b = collect(p.os, lq, FilterPtr(), ooo);
            REQUIRE_EQ((int)a.size(), (int)b.size(), "hits: " << describe(q));
            if (!b.empty()) {
                ++hitsSeen;
                REQUIRE_EQ(a[0].doc, 0, "the document");
                REQUIRE(close(a[0].score, b[0].score), "score " << a[0].score << " instead of " << b[0].score << ": " << describe(q));
            } else
                ++misses;
            TopDocsPtr ta = p.ms->search(lq, FilterPtr(), 3);
            REQUIRE_EQ((int)ta->totalHits, (int)b.size(), "total hits");
            if (!b.empty() && ta->totalHits) REQUIRE(close(ta->scoreDocs[0]->score, b[0].score), "score of the top document");
            if (!p.sim) {
                double s = p.mem->search(build(q));
                REQUIRE(close(s, b.empty() ? 0.0 : b[0].score), "search() gives " << s << " instead of " << (b.empty() ? 0.0 : b[0].score));
            }
            if (c.chance(1, 4)) {
                double e1 = p.ms->explain(lq, 0)->getValue();
                double e2 = p.os->explain(lq, 0)->getValue();
                REQUIRE(close(e1, e2), "explained as " << e1 << " instead of " << e2);
            }
            if (c.chance(1, 6)) {
                // sorted search and filtered search go through the field caches and document id sets of the reader
                SortPtr so = newLucene<Sort>(newLucene<SortField>(c.pick(g.fields), SortField::STRING, c.chance(1, 2)));
                TopFieldDocsPtr fa; TopFieldDocsPtr fb; String ea; String eb;
                try { fa = p.ms->search(lq, FilterPtr(), 2, so); } catch (LuceneException& e) { ea = L"error"; }
                try { fb = p.os->search(lq, FilterPtr(), 2, so); } catch (LuceneException& e) { eb = L"error"; }
                REQUIRE(ea == eb, "a sorted search raises an error in one of the indexes only");
                if (fa) REQUIRE_EQ((int)fa->totalHits, (int)fb->totalHits, "hits of the sorted search");
            });
    } while (++n < 8 && c.more(4));
    c.nontrivial(hitsSeen > 0);
}

// terms, frequencies, positions, norms and vectors by enumeration
VF_SUB(enumeration, 9000, 400000) {
    std::vector<std::wstring> words{L"a", L"b", L"c", L"ab", L"abc", L"bcd"};
    Pair p;
    LUCENE_GUARD(make(c, p, words));
    std::vector<std::wstring> fields{L"x", L"y", L"z", L"xx", L"", L"nofield", L"zz"};
    auto anyTerm = [&]() -> TermPtr {
        std::wstring t = c.weighted({4, 1, 1}) == 0 ? c.pick(words) : c.chance(1, 2) ? std::wstring(L"qqq") : std::wstring(L"");
        for (auto& f : p.flds) if (!f.toks.empty() && c.chance(1, 3)) return newLucene<Term>(f.name, f.toks[c.draw(f.toks.size())].t);
        return newLucene<Term>(c.pick(fields), t);
    };
    std::set<std::wstring> present;
    size_t nterms = 0;
    for (auto& f : p.flds) if (!f.toks.empty()) { present.insert(f.name); nterms += f.toks.size(); }
    bool dropped = false;
    int n = 0;
    do {
        LUCENE_GUARD(
        switch (c.weighted({3, 3, 5, 3, 3, 2, 1})) {
        case 0:
        case 1: {   // enumerate from a term or from the start
            TermPtr t;
            if (c.chance(2, 3)) t = anyTerm();
            if (t && t->field().empty() && t->text().empty()) t.reset();   // stands for the start
            TermEnumPtr a = t ? p.mr->terms(t) : p.mr->terms();
            TermEnumPtr b = t ? p.orr->terms(t) : p.orr->terms();
            std::string what = t ? "terms from " + str(t->field()) + ":" + str(t->text()) : "all terms";
            c.note(what);
            if (!t) {
                // an ordinary enumeration stands before its first term, the one of a memory index on it
                b->next();
                if (!a->term()) a->next();
            }
            int steps = 0;
            while (true) {
                TermPtr ta = a->term();
                TermPtr tb = b->term();
                REQUIRE_EQ((bool)ta, (bool)tb, what << ": ends after " << steps << " terms");
                if (!tb) break;
                REQUIRE(ta->field() == tb->field() && ta->text() == tb->text(), what << ": term " << str(ta->toString()) << " instead of " << str(tb->toString()));
                REQUIRE_EQ((int)a->docFreq(), (int)b->docFreq(), what << ": document frequency of " << str(tb->toString()));
                REQUIRE_EQ((int)p.mr->docFreq(tb), (int)p.orr->docFreq(tb), what << ": reader's document frequency of " << str(tb->toString()));
                ++steps;
                bool na = a->next();
                bool nb = b->next();
                REQUIRE_EQ(na, nb, what << ": next() after " << steps << " terms");
            }
            break;
        }
        case 2: {   // one postings object used on and on
            bool all = c.chance(1, 12), docsOnly = all || c.chance(1, 3);
            c.note(all ? "all documents" : docsOnly ? "documents" : "postings");
            TermPositionsPtr a; TermPositionsPtr b; TermDocsPtr da; TermDocsPtr db;
            if (all) { da = p.mr->termDocs(TermPtr()); db = p.orr->termDocs(TermPtr()); }
            else if (docsOnly) { da = p.mr->termDocs(); db = p.orr->termDocs(); }
            else { a = p.mr->termPositions(); b = p.orr->termPositions(); da = a; db = b; }
            bool sought = all;
            for (int k = 0; k < 10 && c.more(8); ++k) {
                bool on = false;
                switch (c.weighted({sought ? 2 : 8, sought ? 4 : 0, sought ? 3 : 0, sought && docsOnly ? 2 : 0})) {
                case 0: {
                    if (all) break;
                    TermPtr t = anyTerm();
                    c.note("seek " + str(t->toString()));
                    if (!t->field().empty() && c.chance(1, 3)) {
                        TermEnumPtr te = p.mr->terms(t);
                        TermEnumPtr to = p.orr->terms(t);
                        if (!to->term() || !te->term()) { REQUIRE_EQ((bool)te->term(), (bool)to->term(), "a term at or behind " << str(t->toString())); break; }
                        da->seek(te); db->seek(to);
                    } else { da->seek(t); db->seek(t); }
                    sought = true;
                    break;
                }
                case 1: {
                    bool na = da->next(); bool nb = db->next();
                    REQUIRE_EQ(na, nb, "next()");
                    on = nb;
                    break;
                }
                case 2: {
                    int target = (int)c.draw(3);
                    bool na = da->skipTo(target); bool nb = db->skipTo(target);
                    REQUIRE_EQ(na, nb, "skipTo(" << target << ")");
                    on = nb;
                    break;
                }
                default: {
                    Collection<int32_t> d1 = Collection<int32_t>::newInstance(4), f1 = Collection<int32_t>::newInstance(4);
                    Collection<int32_t> d2 = Collection<int32_t>::newInstance(4), f2 = Collection<int32_t>::newInstance(4);
                    int r1 = da->read(d1, f1), r2 = db->read(d2, f2);
                    REQUIRE_EQ(r1, r2, "documents read at once");
                    for (int i = 0; i < r2; ++i) { REQUIRE_EQ((int)d1[i], (int)d2[i], "document read"); REQUIRE_EQ((int)f1[i], (int)f2[i], "frequency read"); }
                }
                }
                if (!on) continue;
                REQUIRE_EQ((int)da->doc(), (int)db->doc(), "document");
                REQUIRE_EQ((int)da->freq(), (int)db->freq(), "frequency");
                if (docsOnly) continue;
                int np = (int)c.draw((uint64_t)b->freq() + 1);
                if (c.chance(2, 3)) np = b->freq();
                for (int i = 0; i < np; ++i) {
                    int pa = a->nextPosition(); int pb = b->nextPosition();
                    REQUIRE_EQ(pa, pb, "position " << i);
                    REQUIRE_EQ(a->isPayloadAvailable(), b->isPayloadAvailable(), "payload");
                }
            }
            break;
        }
        case 3: {   // norms
            std::wstring f = c.pick(fields);
            c.note("norms " + str(f));
            ByteArray a = p.mr->norms(f); ByteArray b = p.orr->norms(f);
            REQUIRE_EQ((bool)a, (bool)b, "field " << str(f) << " has norms");
            if (b) REQUIRE_EQ((int)a[0], (int)b[0], "norm of " << str(f));
            REQUIRE_EQ(p.mr->hasNorms(f), p.orr->hasNorms(f), "hasNorms(" << str(f) << ")");
            int off = (int)c.draw(3);
            ByteArray x = ByteArray::newInstance(4); ByteArray y = ByteArray::newInstance(4);
            for (int i = 0; i < 4; ++i) x[i] = y[i] = 7;
            p.mr->norms(f, x, off); p.orr->norms(f, y, off);
            for (int i = 0; i <= off; ++i) REQUIRE_EQ((int)x[i], (int)y[i], "norms copied at " << off << ", byte " << i << " for " << str(f));
            break;
        }
        case 4: {   // vectors
            std::wstring f = c.pick(fields);
            c.note("vector " + str(f));
            REQUIRE_EQ(vec(p.mr->getTermFreqVector(0, f)), vec(p.orr->getTermFreqVector(0, f)), "vector of " << str(f));
            TermFreqVectorPtr v = p.mr->getTermFreqVector(0, f);
            if (v && v->size()) {
                Collection<String> q = Collection<String>::newInstance();
                for (int i = 0; i < 4; ++i) q.add(c.pick(words));
                Collection<int32_t> got = v->indexesOf(q, 1, 3);
                Collection<int32_t> want = p.orr->getTermFreqVector(0, f)->indexesOf(q, 1, 3);
                for (int i = 0; i < 3; ++i) REQUIRE_EQ((int)got[i], (int)want[i], "indexesOf");
            }
            break;
        }
        case 5: {   // vectors by mapper, all vectors
            std::wstring f = c.pick(fields);
            c.note("mapped vector " + str(f));
            boost::shared_ptr<Collect> a = newLucene<Collect>(); boost::shared_ptr<Collect> b = newLucene<Collect>();
            p.mr->getTermFreqVector(0, f, a); p.orr->getTermFreqVector(0, f, b);
            REQUIRE(a->field == b->field && a->num == b->num && a->off == b->off && a->pos == b->pos, "expectations given to the mapper for " << str(f));
            for (auto& e : b->got) REQUIRE_EQ(a->got[e.first], e.second, "mapped term " << str(e.first));
            REQUIRE_EQ(a->got.size(), b->got.size(), "number of terms mapped");
            std::map<std::wstring, std::string> va, vb;
            Collection<TermFreqVectorPtr> x = p.mr->getTermFreqVectors(0); Collection<TermFreqVectorPtr> y = p.orr->getTermFreqVectors(0);
            for (int i = 0; x && i < x.size(); ++i) va[x[i]->getField()] = vec(x[i]);
            for (int i = 0; y && i < y.size(); ++i) vb[y[i]->getField()] = vec(y[i]);
            REQUIRE(va == vb, "the vectors of all fields");
            break;
        }
        default: {  // the memory index and the searcher are no longer held by anybody but the reader
            if (dropped) break;
            c.note("only the reader is kept");
            dropped = true;
            TermEnumPtr te;
            if (nterms) te = p.mr->terms(newLucene<Term>(*present.begin(), L""));
            if (p.sim) break;    // the similarity belongs to the searcher
            p.ms.reset();
            p.mem.reset();
            if (te) REQUIRE(te->term() && te->term()->field() == *present.begin(), "the enumeration stays where it was");
        }
        });
        if (c.chance(1, 10)) {
            HashSet<String> a = p.mr->getFieldNames(IndexReader::FIELD_OPTION_INDEXED);
            std::set<std::wstring> sa(a.begin(), a.end());
            REQUIRE(sa == present, "names of the indexed fields");
        }
    } while (++n < 12 && c.more(7));
    c.nontrivial(nterms >= 2 && n >= 2);
}

// what an enumeration needs stays alive while the enumeration does
VF_SUB(lifetime, 1500, 40000) {
    std::vector<std::wstring> words{L"a", L"b", L"c", L"ab"};
    Pair p;
    LUCENE_GUARD(make(c, p, words));
    std::vector<std::wstring> f;
    for (auto& x : p.flds) if (!x.toks.empty()) f.push_back(x.name);
    if (f.empty()) return;
    std::wstring fl = c.pick(f);
    LUCENE_GUARD(
        TermEnumPtr te = p.mr->terms(newLucene<Term>(fl, L""));
        TermPositionsPtr tp = p.mr->termPositions();
        TermFreqVectorPtr v = p.mr->getTermFreqVector(0, fl);
        bool early = c.chance(1, 2);
        if (early) { tp->seek(te); REQUIRE(tp->next(), "the term has a document"); }
        TermPositionsPtr op = p.orr->termPositions();
        TermEnumPtr oe = p.orr->terms(newLucene<Term>(fl, L""));
        std::string want = vec(p.orr->getTermFreqVector(0, fl));
        p.mr.reset();
        p.ms.reset();
        p.mem.reset();
        if (!early) { tp->seek(te); REQUIRE(tp->next(), "the term has a document"); }
        op->seek(oe);
        op->next();
        REQUIRE_EQ((int)tp->freq(), (int)op->freq(), "frequency");
        for (int i = 0; i < op->freq(); ++i) { int x = tp->nextPosition(); int y = op->nextPosition(); REQUIRE_EQ(x, y, "position"); }
        do {
            REQUIRE(te->term() && te->term()->text() == oe->term()->text(), "term");
            bool x = te->next(); bool y = oe->next();
            REQUIRE_EQ(x, y, "next");
            if (!y) break;
        } while (true);
        REQUIRE_EQ(vec(v), want, "vector"););
    c.nontrivial(true);
}
