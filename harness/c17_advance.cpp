// C17: every document iterator honours the advance contract.
#include "LuceneInc.h"
#include "fmodel.h"
#include "Weight.h"
#include "Spans.h"
#include "SegmentReader.h"
#include "SerialMergeScheduler.h"
#include "ScoreCachingWrappingScorer.h"
#include "CustomScoreQuery.h"
#include "FieldScoreQuery.h"
#include "PayloadTermQuery.h"
#include "PayloadNearQuery.h"
#include "AveragePayloadFunction.h"
#include "MaxPayloadFunction.h"
#include "SpanTermQuery.h"
#include "MultiReader.h"
#include "ParallelReader.h"
#include "FilterIndexReader.h"
#include "ConstantScoreQuery.h"
#include "NumericField.h"
#include "NumericRangeFilter.h"

using namespace vf;

static const int END = DocIdSetIterator::NO_MORE_DOCS;
static void noteIndex(Case& c, const QIndex& ix) {
    for (int i = 0; i < ix.maxDoc(); ++i) c.note("doc " + str(i) + (ix.live[i] ? "" : " (deleted)") + ": " + describe(ix.docs[i]));
}
// a target after document `doc`: near, at or past the next entries, or past the end
static int genTarget(Case& c, int doc, int maxDoc) {
    switch (c.weighted({4, 2, 1})) {
        case 0: return doc + 1 + (int)c.draw(4);
        case 1: return doc + 1 + (int)c.draw((uint64_t)std::max(1, maxDoc - doc));
        default: return maxDoc + (int)c.draw(3);
    }
}
typedef std::function<DocIdSetIteratorPtr()> Maker;
// walks a fresh iterator by a random mixture; `want` is the stepping enumeration
static bool mix(Case& c, const DocIdSetIteratorPtr& it, const std::vector<int>& want, int maxDoc, const std::string& what, const std::function<void(size_t)>& at) {
    size_t i = 0;      // next entry
    int doc = -1;
    bool skipped = false;
    int d0 = it->docID();
    REQUIRE(d0 == -1 || d0 == END, what << ": docID() before the first step is " << d0);
    std::string hist;
    for (;;) {
        int got;
        if (c.chance(1, 2)) {
            int t = genTarget(c, doc, maxDoc);
            hist += " advance(" + str(t) + ")";
            size_t j = i;
            while (j < want.size() && want[j] < t) ++j;
            skipped |= j > i && j < want.size();
            i = j;
            got = it->advance(t);
        } else {
            hist += " nextDoc()";
            got = it->nextDoc();
        }
        int w = i < want.size() ? want[i] : END;
        REQUIRE(got == w, what << ": after" << hist << ": at " << (got == END ? std::string("the end") : str(got)) << ", expected " << (w == END ? std::string("the end") : str(w)));
        REQUIRE(it->docID() == w, what << ": after" << hist << ": docID() is " << it->docID() << ", expected " << w);
        if (w == END) return skipped;
        at(i);
        doc = w;
        ++i;
    }
}
static std::vector<int> stepAll(const DocIdSetIteratorPtr& it, const std::string& what, const std::function<void(int)>& at) {
    std::vector<int> r;
    int d, last = -1;
    while ((d = it->nextDoc()) != END) {
        REQUIRE(d > last, what << ": stepping goes from " << last << " to " << d);
        REQUIRE(it->docID() == d, what << ": docID() is " << it->docID() << " after stepping to " << d);
        last = d;
        r.push_back(d);
        at(d);
    }
    REQUIRE(it->docID() == END, what << ": docID() at the end is " << it->docID());
    return r;
}
static std::vector<IndexReaderPtr> leaves(const IndexReaderPtr& r) {
    std::vector<IndexReaderPtr> v;
    Collection<IndexReaderPtr> s = r->getSequentialSubReaders();
    if (!s) { v.push_back(r); return v; }
    for (int i = 0; i < s.size(); ++i) for (auto& x : leaves(s[i])) v.push_back(x);
    return v;
}

static bool checkScorer(Case& c, const WeightPtr& w, const IndexReaderPtr& sub, const std::string& what, const std::set<int>* expect) {
    bool top = c.chance(1, 2);
    auto fresh = [&]() { return w->scorer(sub, true, top); };
    ScorerPtr s = fresh();
    if (!s) {
        if (expect) REQUIRE(expect->empty(), what << ": no scorer although " << expect->size() << " documents match");
        return false;
    }
    std::vector<double> sc;
    std::vector<int> docs = stepAll(s, what, [&](int) { sc.push_back(s->score()); });
    if (expect) {
        std::set<int> got(docs.begin(), docs.end());
        std::string g;
        for (int d : docs) g += str(d) + " ";
        REQUIRE(got == *expect, what << ": stepping enumerates [" << g << "]");
    }
    for (int d : docs) REQUIRE(!sub->isDeleted(d), what << ": stepping returns the deleted document " << d);
    bool skipped = false;
    for (int k = 0; k < 3; ++k) {
        ScorerPtr m = fresh();
        REQUIRE(m, what << ": no scorer the second time");
        bool wrapped = c.chance(1, 4);
        ScorerPtr keep = m;
        if (wrapped) m = newLucene<ScoreCachingWrappingScorer>(m);
        int every = 1 + (int)c.draw(3);
        skipped |= mix(c, m, docs, sub->maxDoc(), what, [&](size_t i) {
            if ((int)(i % (size_t)every)) return;
            for (int rep = 0; rep < 2; ++rep) {
                double g = m->score();
                REQUIRE(std::abs(g - sc[i]) <= 1e-9 * std::abs(g) + 1e-300, what << ": score of document " << docs[i] << " after skipping is " << g << ", by stepping " << sc[i] << (rep ? " (read again)" : ""));
            }
        });
    }
    return skipped;
}

// scorers of every query kind, per segment
VF_SUB(scorers, 8000, 400000) {
    QIndexCfg ig;
    ig.payloads = true;
    ig.ints = true;
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexReaderPtr r = IndexReader::open(ix.dir, true);
    IndexSearcherPtr s = newLucene<IndexSearcher>(r);
    QCfg g;
    g.sloppyRepeats = false;
    auto ls = leaves(r);
    int n = 0;
    bool nt = false;
    do {
        Q q = genQ(c, g, 3);
        if (stackedSloppy(ix, q)) { ++c.excluded; continue; }
        QueryPtr lq = build(q);
        std::string what = "query " + describe(q);
        LUCENE_GUARD(
            if (c.chance(1, 6)) {
                lq = newLucene<CustomScoreQuery>(lq, newLucene<FieldScoreQuery>(L"i", FieldScoreQuery::INT));
                what = "custom score of " + what;
            } else if (c.chance(1, 12)) {
                lq = newLucene<FieldScoreQuery>(L"i", FieldScoreQuery::INT);
                what = "field score query";
                q = Q(); q.kind = Q_ALL;
            } else if (c.chance(1, 12)) {
                q = Q(); q.kind = Q_TERM; q.field = L"z"; q.text = c.pick(g.words);
                lq = newLucene<PayloadTermQuery>(newLucene<Term>(L"z", q.text), newLucene<MaxPayloadFunction>(), c.chance(1, 2));
                what = "payload " + describe(q);
            } else if (c.chance(1, 12)) {
                q = Q(); q.kind = Q_SPANNEAR; q.field = L"z"; q.n = (int)c.draw(4); q.flag = c.chance(1, 2);
                Collection<SpanQueryPtr> cl = Collection<SpanQueryPtr>::newInstance();
                do { Q t; t.kind = Q_SPANTERM; t.field = L"z"; t.text = c.pick(g.words); q.subs.push_back(t); cl.add(boost::dynamic_pointer_cast<SpanQuery>(buildSpan(t))); } while (cl.size() < 3 && c.more(1));
                lq = newLucene<PayloadNearQuery>(cl, (int32_t)q.n, q.flag, newLucene<AveragePayloadFunction>());
                what = "payload near " + narrow(lq->toString());
            });
        c.note(what);
        LUCENE_GUARD(
            WeightPtr w = lq->weight(s);
            int base = 0;
            for (auto& sub : ls) {
                std::set<int> ex;
                for (int d = 0; d < sub->maxDoc(); ++d) if (ix.live[base + d] && matches(ix, q, base + d)) ex.insert(d);
                nt |= checkScorer(c, w, sub, what + " on the segment at " + str(base), &ex);
                base += sub->maxDoc();
            });
    } while (++n < 4 && c.more(2));
    c.nontrivial(nt);
    s->close();
    r->close();
}

// document sets of every kind of filter and set implementation
VF_SUB(sets, 6000, 300000) {
    bool nt = false;
    if (c.chance(1, 2)) {
        int maxDoc = 1 + c.size(300), kind = (int)c.draw(6);
        int den = 1 + (int)c.draw(8);
        std::set<int> s;
        Rng r(c.draw(1u << 20));
        for (int d = 0; d < maxDoc; ++d) if (r.next() % (uint64_t)den == 0) s.insert(d);
        std::string what = "set implementation " + str(kind) + " of " + str(s.size()) + " of " + str(maxDoc) + " documents";
        c.note(what);
        std::vector<int> want(s.begin(), s.end());
        LUCENE_GUARD(
            DocIdSetPtr ds = makeSet(kind, s, maxDoc);
            if (!ds) return;
            REQUIRE(stepAll(ds->iterator(), what, [](int) {}) == want, what << ": stepping does not give the set");
            for (int k = 0; k < 4; ++k) nt |= mix(c, ds->iterator(), want, maxDoc, what, [](size_t) {}););
    } else {
        QIndexCfg ig;
        ig.ints = true;
        QIndex ix = genIndex(c, ig);
        noteIndex(c, ix);
        IndexReaderPtr r = IndexReader::open(ix.dir, true);
        int n = 0;
        do {
            F f = genFilter(c, ix, 2);
            c.note("filter " + f.desc);
            LUCENE_GUARD(
                int base = 0;
                for (auto& sub : leaves(r)) {
                    DocIdSetPtr ds = f.f->getDocIdSet(sub);
                    DocIdSetIteratorPtr it = ds ? ds->iterator() : DocIdSetIteratorPtr();
                    std::string what = "filter " + f.desc + " on the segment at " + str(base);
                    std::vector<int> want;
                    if (it) want = stepAll(it, what, [](int) {});
                    std::set<int> got(want.begin(), want.end());
                    for (int d = 0; d < sub->maxDoc(); ++d) if (!sub->isDeleted(d)) REQUIRE_EQ(got.count(d) != 0, f.ok(ix, base + d), what << ": document " << d);
                    if (it) for (int k = 0; k < 3; ++k) nt |= mix(c, ds->iterator(), want, sub->maxDoc(), what, [](size_t) {});
                    base += sub->maxDoc();
                });
        } while (++n < 4 && c.more(2));
        r->close();
    }
    c.nontrivial(nt);
}

namespace {
struct P { int doc; std::vector<Occ> occ; };
struct Big {
    int nd = 0;
    std::vector<bool> live;
    std::vector<std::wstring> terms;
    std::map<std::wstring, std::vector<P> > post;
    bool tf = true, pay = false;
};
}

// posting lists long enough for several levels of skip entries
VF_SUB(postings, 500, 20000) {
    Big b;
    b.nd = c.chance(1, 4) ? 1000 + (int)c.draw(2500) : 1 + (int)c.draw(c.chance(1, 2) ? 120 : 900);
    b.tf = !c.chance(1, 6);
    b.pay = b.tf && c.chance(1, 2);
    int nt = 1 + (int)c.draw(4);
    std::vector<int> den;
    for (int i = 0; i < nt; ++i) { den.push_back(1 + c.size(40)); b.terms.push_back(L"t" + std::to_wstring(i)); }
    int delDen = c.chance(1, 2) ? 0 : 2 + (int)c.draw(30);
    Rng r(c.draw(1u << 30));
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(dir, blankAnalyzer(), true, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    w->setMaxBufferedDocs(c.chance(1, 3) ? 2 + b.nd / (1 + (int)c.draw(6)) : 1000000);
    w->setMergeFactor(c.chance(1, 2) ? 2 : 1000);
    if (c.chance(1, 2)) w->setTermIndexInterval(1 + (int)c.draw(4));
    c.note(str(b.nd) + " documents, term densities 1/" + str(den[0]) + "..., deletions 1/" + str(delDen) + (b.tf ? "" : ", no frequencies") + (b.pay ? ", payloads" : ""));
    LUCENE_GUARD(
        for (int d = 0; d < b.nd; ++d) {
            DocSpec ds;
            FieldSpec f;
            f.name = L"f";
            f.kind = STREAM;
            f.omitTf = !b.tf;
            f.omitNorms = true;
            int pos = -1;
            std::vector<Tok> toks;
            for (int t = 0; t < nt; ++t) if (r.next() % (uint64_t)den[(size_t)t] == 0) {
                int n = r.next() % 5 ? 1 : 1 + (int)(r.next() % (r.next() % 20 ? 4 : 40));
                P p; p.doc = d;
                for (int k = 0; k < n; ++k) {
                    Tok x;
                    x.t = b.terms[(size_t)t];
                    x.inc = 1 + (int)(r.next() % 300 ? r.next() % 3 : r.next() % 20000);
                    pos += x.inc;
                    Occ o{pos, 0, 0, false, ""};
                    if (b.pay && r.next() % 2) { x.hasPay = o.hasPay = true; x.pay = std::string((size_t)(1 + r.next() % 3), (char)('a' + r.next() % 26)); o.pay = x.pay; }
                    toks.push_back(x);
                    p.occ.push_back(o);
                }
                b.post[b.terms[(size_t)t]].push_back(p);
            }
            f.toks = toks;
            ds.fields.push_back(keyword(L"id", std::to_wstring(d), false));
            ds.fields.push_back(f);
            w->addDocument(build(ds));
        }
        b.live.assign((size_t)b.nd, true);
        if (delDen) for (int d = 0; d < b.nd; ++d) if (r.next() % (uint64_t)delDen == 0) { b.live[(size_t)d] = false; w->deleteDocuments(newLucene<Term>(L"id", std::to_wstring(d))); }
        w->setMergeFactor(1000);
        w->close(););
    std::vector<IndexReaderPtr> rs;
    std::vector<int> offs;       // documents of reader entry i start here; deleted documents vanish only by merging
    LUCENE_GUARD(
        IndexReaderPtr r1 = IndexReader::open(dir, IndexDeletionPolicyPtr(), true, c.draw(2) ? 3 : 1);
        rs.push_back(r1););
    IndexReaderPtr rd = rs[0];
    // merging removes deleted documents (none were deleted before the last flush)
    REQUIRE_EQ((int)rd->maxDoc(), b.nd, "maxDoc");
    int kind = (int)c.draw(4);
    LUCENE_GUARD(
        if (kind == 1) { Collection<IndexReaderPtr> v = newCollection<IndexReaderPtr>(rd); rd = newLucene<MultiReader>(v, true); }
        if (kind == 2) { rd = newLucene<FilterIndexReader>(rd); }
        if (kind == 3) { ParallelReaderPtr p = newLucene<ParallelReader>(true); p->add(rd); rd = p; });
    bool skipped = false;
    LUCENE_GUARD({
        // all documents
        std::vector<int> all;
        for (int d = 0; d < b.nd; ++d) if (b.live[(size_t)d]) all.push_back(d);
        TermDocsPtr td = rd->termDocs();
        TermDocsPtr ad = rd->termDocs(TermPtr());
        {
            size_t i = 0;
            int doc = -1;
            for (int k = 0; k < 60; ++k) {
                bool ok;
                if (c.chance(1, 3)) { int t = genTarget(c, doc, b.nd); while (i < all.size() && all[i] < t) ++i; ok = ad->skipTo(t); }
                else ok = ad->next();
                REQUIRE_EQ(ok, i < all.size(), "all documents: more after document " << doc);
                if (!ok) break;
                REQUIRE_EQ((int)ad->doc(), all[i], "all documents: document after " << doc);
                REQUIRE_EQ((int)ad->freq(), 1, "all documents: frequency");
                doc = all[i++];
            }
            ad->close();
        }
        TermPositionsPtr tp = rd->termPositions();
        int walks = 0;
        do {
            const std::wstring& t = b.terms[(size_t)c.draw(b.terms.size())];
            std::vector<P> want;
            for (auto& p : b.post[t]) if (b.live[(size_t)p.doc]) want.push_back(p);
            bool positions = c.chance(1, 2);
            TermDocsPtr it = positions ? boost::static_pointer_cast<TermDocs>(tp) : td;
            if (positions && c.chance(1, 8)) { tp = rd->termPositions(newLucene<Term>(L"f", t)); it = tp; }
            else it->seek(newLucene<Term>(L"f", t));
            size_t i = 0;
            int doc = -1;
            std::string hist;
            int steps = c.chance(1, 2) ? 1000 : 1 + (int)c.draw(20);
            int skipDen = 2 + (int)c.draw(5);
            auto check = [&](bool ok) {
                REQUIRE_EQ(ok, i < want.size(), "term " << narrow(t) << (positions ? " positions" : "") << " after" << hist << ": has more");
                if (!ok) return false;
                REQUIRE_EQ((int)it->doc(), want[i].doc, "term " << narrow(t) << (positions ? " positions" : "") << " after" << hist << ": document");
                REQUIRE_EQ((int)it->freq(), b.tf ? (int)want[i].occ.size() : 1, "term " << narrow(t) << " after" << hist << ": frequency in document " << want[i].doc);
                doc = want[i].doc;
                if (positions && b.tf) {
                    int n = c.chance(1, 2) ? (int)want[i].occ.size() : (int)c.draw(want[i].occ.size() + 1);
                    for (int k = 0; k < n; ++k) {
                        REQUIRE_EQ((int)tp->nextPosition(), want[i].occ[(size_t)k].pos, "term " << narrow(t) << " after" << hist << ": position " << k << " of " << n << " in document " << doc);
                        bool hp = tp->isPayloadAvailable();
                        REQUIRE_EQ(hp, want[i].occ[(size_t)k].hasPay, "term " << narrow(t) << " after" << hist << ": payload available at position " << k << " in document " << doc);
                        if (hp && c.chance(2, 3)) {
                            int len = tp->getPayloadLength();
                            ByteArray a = tp->getPayload(ByteArray(), 0);
                            REQUIRE(fromBytes(a, 0, len) == want[i].occ[(size_t)k].pay, "term " << narrow(t) << " after" << hist << ": payload at position " << k << " in document " << doc);
                        }
                    }
                }
                ++i;
                return true;
            };
            for (int st = 0; st < steps; ++st) {
                if (!positions && c.chance(1, 10)) {
                    int n = 1 + (int)c.draw(c.chance(1, 2) ? 4 : 200);
                    hist = " read(" + str(n) + ") at " + str(doc);
                    Collection<int32_t> ds = Collection<int32_t>::newInstance(n), fs = Collection<int32_t>::newInstance(n);
                    int got = it->read(ds, fs);
                    REQUIRE(got <= n && (got > 0 || i >= want.size()), "term " << narrow(t) << hist << " gave " << got << " entries");
                    for (int k = 0; k < got; ++k) {
                        REQUIRE(i < want.size(), "term " << narrow(t) << hist << " gave too many entries");
                        REQUIRE_EQ((int)ds[k], want[i].doc, "term " << narrow(t) << hist << ": entry " << k);
                        REQUIRE_EQ((int)fs[k], b.tf ? (int)want[i].occ.size() : 1, "term " << narrow(t) << hist << ": frequency in document " << ds[k]);
                        doc = want[i++].doc;
                    }
                    if (!got) break;
                } else if (c.chance(1, skipDen)) {
                    int tg = genTarget(c, doc, b.nd);
                    if (c.chance(1, 3) && i < want.size()) tg = std::max(tg, want[std::min(want.size() - 1, i + (size_t)c.draw(300))].doc + (int)c.draw(2));
                    hist = " skipTo(" + str(tg) + ") at " + str(doc);
                    size_t j = i;
                    while (j < want.size() && want[j].doc < tg) ++j;
                    skipped |= j > i + 16 && j < want.size();
                    i = j;
                    if (!check(it->skipTo(tg))) break;
                } else {
                    hist = " next() at " + str(doc);
                    if (!check(it->next())) break;
                }
            }
        } while (++walks < 12 && c.more(6));
        td->close();
        tp->close();
    });
    c.nontrivial(skipped);
    rd->close();
}

// which payloads a span has is determined: no two alternatives of an "or" can give the same span, and no
// unordered near whose parts can coincide
static bool payloadDefined(const Q& q) {
    switch (q.kind) {
        case Q_SPANTERM: return true;
        case Q_SPANFIRST: return payloadDefined(q.subs[0]);
        case Q_SPANNOT: return payloadDefined(q.subs[0]);
        case Q_SPANNEAR: {
            std::set<std::wstring> t;
            for (auto& x : q.subs) {
                if (!payloadDefined(x)) return false;
                if (!q.flag && (x.kind != Q_SPANTERM || !t.insert(x.text).second)) return false;
            }
            return true;
        }
        default: return false;
    }
}
// span enumerations
VF_SUB(spans, 6000, 300000) {
    QIndexCfg ig;
    ig.payloads = true;
    ig.maxDocs = 20;
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexReaderPtr r = IndexReader::open(ix.dir, true);
    QCfg g;
    bool nt = false;
    int n = 0;
    std::vector<std::pair<IndexReaderPtr, int> > rs;
    int base = 0;
    for (auto& l : leaves(r)) { rs.push_back({l, base}); base += l->maxDoc(); }
    rs.push_back({r, 0});
    do {
        Q q = genSpan(c, g, 3, c.pick(g.fields));
        c.note("spans " + describe(q));
        SpanQueryPtr sq = buildSpan(q);
        bool pd = payloadDefined(q);
        auto& rb = rs[(size_t)c.draw(rs.size())];
        std::string what = "spans " + describe(q) + " on " + (rb.first == r ? std::string("the whole index") : "the segment at " + str(rb.second));
        struct E { int d, s, e; std::multiset<std::string> pay; };
        LUCENE_GUARD({
            auto payOf = [](const SpansPtr& sp) {
                std::multiset<std::string> p;
                if (sp->isPayloadAvailable()) { Collection<ByteArray> x = sp->getPayload(); if (x) for (int i = 0; i < x.size(); ++i) p.insert(fromBytes(x[i], 0, x[i].size())); }
                return p;
            };
            std::vector<E> all;
            SpansPtr sp = sq->getSpans(rb.first);
            while (sp->next()) {
                E e{sp->doc(), sp->start(), sp->end(), payOf(sp)};
                if (!all.empty()) REQUIRE(e.d >= all.back().d, what << ": stepping goes from document " << all.back().d << " to " << e.d);
                REQUIRE(ix.live[(size_t)(e.d + rb.second)], what << ": stepping returns the deleted document " << e.d);
                all.push_back(e);
            }
            for (int k = 0; k < 3; ++k) {
                SpansPtr m = sq->getSpans(rb.first);
                size_t i = 0;
                int doc = -1;
                std::string hist;
                const int payEvery = 1;   // a payload can be loaded once only, also when spans share it
                for (;;) {
                    bool ok;
                    if (c.chance(1, 3)) {
                        int t = genTarget(c, doc, rb.first->maxDoc());
                        hist += " skipTo(" + str(t) + ")";
                        size_t j = i;
                        while (j < all.size() && all[j].d < t) ++j;
                        nt |= j > i && j < all.size();
                        i = j;
                        ok = m->skipTo(t);
                    } else {
                        hist += " next()";
                        ok = m->next();
                    }
                    REQUIRE_EQ(ok, i < all.size(), what << " after" << hist << ": has more");
                    if (!ok) break;
                    REQUIRE(m->doc() == all[i].d && m->start() == all[i].s && m->end() == all[i].e, what << " after" << hist << ": at " << m->doc() << ":" << m->start() << "-" << m->end() << ", stepping is at " << all[i].d << ":" << all[i].s << "-" << all[i].e);
                    if (pd && (int)(i % (size_t)payEvery) == 0) REQUIRE(payOf(m) == all[i].pay, what << " after" << hist << ": payloads at " << all[i].d << ":" << all[i].s << "-" << all[i].e << " differ from stepping");
                    doc = all[i].d;
                    ++i;
                }
            }
        });
    } while (++n < 5 && c.more(3));
    c.nontrivial(nt);
    r->close();
}
