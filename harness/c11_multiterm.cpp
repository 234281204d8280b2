// C11: prefix, wildcard, fuzzy and range queries match exactly their terms.
#include "LuceneInc.h"
#include "qmodel.h"
#include "StringUtils.h"
#include "MiscUtils.h"
#include "VariantUtils.h"
#include "BooleanClause.h"
#include "TermQuery.h"
#include "MultiTermQuery.h"
#include "PrefixFilter.h"
#include "TermRangeFilter.h"
#include "PrefixTermEnum.h"
#include "WildcardTermEnum.h"
#include "FuzzyTermEnum.h"
#include "TermRangeTermEnum.h"
#include "DocIdSet.h"
#include "DocIdSetIterator.h"
#include <cmath>

using namespace vf;

struct MaxClauses {
    int old;
    explicit MaxClauses(int n) : old(BooleanQuery::getMaxClauseCount()) { BooleanQuery::setMaxClauseCount(n); }
    ~MaxClauses() { BooleanQuery::setMaxClauseCount(old); }
};
static std::string setOf(const std::set<std::wstring>& s) { std::string r; for (auto& x : s) r += narrow(x) + " "; return r; }
static std::string docsOf(const std::set<int>& s) { std::string r; for (int d : s) r += str(d) + " "; return r; }
static std::set<int> want(const QIndex& ix, const Q& q) {
    std::set<int> r;
    for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[d] && matches(ix, q, d)) r.insert(d);
    return r;
}
static std::set<std::wstring> wantTerms(const QIndex& ix, const Q& q) {
    std::set<std::wstring> r;
    for (auto& t : ix.termsOf(q.field)) if (termMatches(q, t)) r.insert(t);
    return r;
}
// a dictionary of related words: prefixes, edits and case variants of each other, some outside ASCII
static std::vector<std::wstring> genDict(Case& c) {
    std::vector<std::wstring> w;
    static const std::wstring A = L"abcA\u00e9\u4e00\U00010400";
    int n = 3 + c.size(25);
    while ((int)w.size() < n) {
        std::wstring s;
        if (w.empty() || c.chance(1, 4)) s = c.word(A, 1, 7);
        else {
            s = c.pick(w);
            int e = 1 + (int)c.draw(2);
            while (e--) switch (c.draw(4)) {
                case 0: s.insert(s.begin() + (long)c.draw(s.size() + 1), c.pick(A)); break;
                case 1: if (s.size() > 1) s.erase(s.begin() + (long)c.draw(s.size())); break;
                case 2: s[(size_t)c.draw(s.size())] = c.pick(A); break;
                default: s += c.pick(A); break;
            }
        }
        w.push_back(s);
    }
    return w;
}
static QIndex genDictIndex(Case& c, const std::vector<std::wstring>& w) {
    QIndexCfg ig;
    ig.words = w;
    ig.boosts = false;
    ig.maxDocs = 20;
    return genIndex(c, ig);
}
static void noteIndex(Case& c, const QIndex& ix) {
    for (int i = 0; i < ix.maxDoc(); ++i) c.note("doc " + str(i) + (ix.live[i] ? "" : " (deleted)") + ": " + describe(ix.docs[i]));
}
static Q genMulti(Case& c, const QCfg& g) {
    Q q = genQ(c, g, 0);
    if (q.kind == Q_WILD && c.chance(1, 2)) {
        // a word of the dictionary with parts replaced
        std::wstring w = c.pick(g.words), r;
        for (size_t i = 0; i < w.size(); ++i) switch (c.weighted({4, 2, 1, 1})) {
            case 0: r += w[i]; break;
            case 1: r += L'?'; break;
            case 2: r += L'*'; break;
            default: r += L"*"; r += w[i]; break;
        }
        q.text = r;
    }
    return q;
}

VF_SUB(terms, 12000, 400000) {
    auto w = genDict(c);
    QIndex ix = genDictIndex(c, w);
    noteIndex(c, ix);
    QCfg g;
    g.words = w;
    g.fields = {L"x", L"y", L"z", L"k"};
    g.only = {Q_PREFIX, Q_WILD, Q_FUZZY, Q_RANGE};
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    int n = 0;
    do {
        Q q = genMulti(c, g);
        c.note("query " + describe(q));
        auto wt = wantTerms(ix, q);
        auto wd = want(ix, q);
        bool shortFuzzy = q.kind == Q_FUZZY && (int)q.text.size() <= (int)(1.0 / (1.0 - q.d));
        LUCENE_GUARD(
            QueryPtr lq = build(q);
            for (int ooo = 0; ooo < 2; ++ooo) {
                std::set<int> got;
                for (auto& h : collect(s, lq, FilterPtr(), ooo)) REQUIRE(got.insert(h.doc).second, "document " << h.doc << " collected twice");
                REQUIRE(got == wd, "matched documents [" << docsOf(got) << "] but the terms are in [" << docsOf(wd) << "]");
            }
            // the terms the query stands for
            QueryPtr sq = boost::dynamic_pointer_cast<Query>(lq->clone());
            if (q.kind != Q_FUZZY) boost::dynamic_pointer_cast<MultiTermQuery>(sq)->setRewriteMethod(MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE());
            QueryPtr rw = s->rewrite(sq);
            SetTerm st = SetTerm::newInstance();
            rw->extractTerms(st);
            std::set<std::wstring> gt;
            for (SetTerm::iterator i = st.begin(); i != st.end(); ++i) { REQUIRE((*i)->field() == q.field, "term of another field"); gt.insert((*i)->text()); }
            if (!shortFuzzy) REQUIRE(gt == wt, "rewritten to the terms [" << setOf(gt) << "] but it describes [" << setOf(wt) << "]");
            if (q.kind == Q_FUZZY && !shortFuzzy) {
                BooleanQueryPtr b = boost::dynamic_pointer_cast<BooleanQuery>(rw);
                if (b) for (int i = 0; i < b->getClauses().size(); ++i) {
                    TermQueryPtr t = boost::dynamic_pointer_cast<TermQuery>(b->getClauses()[i]->getQuery());
                    double bo;
                    termMatches(q, t->getTerm()->text(), &bo);
                    REQUIRE(std::fabs(t->getBoost() - bo * q.boost) < 1e-9, "boost of the similar term " << narrow(t->getTerm()->text()) << " is " << t->getBoost() << ", expected " << bo * q.boost);
                }
            }
            // too many terms for a boolean rewriting is an error, never a silent truncation
            if (wt.size() >= 2 && c.chance(1, 4)) {
                int mx = 1 + (int)c.draw(wt.size());
                MaxClauses guard(mx);
                if (q.kind == Q_FUZZY) {
                    if (!shortFuzzy) {
                        // keeps the most similar ones
                        BooleanQueryPtr b = boost::dynamic_pointer_cast<BooleanQuery>(sq->rewrite(s->getIndexReader()));
                        REQUIRE(b, "fuzzy query rewritten to something else than a boolean query");
                        std::vector<double> bs;
                        for (auto& t : wt) { double bo; termMatches(q, t, &bo); bs.push_back(bo * q.boost); }
                        std::sort(bs.rbegin(), bs.rend());
                        std::vector<double> gb;
                        for (int i = 0; i < b->getClauses().size(); ++i) gb.push_back(b->getClauses()[i]->getQuery()->getBoost());
                        std::sort(gb.rbegin(), gb.rend());
                        REQUIRE_EQ((int)gb.size(), std::min(mx, (int)wt.size()), "number of terms kept");
                        for (size_t i = 0; i < gb.size(); ++i) REQUIRE(std::fabs(gb[i] - bs[i]) < 1e-9, "the terms kept are not the most similar ones");
                    }
                } else {
                    bool threw = false;
                    try {
                        s->rewrite(sq);
                    } catch (TooManyClausesException&) { threw = true; }
                    REQUIRE_EQ(threw, mx < (int)wt.size(), "too-many-clauses error with a limit of " << mx << " and " << wt.size() << " terms");
                    std::set<int> got;
                    MultiTermQueryPtr aq = boost::dynamic_pointer_cast<MultiTermQuery>(lq->clone());
                    aq->setRewriteMethod(c.chance(1, 2) ? MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT() : MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE());
                    for (auto& h : collect(s, aq)) got.insert(h.doc);
                    REQUIRE(got == wd, "automatic rewriting with few clauses allowed: matched [" << docsOf(got) << "] but the terms are in [" << docsOf(wd) << "]");
                }
            }
            if (wt.size() >= 1 && wt.size() < ix.termsOf(q.field).size()) c.nontrivial(););
    } while (++n < 6 && c.more(4));
    s->close();
}

// the term enumerators: exactly the matching terms, in order, with their document frequencies
VF_SUB(enumerators, 6000, 200000) {
    auto w = genDict(c);
    QIndex ix = genDictIndex(c, w);
    noteIndex(c, ix);
    QCfg g;
    g.words = w;
    g.fields = {L"x", L"y", L"z", L"k"};
    g.only = {Q_PREFIX, Q_WILD, Q_FUZZY, Q_RANGE};
    IndexReaderPtr r = IndexReader::open(ix.dir, true);
    int n = 0;
    do {
        Q q = genMulti(c, g);
        if (q.kind == Q_FUZZY && q.n > (int)q.text.size()) q.n = (int)q.text.size();
        c.note("enumerate " + describe(q));
        std::vector<std::wstring> wt;
        for (auto& t : ix.termsOf(q.field)) if (termMatches(q, t)) wt.push_back(t);
        LUCENE_GUARD(
            TermPtr t = newLucene<Term>(q.field, q.text);
            TermEnumPtr e;
            if (q.kind == Q_PREFIX) e = newLucene<PrefixTermEnum>(r, t);
            else if (q.kind == Q_WILD) e = newLucene<WildcardTermEnum>(r, t);
            else if (q.kind == Q_FUZZY) e = newLucene<FuzzyTermEnum>(r, t, q.d, q.n);
            else e = newLucene<TermRangeTermEnum>(r, q.field, q.openLo ? StringValue(VariantUtils::null()) : StringValue(q.text), q.openHi ? StringValue(VariantUtils::null()) : StringValue(q.text2), q.incLo, q.incHi, CollatorPtr());
            size_t i = 0;
            if (e->term()) do {
                REQUIRE(i < wt.size(), "enumerates " << narrow(e->term()->text()) << " after the last matching term");
                REQUIRE_EQ(e->term()->text(), wt[i], "term " << i);
                REQUIRE(e->term()->field() == q.field, "term of another field");
                REQUIRE_EQ((int)e->docFreq(), ix.df(q.field, wt[i]), "document frequency of " << narrow(wt[i]));
                ++i;
            } while (e->next() && e->term());
            REQUIRE_EQ(i, wt.size(), "number of terms enumerated");
            e->close();
            c.nontrivial(!wt.empty()););
    } while (++n < 6 && c.more(4));
    r->close();
}

// the filters over the same terms
VF_SUB(filters, 4000, 100000) {
    auto w = genDict(c);
    QIndex ix = genDictIndex(c, w);
    noteIndex(c, ix);
    QCfg g;
    g.words = w;
    g.fields = {L"x", L"y", L"z", L"k"};
    g.only = {Q_PREFIX, Q_RANGE};
    IndexReaderPtr r = IndexReader::open(ix.dir, true);
    Q q = genQ(c, g, 0);
    c.note("filter " + describe(q));
    LUCENE_GUARD(
        FilterPtr f;
        if (q.kind == Q_PREFIX) f = newLucene<PrefixFilter>(newLucene<Term>(q.field, q.text));
        else if (!q.openLo && !q.openHi) f = newLucene<TermRangeFilter>(q.field, q.text, q.text2, q.incLo, q.incHi);
        else if (q.openLo && !q.openHi) f = TermRangeFilter::Less(q.field, q.text2), q.incHi = true;
        else if (q.openHi && !q.openLo) f = TermRangeFilter::More(q.field, q.text), q.incLo = true;
        else return;
        std::set<int> got;
        DocIdSetPtr ds = f->getDocIdSet(r);
        DocIdSetIteratorPtr it = ds ? ds->iterator() : DocIdSetIteratorPtr();
        int d;
        int last = -1;
        if (it) while ((d = it->nextDoc()) != INT_MAX) { REQUIRE(d > last, "filter goes back"); last = d; got.insert(d); }
        auto wd = want(ix, q);
        REQUIRE(got == wd, "filter accepts [" << docsOf(got) << "] but the terms are in [" << docsOf(wd) << "]");
        c.nontrivial(!wd.empty() && (int)wd.size() < ix.numLive()););
    r->close();
}
