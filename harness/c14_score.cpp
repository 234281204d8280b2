// C14: scores follow the documented formula and explanations account for them.
#include "LuceneInc.h"
#include "qmodel.h"
#include "Explanation.h"
#include "PayloadTermQuery.h"
#include "PayloadNearQuery.h"
#include "AveragePayloadFunction.h"
#include "MaxPayloadFunction.h"
#include "MinPayloadFunction.h"
#include "DefaultSimilarity.h"
#include "FieldScoreQuery.h"
#include "CustomScoreQuery.h"
#include "CustomScoreProvider.h"
#include "ValueSourceQuery.h"
#include "Similarity.h"
#include <cmath>

using namespace vf;

static bool close(double a, double b, double rel = 1e-9) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= rel * (1e-9 + std::max(std::fabs(a), std::fabs(b)));
}
static bool ends(const String& s, const wchar_t* e) {
    std::wstring x(e);
    return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0;
}
// every node that names a way of combining its details really has that value
static void verifyExplanation(const ExplanationPtr& e) {
    Collection<ExplanationPtr> d = e->getDetails();
    if (!d || d.empty()) return;
    String t = e->getDescription();
    double sum = 0, prod = 1, mx = 0;
    for (int i = 0; i < d.size(); ++i) {
        double v = d[i]->getValue();
        sum += v;
        prod *= v;
        mx = i ? std::max(mx, v) : v;
        verifyExplanation(d[i]);
    }
    double x = 0;
    size_t mp = t.rfind(L"max plus ");
    if (ends(t, L"product of:")) REQUIRE(close(e->getValue(), prod, 1e-6), "explanation '" << narrow(t) << "' says " << e->getValue() << " but its details multiply to " << prod << "\n" << narrow(e->toString()));
    else if (ends(t, L"sum of:")) REQUIRE(close(e->getValue(), sum, 1e-6), "explanation '" << narrow(t) << "' says " << e->getValue() << " but its details sum to " << sum << "\n" << narrow(e->toString()));
    else if (ends(t, L"max of:")) REQUIRE(close(e->getValue(), mx, 1e-6), "explanation '" << narrow(t) << "' says " << e->getValue() << " but the largest detail is " << mx << "\n" << narrow(e->toString()));
    else if (ends(t, L"times others of:") && mp != String::npos && swscanf(t.c_str() + mp, L"max plus %lf", &x) == 1)
        REQUIRE(close(e->getValue(), mx + (sum - mx) * x, 1e-6), "explanation '" << narrow(t) << "' says " << e->getValue() << " but its details give " << mx + (sum - mx) * x << "\n" << narrow(e->toString()));
}
// an explanation with value 0 counts as "no match" unless it says otherwise: zero boosts cannot be explained reliably
static bool zeroBoost(const Q& q) {
    for (auto& s : q.subs) if (zeroBoost(s)) return true;
    return q.boost == 0;
}
static void noteIndex(Case& c, const QIndex& ix) {
    for (int i = 0; i < ix.maxDoc(); ++i) c.note("doc " + str(i) + (ix.live[i] ? "" : " (deleted)") + ": " + describe(ix.docs[i]));
}
static void explainAll(Case& c, const QIndex& ix, const IndexSearcherPtr& s, const QueryPtr& lq, const std::vector<Hit>& h, bool structure = true) {
    std::map<int, double> sc;
    for (auto& x : h) sc[x.doc] = x.score;
    for (int d = 0; d < ix.maxDoc(); ++d) {
        if (!ix.live[d]) continue;
        if (ix.maxDoc() > 10 && !c.chance(1, 3)) continue;
        ExplanationPtr e = s->explain(lq, d);
        REQUIRE(e, "no explanation for document " << d);
        auto i = sc.find(d);
        if (i == sc.end()) REQUIRE(!e->isMatch(), "document " << d << " does not match but its explanation says it does:\n" << narrow(e->toString()));
        else {
            if (i->second > 0) REQUIRE(e->isMatch(), "document " << d << " matches but its explanation says it does not:\n" << narrow(e->toString()));
            REQUIRE(close(e->getValue(), i->second, 1e-6), "document " << d << " has score " << i->second << " but its explanation gives " << e->getValue() << "\n" << narrow(e->toString()));
            if (structure) verifyExplanation(e);
        }
    }
}
static void compare(const char* what, const std::vector<Hit>& h, const std::map<int, double>& want) {
    REQUIRE_EQ(h.size(), want.size(), what << ": number of matching documents");
    for (auto& x : h) {
        auto i = want.find(x.doc);
        REQUIRE(i != want.end(), what << ": document " << x.doc << " should not match");
        REQUIRE(close(x.score, i->second), what << ": document " << x.doc << " has score " << x.score << ", the formula gives " << i->second);
    }
}

static void run(Case& c, const QCfg& g, const QIndexCfg& ig, int depth) {
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    int n = 0;
    do {
        Q q = genQ(c, g, depth);
        if (stackedSloppy(ix, q)) { ++c.excluded; continue; }
        if (!scorable(ix, q)) continue;
        c.note("query " + describe(q));
        LUCENE_GUARD(
            weigh(ix, q);
            std::map<int, double> want;
            for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[d] && matches(ix, q, d)) want[d] = scoreOf(ix, q, d);
            QueryPtr lq = build(q);
            auto h = collect(s, lq);
            compare("in order", h, want);
            compare("out of order", collect(s, lq, FilterPtr(), true), want);
            TopDocsPtr t = s->search(lq, FilterPtr(), std::max(1, ix.maxDoc()));
            compare("top documents", hits(t), want);
            if (c.chance(1, 2) && !zeroBoost(q)) explainAll(c, ix, s, lq, h);
            if (want.size() >= 2) c.nontrivial(););
    } while (++n < 5 && c.more(3));
    s->close();
}

VF_SUB(anyScore, 7000, 300000) {
    QCfg g;
    g.sloppyRepeats = false;
    run(c, g, QIndexCfg(), 3);
}
VF_SUB(positionScore, 4000, 150000) {
    QCfg g;
    g.words = {L"a", L"b", L"c", L"d"};
    g.only = {Q_PHRASE, Q_MPHRASE, Q_SPANTERM};
    g.sloppyRepeats = false;
    QIndexCfg ig;
    ig.words = g.words;
    ig.maxWords = 12;
    ig.maxDocs = 10;
    run(c, g, ig, 1);
}

// a similarity whose every factor is generated
namespace {
class GenSimilarity : public DefaultSimilarity {
public:
    double tfp = 0.5, co = 1.0, qn = 1.0, sl = 1.0;
    bool idfOne = false;
    virtual ~GenSimilarity() {}
    LUCENE_CLASS(GenSimilarity);
    virtual double tf(double freq) { return std::pow(freq, tfp); }
    virtual double sloppyFreq(int32_t d) { return 1.0 / (sl * d + 1.0); }
    virtual double idf(int32_t docFreq, int32_t numDocs) { return idfOne ? 1.0 : 1.0 + (double)numDocs / (docFreq + 1.0); }
    virtual double coord(int32_t overlap, int32_t maxOverlap) { return std::pow((double)overlap / (double)maxOverlap, co); }
    virtual double queryNorm(double s) { return qn; }
    virtual double scorePayload(int32_t docId, const String& fieldName, int32_t start, int32_t end, ByteArray payload, int32_t offset, int32_t length) {
        return length == 1 ? (double)payload[offset] : 100.0;
    }
};
}
// explanations and scores agree for any similarity
VF_SUB(customSimilarity, 2500, 100000) {
    QIndexCfg ig;
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    boost::shared_ptr<GenSimilarity> sim = newLucene<GenSimilarity>();
    static const double V[] = {0.5, 1.0, 0.25, 2.0};
    sim->tfp = V[c.draw(4)];
    sim->co = V[c.draw(4)];
    sim->qn = c.chance(1, 2) ? 3.0 : 1.0;
    sim->sl = V[c.draw(4)];
    sim->idfOne = c.chance(1, 2);
    s->setSimilarity(sim);
    QCfg g;
    g.sloppyRepeats = false;
    QIndex* p = &ix;
    int n = 0;
    do {
        Q q = genQ(c, g, 2);
        if (stackedSloppy(ix, q)) { ++c.excluded; continue; }
        if (!scorable(ix, q)) continue;
        c.note("query " + describe(q));
        LUCENE_GUARD(
            QueryPtr lq = build(q);
            auto h = collect(s, lq);
            if (!zeroBoost(q)) explainAll(c, *p, s, lq, h);
            if (q.kind == Q_TERM) {
                std::map<int, double> want;
                for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[d]) if (auto* o = ix.occ(d, q.field, q.text)) {
                    double idf = sim->idf(ix.df(q.field, q.text), ix.maxDoc());
                    want[d] = sim->tf((double)o->size()) * idf * idf * q.boost * sim->qn * ix.norm(d, q.field);
                }
                compare("term query with a custom similarity", h, want);
            }
            c.nontrivial(h.size() >= 2););
    } while (++n < 4 && c.more(2));
    s->close();
}

// payload scores
VF_SUB(payloads, 2500, 100000) {
    QIndexCfg ig;
    ig.payloads = true;
    ig.words = {L"a", L"b", L"c"};
    ig.maxDocs = 12;
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    boost::shared_ptr<GenSimilarity> sim = newLucene<GenSimilarity>();
    sim->tfp = c.chance(1, 2) ? 1.0 : 0.5;
    sim->idfOne = c.chance(1, 2);
    s->setSimilarity(sim);
    int fn = (int)c.draw(3);
    PayloadFunctionPtr f = fn == 0 ? PayloadFunctionPtr(newLucene<AveragePayloadFunction>()) : fn == 1 ? PayloadFunctionPtr(newLucene<MaxPayloadFunction>()) : PayloadFunctionPtr(newLucene<MinPayloadFunction>());
    std::wstring t = c.pick(ig.words);
    bool span = !c.chance(1, 3);
    double boost = c.chance(1, 3) ? 2.5 : 1.0;
    c.note(L"payload term query z:" + t + L" function " + std::to_wstring(fn) + (span ? L" with" : L" without") + L" span score");
    LUCENE_GUARD(
        QueryPtr lq = newLucene<PayloadTermQuery>(newLucene<Term>(L"z", t), f, span);
        lq->setBoost(boost);
        auto h = collect(s, lq);
        std::map<int, double> want;
        int with = 0;
        double idf = sim->idf(ix.df(L"z", t), ix.maxDoc());
        for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[d]) if (auto* o = ix.occ(d, L"z", t)) {
            double fr = 0;
            double pay = 0;
            int seen = 0;
            for (auto& x : *o) {
                fr += sim->sloppyFreq(1);
                if (!x.hasPay || x.pay.empty()) continue;
                double v = (unsigned char)x.pay[0];
                pay = fn == 0 ? pay + v : !seen ? v : fn == 1 ? std::max(pay, v) : std::min(pay, v);
                ++seen;
            }
            double ps = !seen ? 1.0 : fn == 0 ? pay / seen : pay;
            with += seen > 1;
            want[d] = span ? ps * sim->tf(fr) * idf * idf * boost * sim->qn * ix.norm(d, L"z") : ps;
        }
        compare("payload term query", h, want);
        if (span) explainAll(c, ix, s, lq, h);
        c.nontrivial(with > 0 && want.size() >= 2););
    s->close();
}

// value source queries
VF_SUB(functionQueries, 2500, 100000) {
    QIndexCfg ig;
    QIndex ix;
    std::vector<DocSpec> docs;
    std::vector<double> dv;
    std::vector<int> iv, bv;
    int n = 1 + c.size(20);
    for (int i = 0; i < n; ++i) {
        DocSpec d = genQDoc(c, ig, i);
        iv.push_back(c.range(-500, 5000));
        bv.push_back(c.range(0, 100));
        dv.push_back((double)c.range(-4000, 4000) / 8.0);
        d.fields.push_back(keyword(L"fi", std::to_wstring(iv.back()), false));
        d.fields.push_back(keyword(L"fb", std::to_wstring(bv.back()), false));
        std::wostringstream o;
        o << dv.back();
        d.fields.push_back(keyword(L"fd", o.str(), false));
        docs.push_back(d);
    }
    setDocs(ix, docs);
    for (int i = 0; i < n; ++i) if (c.chance(1, 8)) ix.live[i] = false;
    buildInto(c, ix);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    auto vs = [&](int k, int d) { return k == 0 ? (double)bv[d] : k == 1 ? (double)iv[d] : dv[d]; };
    auto mk = [&](int k) {
        return newLucene<FieldScoreQuery>(k == 0 ? L"fb" : k == 1 ? L"fi" : L"fd", k == 0 ? FieldScoreQuery::BYTE : k == 1 ? FieldScoreQuery::INT : FieldScoreQuery::DOUBLE);
    };
    LUCENE_GUARD(
        int k = (int)c.draw(3);
        double boost = c.chance(1, 2) ? 1.0 : 0.25;
        auto fq = mk(k);
        fq->setBoost(boost);
        std::map<int, double> want;
        // query norm is 1/boost
        for (int d = 0; d < n; ++d) if (ix.live[d]) want[d] = vs(k, d);
        auto h = collect(s, fq);
        compare("field score query", h, want);
        QCfg g;
        g.sloppyRepeats = false;
        g.zeroBoosts = false;
        Q q = genQ(c, g, 2);
        if (scorable(ix, q) && !stackedSloppy(ix, q)) {
            std::vector<int> src;
            Collection<ValueSourceQueryPtr> qs = Collection<ValueSourceQueryPtr>::newInstance();
            int m = c.range(0, 2);
            for (int i = 0; i < m; ++i) { src.push_back((int)c.draw(3)); qs.add(mk(src.back())); }
            CustomScoreQueryPtr cq = newLucene<CustomScoreQuery>(build(q), qs);
            cq->setStrict(true);
            cq->setBoost(boost);
            c.note("custom score of " + describe(q) + " with " + str(m) + " sources");
            // strict: the sources are not normalised; the query's boost enters the norm once and the weight once
            weigh(ix, q);
            std::map<int, double> w2;
            for (int d = 0; d < n; ++d) if (ix.live[d] && matches(ix, q, d)) {
                double v = scoreOf(ix, q, d);
                for (int x : src) v *= vs(x, d);
                w2[d] = v * boost;
            }
            auto h2 = collect(s, cq);
            // the sub-query alone has norm 1/sqrt(s); with the boost b: b * 1/sqrt(b*b*s), the same
            compare("custom score query", h2, w2);
            explainAll(c, ix, s, cq, h2, false);
            c.nontrivial(w2.size() >= 2 && m > 0);
        });
    s->close();
}
