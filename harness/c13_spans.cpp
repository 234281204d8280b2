// C13: positional (span) queries match exactly the described positions.
#include "LuceneInc.h"
#include "qmodel.h"
#include "Spans.h"
#include "MultiReader.h"
#include "SpanNearQuery.h"

using namespace vf;
typedef std::pair<int, int> SP;

static std::string docsOf(const std::set<int>& s) { std::string r; for (int d : s) r += str(d) + " "; return r; }
static std::string showSpans(const std::vector<SP>& v) { std::string r; for (auto& x : v) r += str(x.first) + "-" + str(x.second) + " "; return r; }
static void noteIndex(Case& c, const QIndex& ix) {
    for (int i = 0; i < ix.maxDoc(); ++i) c.note("doc " + str(i) + (ix.live[i] ? "" : " (deleted)") + ": " + describe(ix.docs[i]));
}

// every span the definition allows (any choice of sub-spans): what may be enumerated
static std::set<SP> allowed(const QIndex& ix, const Q& q, int doc) {
    std::set<SP> r;
    switch (q.kind) {
        case Q_SPANTERM: { auto v = spansOf(ix, q, doc); return std::set<SP>(v.begin(), v.end()); }
        case Q_SPANFIRST: for (auto& s : allowed(ix, q.subs[0], doc)) if (s.second <= q.n) r.insert(s); return r;
        case Q_SPANOR: for (auto& s : q.subs) { auto v = allowed(ix, s, doc); r.insert(v.begin(), v.end()); } return r;
        case Q_SPANMASK: return allowed(ix, q.subs[0], doc);
        case Q_SPANNOT: {
            auto ex = spansOf(ix, q.subs[1], doc);
            for (auto& s : allowed(ix, q.subs[0], doc)) {
                bool hit = false;
                for (auto& e : ex) hit |= e.second > s.first && e.first < s.second;
                if (!hit) r.insert(s);
            }
            return r;
        }
        default: {
            std::vector<std::vector<SP> > l;
            for (auto& s : q.subs) { auto v = allowed(ix, s, doc); l.push_back(std::vector<SP>(v.begin(), v.end())); }
            std::vector<SP> ch;
            long budget = 200000;
            std::function<void(size_t)> rec = [&](size_t i) {
                if (--budget < 0) return;
                if (i == l.size()) {
                    int lo = INT_MAX, hi = 0, len = 0, gaps = 0;
                    for (size_t k = 0; k < ch.size(); ++k) {
                        lo = std::min(lo, ch[k].first);
                        hi = std::max(hi, ch[k].second);
                        len += ch[k].second - ch[k].first;
                        if (k) gaps += std::max(0, ch[k].first - ch[k - 1].second);
                    }
                    if (q.flag ? gaps <= q.n : hi - lo - len <= q.n) r.insert(q.flag ? SP(ch[0].first, ch.back().second) : SP(lo, hi));
                    return;
                }
                for (auto& s : l[i]) {
                    if (q.flag && i && !(ch[i - 1].first < s.first || (ch[i - 1].first == s.first && ch[i - 1].second < s.second))) continue;
                    ch.push_back(s);
                    rec(i + 1);
                    ch.pop_back();
                }
            };
            rec(0);
            if (budget < 0) throw Discard{"too many combinations"};
            return r;
        }
    }
}

static std::map<int, std::vector<SP> > enumerate(const SpansPtr& sp, const std::string& what) {
    std::map<int, std::vector<SP> > r;
    int last = -1;
    while (sp->next()) {
        REQUIRE(sp->doc() >= last, what << ": goes from document " << last << " to " << sp->doc());
        last = sp->doc();
        r[last].push_back(SP(sp->start(), sp->end()));
    }
    return r;
}

static bool check(Case& c, const QIndex& ix, const IndexReaderPtr& r, const IndexSearcherPtr& s, const Q& q) {
    std::string what = "spans " + describe(q);
    SpanQueryPtr sq = buildSpan(q);
    bool nt = false;
    auto got = enumerate(sq->getSpans(r), what);
    std::set<int> docs;
    for (auto& g : got) {
        REQUIRE(g.first < ix.maxDoc() && ix.live[(size_t)g.first], what << ": document " << g.first << " is deleted");
        docs.insert(g.first);
    }
    for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[(size_t)d]) {
        auto& g = got[d];
        {
            auto w = spansOf(ix, q, d);
            REQUIRE(g == w, what << ": document " << d << " has spans [" << showSpans(g) << "], the definition gives [" << showSpans(w) << "]");
            if (w.size() > 1) nt = true;
        }
        auto al = allowed(ix, q, d);
        for (auto& x : g) REQUIRE(al.count(x), what << ": span " << x.first << "-" << x.second << " of document " << d << " does not satisfy the definition");
        if (!g.empty()) nt = true;
        // in order within the document, where the parts guarantee it
        if (q.kind != Q_SPANNEAR) for (size_t i = 1; i < g.size(); ++i) REQUIRE(g[i - 1] <= g[i], what << ": spans of document " << d << " out of order");
    }
    std::set<int> m;
    for (bool ooo : {false, true}) {
        m.clear();
        for (auto& h : collect(s, sq, FilterPtr(), ooo)) REQUIRE(m.insert(h.doc).second, what << ": document " << h.doc << " collected twice");
        REQUIRE(m == docs, what << ": matches [" << docsOf(m) << "] but has spans in [" << docsOf(docs) << "]");
    }
    return nt && (int)docs.size() < ix.numLive();
}

// nestings of every span query
VF_SUB(anySpan, 9000, 400000) {
    QIndexCfg ig;
    ig.maxDocs = 12;
    ig.maxWords = 10;
    QCfg g;
    g.words = {L"a", L"b", L"c", L"d", L"e"};
    if (c.chance(1, 2)) ig.words = g.words;
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexReaderPtr r = IndexReader::open(ix.dir, true);
    IndexSearcherPtr s = newLucene<IndexSearcher>(r);
    bool nt = false;
    int n = 0;
    do {
        Q q = genSpan(c, g, 3, c.pick(g.fields));
        c.note("spans " + describe(q));
        LUCENE_GUARD(nt |= check(c, ix, r, s, q););
    } while (++n < 6 && c.more(4));
    c.nontrivial(nt);
    s->close();
    r->close();
}

// near over terms, against the declarative meaning of slop: exactly the documents in which positions can be chosen
VF_SUB(nearTerms, 8000, 300000) {
    QIndexCfg ig;
    ig.maxDocs = 10;
    ig.maxWords = 14;
    ig.words = {L"a", L"b", L"c", L"d"};
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexReaderPtr r = IndexReader::open(ix.dir, true);
    IndexSearcherPtr s = newLucene<IndexSearcher>(r);
    bool nt = false;
    int n = 0;
    do {
        Q q;
        q.kind = Q_SPANNEAR;
        q.field = c.chance(1, 3) ? L"z" : L"x";
        q.flag = c.chance(1, 2);
        q.n = c.chance(1, 4) ? (int)c.draw(30) : (int)c.draw(4);
        std::vector<std::wstring> w = ig.words;
        c.shuffle(w);
        int k = 2 + (int)c.draw(3);
        for (int i = 0; i < k; ++i) { Q t; t.kind = Q_SPANTERM; t.field = q.field; t.text = q.flag && c.chance(1, 5) ? c.pick(w) : w[(size_t)i]; q.subs.push_back(t); }
        c.note("spans " + describe(q));
        LUCENE_GUARD(
            nt |= check(c, ix, r, s, q);
            auto got = enumerate(buildSpan(q)->getSpans(r), "near");
            for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[(size_t)d])
                REQUIRE_EQ(got.count(d) != 0, !allowed(ix, q, d).empty(), "near " << describe(q) << ": document " << d << " has a choice of positions within the slop"););
    } while (++n < 8 && c.more(6));
    c.nontrivial(nt);
    s->close();
    r->close();
}

// sloppy phrases: exactly the documents whose terms can be moved into place within the slop
VF_SUB(sloppy, 7000, 300000) {
    QIndexCfg ig;
    ig.maxDocs = 10;
    ig.maxWords = 16;
    ig.words = {L"a", L"b", L"c", L"d", L"e"};
    QIndex ix = genIndex(c, ig);
    noteIndex(c, ix);
    IndexSearcherPtr s = newLucene<IndexSearcher>(ix.dir, true);
    bool nt = false;
    int n = 0;
    do {
        Q q;
        q.kind = c.chance(1, 3) ? Q_MPHRASE : Q_PHRASE;
        q.field = c.chance(1, 3) ? L"z" : c.chance(1, 3) ? L"y" : L"x";
        q.n = c.chance(1, 4) ? (int)c.draw(25) : (int)c.draw(5);
        std::vector<std::wstring> w = ig.words;
        c.shuffle(w);
        int k = 2 + (int)c.draw(3), p = 0;
        size_t u = 0;
        for (int i = 0; i < k && u < w.size(); ++i) {
            std::vector<std::wstring> alt;
            do alt.push_back(w[u++]); while (q.kind == Q_MPHRASE && u < w.size() && c.chance(1, 3));
            q.terms.push_back(alt);
            q.pos.push_back(p);
            p += c.weighted({6, 1, 1}) == 0 ? 1 : c.chance(1, 2) ? 2 : 0;
        }
        if (stackedSloppy(ix, q)) { ++c.excluded; continue; }
        c.note("query " + describe(q));
        std::set<int> want;
        for (int d = 0; d < ix.maxDoc(); ++d) if (ix.live[(size_t)d] && matches(ix, q, d)) want.insert(d);
        LUCENE_GUARD(
            std::set<int> m;
            for (auto& h : collect(s, build(q))) m.insert(h.doc);
            REQUIRE(m == want, "phrase " << describe(q) << " matches [" << docsOf(m) << "], its terms are within the slop in [" << docsOf(want) << "]"););
        nt |= !want.empty() && (int)want.size() < ix.numLive();
    } while (++n < 8 && c.more(6));
    c.nontrivial(nt);
    s->close();
}
