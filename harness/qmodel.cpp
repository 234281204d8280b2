#include "LuceneInc.h"
#include "qmodel.h"
#include "TermQuery.h"
#include "BooleanClause.h"
#include "DisjunctionMaxQuery.h"
#include "ConstantScoreQuery.h"
#include "MatchAllDocsQuery.h"
#include "FilteredQuery.h"
#include "PhraseQuery.h"
#include "MultiPhraseQuery.h"
#include "PrefixQuery.h"
#include "WildcardQuery.h"
#include "FuzzyQuery.h"
#include "TermRangeQuery.h"
#include "MultiTermQuery.h"
#include "QueryWrapperFilter.h"
#include "SpanTermQuery.h"
#include "SpanFirstQuery.h"
#include "SpanOrQuery.h"
#include "SpanNotQuery.h"
#include "SpanNearQuery.h"
#include "FieldMaskingSpanQuery.h"
#include "SerialMergeScheduler.h"
#include "StringUtils.h"
#include "MiscUtils.h"
#include "VariantUtils.h"
#include <cmath>

namespace vf {

// ------------------------------------------------------------------------------- index
int QIndex::df(const std::wstring& f, const std::wstring& t) const {
    int n = 0;
    for (auto& d : inv) { auto i = d.find(f); if (i != d.end() && i->second.terms.count(t)) ++n; }
    return n;
}
std::set<std::wstring> QIndex::termsOf(const std::wstring& f) const {
    std::set<std::wstring> r;
    for (auto& d : inv) { auto i = d.find(f); if (i != d.end()) for (auto& t : i->second.terms) r.insert(t.first); }
    return r;
}
double QIndex::norm(int doc, const std::wstring& f) const {
    for (auto& d : inv) { auto i = d.find(f); if (i != d.end() && i->second.omitNorms) return 1.0; }
    auto i = inv[doc].find(f);
    if (i == inv[doc].end() || !i->second.indexed) return 1.0;
    return Similarity::decodeNorm(Similarity::encodeNorm(i->second.boost * (1.0 / std::sqrt((double)i->second.length))));
}
const std::vector<Occ>* QIndex::occ(int doc, const std::wstring& f, const std::wstring& t) const {
    auto i = inv[doc].find(f);
    if (i == inv[doc].end()) return nullptr;
    auto j = i->second.terms.find(t);
    return j == i->second.terms.end() ? nullptr : &j->second;
}

static std::wstring qword(Case& c, const std::vector<std::wstring>& w) {
    // the first words are frequent
    size_t n = w.size(), k = (size_t)c.draw(n * 2);
    return k < n ? w[k] : w[(k - n) % std::min<size_t>(n, 4)];
}

DocSpec genQDoc(Case& c, const QIndexCfg& g, int id) {
    static const double B[] = {1.0, 2.0, 0.5, 3.7};
    DocSpec d;
    d.fields.push_back(keyword(L"id", L"d" + std::to_wstring(id)));
    std::vector<std::wstring> words = g.words.empty() ? QCfg().words : g.words;
    if (g.boosts && c.chance(1, 6)) d.boost = B[c.draw(4)];
    static const wchar_t* N[] = {L"x", L"y", L"z"};
    for (int i = 0; i < 3; ++i) {
        int times = i == 0 ? c.weighted({1, 8, 1}) : c.weighted({2, 2});
        for (int k = 0; k < times; ++k) {
            FieldSpec f;
            f.name = N[i];
            f.omitNorms = i == 1;
            f.stored = false;
            if (g.boosts && c.chance(1, 8)) f.boost = B[c.draw(4)];
            if (i == 2 && g.streams) {
                f.kind = STREAM;
                int off = 0;
                for (int j = 0; j < g.maxWords && c.more(4); ++j) {
                    Tok t;
                    t.t = qword(c, words);
                    t.inc = c.weighted({6, 2, 1, 1});
                    t.inc = t.inc == 0 ? 1 : t.inc == 1 ? 0 : t.inc == 2 ? 2 : 1 + (int)c.draw(20);
                    if (j == 0 && t.inc == 0) t.inc = 1;
                    t.so = off;
                    t.eo = off + (int)t.t.size();
                    off = t.eo + 1;
                    if (g.payloads && c.chance(1, 2)) { t.hasPay = true; t.pay = std::string(1, (char)(1 + c.draw(9))); }
                    f.toks.push_back(t);
                }
                f.endOffset = off;
            } else {
                f.kind = TEXT;
                for (int j = 0; j < g.maxWords && c.more(4); ++j) f.text += (j ? L" " : L"") + qword(c, words);
            }
            d.fields.push_back(f);
        }
    }
    if (c.chance(1, 2)) { FieldSpec k = keyword(L"k", qword(c, words)); d.fields.push_back(k); }
    if (g.ints) d.fields.push_back(keyword(L"i", std::to_wstring(c.range(-5, 20))));
    return d;
}

void setDocs(QIndex& ix, const std::vector<DocSpec>& docs) {
    ix.docs = docs;
    ix.live.assign(docs.size(), true);
    ix.inv.clear();
    for (auto& d : docs) ix.inv.push_back(invert(d));
}

void buildInto(Case& c, QIndex& ix) {
    ix.dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(ix.dir, blankAnalyzer(), true, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMergeFactor(1000);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    w->setMaxBufferedDocs(c.weighted({1, 1}) ? c.range(2, 9) : 1000);
    w->setUseCompoundFile(c.chance(1, 2));
    for (auto& d : ix.docs) {
        w->addDocument(build(d));
        if (c.chance(1, 12)) w->commit();
    }
    for (size_t i = 0; i < ix.docs.size(); ++i) if (!ix.live[i]) w->deleteDocuments(newLucene<Term>(L"id", ix.docs[i].id()));
    w->close();
}

QIndex genIndex(Case& c, const QIndexCfg& g) {
    QIndex ix;
    std::vector<DocSpec> docs;
    while ((int)docs.size() < g.maxDocs && c.more(12)) docs.push_back(genQDoc(c, g, (int)docs.size()));
    setDocs(ix, docs);
    if (g.deletes && c.chance(2, 3)) for (size_t i = 0; i < docs.size(); ++i) if (c.chance(1, 6)) ix.live[i] = false;
    buildInto(c, ix);
    return ix;
}

// ------------------------------------------------------------------------------- generator
bool isSpan(const Q& q) { return q.kind >= Q_SPANTERM; }

static double genBoost(Case& c, const QCfg& g) {
    static const double B[] = {2.0, 0.5, 3.7, 10.0, 0.0};
    if (!g.boosts || !c.chance(1, 4)) return 1.0;
    return B[c.draw(g.zeroBoosts ? 5 : 4)];
}
static std::wstring genPattern(Case& c, const QCfg& g) {
    std::wstring w = c.pick(g.words), r;
    if (c.chance(1, 4)) return c.word(L"ab*?c", 1, 4);
    for (wchar_t ch : w) {
        switch (c.weighted({4, 1, 1, 1})) {
            case 0: r += ch; break;
            case 1: r += L'?'; break;
            case 2: r += L'*'; break;
            default: r += ch; r += L'*'; break;
        }
    }
    if (c.chance(1, 4)) r += L'*';
    return r;
}

Q genSpan(Case& c, const QCfg& g, int depth, const std::wstring& field) {
    Q q;
    q.boost = genBoost(c, g);
    q.field = field;
    if (depth <= 0) {
        q.kind = Q_SPANTERM;
        q.text = qword(c, g.words);
        return q;
    }
    switch (c.weighted({3, 3, 2, 2, 2, 1})) {
        case 0: q.kind = Q_SPANTERM; q.text = qword(c, g.words); break;
        case 1: {
            q.kind = Q_SPANNEAR;
            q.flag = c.chance(1, 2);
            q.n = c.weighted({2, 2, 1}) == 0 ? 0 : c.range(0, 8);
            int n = c.weighted({5, 2, 1}) + 2;
            if (c.chance(1, 12)) n = 1;
            for (int i = 0; i < n; ++i) q.subs.push_back(genSpan(c, g, c.chance(2, 3) ? 0 : depth - 1, field));
            break;
        }
        case 2: {
            q.kind = Q_SPANOR;
            int n = c.weighted({3, 2, 1}) + 1;
            for (int i = 0; i < n; ++i) q.subs.push_back(genSpan(c, g, depth - 1, field));
            break;
        }
        case 3:
            q.kind = Q_SPANNOT;
            q.subs.push_back(genSpan(c, g, depth - 1, field));
            q.subs.push_back(genSpan(c, g, depth - 1, field));
            break;
        case 4:
            q.kind = Q_SPANFIRST;
            q.n = c.range(0, 6);
            q.subs.push_back(genSpan(c, g, depth - 1, field));
            break;
        default: {
            q.kind = Q_SPANMASK;
            q.subs.push_back(genSpan(c, g, depth - 1, c.pick(g.fields)));
            break;
        }
    }
    return q;
}

Q genQ(Case& c, const QCfg& g, int depth) {
    Q q;
    q.boost = genBoost(c, g);
    int kind;
    if (depth <= 0 || c.chance(1, 3)) {
        std::vector<int> leaves{Q_TERM, Q_TERM, Q_TERM, Q_ALL};
        if (g.phrases) { leaves.push_back(Q_PHRASE); leaves.push_back(Q_MPHRASE); leaves.push_back(Q_PHRASE); }
        if (g.multi) { leaves.push_back(Q_PREFIX); leaves.push_back(Q_WILD); leaves.push_back(Q_FUZZY); leaves.push_back(Q_RANGE); }
        if (g.spans) { leaves.push_back(Q_SPANTERM); leaves.push_back(Q_SPANTERM); }
        if (!g.only.empty()) { leaves.clear(); for (auto k : g.only) leaves.push_back(k); }
        kind = c.pick(leaves);
    } else {
        std::vector<int> inner{Q_BOOL, Q_BOOL, Q_BOOL, Q_DISMAX, Q_CONST};
        if (g.filtered) inner.push_back(Q_FILTERED);
        kind = c.pick(inner);
    }
    q.kind = (QKind)kind;
    q.field = c.pick(g.fields);
    switch (q.kind) {
        case Q_TERM: q.text = qword(c, g.words); if (c.chance(1, 15)) q.text = L"zzz"; break;
        case Q_ALL: q.field.clear(); break;
        case Q_BOOL: {
            int n = c.chance(1, 12) ? 0 : 1 + c.size(4);
            for (int i = 0; i < n; ++i) {
                q.subs.push_back(genQ(c, g, depth - 1));
                q.occ.push_back(c.weighted({3, 4, 2}));
            }
            if (c.chance(1, 3)) q.n = c.range(0, 4);
            q.flag = c.chance(1, 4);
            break;
        }
        case Q_DISMAX: {
            int n = c.chance(1, 15) ? 0 : 1 + c.size(3);
            for (int i = 0; i < n; ++i) q.subs.push_back(genQ(c, g, depth - 1));
            static const double T[] = {0.0, 0.1, 0.5, 1.0};
            q.d = T[c.draw(4)];
            break;
        }
        case Q_CONST: q.subs.push_back(genQ(c, g, depth - 1)); break;
        case Q_FILTERED: q.subs.push_back(genQ(c, g, depth - 1)); q.subs.push_back(genQ(c, g, depth - 1)); break;
        case Q_PHRASE: case Q_MPHRASE: {
            int n = c.weighted({1, 6, 3, 1}) + 1, p = -1;
            for (int i = 0; i < n; ++i) {
                std::vector<std::wstring> alt;
                alt.push_back(qword(c, g.words));
                if (q.kind == Q_MPHRASE) while (alt.size() < 3 && c.more(1)) {
                    std::wstring t = qword(c, g.words);
                    if (std::find(alt.begin(), alt.end(), t) == alt.end()) alt.push_back(t);
                }
                p += c.weighted({8, 1, 1}) == 0 ? 1 : (int)c.draw(4);
                if (i == 0) p = 0;
                q.terms.push_back(alt);
                q.pos.push_back(p);
            }
            if (c.chance(1, 3)) q.n = c.range(1, 6);
            if (q.n && !g.sloppyRepeats) {
                std::set<std::wstring> seen;
                for (auto& a : q.terms) for (auto& t : a) if (!seen.insert(t).second) q.n = 0;
            }
            break;
        }
        case Q_PREFIX: q.text = c.chance(1, 8) ? L"" : c.pick(g.words).substr(0, (size_t)c.range(1, 2)); break;
        case Q_WILD: q.text = genPattern(c, g); break;
        case Q_FUZZY: {
            q.text = c.pick(g.words);
            if (c.chance(1, 2)) q.text += c.word(L"abcd", 1, 3);
            static const double S[] = {0.5, 0.0, 0.25, 0.3, 0.6, 0.75, 0.9};
            q.d = S[c.draw(7)];
            q.n = c.weighted({3, 1}) ? c.range(0, 4) : 0;
            break;
        }
        case Q_RANGE:
            q.text = c.pick(g.words);
            q.text2 = c.pick(g.words);
            if (c.chance(2, 3) && q.text2 < q.text) std::swap(q.text, q.text2);
            q.incLo = !c.chance(1, 3);
            q.incHi = !c.chance(1, 3);
            q.openLo = c.chance(1, 5);
            q.openHi = c.chance(1, 5);
            break;
        case Q_SPANTERM: { double b = q.boost; 
            q = genSpan(c, g, 2, q.field);
            if (q.kind == Q_SPANMASK) {   // the boost of a masking query itself is documented not to count
                Q o;
                o.kind = Q_SPANOR;
                o.field = q.field;
                o.subs.push_back(q);
                q = o;
            }
            q.boost = b;
            break;
        }
        default: break;
    }
    if (g.rewrites && q.kind >= Q_PREFIX && q.kind <= Q_RANGE && q.kind != Q_FUZZY) q.rewrite = c.weighted({4, 1, 2, 1, 1});
    return q;
}

static RewriteMethodPtr method(int k) {
    switch (k) {
        case 1: return MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE();
        case 2: return MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE();
        case 3: return MultiTermQuery::CONSTANT_SCORE_BOOLEAN_QUERY_REWRITE();
        case 4: {
            ConstantScoreAutoRewritePtr a = newLucene<ConstantScoreAutoRewrite>();
            a->setDocCountPercent(1000.0);
            a->setTermCountCutoff(3);
            return a;
        }
        default: return MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT();
    }
}

SpanQueryPtr buildSpan(const Q& q) {
    SpanQueryPtr r;
    Collection<SpanQueryPtr> subs = Collection<SpanQueryPtr>::newInstance();
    for (auto& s : q.subs) subs.add(buildSpan(s));
    switch (q.kind) {
        case Q_SPANTERM: r = newLucene<SpanTermQuery>(newLucene<Term>(q.field, q.text)); break;
        case Q_SPANFIRST: r = newLucene<SpanFirstQuery>(subs[0], q.n); break;
        case Q_SPANOR: r = newLucene<SpanOrQuery>(subs); break;
        case Q_SPANNOT: r = newLucene<SpanNotQuery>(subs[0], subs[1]); break;
        case Q_SPANNEAR: r = newLucene<SpanNearQuery>(subs, q.n, q.flag); break;
        case Q_SPANMASK: r = newLucene<FieldMaskingSpanQuery>(subs[0], q.field); break;
        default: throw Fail{"not a span query"};
    }
    r->setBoost(q.boost);
    return r;
}

QueryPtr build(const Q& q) {
    if (isSpan(q)) return buildSpan(q);
    QueryPtr r;
    switch (q.kind) {
        case Q_TERM: r = newLucene<TermQuery>(newLucene<Term>(q.field, q.text)); break;
        case Q_ALL: r = newLucene<MatchAllDocsQuery>(q.field); break;
        case Q_BOOL: {
            BooleanQueryPtr b = newLucene<BooleanQuery>(q.flag);
            static const BooleanClause::Occur O[] = {BooleanClause::MUST, BooleanClause::SHOULD, BooleanClause::MUST_NOT};
            for (size_t i = 0; i < q.subs.size(); ++i) b->add(build(q.subs[i]), O[q.occ[i]]);
            if (q.n) b->setMinimumNumberShouldMatch(q.n);
            r = b;
            break;
        }
        case Q_DISMAX: {
            DisjunctionMaxQueryPtr m = newLucene<DisjunctionMaxQuery>(q.d);
            for (auto& s : q.subs) m->add(build(s));
            r = m;
            break;
        }
        case Q_CONST: r = newLucene<ConstantScoreQuery>(newLucene<QueryWrapperFilter>(build(q.subs[0]))); break;
        case Q_FILTERED: r = newLucene<FilteredQuery>(build(q.subs[0]), newLucene<QueryWrapperFilter>(build(q.subs[1]))); break;
        case Q_PHRASE: {
            PhraseQueryPtr p = newLucene<PhraseQuery>();
            for (size_t i = 0; i < q.terms.size(); ++i) p->add(newLucene<Term>(q.field, q.terms[i][0]), q.pos[i]);
            p->setSlop(q.n);
            r = p;
            break;
        }
        case Q_MPHRASE: {
            MultiPhraseQueryPtr p = newLucene<MultiPhraseQuery>();
            for (size_t i = 0; i < q.terms.size(); ++i) {
                Collection<TermPtr> a = Collection<TermPtr>::newInstance();
                for (auto& t : q.terms[i]) a.add(newLucene<Term>(q.field, t));
                p->add(a, q.pos[i]);
            }
            p->setSlop(q.n);
            r = p;
            break;
        }
        case Q_PREFIX: r = newLucene<PrefixQuery>(newLucene<Term>(q.field, q.text)); break;
        case Q_WILD: r = newLucene<WildcardQuery>(newLucene<Term>(q.field, q.text)); break;
        case Q_FUZZY: r = newLucene<FuzzyQuery>(newLucene<Term>(q.field, q.text), q.d, q.n); break;
        case Q_RANGE:
            r = newLucene<TermRangeQuery>(q.field, q.openLo ? StringValue(VariantUtils::null()) : StringValue(q.text),
                                          q.openHi ? StringValue(VariantUtils::null()) : StringValue(q.text2), q.incLo, q.incHi);
            break;
        default: throw Fail{"unknown query"};
    }
    if (q.kind >= Q_PREFIX && q.kind <= Q_RANGE && q.kind != Q_FUZZY && q.rewrite)
        boost::dynamic_pointer_cast<MultiTermQuery>(r)->setRewriteMethod(method(q.rewrite));
    r->setBoost(q.boost);
    return r;
}

std::string describe(const Q& q) {
    static const char* N[] = {"term", "bool", "dismax", "const", "all", "filtered", "phrase", "mphrase", "prefix", "wild", "fuzzy", "range",
                              "sterm", "sfirst", "sor", "snot", "snear", "smask"};
    std::string s = N[q.kind];
    s += "(";
    if (!q.field.empty() && q.kind != Q_BOOL && q.kind != Q_DISMAX && q.kind != Q_CONST && q.kind != Q_FILTERED) s += narrow(q.field) + ":";
    s += narrow(q.text);
    if (q.kind == Q_RANGE) s += std::string(q.openLo ? " lo open" : "") + (q.incLo ? " [" : " {") + " to " + narrow(q.text2) + (q.openHi ? " hi open" : "") + (q.incHi ? "]" : "}");
    if (q.kind == Q_FUZZY) s += " sim=" + str(q.d) + " prefix=" + str(q.n);
    for (size_t i = 0; i < q.terms.size(); ++i) {
        s += " ";
        for (size_t k = 0; k < q.terms[i].size(); ++k) s += (k ? "|" : "") + narrow(q.terms[i][k]);
        s += "@" + str(q.pos[i]);
    }
    for (size_t i = 0; i < q.subs.size(); ++i) {
        if (i) s += " ";
        if (q.kind == Q_BOOL) s += q.occ[i] == MUST ? "+" : q.occ[i] == MUSTNOT ? "-" : "";
        s += describe(q.subs[i]);
    }
    s += ")";
    if (q.kind == Q_BOOL && q.n) s += "~" + str(q.n);
    if (q.kind == Q_BOOL && q.flag) s += "nocoord";
    if ((q.kind == Q_PHRASE || q.kind == Q_MPHRASE) && q.n) s += "~" + str(q.n);
    if (q.kind == Q_SPANNEAR) s += "~" + str(q.n) + (q.flag ? "ordered" : "any");
    if (q.kind == Q_SPANFIRST) s += "<" + str(q.n);
    if (q.kind == Q_DISMAX) s += "tie" + str(q.d);
    if (q.rewrite) s += "/rw" + str(q.rewrite);
    if (q.boost != 1.0) s += "^" + str(q.boost);
    return s;
}

// ------------------------------------------------------------------------------- reference: matching
static bool glob(const std::wstring& p, size_t i, const std::wstring& s, size_t j) {
    if (i == p.size()) return j == s.size();
    if (p[i] == L'*') {
        for (size_t k = j; k <= s.size(); ++k) if (glob(p, i + 1, s, k)) return true;
        return false;
    }
    return j < s.size() && (p[i] == L'?' || p[i] == s[j]) && glob(p, i + 1, s, j + 1);
}
static int editDistance(const std::wstring& a, const std::wstring& b) {
    std::vector<std::vector<int> > d(a.size() + 1, std::vector<int>(b.size() + 1));
    for (size_t i = 0; i <= a.size(); ++i)
        for (size_t j = 0; j <= b.size(); ++j)
            d[i][j] = i == 0 ? (int)j : j == 0 ? (int)i
                                               : std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : 1)});
    return d[a.size()][b.size()];
}

bool termMatches(const Q& q, const std::wstring& t, double* boost) {
    if (boost) *boost = 1.0;
    switch (q.kind) {
        case Q_PREFIX: return t.compare(0, q.text.size(), q.text) == 0;
        case Q_WILD: return glob(q.text, 0, t, 0);
        case Q_RANGE: {
            if (!q.openLo && (q.incLo ? t < q.text : t <= q.text)) return false;
            if (!q.openHi && (q.incHi ? t > q.text2 : t >= q.text2)) return false;
            return true;
        }
        case Q_FUZZY: {
            // similarity = 1 - editDistance / min(length), above the threshold, sharing the first n characters
            int p = std::min(q.n, (int)q.text.size());
            if (t.compare(0, p, q.text, 0, p) != 0) return false;
            std::wstring a = q.text.substr(p), b = t.substr(p);
            int len = p + (int)std::min(a.size(), b.size());
            if (len == 0) return false;
            double sim = 1.0 - (double)editDistance(a, b) / (double)len;
            if (boost) *boost = (sim - q.d) * (1.0 / (1.0 - q.d));
            return sim > q.d;
        }
        default: throw Fail{"not a multi-term query"};
    }
}

static bool phraseMatches(const QIndex& ix, const Q& q, int doc) {
    // place i may stand at any position of one of its terms; all places shifted by their offsets must lie within the slop
    std::vector<std::vector<int> > p;
    for (size_t i = 0; i < q.terms.size(); ++i) {
        std::vector<int> v;
        for (auto& t : q.terms[i]) if (auto* o = ix.occ(doc, q.field, t)) for (auto& x : *o) v.push_back(x.pos - q.pos[i]);
        if (v.empty()) return false;
        p.push_back(v);
    }
    if (p.empty()) return false;
    // try every lower end
    for (auto& v : p) for (int lo : v) {
        bool all = true;
        for (auto& u : p) {
            bool any = false;
            for (int x : u) any |= x >= lo && x <= lo + q.n;
            all &= any;
        }
        if (all) return true;
    }
    return false;
}

bool matches(const QIndex& ix, const Q& q, int doc) {
    switch (q.kind) {
        case Q_TERM: return ix.occ(doc, q.field, q.text) != nullptr;
        case Q_ALL: return true;
        case Q_BOOL: {
            int opt = 0, pos = 0;
            for (size_t i = 0; i < q.subs.size(); ++i) {
                bool m = matches(ix, q.subs[i], doc);
                if (q.occ[i] == MUST) { if (!m) return false; ++pos; }
                else if (q.occ[i] == MUSTNOT) { if (m) return false; }
                else opt += m;
            }
            return opt >= q.n && opt + pos > 0;
        }
        case Q_DISMAX: for (auto& s : q.subs) if (matches(ix, s, doc)) return true; return false;
        case Q_CONST: return matches(ix, q.subs[0], doc);
        case Q_FILTERED: return matches(ix, q.subs[0], doc) && matches(ix, q.subs[1], doc);
        case Q_PHRASE: case Q_MPHRASE: return phraseMatches(ix, q, doc);
        case Q_PREFIX: case Q_WILD: case Q_FUZZY: case Q_RANGE: {
            auto i = ix.inv[doc].find(q.field);
            if (i == ix.inv[doc].end()) return false;
            for (auto& t : i->second.terms) if (termMatches(q, t.first)) return true;
            return false;
        }
        default: return !spansOf(ix, q, doc).empty();
    }
}

bool stackedSloppy(const QIndex& ix, const Q& q) {
    for (auto& s : q.subs) if (stackedSloppy(ix, s)) return true;
    if ((q.kind != Q_PHRASE && q.kind != Q_MPHRASE) || q.n == 0) return false;
    for (int d = 0; d < ix.maxDoc(); ++d) {
        std::map<int, std::set<size_t> > at;
        for (size_t i = 0; i < q.terms.size(); ++i) for (auto& t : q.terms[i])
            if (auto* o = ix.occ(d, q.field, t)) for (auto& x : *o) if (at[x.pos].insert(i).second && at[x.pos].size() > 1) return true;
    }
    return false;
}

// ------------------------------------------------------------------------------- reference: spans
typedef std::pair<int, int> SP;

static bool spanOrdered(const SP& a, const SP& b) { return a.first == b.first ? a.second < b.second : a.first < b.first; }

static std::vector<SP> nearOrdered(const std::vector<std::vector<SP> >& l, int slop) {
    std::vector<SP> out;
    size_t n = l.size();
    std::vector<size_t> at(n, 0);
    for (auto& v : l) if (v.empty()) return out;
    bool in = true;
    while (in) {
        for (size_t i = 1; i < n && in; ++i)
            while (!spanOrdered(l[i - 1][at[i - 1]], l[i][at[i]])) if (++at[i] == l[i].size()) { in = false; break; }
        if (!in) break;
        SP last = l[n - 1][at[n - 1]];
        int start = last.first, end = last.second, s = 0;
        for (int i = (int)n - 2; i >= 0; --i) {
            SP prev = l[i][at[i]];
            while (true) {
                if (at[i] + 1 >= l[i].size()) { at[i] = l[i].size(); in = false; break; }
                ++at[i];
                if (!spanOrdered(l[i][at[i]], last)) break;
                prev = l[i][at[i]];
            }
            if (start > prev.second) s += start - prev.second;
            start = prev.first;
            last = prev;
        }
        if (s <= slop) out.push_back(SP(start, end));
    }
    return out;
}
static std::vector<SP> nearUnordered(const std::vector<std::vector<SP> >& l, int slop) {
    std::vector<SP> out;
    size_t n = l.size();
    std::vector<size_t> at(n, 0);
    for (auto& v : l) if (v.empty()) return out;
    while (true) {
        size_t mn = 0;
        int mx = 0, total = 0;
        for (size_t i = 0; i < n; ++i) {
            if (l[i][at[i]] < l[mn][at[mn]]) mn = i;
            mx = std::max(mx, l[i][at[i]].second);
            total += l[i][at[i]].second - l[i][at[i]].first;
        }
        if (mx - l[mn][at[mn]].first - total <= slop) out.push_back(SP(l[mn][at[mn]].first, mx));
        if (++at[mn] == l[mn].size()) break;
    }
    return out;
}

std::vector<SP> spansOf(const QIndex& ix, const Q& q, int doc) {
    std::vector<SP> r;
    switch (q.kind) {
        case Q_SPANTERM:
            if (auto* o = ix.occ(doc, q.field, q.text)) for (auto& x : *o) r.push_back(SP(x.pos, x.pos + 1));
            return r;
        case Q_SPANFIRST:
            for (auto& s : spansOf(ix, q.subs[0], doc)) if (s.second <= q.n) r.push_back(s);
            return r;
        case Q_SPANOR:
            for (auto& s : q.subs) { auto v = spansOf(ix, s, doc); r.insert(r.end(), v.begin(), v.end()); }
            std::stable_sort(r.begin(), r.end());
            return r;
        case Q_SPANMASK: return spansOf(ix, q.subs[0], doc);
        case Q_SPANNOT: {
            auto ex = spansOf(ix, q.subs[1], doc);
            for (auto& s : spansOf(ix, q.subs[0], doc)) {
                bool hit = false;
                for (auto& e : ex) hit |= e.second > s.first && e.first < s.second;
                if (!hit) r.push_back(s);
            }
            return r;
        }
        case Q_SPANNEAR: {
            std::vector<std::vector<SP> > l;
            for (auto& s : q.subs) l.push_back(spansOf(ix, s, doc));
            if (l.size() == 1) return l[0];
            return q.flag ? nearOrdered(l, q.n) : nearUnordered(l, q.n);
        }
        default: throw Fail{"not a span query"};
    }
}

// ------------------------------------------------------------------------------- reference: scores
static double idf(const QIndex& ix, const std::wstring& f, const std::wstring& t) {
    return std::log((double)ix.maxDoc() / (double)(ix.df(f, t) + 1)) + 1.0;
}
static void spanTerms(const Q& q, std::set<std::pair<std::wstring, std::wstring> >& r) {
    if (q.kind == Q_SPANTERM) r.insert(std::make_pair(q.field, q.text));
    else if (q.kind == Q_SPANNOT) spanTerms(q.subs[0], r);
    else for (auto& s : q.subs) spanTerms(s, r);
}
// the query never matches anything because of its structure alone (no scorer is made for it)
static bool noScorer(const Q& q) {
    switch (q.kind) {
        case Q_BOOL: {
            int opt = 0, req = 0;
            for (size_t i = 0; i < q.subs.size(); ++i) {
                if (q.occ[i] == MUSTNOT) continue;
                bool no = noScorer(q.subs[i]);
                if (q.occ[i] == MUST) { if (no) return true; ++req; }
                else if (!no) ++opt;
            }
            return opt + req == 0 || opt < q.n;
        }
        case Q_DISMAX: for (auto& s : q.subs) if (!noScorer(s)) return false; return true;
        case Q_FILTERED: return noScorer(q.subs[0]);
        case Q_PREFIX: case Q_WILD: case Q_RANGE: case Q_FUZZY: return !q.rewritten.empty() && noScorer(q.rewritten[0]);
        default: return false;
    }
}
static double prep(const QIndex& ix, Q& q);
static double sumsq(const QIndex& ix, Q& q) { return prep(ix, q); }

// multi-term queries that score by their terms
static void rewriteScoring(const QIndex& ix, Q& q) {
    q.rewritten.clear();
    Q b;
    b.kind = Q_BOOL;
    b.flag = true;
    bool exact = q.kind == Q_FUZZY && !((int)q.text.size() > (int)(1.0 / (1.0 - q.d)));
    if (exact) {
        // only the term itself can be similar enough
        Q t; t.kind = Q_TERM; t.field = q.field; t.text = q.text;
        q.rewritten.push_back(t);
        return;
    }
    for (auto& t : ix.termsOf(q.field)) {
        double bo;
        if (!termMatches(q, t, &bo)) continue;
        Q s; s.kind = Q_TERM; s.field = q.field; s.text = t; s.boost = q.boost * bo;
        b.subs.push_back(s);
        b.occ.push_back(SHOULD);
    }
    q.rewritten.push_back(b);
}

static double prep(const QIndex& ix, Q& q) {
    switch (q.kind) {
        case Q_TERM: q.value = idf(ix, q.field, q.text); q.qw = q.value * q.boost; return q.qw * q.qw;
        case Q_PHRASE: case Q_MPHRASE: {
            if (q.terms.size() == 1 && q.kind == Q_PHRASE) {
                Q t; t.kind = Q_TERM; t.boost = q.boost; t.field = q.field; t.text = q.terms[0][0];
                q.rewritten.assign(1, t);
                return prep(ix, q.rewritten[0]);
            }
            q.value = 0;
            for (auto& a : q.terms) for (auto& t : a) q.value += idf(ix, q.field, t);
            if (q.terms.size() == 1 && q.kind == Q_MPHRASE) {
                // a single place is rewritten to a disjunction of its terms without coordination
                Q b; b.kind = Q_BOOL; b.flag = true; b.boost = q.boost;
                for (auto& t : q.terms[0]) { Q s; s.kind = Q_TERM; s.field = q.field; s.text = t; b.subs.push_back(s); b.occ.push_back(SHOULD); }
                q.rewritten.assign(1, b);
                return prep(ix, q.rewritten[0]);
            }
            q.qw = q.value * q.boost;
            return q.qw * q.qw;
        }
        case Q_ALL: case Q_CONST: q.qw = q.boost; return q.qw * q.qw;
        case Q_BOOL: {
            double s = 0;
            for (size_t i = 0; i < q.subs.size(); ++i) { double x = sumsq(ix, q.subs[i]); if (q.occ[i] != MUSTNOT) s += x; }
            return s * q.boost * q.boost;
        }
        case Q_DISMAX: {
            double mx = 0, sum = 0;
            for (auto& s : q.subs) { double x = sumsq(ix, s); sum += x; mx = std::max(mx, x); }
            return ((sum - mx) * q.d * q.d + mx) * q.boost * q.boost;
        }
        case Q_FILTERED: return sumsq(ix, q.subs[0]) * q.boost * q.boost;
        case Q_PREFIX: case Q_WILD: case Q_RANGE:
            if (q.rewrite != 2) { q.qw = q.boost; return q.qw * q.qw; }
            rewriteScoring(ix, q);
            return sumsq(ix, q.rewritten[0]);
        case Q_FUZZY: rewriteScoring(ix, q); return sumsq(ix, q.rewritten[0]);
        case Q_SPANMASK: return prep(ix, q.subs[0]);   // weighs and scores as the masked query
        default: {
            std::set<std::pair<std::wstring, std::wstring> > t;
            spanTerms(q, t);
            q.value = 0;
            for (auto& x : t) q.value += idf(ix, x.first, x.second);
            q.qw = q.value * q.boost;
            return q.qw * q.qw;
        }
    }
}
static void norm(Q& q, double nrm) {
    if (!q.rewritten.empty()) { norm(q.rewritten[0], nrm); return; }
    switch (q.kind) {
        case Q_BOOL: case Q_DISMAX: for (auto& s : q.subs) norm(s, nrm * q.boost); break;
        case Q_FILTERED: case Q_SPANMASK: norm(q.subs[0], nrm); break;
        case Q_ALL: case Q_CONST: case Q_PREFIX: case Q_WILD: case Q_RANGE: q.normed = q.qw * nrm; break;
        default: q.normed = q.qw * nrm * q.value; break;
    }
}
void weigh(const QIndex& ix, Q& q) {
    double s = prep(ix, q);
    double n = 1.0 / std::sqrt(s);
    if (std::isinf(n) || std::isnan(n)) n = 1.0;
    norm(q, n);
}

static double phraseFreq(const QIndex& ix, const Q& q, int doc) {
    std::vector<std::vector<int> > p;
    for (size_t i = 0; i < q.terms.size(); ++i) {
        std::vector<int> v;
        for (auto& t : q.terms[i]) if (auto* o = ix.occ(doc, q.field, t)) for (auto& x : *o) v.push_back(x.pos - q.pos[i]);
        std::sort(v.begin(), v.end());
        if (v.empty()) return 0;
        p.push_back(v);
    }
    if (q.n == 0) {
        // every start position at which all places fit
        int f = 0;
        for (size_t k = 0; k < p[0].size(); ++k) {
            bool all = true;
            for (auto& u : p) all &= std::find(u.begin(), u.end(), p[0][k]) != u.end();
            f += all;
        }
        return f;
    }
    // every minimal window: 1 / (1 + width)
    std::vector<size_t> at(p.size(), 0);
    double f = 0;
    int end = 0;
    bool first = true;
    for (size_t i = 0; i < p.size(); ++i) { if (first || p[i][0] > end) end = p[i][0]; first = false; }
    end = std::max(end, 0);
    bool done = false;
    while (!done) {
        size_t mn = 0;
        for (size_t i = 1; i < p.size(); ++i) if (p[i][at[i]] < p[mn][at[mn]]) mn = i;
        int start = p[mn][at[mn]], next = INT_MAX;
        for (size_t i = 0; i < p.size(); ++i) if (i != mn) next = std::min(next, p[i][at[i]]);
        while (true) {
            int pos = p[mn][at[mn]];
            if (pos > next) break;
            start = pos;
            if (++at[mn] == p[mn].size()) { done = true; break; }
        }
        int width = end - start;
        if (width <= q.n) f += 1.0 / (double)(width + 1);
        if (!done && p[mn][at[mn]] > end) end = p[mn][at[mn]];
    }
    return f;
}

// two parts of an unordered near share a span: which one moves first is not specified
bool scorable(const QIndex& ix, const Q& q) {
    if (q.kind == Q_CONST) return true;
    if (q.kind == Q_FILTERED) return scorable(ix, q.subs[0]);
    if (isSpan(q)) return true;
    if ((q.kind == Q_PHRASE || q.kind == Q_MPHRASE) && q.n > 0) {
        std::set<std::wstring> seen;
        for (auto& a : q.terms) for (auto& t : a) if (!seen.insert(t).second) return false;
    }
    if ((q.kind == Q_PHRASE || q.kind == Q_MPHRASE) && q.terms.size() > 1) {
        // a term (or its alternatives) twice at one position counts once or twice: left open
        for (int d = 0; d < ix.maxDoc(); ++d) for (auto& a : q.terms) {
            std::set<int> at;
            for (auto& t : a) if (auto* o = ix.occ(d, q.field, t)) for (auto& x : *o) if (!at.insert(x.pos).second) return false;
        }
    }
    for (auto& s : q.subs) if (!scorable(ix, s)) return false;
    return true;
}

double scoreOf(const QIndex& ix, const Q& q, int doc) {
    if (!q.rewritten.empty()) return scoreOf(ix, q.rewritten[0], doc);
    switch (q.kind) {
        case Q_TERM: return std::sqrt((double)ix.occ(doc, q.field, q.text)->size()) * q.normed * ix.norm(doc, q.field);
        case Q_PHRASE: case Q_MPHRASE: return std::sqrt(phraseFreq(ix, q, doc)) * q.normed * ix.norm(doc, q.field);
        case Q_ALL: return q.normed * (q.field.empty() ? 1.0 : ix.norm(doc, q.field));
        case Q_CONST: case Q_PREFIX: case Q_WILD: case Q_RANGE: return q.normed;
        case Q_FILTERED: return q.boost * scoreOf(ix, q.subs[0], doc);
        case Q_SPANMASK: return scoreOf(ix, q.subs[0], doc);
        case Q_BOOL: {
            double s = 0;
            int over = 0, maxOver = 0;
            for (size_t i = 0; i < q.subs.size(); ++i) {
                if (q.occ[i] == MUSTNOT) continue;
                if (!noScorer(q.subs[i])) ++maxOver;
                if (matches(ix, q.subs[i], doc)) { s += scoreOf(ix, q.subs[i], doc); ++over; }
            }
            return q.flag ? s : s * (double)over / (double)maxOver;
        }
        case Q_DISMAX: {
            double mx = 0, s = 0;
            bool any = false;
            for (auto& x : q.subs) if (matches(ix, x, doc)) { double v = scoreOf(ix, x, doc); s += v; mx = any ? std::max(mx, v) : v; any = true; }
            return mx + (s - mx) * q.d;
        }
        default: {
            double f = 0;
            for (auto& x : spansOf(ix, q, doc)) f += 1.0 / (double)(x.second - x.first + 1);
            return std::sqrt(f) * q.normed * ix.norm(doc, q.field);
        }
    }
}

// ------------------------------------------------------------------------------- collecting
namespace {
class AllCollector : public Collector {
public:
    explicit AllCollector(bool ooo) : ooo(ooo) {}
    virtual ~AllCollector() {}
    LUCENE_CLASS(AllCollector);
    bool ooo;
    std::vector<Hit> h;
    ScorerPtr s;
    int base = 0;
    virtual void setScorer(const ScorerPtr& scorer) { s = scorer; }
    virtual void collect(int32_t doc) { h.push_back(Hit{base + doc, s->score()}); }
    virtual void setNextReader(const IndexReaderPtr& reader, int32_t docBase) { base = docBase; }
    virtual bool acceptsDocsOutOfOrder() { return ooo; }
};
}
std::vector<Hit> collect(const SearcherPtr& s, const QueryPtr& q, const FilterPtr& f, bool outOfOrder) {
    boost::shared_ptr<AllCollector> col = newLucene<AllCollector>(outOfOrder);
    if (f) s->search(q, f, col);
    else s->search(q, col);
    return col->h;
}
std::vector<Hit> hits(const TopDocsPtr& t) {
    std::vector<Hit> r;
    for (int i = 0; i < t->scoreDocs.size(); ++i) r.push_back(Hit{t->scoreDocs[i]->doc, t->scoreDocs[i]->score});
    return r;
}
std::string show(const std::vector<Hit>& h) {
    std::string s;
    for (auto& x : h) s += str(x.doc) + "(" + str(x.score) + ") ";
    return s;
}

}  // namespace vf
