// C12: numeric fields, ranges, sorting and caching agree with numeric order.
#include "common.h"
#include "qmodel.h"
#include "StringUtils.h"
#include "MiscUtils.h"
#include "VariantUtils.h"
#include "NumericUtils.h"
#include "NumericField.h"
#include "NumericTokenStream.h"
#include "NumericRangeQuery.h"
#include "NumericRangeFilter.h"
#include "FieldCacheRangeFilter.h"
#include "FieldCache.h"
#include "MultiTermQuery.h"
#include "FilteredTermEnum.h"
#include "FieldDoc.h"
#include "TopFieldDocs.h"
#include "TopScoreDocCollector.h"
#include "Sort.h"
#include "SortField.h"
#include "MatchAllDocsQuery.h"
#include "ConstantScoreQuery.h"
#include <cmath>
#include <cstring>
using namespace vf;

enum { LONG = 0, INT = 1, DBL = 2 };
// a value as an integer whose order is the documented order (doubles: by sign, then magnitude, NaN above infinity)
static int64_t orderOf(int type, int64_t raw) {
    if (type != DBL) return raw;
    return raw < 0 ? (int64_t)((uint64_t)raw ^ 0x7fffffffffffffffULL) : raw;
}
static double asDouble(int64_t raw) { double d; std::memcpy(&d, &raw, 8); return d; }
static int64_t rawOf(double d) { if (std::isnan(d)) return 0x7ff8000000000000LL; int64_t r; std::memcpy(&r, &d, 8); return r; }
static std::string showVal(int type, int64_t raw) { return type == DBL ? str(asDouble(raw)) : std::to_string(raw); }
static int64_t genVal(Case& c, int type, const std::vector<int64_t>& others) {
    if (!others.empty() && c.chance(1, 2)) {
        int64_t o = c.pick(others);
        switch (c.draw(4)) {
            case 0: return o;
            case 1: {
                int d = c.range(-2, 2);
                if (type == INT) return (int64_t)(int32_t)((uint32_t)o + (uint32_t)d);
                if (type == LONG) return (int64_t)((uint64_t)o + (uint64_t)(int64_t)d);
                double x = asDouble(o);
                if (d == 0) return rawOf(-x);
                return rawOf(std::nextafter(x, d > 0 ? INFINITY : -INFINITY));
            }
            case 2: if (type != DBL) { int64_t r = (int64_t)((uint64_t)o ^ (1ULL << c.draw(type == INT ? 32 : 64))); return type == INT ? (int64_t)(int32_t)r : r; } return o;
            default: {   // the block boundaries above and below
                if (type == DBL) return rawOf(std::floor(asDouble(o)));
                int b = c.range(1, type == INT ? 30 : 62);
                uint64_t m = (1ULL << b) - 1;
                uint64_t r = (c.chance(1, 2) ? ((uint64_t)o & ~m) : ((uint64_t)o | m)) + (uint64_t)(int64_t)c.range(-1, 1);
                return type == INT ? (int64_t)(int32_t)r : (int64_t)r;
            }
        }
    }
    if (type == DBL) return c.chance(1, 2) ? rawOf((double)c.range(-20, 20) / 4) : rawOf(c.anyDouble(false));
    if (c.chance(1, 2)) return c.range(-300, 300);
    int64_t r = (int64_t)c.bits64();
    return type == INT ? (int64_t)(int32_t)r : r;
}
static NumericFieldPtr numField(const std::wstring& name, int step, Field::Store st, int type, int64_t raw) {
    NumericFieldPtr f = step == 4 && (raw & 1) ? newLucene<NumericField>(name, st, true) : newLucene<NumericField>(name, step, st, true);
    if (type == LONG) f->setLongValue(raw); else if (type == INT) f->setIntValue((int32_t)raw); else f->setDoubleValue(asDouble(raw));
    return f;
}

struct NumIndex {
    int type = LONG, step = 4;
    std::vector<std::vector<int64_t> > vals;   // per document
    std::vector<bool> live;
    std::vector<int64_t> all;
    RAMDirectoryPtr dir;
    IndexSearcherPtr s;
    bool single = true;
};
static NumIndex genNum(Case& c, bool single, int maxDocs) {
    NumIndex ix;
    ix.type = (int)c.draw(3);
    ix.single = single;
    int bits = ix.type == INT ? 32 : 64;
    ix.step = c.weighted({3, 3, 1}) == 0 ? 4 : c.chance(1, 6) ? c.pick(std::vector<int>{bits - 1, bits, bits + 1, 100, INT_MAX}) : c.range(1, 16);
    c.note(std::string("type ") + (ix.type == LONG ? "long" : ix.type == INT ? "int" : "double") + " precision step " + std::to_string(ix.step));
    ix.dir = newLucene<RAMDirectory>();
    WriterCfg cfg = genWriterCfg(c, false);
    IndexWriterPtr w = openWriter(ix.dir, blankAnalyzer(), cfg, true);
    NumericFieldPtr reused;
    int n = c.range(1, maxDocs);
    for (int i = 0; i < n; ++i) {
        DocumentPtr d = newLucene<Document>();
        d->add(newLucene<Field>(L"id", L"d" + std::to_wstring(i), Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
        int k = single ? 1 : c.weighted({6, 1, 2, 1}) == 0 ? 1 : c.range(0, 3);
        std::vector<int64_t> v;
        for (int j = 0; j < k; ++j) {
            int64_t x = genVal(c, ix.type, ix.all);
            v.push_back(x);
            ix.all.push_back(x);
            if (single && ix.step != 4 && c.chance(1, 2)) {
                // one field object reused from document to document
                if (!reused) reused = newLucene<NumericField>(L"n", ix.step, Field::STORE_YES, true);
                if (ix.type == LONG) reused->setLongValue(x); else if (ix.type == INT) reused->setIntValue((int32_t)x); else reused->setDoubleValue(asDouble(x));
                d->add(reused);
            } else d->add(numField(L"n", ix.step, Field::STORE_YES, ix.type, x));
        }
        // neighbours in the term dictionary
        if (c.chance(1, 4)) d->add(newLucene<Field>(c.pick(std::vector<std::wstring>{L"m", L"o", L"n2"}), c.word(L"ab", 1, 2), Field::STORE_NO, Field::INDEX_NOT_ANALYZED));
        std::string t = "doc " + std::to_string(i) + ":";
        for (int64_t x : v) t += " " + showVal(ix.type, x);
        c.note(t);
        w->addDocument(d);
        ix.vals.push_back(v);
        ix.live.push_back(true);
        if (c.chance(1, 10)) w->commit();
    }
    w->close();
    if (c.chance(1, 4)) {
        IndexReaderPtr r = IndexReader::open(ix.dir, false);
        // a merge may have reordered nothing: documents keep their order
        for (int i = 0; i < n; ++i) if (c.chance(1, 6)) { r->deleteDocument(i); ix.live[(size_t)i] = false; }
        r->close();
    }
    ix.s = newLucene<IndexSearcher>(ix.dir, true);
    return ix;
}
static NumericValue nv(int type, int64_t raw) {
    if (type == LONG) return NumericValue((int64_t)raw);
    if (type == INT) return NumericValue((int32_t)raw);
    return NumericValue(asDouble(raw));
}
struct Range {
    int64_t lo = 0, hi = 0;
    bool openLo = false, openHi = false, incLo = true, incHi = true;
    bool has(int type, int64_t raw) const {
        int64_t v = orderOf(type, raw), l = orderOf(type, lo), h = orderOf(type, hi);
        if (!openLo && (incLo ? v < l : v <= l)) return false;
        if (!openHi && (incHi ? v > h : v >= h)) return false;
        return true;
    }
};
static Range genRange(Case& c, const NumIndex& ix) {
    Range r;
    r.lo = genVal(c, ix.type, ix.all);
    r.hi = c.chance(1, 8) ? r.lo : genVal(c, ix.type, ix.all);
    if (orderOf(ix.type, r.lo) > orderOf(ix.type, r.hi) && !c.chance(1, 10)) std::swap(r.lo, r.hi);
    r.openLo = c.chance(1, 8);
    r.openHi = c.chance(1, 8);
    r.incLo = c.chance(2, 3);
    r.incHi = c.chance(2, 3);
    return r;
}
static std::string showRange(int type, const Range& r) {
    return std::string(r.incLo ? "[" : "{") + (r.openLo ? "*" : showVal(type, r.lo)) + " TO " + (r.openHi ? "*" : showVal(type, r.hi)) + (r.incHi ? "]" : "}");
}
static NumericRangeQueryPtr queryOf(const NumIndex& ix, const Range& r, Case& c) {
    bool both = !r.openLo && !r.openHi;
    NumericValue lo = r.openLo ? NumericValue(VariantUtils::null()) : nv(ix.type, r.lo), hi = r.openHi ? NumericValue(VariantUtils::null()) : nv(ix.type, r.hi);
    if (both && c.chance(1, 2)) {
        if (ix.step == 4 && c.chance(1, 2)) {
            if (ix.type == LONG) return NumericRangeQuery::newLongRange(L"n", r.lo, r.hi, r.incLo, r.incHi);
            if (ix.type == INT) return NumericRangeQuery::newIntRange(L"n", (int32_t)r.lo, (int32_t)r.hi, r.incLo, r.incHi);
            return NumericRangeQuery::newDoubleRange(L"n", asDouble(r.lo), asDouble(r.hi), r.incLo, r.incHi);
        }
        if (ix.type == LONG) return NumericRangeQuery::newLongRange(L"n", ix.step, r.lo, r.hi, r.incLo, r.incHi);
        if (ix.type == INT) return NumericRangeQuery::newIntRange(L"n", ix.step, (int32_t)r.lo, (int32_t)r.hi, r.incLo, r.incHi);
        return NumericRangeQuery::newDoubleRange(L"n", ix.step, asDouble(r.lo), asDouble(r.hi), r.incLo, r.incHi);
    }
    // the value size is that of the type, also for half-open ranges
    return newLucene<NumericRangeQuery>(L"n", ix.step, ix.type == INT ? 32 : 64, lo, hi, r.incLo, r.incHi);
}
static FilterPtr filterOf(const NumIndex& ix, const Range& r, Case& c) {
    if (r.openLo || r.openHi || c.chance(1, 3)) return newLucene<NumericRangeFilter>(queryOf(ix, r, c));
    if (ix.step == 4 && c.chance(1, 2)) {
        if (ix.type == LONG) return NumericRangeFilter::newLongRange(L"n", r.lo, r.hi, r.incLo, r.incHi);
        if (ix.type == INT) return NumericRangeFilter::newIntRange(L"n", (int32_t)r.lo, (int32_t)r.hi, r.incLo, r.incHi);
        return NumericRangeFilter::newDoubleRange(L"n", asDouble(r.lo), asDouble(r.hi), r.incLo, r.incHi);
    }
    if (ix.type == LONG) return NumericRangeFilter::newLongRange(L"n", ix.step, r.lo, r.hi, r.incLo, r.incHi);
    if (ix.type == INT) return NumericRangeFilter::newIntRange(L"n", ix.step, (int32_t)r.lo, (int32_t)r.hi, r.incLo, r.incHi);
    return NumericRangeFilter::newDoubleRange(L"n", ix.step, asDouble(r.lo), asDouble(r.hi), r.incLo, r.incHi);
}
static std::vector<int> docsOf(const std::vector<Hit>& h) { std::vector<int> r; for (auto& x : h) r.push_back(x.doc); return r; }
static std::string list(const std::vector<int>& v) { std::string s; for (int i : v) s += std::to_string(i) + " "; return s; }

VF_SUB(ranges, 4000, 300000) {
    LUCENE_GUARD(
        NumIndex ix = genNum(c, c.chance(1, 2), 25);
        IndexReaderPtr r = ix.s->getIndexReader();
        int n = 0;
        bool nt = false;
        do {
            Range q = genRange(c, ix);
            std::vector<int> want;
            int live = 0;
            for (size_t i = 0; i < ix.vals.size(); ++i) {
                if (!ix.live[i]) continue;
                ++live;
                bool m = false;
                for (int64_t v : ix.vals[i]) m = m || q.has(ix.type, v);
                if (m) want.push_back((int)i);
            }
            std::string qs = showRange(ix.type, q);
            c.note("range " + qs);
            nt = nt || (!want.empty() && (int)want.size() < live);
            NumericRangeQueryPtr nq = queryOf(ix, q, c);
            switch (c.draw(6)) {
                case 1: nq->setRewriteMethod(MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE()); break;
                case 2: nq->setRewriteMethod(MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE()); break;
                case 3: nq->setRewriteMethod(MultiTermQuery::CONSTANT_SCORE_BOOLEAN_QUERY_REWRITE()); break;
                case 4: nq->setRewriteMethod(MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT()); break;
                default: break;
            }
            std::vector<int> got = docsOf(collect(ix.s, nq));
            REQUIRE(got == want, "query " << qs << " matches " << list(got) << ", expected " << list(want));
            got = docsOf(collect(ix.s, newLucene<MatchAllDocsQuery>(), filterOf(ix, q, c)));
            REQUIRE(got == want, "filter " << qs << " passes " << list(got) << ", expected " << list(want));
            // what the query says about itself
            REQUIRE(nq->includesMin() == q.incLo && nq->includesMax() == q.incHi && nq->getField() == L"n", "accessors of the query");
            if (!q.openLo) REQUIRE(nq->getMin() == nv(ix.type, q.lo), "lower bound of the query");
            if (!q.openHi) REQUIRE(nq->getMax() == nv(ix.type, q.hi), "upper bound of the query");
            if (ix.single && !(q.openLo && q.openHi)) {
                FilterPtr f;
                bool ok = true;
                if (!q.openLo && !q.openHi) {
                    if (ix.type == LONG) f = c.chance(1, 2) ? FieldCacheRangeFilter::newLongRange(L"n", FieldCache::NUMERIC_UTILS_LONG_PARSER(), q.lo, q.hi, q.incLo, q.incHi) : FieldCacheRangeFilter::newLongRange(L"n", q.lo, q.hi, q.incLo, q.incHi);
                    else if (ix.type == INT) f = c.chance(1, 2) ? FieldCacheRangeFilter::newIntRange(L"n", FieldCache::NUMERIC_UTILS_INT_PARSER(), (int32_t)q.lo, (int32_t)q.hi, q.incLo, q.incHi) : FieldCacheRangeFilter::newIntRange(L"n", (int32_t)q.lo, (int32_t)q.hi, q.incLo, q.incHi);
                    else {
                        double a = asDouble(q.lo);
                        double b = asDouble(q.hi);
                        // both zeros count as one value there; see C16
                        if (a == 0 || b == 0 || std::isnan(a) || std::isnan(b)) ok = false;
                        f = c.chance(1, 2) ? FieldCacheRangeFilter::newDoubleRange(L"n", FieldCache::NUMERIC_UTILS_DOUBLE_PARSER(), a, b, q.incLo, q.incHi) : FieldCacheRangeFilter::newDoubleRange(L"n", a, b, q.incLo, q.incHi);
                    }
                    if (ok) {
                        got = docsOf(collect(ix.s, newLucene<MatchAllDocsQuery>(), f));
                        REQUIRE(got == want, "field cache filter " << qs << " passes " << list(got) << ", expected " << list(want));
                    }
                }
            }
        } while (++n < 6 && c.more(3));
        c.nontrivial(nt);
        ix.s->close(););
}

// sorting and cached values
VF_SUB(sorting, 2000, 100000) {
    LUCENE_GUARD(
        NumIndex ix = genNum(c, true, 25);
        IndexReaderPtr r = ix.s->getIndexReader();
        int n = (int)ix.vals.size();
        std::vector<int> order;
        for (int i = 0; i < n; ++i) if (ix.live[(size_t)i]) order.push_back(i);
        bool rev = c.chance(1, 2);
        auto less = [&](int64_t a, int64_t b) {
            if (ix.type == DBL) return asDouble(a) < asDouble(b);
            return a < b;
        };
        std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return rev ? less(ix.vals[(size_t)b][0], ix.vals[(size_t)a][0]) : less(ix.vals[(size_t)a][0], ix.vals[(size_t)b][0]); });
        SortFieldPtr sf;
        bool own = c.chance(1, 2);
        if (ix.type == LONG) sf = own ? newLucene<SortField>(L"n", FieldCache::NUMERIC_UTILS_LONG_PARSER(), rev) : newLucene<SortField>(L"n", SortField::LONG, rev);
        else if (ix.type == INT) sf = own ? newLucene<SortField>(L"n", FieldCache::NUMERIC_UTILS_INT_PARSER(), rev) : newLucene<SortField>(L"n", SortField::INT, rev);
        else sf = own ? newLucene<SortField>(L"n", FieldCache::NUMERIC_UTILS_DOUBLE_PARSER(), rev) : newLucene<SortField>(L"n", SortField::DOUBLE, rev);
        std::set<int64_t> distinct;
        for (int i : order) distinct.insert(ix.vals[(size_t)i][0]);
        c.nontrivial(distinct.size() > 2);
        int want = c.range(1, n);
        if (order.empty()) return;
        TopFieldDocsPtr t = ix.s->search(newLucene<MatchAllDocsQuery>(), FilterPtr(), want, newLucene<Sort>(sf));
        REQUIRE_EQ((int)t->totalHits, (int)order.size(), "number of sorted hits");
        REQUIRE_EQ((int)t->scoreDocs.size(), (int)std::min<size_t>(order.size(), (size_t)want), "number of returned hits");
        for (int i = 0; i < t->scoreDocs.size(); ++i) {
            REQUIRE_EQ((int)t->scoreDocs[i]->doc, order[(size_t)i], "document at rank " << i << " by " << (rev ? "descending" : "ascending") << " value");
            ComparableValue v = boost::dynamic_pointer_cast<FieldDoc>(t->scoreDocs[i])->fields[0];
            int64_t raw = ix.vals[(size_t)order[(size_t)i]][0];
            bool same = ix.type == LONG ? VariantUtils::get<int64_t>(v) == raw : ix.type == INT ? VariantUtils::get<int32_t>(v) == (int32_t)raw : VariantUtils::get<double>(v) == asDouble(raw);
            REQUIRE(same, "sort value of document " << order[(size_t)i]);
        }
        // the value cached by document: per segment
        Collection<IndexReaderPtr> subs = r->getSequentialSubReaders();
        int base = 0;
        for (int k = 0; k < (subs ? subs.size() : 1); ++k) {
            IndexReaderPtr sr = subs ? subs[k] : r;
            Collection<int64_t> L; Collection<int32_t> I; Collection<double> D;
            if (ix.type == LONG) L = own ? FieldCache::DEFAULT()->getLongs(sr, L"n", FieldCache::NUMERIC_UTILS_LONG_PARSER()) : FieldCache::DEFAULT()->getLongs(sr, L"n");
            else if (ix.type == INT) I = own ? FieldCache::DEFAULT()->getInts(sr, L"n", FieldCache::NUMERIC_UTILS_INT_PARSER()) : FieldCache::DEFAULT()->getInts(sr, L"n");
            else D = own ? FieldCache::DEFAULT()->getDoubles(sr, L"n", FieldCache::NUMERIC_UTILS_DOUBLE_PARSER()) : FieldCache::DEFAULT()->getDoubles(sr, L"n");
            for (int i = 0; i < sr->maxDoc(); ++i) {
                int64_t raw = ix.vals[(size_t)(base + i)][0];
                if (!ix.live[(size_t)(base + i)]) continue;
                if (ix.type == LONG) REQUIRE_EQ((int64_t)L[i], raw, "cached long of document " << base + i);
                else if (ix.type == INT) REQUIRE_EQ((int32_t)I[i], (int32_t)raw, "cached int of document " << base + i);
                else REQUIRE_EQ((double)D[i], asDouble(raw), "cached double of document " << base + i);
            }
            base += sr->maxDoc();
        }
        // the stored form is the number
        for (int i = 0; i < n; ++i) {
            if (!ix.live[(size_t)i]) continue;
            String v = ix.s->doc(i)->get(L"n");
            int64_t raw = ix.vals[(size_t)i][0];
            if (ix.type == DBL) {
                if (std::isfinite(asDouble(raw))) REQUIRE(std::wcstod(v.c_str(), nullptr) == asDouble(raw), "stored value of " << asDouble(raw) << " is \"" << narrow(v) << "\"");
            } else REQUIRE_EQ(v, String(std::to_wstring(raw)), "stored value");
        }
        ix.s->close(););
}

// splitting of ranges: pieces cover the range exactly once
namespace {
struct LongPieces : public LongRangeBuilder {
    LUCENE_CLASS(LongPieces);
    std::vector<std::pair<std::pair<int64_t, int64_t>, int> > p;
    virtual void addRange(int64_t min, int64_t max, int32_t shift) { p.push_back({{min, max}, shift}); }
};
struct IntPieces : public IntRangeBuilder {
    LUCENE_CLASS(IntPieces);
    std::vector<std::pair<std::pair<int64_t, int64_t>, int> > p;
    virtual void addRange(int32_t min, int32_t max, int32_t shift) { p.push_back({{min, max}, shift}); }
};
struct TextPieces : public LongRangeBuilder {
    LUCENE_CLASS(TextPieces);
    std::vector<std::pair<String, String> > p;
    virtual void addRange(const String& a, const String& b) { p.push_back({a, b}); }
};
}
VF_SUB(splitting, 30000, 3000000) {
    bool isInt = c.chance(1, 2);
    int bits = isInt ? 32 : 64;
    int type = isInt ? INT : LONG;
    std::vector<int64_t> seen;
    int64_t lo = genVal(c, type, seen);
    seen.push_back(lo);
    int64_t hi = genVal(c, type, seen);
    if (lo > hi && !c.chance(1, 20)) std::swap(lo, hi);
    seen.push_back(hi);
    int step = c.chance(1, 8) ? c.pick(std::vector<int>{bits - 1, bits, bits + 1, 100}) : c.range(1, 20);
    c.note("split [" + std::to_string(lo) + ", " + std::to_string(hi) + "] of " + std::to_string(bits) + " bits, step " + std::to_string(step));
    std::vector<std::pair<std::pair<int64_t, int64_t>, int> > p;
    LUCENE_GUARD(
        if (isInt) { boost::shared_ptr<IntPieces> b = newLucene<IntPieces>(); NumericUtils::splitIntRange(b, step, (int32_t)lo, (int32_t)hi); p = b->p; }
        else { boost::shared_ptr<LongPieces> b = newLucene<LongPieces>(); NumericUtils::splitLongRange(b, step, lo, hi); p = b->p; });
    c.nontrivial(p.size() > 1);
    if (lo > hi) { REQUIRE(p.empty(), "an empty range has pieces"); return; }
    // pieces are disjoint, aligned, at the precisions that are indexed, and cover exactly [lo, hi]
    std::vector<std::pair<int64_t, int64_t> > iv;
    for (auto& x : p) {
        int sh = x.second;
        REQUIRE(sh % step == 0 && sh < bits, "piece at shift " << sh << ", which is not indexed");
        uint64_t m = (1ULL << sh) - 1;
        REQUIRE(((uint64_t)x.first.first & m) == 0, "piece starts inside a block of its precision");
        REQUIRE(((uint64_t)x.first.second & m) == m, "piece ends inside a block of its precision");
        REQUIRE(x.first.first <= x.first.second, "piece is reversed");
        iv.push_back(x.first);
        // at most 2^step - 1 blocks for every step but the coarsest
        uint64_t blocks = (((uint64_t)x.first.second - (uint64_t)x.first.first) >> sh) + 1;
        if (sh + step < bits && step < 40) REQUIRE(blocks <= (2ULL << step), "a piece at shift " << sh << " has " << blocks << " terms");
    }
    std::sort(iv.begin(), iv.end());
    REQUIRE(!iv.empty() && iv.front().first == lo && iv.back().second == hi, "pieces do not end at the bounds");
    for (size_t i = 1; i < iv.size(); ++i) REQUIRE(iv[i - 1].second != INT64_MAX && iv[i].first == iv[i - 1].second + 1, "pieces overlap or leave a gap at " << iv[i].first);
    if (!isInt) {
        // as text, a value is inside exactly when one of its terms is between the texts of a piece
        boost::shared_ptr<TextPieces> t = newLucene<TextPieces>();
        NumericUtils::splitLongRange(t, step, lo, hi);
        for (int k = 0; k < 4; ++k) {
            int64_t v = genVal(c, type, seen);
            int hitsN = 0;
            for (int sh = 0; sh < 64; sh += step) {
                String s = NumericUtils::longToPrefixCoded(v, sh);
                for (auto& x : t->p) hitsN += s >= x.first && s <= x.second;
                if (sh > 64 - step) break;
            }
            REQUIRE_EQ(hitsN, (int)(v >= lo && v <= hi), "number of terms of " << v << " inside the pieces");
        }
    }
}

// the token stream of a number
VF_SUB(tokens, 8000, 500000) {
    int type = (int)c.draw(3);
    std::vector<int64_t> none;
    int bits = type == INT ? 32 : 64;
    int step = c.chance(1, 8) ? c.pick(std::vector<int>{bits - 1, bits, bits + 1, INT_MAX}) : c.range(1, 20);
    c.note("type " + std::to_string(type) + " step " + std::to_string(step));
    c.nontrivial(step < bits);
    LUCENE_GUARD(
        NumericTokenStreamPtr s = newLucene<NumericTokenStream>(step);
        TermAttributePtr ta = s->addAttribute<TermAttribute>();
        PositionIncrementAttributePtr pa = s->addAttribute<PositionIncrementAttribute>();
        for (int round = 0; round < 2; ++round) {
            int64_t raw = genVal(c, type, none);
            if (type == LONG) s->setLongValue(raw); else if (type == INT) s->setIntValue((int32_t)raw); else s->setDoubleValue(asDouble(raw));
            if (c.chance(1, 2)) s->reset();
            int stop = c.chance(1, 3) ? c.range(0, 3) : 1000;   // sometimes left half read before the next value
            int64_t sh = 0;
            for (; sh < bits && stop-- > 0; sh += step) {
                REQUIRE((bool)s->incrementToken(), "token with shift " << sh << " is missing");
                String want = type == INT ? NumericUtils::intToPrefixCoded((int32_t)raw, (int32_t)sh) : NumericUtils::longToPrefixCoded(type == DBL ? orderOf(DBL, raw) : raw, (int32_t)sh);
                REQUIRE_EQ(ta->term(), want, "token with shift " << sh);
                REQUIRE_EQ((int)pa->getPositionIncrement(), sh == 0 ? 1 : 0, "position increment at shift " << sh);
            }
            if (sh >= bits) REQUIRE(!s->incrementToken(), "too many tokens");
        });
}
