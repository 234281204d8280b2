#include "LuceneInc.h"
#include "fmodel.h"
#include "StringUtils.h"
#include "MiscUtils.h"
#include "VariantUtils.h"
#include "QueryWrapperFilter.h"
#include "PrefixFilter.h"
#include "TermRangeFilter.h"
#include "FieldCacheTermsFilter.h"
#include "FieldCacheRangeFilter.h"
#include "SpanQueryFilter.h"
#include "CachingSpanFilter.h"
#include "CachingWrapperFilter.h"
#include "SortedVIntList.h"
#include "DocIdBitSet.h"
#include "FilteredDocIdSet.h"

namespace vf {

class HalfSet : public FilteredDocIdSet {
public:
    HalfSet(const DocIdSetPtr& inner, const std::set<int>& s) : FilteredDocIdSet(inner), s(s) {}
    virtual ~HalfSet() {}
    LUCENE_CLASS(HalfSet);
    std::set<int> s;
    virtual bool match(int32_t d) { return s.count(d) != 0; }
};
class StdIter : public DocIdSetIterator {
public:
    explicit StdIter(const std::set<int>& s) : s(s) {}
    virtual ~StdIter() {}
    LUCENE_CLASS(StdIter);
    std::set<int> s;
    int d = -1;
    virtual int32_t docID() { return d; }
    virtual int32_t nextDoc() { return advance(d + 1); }
    virtual int32_t advance(int32_t t) { auto i = s.lower_bound(t); return d = i == s.end() ? NO_MORE_DOCS : *i; }
};
class StdSet : public DocIdSet {
public:
    explicit StdSet(const std::set<int>& s) : s(s) {}
    virtual ~StdSet() {}
    LUCENE_CLASS(StdSet);
    std::set<int> s;
    virtual DocIdSetIteratorPtr iterator() { return newLucene<StdIter>(s); }
};

DocIdSetPtr makeSet(int kind, const std::set<int>& s, int maxDoc) {
    switch (kind) {
        case 0: { OpenBitSetPtr b = newLucene<OpenBitSet>((int64_t)maxDoc); for (int d : s) b->set((int64_t)d); return b; }
        case 1: { BitSetPtr b = newLucene<BitSet>((uint32_t)maxDoc); for (int d : s) b->set((uint32_t)d); return newLucene<DocIdBitSet>(b); }
        case 2: { Collection<int32_t> v = Collection<int32_t>::newInstance(); for (int d : s) v.add(d); return newLucene<SortedVIntList>(v); }
        case 3: return newLucene<StdSet>(s);
        case 4: {
            std::set<int> all;
            for (int d = 0; d < maxDoc; ++d) all.insert(d);
            return newLucene<HalfSet>(makeSet(3, all, maxDoc), s);
        }
        default: if (s.empty()) return DocIdSetPtr(); return makeSet(0, s, maxDoc);
    }
}

std::set<int> drain(const DocIdSetPtr& s) {
    std::set<int> r;
    DocIdSetIteratorPtr it = s ? s->iterator() : DocIdSetIteratorPtr();
    int last = -1, d;
    if (it) while ((d = it->nextDoc()) != DocIdSetIterator::NO_MORE_DOCS) {
        REQUIRE(d > last, "a document set goes back from " << last << " to " << d);
        last = d;
        r.insert(d);
    }
    return r;
}

namespace {
// accepts the documents with given ids
class IdFilter : public Filter {
public:
    IdFilter(int kind, const std::set<std::wstring>& ids) : kind(kind), ids(ids) {}
    virtual ~IdFilter() {}
    LUCENE_CLASS(IdFilter);
    int kind;
    std::set<std::wstring> ids;
    virtual DocIdSetPtr getDocIdSet(const IndexReaderPtr& r) {
        std::set<int> s;
        TermDocsPtr td = r->termDocs();
        for (auto& i : ids) { td->seek(newLucene<Term>(L"id", i)); while (td->next()) s.insert(td->doc()); }
        td->close();
        return makeSet(kind, s, r->maxDoc());
    }
};
}

F genFilter(Case& c, const QIndex& ix, int depth, bool caching) {
    F r;
    QCfg g;
    g.sloppyRepeats = false;
    g.fields = {L"x", L"y", L"z", L"k"};
    auto val = [&](int d, const wchar_t* f) -> std::wstring { return ix.docs[d].first(f); };
    (void)val;
    switch (c.weighted({3, 3, 2, 2, 2, 2, 2, caching && depth > 0 ? 6 : 0})) {
        case 0: {
            Q q = genQ(c, g, depth);
            if (stackedSloppy(ix, q)) { q = Q(); q.kind = Q_ALL; ++c.excluded; }
            r.f = newLucene<QueryWrapperFilter>(build(q));
            r.ok = [q](const QIndex& ix, int d) { return matches(ix, q, d); };
            r.desc = "query " + describe(q);
            break;
        }
        case 1: {
            std::set<std::wstring> ids;
            for (auto& d : ix.docs) if (c.chance(1, 2)) ids.insert(d.id());
            int kind = (int)c.draw(6);
            r.f = newLucene<IdFilter>(kind, ids);
            r.ok = [ids](const QIndex& ix, int d) { return ids.count(ix.docs[d].id()) != 0; };
            r.desc = "ids(set kind " + str(kind) + ")";
            for (auto& i : ids) r.desc += " " + narrow(i);
            break;
        }
        case 2: {
            Q q;
            q.kind = Q_PREFIX;
            q.field = c.pick(g.fields);
            q.text = c.pick(g.words).substr(0, 1);
            r.f = newLucene<PrefixFilter>(newLucene<Term>(q.field, q.text));
            r.ok = [q](const QIndex& ix, int d) { return matches(ix, q, d); };
            r.desc = "prefix " + describe(q);
            break;
        }
        case 3: {
            Q q;
            q.kind = Q_RANGE;
            q.field = c.pick(g.fields);
            q.text = c.pick(g.words);
            q.text2 = c.pick(g.words);
            q.incLo = c.chance(1, 2);
            q.incHi = c.chance(1, 2);
            r.f = newLucene<TermRangeFilter>(q.field, q.text, q.text2, q.incLo, q.incHi);
            r.ok = [q](const QIndex& ix, int d) { return matches(ix, q, d); };
            r.desc = "range " + describe(q);
            break;
        }
        case 4: {
            std::set<std::wstring> t;
            Collection<String> ts = Collection<String>::newInstance();
            while (t.size() < 5 && c.more(2)) { auto w = c.chance(1, 8) ? std::wstring(L"zzz") : c.pick(g.words); if (t.insert(w).second) ts.add(w); }
            r.f = newLucene<FieldCacheTermsFilter>(L"k", ts);
            r.ok = [t](const QIndex& ix, int d) { auto v = ix.docs[d].first(L"k"); return !v.empty() && t.count(v); };
            r.desc = "field cache terms k:";
            for (auto& x : t) r.desc += " " + narrow(x);
            break;
        }
        case 5: {
            bool il = c.chance(1, 2), ih = c.chance(1, 2);
            if (c.chance(1, 2)) {
                std::wstring lo = c.pick(g.words), hi = c.pick(g.words);
                if (c.chance(3, 4) && hi < lo) std::swap(lo, hi);
                r.f = FieldCacheRangeFilter::newStringRange(L"k", lo, hi, il, ih);
                r.ok = [=](const QIndex& ix, int d) { auto v = ix.docs[d].first(L"k"); return !v.empty() && (il ? v >= lo : v > lo) && (ih ? v <= hi : v < hi); };
                r.desc = "field cache range k:" + narrow(lo) + (il ? "<=" : "<") + (ih ? "<=" : "<") + narrow(hi);
            } else {
                int lo = c.range(-6, 21), hi = c.chance(3, 4) ? c.range(lo, 21) : c.range(-6, 21);
                bool lng = c.chance(1, 2);
                if (c.chance(1, 10)) { lo = INT_MIN; }
                if (c.chance(1, 10)) { hi = INT_MAX; }
                r.f = lng ? FieldCacheRangeFilter::newLongRange(L"i", (int64_t)lo, (int64_t)hi, il, ih) : FieldCacheRangeFilter::newIntRange(L"i", lo, hi, il, ih);
                r.ok = [=](const QIndex& ix, int d) {
                    std::wstring t = ix.docs[d].first(L"i");
                    int v = t.empty() ? 0 : std::stoi(t);
                    return (il ? v >= lo : v > lo) && (ih ? v <= hi : v < hi);
                };
                r.desc = "field cache range i:" + str(lo) + (il ? "<=" : "<") + (ih ? "<=" : "<") + str(hi);
            }
            break;
        }
        case 6: {
            Q q = genSpan(c, g, 2, c.pick(g.fields));
            SpanFilterPtr sf = newLucene<SpanQueryFilter>(buildSpan(q));
            r.desc = "spans " + describe(q);
            if (caching && c.chance(1, 2)) { sf = newLucene<CachingSpanFilter>(sf, c.chance(1, 2) ? CachingWrapperFilter::DELETES_RECACHE : CachingWrapperFilter::DELETES_IGNORE); r.desc = "cached " + r.desc; }
            r.f = sf;
            r.ok = [q](const QIndex& ix, int d) { return matches(ix, q, d); };
            break;
        }
        default: {
            F in = genFilter(c, ix, depth - 1, caching);
            static const CachingWrapperFilter::DeletesMode M[] = {CachingWrapperFilter::DELETES_IGNORE, CachingWrapperFilter::DELETES_RECACHE, CachingWrapperFilter::DELETES_DYNAMIC};
            int m = (int)c.draw(3);
            r.f = newLucene<CachingWrapperFilter>(in.f, M[m]);
            r.ok = in.ok;
            r.desc = "cached(mode " + str(m) + ") " + in.desc;
        }
    }
    return r;
}

}  // namespace vf
