// C23: bit sets, integer lists, heaps and caches against set/map models
#include "LuceneInc.h"
#include "engine.h"
#include "BitVector.h"
#include "BitSet.h"
#include "OpenBitSet.h"
#include "OpenBitSetDISI.h"
#include "OpenBitSetIterator.h"
#include "SortedVIntList.h"
#include "DocIdBitSet.h"
#include "BitUtil.h"
#include "MiscUtils.h"
#include "PriorityQueue.h"
#include "SimpleLRUCache.h"
#include "RAMDirectory.h"
#include "DocIdSetIterator.h"
#include "FieldCacheSanityChecker.h"
#include "MapOfSets.h"
#include <set>
#include <map>
#include <list>
using namespace Lucene;
using namespace vf;

typedef std::set<int> Model;

// an index biased to word / byte boundaries
static int idx(Case& c, int n) {
    if (n <= 1) return 0;
    switch (c.draw(3)) {
        case 0: return (int)c.draw(n);
        case 1: { int k = (int)c.draw(n / 64 + 1) * 64 + (int)c.draw(4) - 2; return std::max(0, std::min(n - 1, k)); }
        default: { int k = (int)c.draw(n / 8 + 1) * 8 + (int)c.draw(3) - 1; return std::max(0, std::min(n - 1, k)); }
    }
}

static void checkIterator(Case& c, const DocIdSetIteratorPtr& it, const Model& m, const char* what) {
    // mixture of next and advance
    int mode = (int)c.draw(3);
    auto e = m.begin();
    int cur = -1;
    for (int steps = 0; steps < 20000; ++steps) {
        bool adv = mode == 1 || (mode == 2 && c.draw(2));
        int got, want;
        if (adv) {
            int target = cur + 1 + c.size(c.draw(4) == 0 ? 700 : 9);
            e = m.lower_bound(target);
            got = it->advance(target);
            want = e == m.end() ? DocIdSetIterator::NO_MORE_DOCS : *e;
            REQUIRE_EQ(got, want, what << " advance(" << target << ")");
        } else {
            e = m.upper_bound(cur);
            got = it->nextDoc();
            want = e == m.end() ? DocIdSetIterator::NO_MORE_DOCS : *e;
            REQUIRE_EQ(got, want, what << " nextDoc after " << cur);
        }
        REQUIRE_EQ(it->docID(), want, what << " docID");
        if (want == DocIdSetIterator::NO_MORE_DOCS) return;
        cur = want;
    }
}

VF_SUB(bitVector, 4000, 60000) {
    int n = c.chance(1, 4) ? c.range(1, 6000) : c.range(1, 300);
    c.note("BitVector n=" + str(n));
    BitVectorPtr b = newLucene<BitVector>(n);
    Model m;
    int muts = 0, ops = 1 + c.size(40);
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    auto full = [&](const BitVectorPtr& v, const Model& mm, const char* what) {
        REQUIRE_EQ(v->size(), n, what << " size");
        REQUIRE_EQ(v->count(), (int)mm.size(), what << " count");
        REQUIRE_EQ(v->getRecomputedCount(), (int)mm.size(), what << " recomputed count");
        for (int i = 0; i < n; ++i) REQUIRE_EQ(v->get(i), mm.count(i) > 0, what << " get " << i);
    };
    for (int o = 0; o < ops; ++o) {
        switch (c.draw(9)) {
            case 0: case 1: case 2: { int i = idx(c, n); c.note("set " + str(i)); b->set(i); m.insert(i); ++muts; break; }
            case 3: { int i = idx(c, n); c.note("clear " + str(i)); b->clear(i); m.erase(i); ++muts; break; }
            case 4: { int i = idx(c, n); c.note("getAndSet " + str(i)); bool was = b->getAndSet(i); REQUIRE_EQ(was, m.count(i) > 0, "getAndSet " << i); m.insert(i); ++muts; break; }
            case 5: { c.note("write/read"); b->write(dir, L"f"); BitVectorPtr r = newLucene<BitVector>(dir, L"f"); full(r, m, "reread"); if (c.draw(2)) b = r; break; }
            case 6: { c.note("clone"); BitVectorPtr k = boost::dynamic_pointer_cast<BitVector>(b->clone()); int i = idx(c, n); if (c.draw(2)) k->set(i); else k->clear(i); full(b, m, "original after changing clone"); break; }
            case 7: { int s = (int)c.draw(n), e = s + (int)c.draw(n - s + 1); c.note("subset " + str(s) + " " + str(e));
                      BitVectorPtr k = b->subset(s, e); REQUIRE_EQ(k->size(), e - s, "subset size"); int cnt = 0;
                      for (int i = s; i < e; ++i) { REQUIRE_EQ(k->get(i - s), m.count(i) > 0, "subset get " << i); cnt += m.count(i); }
                      REQUIRE_EQ(k->count(), cnt, "subset count"); break; }
            default: { int s = (int)c.draw(n), k = c.size(200); c.note("set run " + str(s) + "+" + str(k)); for (int i = s; i < std::min(n, s + k); ++i) { b->set(i); m.insert(i); } ++muts; break; }
        }
        if (c.draw(4) == 0) REQUIRE_EQ(b->count(), (int)m.size(), "count");
    }
    full(b, m, "final");
    c.label(m.size() * 10 < (size_t)n ? "sparse" : "dense");
    c.nontrivial(muts >= 3 && !m.empty());
}

static bool throwsIOOB(std::function<void()> f) {
    try { f(); } catch (IndexOutOfBoundsException&) { return true; }
    return false;
}

// Writes at or beyond the size are refused and change nothing.
VF_SUB(bitVectorBounds, 400, 2000) {
    int n = c.range(1, 200);
    BitVectorPtr b = newLucene<BitVector>(n);
    std::set<int> m;
    for (int k = c.size(20); k > 0; --k) { int x = (int)c.draw(n); b->set(x); m.insert(x); }
    int i = n + c.size(50);
    int op = (int)c.draw(3);
    bool t = throwsIOOB([&] { if (op == 0) b->set(i); else if (op == 1) b->clear(i); else b->getAndSet(i); });
    REQUIRE(t, "operation " << op << " on bit " << i << " of a vector of size " << n << " accepted");
    for (int k = 0; k < n; ++k) REQUIRE_EQ(b->get(k), m.count(k) > 0, "bit " << k << " after a refused write");
    REQUIRE_EQ(b->count(), (int)m.size(), "count after a refused write");
    c.nontrivial(!m.empty());
}

VF_SUB(openBitSet, 6000, 80000) {
    int n = c.chance(1, 4) ? c.range(1, 5000) : c.range(1, 260);
    OpenBitSetPtr b = newLucene<OpenBitSet>((int64_t)(c.draw(3) ? n : 1));
    Model m;
    int muts = 0, ops = 1 + c.size(40);
    c.note("OpenBitSet n=" + str(n));
    std::vector<std::pair<OpenBitSetPtr, Model> > others;
    auto full = [&](const OpenBitSetPtr& v, const Model& mm, const char* what) {
        REQUIRE_EQ(v->cardinality(), (int64_t)mm.size(), what << " cardinality");
        REQUIRE_EQ(v->isEmpty(), mm.empty(), what << " isEmpty");
        for (int i = 0; i < n + 70; ++i) {
            bool w = mm.count(i) > 0;
            REQUIRE_EQ(v->get(i), w, what << " get32 " << i);
            REQUIRE_EQ(v->get((int64_t)i), w, what << " get64 " << i);
        }
        for (int k = 0; k < 6; ++k) {
            int i = (int)c.draw(n + 70);
            auto e = mm.lower_bound(i);
            REQUIRE_EQ(v->nextSetBit(i), e == mm.end() ? -1 : *e, what << " nextSetBit " << i);
            REQUIRE_EQ(v->nextSetBit((int64_t)i), (int64_t)(e == mm.end() ? -1 : *e), what << " nextSetBit64 " << i);
        }
    };
    auto range = [&](int& s, int& e) { s = idx(c, n); e = c.draw(3) ? s + (int)c.draw(n - s + 1) : idx(c, n + 1); };
    for (int o = 0; o < ops; ++o) {
        int cap = (int)b->capacity();
        switch (c.draw(16)) {
            case 0: case 1: { int i = idx(c, n); c.note("set " + str(i)); b->set((int64_t)i); m.insert(i); ++muts; break; }
            case 2: { int i = idx(c, n); c.note("clear " + str(i)); b->clear((int64_t)i); m.erase(i); ++muts; break; }
            case 3: { int i = idx(c, n); if (i >= cap) break; c.note("fastSet/fastClear " + str(i)); if (c.draw(2)) { if (c.draw(2)) b->fastSet(i); else b->fastSet((int64_t)i); m.insert(i); } else { if (c.draw(2)) b->fastClear(i); else b->fastClear((int64_t)i); m.erase(i); } b->setNumWords(std::max(b->getNumWords(), std::min((int)b->getBits().size(), (i >> 6) + 1))); ++muts; break; }
            case 4: { int s, e; range(s, e); c.note("set range " + str(s) + " " + str(e)); b->set((int64_t)s, (int64_t)e); for (int i = s; i < e; ++i) m.insert(i); ++muts; break; }
            case 5: { int s, e; range(s, e); c.note("clear range " + str(s) + " " + str(e)); if (c.draw(2)) b->clear(s, e); else b->clear((int64_t)s, (int64_t)e); for (int i = s; i < e; ++i) m.erase(i); ++muts; break; }
            case 6: { int s, e; range(s, e); c.note("flip range " + str(s) + " " + str(e)); b->flip((int64_t)s, (int64_t)e); for (int i = s; i < e; ++i) if (!m.erase(i)) m.insert(i); ++muts; break; }
            case 7: { int i = idx(c, n); c.note("flip " + str(i)); b->flip((int64_t)i); if (!m.erase(i)) m.insert(i); ++muts; break; }
            case 8: { int i = idx(c, n); if (i >= 64 * b->getNumWords()) break; c.note("getAndSet/flipAndGet " + str(i)); bool was = m.count(i);
                      switch (c.draw(4)) { case 0: REQUIRE_EQ(b->getAndSet(i), was, "getAndSet"); m.insert(i); break; case 1: REQUIRE_EQ(b->getAndSet((int64_t)i), was, "getAndSet64"); m.insert(i); break;
                        case 2: REQUIRE_EQ(b->flipAndGet(i), !was, "flipAndGet"); if (was) m.erase(i); else m.insert(i); break;
                        default: REQUIRE_EQ(b->flipAndGet((int64_t)i), !was, "flipAndGet64"); if (was) m.erase(i); else m.insert(i); break; }
                      ++muts; break; }
            case 9: { c.note("push clone"); others.push_back(std::make_pair(boost::dynamic_pointer_cast<OpenBitSet>(b->clone()), m)); break; }
            case 10: { if (others.empty()) { OpenBitSetPtr x = newLucene<OpenBitSet>((int64_t)1); Model xm; int k = c.size(20); for (int i = 0; i < k; ++i) { int j = idx(c, n); x->set((int64_t)j); xm.insert(j); } others.push_back(std::make_pair(x, xm)); }
                      auto& q = others[(size_t)c.draw(others.size())];
                      Model r;
                      int op = (int)c.draw(8);
                      c.note("algebra " + str(op));
                      switch (op) {
                          case 0: case 1: for (int i : m) if (q.second.count(i)) r.insert(i); if (op) b->_and(q.first); else b->intersect(q.first); break;
                          case 2: case 3: r = m; r.insert(q.second.begin(), q.second.end()); if (op == 3) b->_or(q.first); else b->_union(q.first); break;
                          case 4: case 5: for (int i : m) if (!q.second.count(i)) r.insert(i); if (op == 5) b->andNot(q.first); else b->remove(q.first); break;
                          default: for (int i : m) if (!q.second.count(i)) r.insert(i); for (int i : q.second) if (!m.count(i)) r.insert(i); b->_xor(q.first); break;
                      }
                      m = r; ++muts; break; }
            case 11: { if (others.empty()) break; auto& q = others[(size_t)c.draw(others.size())]; c.note("counts");
                      int64_t in = 0, un = m.size(), an = 0; for (int i : q.second) { if (m.count(i)) ++in; else ++un; } an = (int64_t)m.size() - in;
                      REQUIRE_EQ(OpenBitSet::intersectionCount(b, q.first), in, "intersectionCount"); REQUIRE_EQ(OpenBitSet::unionCount(b, q.first), un, "unionCount");
                      REQUIRE_EQ(OpenBitSet::andNotCount(b, q.first), an, "andNotCount"); REQUIRE_EQ(OpenBitSet::xorCount(b, q.first), un - in, "xorCount");
                      REQUIRE_EQ(b->intersects(q.first), in > 0, "intersects");
                      REQUIRE_EQ(b->equals(q.first), m == q.second, "equals"); if (m == q.second) REQUIRE_EQ(b->hashCode(), q.first->hashCode(), "hash of equal sets");
                      break; }
            case 12: { c.note("trim"); b->trimTrailingZeros(); break; }
            case 13: { int64_t k = (int64_t)idx(c, n + 200); c.note("ensureCapacity " + str(k)); b->ensureCapacity(k); break; }
            case 14: { c.note("iterate"); checkIterator(c, b->iterator(), m, "OpenBitSet iterator"); checkIterator(c, newLucene<OpenBitSetIterator>(b->getBits(), b->getNumWords()), m, "OpenBitSetIterator(words)"); break; }
            default: { int i = idx(c, n); if (i < (int)b->size()) REQUIRE_EQ(b->getBit(i), (int)m.count(i), "getBit"); if (i < (int)b->size()) { REQUIRE_EQ(b->fastGet(i), m.count(i) > 0, "fastGet"); REQUIRE_EQ(b->fastGet((int64_t)i), m.count(i) > 0, "fastGet64"); } break; }
        }
        if (c.draw(4) == 0) REQUIRE_EQ(b->cardinality(), (int64_t)m.size(), "cardinality");
    }
    full(b, m, "final");
    checkIterator(c, b->iterator(), m, "final iterator");
    for (auto& q : others) full(q.first, q.second, "other set unchanged");
    c.nontrivial(muts >= 3 && !m.empty());
}

VF_SUB(openBitSetDISI, 2500, 30000) {
    int n = c.range(1, 400);
    OpenBitSetDISIPtr b = newLucene<OpenBitSetDISI>(n);
    Model m;
    int ops = 1 + c.size(8);
    for (int o = 0; o < ops; ++o) {
        Model q;
        int k = c.size(60);
        for (int i = 0; i < k; ++i) q.insert(idx(c, n));
        OpenBitSetPtr x = newLucene<OpenBitSet>((int64_t)n);
        for (int i : q) x->set((int64_t)i);
        DocIdSetIteratorPtr it;
        Collection<int32_t> ints = Collection<int32_t>::newInstance();
        for (int i : q) ints.add(i);
        if (c.draw(2) && !q.empty()) it = newLucene<SortedVIntList>(ints)->iterator(); else it = x->iterator();
        Model r;
        int op = (int)c.draw(4);
        c.note("inPlace op " + str(op) + " with " + str(q.size()));
        switch (op) {
            case 0: r = m; r.insert(q.begin(), q.end()); b->inPlaceOr(it); break;
            case 1: for (int i : m) if (q.count(i)) r.insert(i); b->inPlaceAnd(it); break;
            case 2: for (int i : m) if (!q.count(i)) r.insert(i); b->inPlaceNot(it); break;
            default: for (int i : m) if (!q.count(i)) r.insert(i); for (int i : q) if (!m.count(i)) r.insert(i); b->inPlaceXor(it); break;
        }
        m = r;
        REQUIRE_EQ(b->cardinality(), (int64_t)m.size(), "cardinality after op " << op);
        for (int i = 0; i < n; ++i) REQUIRE_EQ(b->get(i), m.count(i) > 0, "bit " << i << " after op " << op);
    }
    c.nontrivial(ops >= 2 && !m.empty());
}

VF_SUB(bitSet, 5000, 60000) {
    uint32_t n = c.chance(1, 4) ? c.range(1, 3000) : c.range(1, 200);
    BitSetPtr b = newLucene<BitSet>(c.draw(3) ? n : 0);
    Model m;
    int muts = 0, ops = 1 + c.size(40);
    BitSetPtr other = newLucene<BitSet>((uint32_t)c.draw(n + 1));
    Model om;
    c.note("BitSet n=" + str(n));
    auto range = [&](uint32_t& s, uint32_t& e) { s = idx(c, n); e = s + (uint32_t)c.draw(n - s + 1); };
    for (int o = 0; o < ops; ++o) {
        uint32_t s, e;
        switch (c.draw(15)) {
            case 0: case 1: s = idx(c, n); c.note("set " + str(s)); b->set(s); m.insert(s); ++muts; break;
            case 2: s = idx(c, n); c.note("clear " + str(s)); b->clear(s); m.erase(s); ++muts; break;
            case 3: { s = idx(c, n); bool v = c.draw(2); c.note("set " + str(s) + "=" + str(v)); b->set(s, v); if (v) m.insert(s); else m.erase(s); ++muts; break; }
            case 4: range(s, e); c.note("set " + str(s) + "," + str(e)); b->set(s, e); for (uint32_t i = s; i < e; ++i) m.insert(i); ++muts; break;
            case 5: range(s, e); c.note("clear " + str(s) + "," + str(e)); b->clear(s, e); for (uint32_t i = s; i < e; ++i) m.erase(i); ++muts; break;
            case 6: { range(s, e); bool v = c.draw(2); c.note("set " + str(s) + "," + str(e) + "=" + str(v)); b->set(s, e, v); for (uint32_t i = s; i < e; ++i) if (v) m.insert(i); else m.erase(i); ++muts; break; }
            case 7: s = idx(c, n); c.note("flip " + str(s)); b->flip(s); if (!m.erase(s)) m.insert(s); ++muts; break;
            case 8: range(s, e); c.note("flip " + str(s) + "," + str(e)); b->flip(s, e); for (uint32_t i = s; i < e; ++i) if (!m.erase(i)) m.insert(i); ++muts; break;
            case 9: { s = idx(c, n); other->set(s); om.insert(s); break; }
            case 10: { int op = (int)c.draw(4); c.note("algebra " + str(op)); Model r;
                switch (op) {
                    case 0: for (int i : m) if (om.count(i)) r.insert(i); b->_and(other); break;
                    case 1: r = m; r.insert(om.begin(), om.end()); b->_or(other); break;
                    case 2: for (int i : m) if (!om.count(i)) r.insert(i); b->andNot(other); break;
                    default: for (int i : m) if (!om.count(i)) r.insert(i); for (int i : om) if (!m.count(i)) r.insert(i); b->_xor(other); break;
                } m = r; ++muts; break; }
            case 11: { bool in = false; for (int i : om) in |= m.count(i) > 0; REQUIRE_EQ(b->intersectsBitSet(other), in, "intersects"); break; }
            case 12: { BitSetPtr k = boost::dynamic_pointer_cast<BitSet>(b->clone()); REQUIRE(b->equals(k), "clone not equal"); REQUIRE_EQ(k->hashCode(), b->hashCode(), "clone hash"); k->flip((uint32_t)idx(c, n)); REQUIRE(!b->equals(k), "equal after flip of a clone's bit"); break; }
            case 13: { DocIdBitSetPtr d = newLucene<DocIdBitSet>(b); checkIterator(c, d->iterator(), m, "DocIdBitSet iterator"); break; }
            default: { s = idx(c, n); if (m.count(s)) { b->fastClear(s); m.erase(s); if (c.draw(2)) { b->fastSet(s); m.insert(s); } if (c.draw(2)) { b->fastFlip(s); if (!m.erase(s)) m.insert(s); } ++muts; } break; }
        }
        REQUIRE_EQ(b->cardinality(), (uint32_t)m.size(), "cardinality");
        REQUIRE_EQ(b->isEmpty(), m.empty(), "isEmpty");
    }
    for (uint32_t i = 0; i < n + 20; ++i) {
        REQUIRE_EQ(b->get(i), m.count(i) > 0, "get " << i);
        auto e = m.lower_bound(i);
        if (i < n && c.draw(8) == 0) REQUIRE_EQ(b->nextSetBit(i), e == m.end() ? -1 : *e, "nextSetBit " << i);
    }
    c.nontrivial(muts >= 3 && !m.empty());
}

VF_SUB(sortedVIntList, 4000, 40000) {
    Model m;
    int n = c.size(60);
    int64_t cur = -1;
    for (int i = 0; i < n; ++i) {
        int64_t gap = 1;
        switch (c.draw(5)) { case 0: gap = 1; break; case 1: gap = 1 + c.draw(10); break; case 2: gap = 126 + c.draw(6); break; case 3: gap = 16382 + c.draw(5); break; default: gap = 1 + c.draw(3000000); }
        cur += gap;
        if (cur > 2000000000) break;
        m.insert((int)cur);
    }
    Collection<int32_t> v = Collection<int32_t>::newInstance();
    for (int i : m) v.add(i);
    int how = (int)c.draw(4);
    if (!m.empty() && *m.rbegin() > 100000 && (how == 1 || how == 2)) how = 0;
    SortedVIntListPtr l;
    c.note("ints " + str(m.size()) + " via " + str(how));
    if (how == 0) l = newLucene<SortedVIntList>(v);
    else if (how == 1) { BitSetPtr b = newLucene<BitSet>((uint32_t)(m.empty() ? 0 : *m.rbegin() + 1)); for (int i : m) b->set((uint32_t)i); l = newLucene<SortedVIntList>(b); }
    else if (how == 2) { OpenBitSetPtr b = newLucene<OpenBitSet>((int64_t)1); for (int i : m) b->set((int64_t)i); l = newLucene<SortedVIntList>(b); }
    else { SortedVIntListPtr a = newLucene<SortedVIntList>(v); l = newLucene<SortedVIntList>(a->iterator()); }
    REQUIRE_EQ(l->size(), (int)m.size(), "size");
    checkIterator(c, l->iterator(), m, "SortedVIntList");
    checkIterator(c, l->iterator(), m, "SortedVIntList again");
    if (m.size() >= 2) {
        Collection<int32_t> bad = Collection<int32_t>::newInstance();
        for (int i : m) bad.add(i);
        int k = (int)c.draw(m.size() - 1);
        std::swap(bad[k], bad[k + 1]);
        bool t = false;
        try { newLucene<SortedVIntList>(bad); } catch (IllegalArgumentException&) { t = true; }
        REQUIRE(t, "unsorted input accepted");
    }
    c.nontrivial(m.size() >= 3);
}

VF_SUB(bitUtil, 6000, 60000) {
    int64_t x = (int64_t)c.bits64();
    c.note("x=" + str(x));
    uint64_t u = (uint64_t)x;
    REQUIRE_EQ(BitUtil::pop(x), (int32_t)__builtin_popcountll(u), "pop " << x);
    if (x) {
        int z = __builtin_ctzll(u);
        REQUIRE_EQ(BitUtil::ntz(x), z, "ntz " << x);
        REQUIRE_EQ(BitUtil::ntz2(x), z, "ntz2 " << x);
        REQUIRE_EQ(BitUtil::ntz3(x), z, "ntz3 " << x);
        int32_t i = (int32_t)x;
        if (i) REQUIRE_EQ(BitUtil::ntz(i), (int32_t)__builtin_ctz((uint32_t)i), "ntz32 " << i);
    }
    if (x > 0 && x <= ((int64_t)1 << 62)) {
        REQUIRE_EQ(BitUtil::isPowerOfTwo(x), (x & (x - 1)) == 0, "isPowerOfTwo64 " << x);
        int64_t p = 1;
        while (p < x) p <<= 1;
        REQUIRE_EQ(BitUtil::nextHighestPowerOfTwo(x), p, "nextHighestPowerOfTwo64 " << x);
        if (x <= (1 << 30)) { REQUIRE_EQ(BitUtil::isPowerOfTwo((int32_t)x), (x & (x - 1)) == 0, "isPowerOfTwo32"); REQUIRE_EQ(BitUtil::nextHighestPowerOfTwo((int32_t)x), (int32_t)p, "nextHighestPowerOfTwo32"); }
    }
    int n = c.size(40), off = n ? (int)c.draw(n) : 0, k = n - off;
    std::vector<int64_t> a(n + 1), b(n + 1);
    for (int i = 0; i < n; ++i) { a[i] = (int64_t)c.bits64(); b[i] = (int64_t)c.bits64(); }
    int64_t pa = 0, pi = 0, pu = 0, pn = 0, px = 0;
    for (int i = off; i < off + k; ++i) { uint64_t p = a[i], q = b[i]; pa += __builtin_popcountll(p); pi += __builtin_popcountll(p & q); pu += __builtin_popcountll(p | q); pn += __builtin_popcountll(p & ~q); px += __builtin_popcountll(p ^ q); }
    REQUIRE_EQ(BitUtil::pop_array(a.data(), off, k), pa, "pop_array " << off << "," << k);
    REQUIRE_EQ(BitUtil::pop_intersect(a.data(), b.data(), off, k), pi, "pop_intersect");
    REQUIRE_EQ(BitUtil::pop_union(a.data(), b.data(), off, k), pu, "pop_union");
    REQUIRE_EQ(BitUtil::pop_andnot(a.data(), b.data(), off, k), pn, "pop_andnot");
    REQUIRE_EQ(BitUtil::pop_xor(a.data(), b.data(), off, k), px, "pop_xor");
    c.nontrivial(k >= 1);
}

struct IntQ : public PriorityQueue<int32_t> { IntQ(int32_t n) : PriorityQueue<int32_t>(n) {} };

VF_SUB(priorityQueue, 5000, 60000) {
    int cap = c.range(0, 40);
    boost::shared_ptr<IntQ> q = newLucene<IntQ>(cap);
    std::multiset<int> m;
    int ops = 1 + c.size(80), muts = 0;
    c.note("PriorityQueue cap=" + str(cap));
    for (int o = 0; o < ops; ++o) {
        int v = c.range(1, c.draw(2) ? 8 : 1000);
        switch (c.draw(5)) {
            case 0: if ((int)m.size() < cap) { c.note("add " + str(v)); REQUIRE_EQ(q->add(v), std::min(v, m.empty() ? v : *m.begin()), "add returns least"); m.insert(v); ++muts; }
                    break;
            case 1: case 2: { c.note("addOverflow " + str(v)); int r = q->addOverflow(v);
                if ((int)m.size() < cap) { m.insert(v); REQUIRE_EQ(r, 0, "addOverflow into room"); }
                else if (cap == 0) REQUIRE_EQ(r, v, "addOverflow cap 0");
                else { int least = *m.begin(); if (v >= least) { m.erase(m.begin()); m.insert(v); REQUIRE_EQ(r, least, "addOverflow displaced"); } else REQUIRE_EQ(r, v, "addOverflow rejected"); }
                ++muts; break; }
            case 3: { c.note("pop"); int r = q->pop(); if (m.empty()) REQUIRE_EQ(r, 0, "pop empty"); else { REQUIRE_EQ(r, *m.begin(), "pop"); m.erase(m.begin()); } ++muts; break; }
            default: if (c.draw(12) == 0) { c.note("clear"); q->clear(); m.clear(); }
        }
        REQUIRE_EQ(q->size(), (int)m.size(), "size");
        REQUIRE_EQ(q->empty(), m.empty(), "empty");
        if (!m.empty()) REQUIRE_EQ(q->top(), *m.begin(), "top");
    }
    bool had = !m.empty();
    while (!m.empty()) { REQUIRE_EQ(q->pop(), *m.begin(), "drain"); m.erase(m.begin()); }
    c.nontrivial(muts >= 3 && had);
}

VF_SUB(lruCache, 4000, 40000) {
    typedef SimpleLRUCache<int32_t, int32_t, boost::hash<int32_t>, std::equal_to<int32_t> > Cache;
    int cap = c.range(1, 12);
    boost::shared_ptr<Cache> q = newLucene<Cache>(cap);
    std::list<std::pair<int, int> > m;  // most recent first
    int ops = 1 + c.size(80), muts = 0;
    c.note("LRU cap=" + str(cap));
    auto find = [&](int k) { auto i = m.begin(); while (i != m.end() && i->first != k) ++i; return i; };
    for (int o = 0; o < ops; ++o) {
        int k = c.range(1, cap * 2);
        switch (c.draw(3)) {
            case 0: { int v = c.range(1, 1000); c.note("put " + str(k) + "=" + str(v)); auto i = find(k); if (i != m.end()) m.erase(i); m.push_front(std::make_pair(k, v)); if ((int)m.size() > cap) m.pop_back(); q->put(k, v); ++muts; break; }
            case 1: { c.note("get " + str(k)); auto i = find(k); int want = i == m.end() ? 0 : i->second; REQUIRE_EQ(q->get(k), want, "get " << k); if (i != m.end()) { auto p = *i; m.erase(i); m.push_front(p); } break; }
            default: REQUIRE_EQ(q->contains(k), find(k) != m.end(), "contains " << k);
        }
        REQUIRE_EQ(q->size(), (int)m.size(), "size");
    }
    for (int k = 1; k <= cap * 2; ++k) REQUIRE_EQ(q->contains(k), find(k) != m.end(), "final contains " << k);
    c.nontrivial(muts >= 3);
}

VF_SUB(mapOfSets, 600, 5000) {
    typedef MapOfSets<int32_t, boost::hash<int32_t>, std::equal_to<int32_t>, int32_t, boost::hash<int32_t>, std::equal_to<int32_t> > M;
    M mm(M::map_type::newInstance());
    std::map<int, std::set<int> > m;
    int ops = 1 + c.size(30);
    for (int o = 0; o < ops; ++o) {
        int k = c.range(0, 4);
        if (c.draw(2)) { int v = c.range(0, 9); m[k].insert(v); REQUIRE_EQ(mm.put(k, v), (int)m[k].size(), "put size"); }
        else { M::set_type s = M::set_type::newInstance(); int n = c.size(5); for (int i = 0; i < n; ++i) { int v = c.range(0, 9); s.add(v); m[k].insert(v); } m[k]; REQUIRE_EQ(mm.putAll(k, s), (int)m[k].size(), "putAll size"); }
    }
    M::map_type got = mm.getMap();
    REQUIRE_EQ(got.size(), (int)m.size(), "keys");
    for (auto& e : m) for (int v = 0; v < 10; ++v) REQUIRE_EQ(got.get(e.first).contains(v), e.second.count(v) > 0, "member");
    c.nontrivial(ops >= 3);
}
