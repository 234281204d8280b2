// C20: reusing, caching, tee-ing or sharing an analyzer never changes its tokens.
#include "anal.h"
#include "CachingTokenFilter.h"
#include "TeeSinkTokenFilter.h"
#include "LowerCaseFilter.h"
#include "PerFieldAnalyzerWrapper.h"
#include "Fieldable.h"
#include "Token.h"
#include <thread>
#include <atomic>

using namespace vf;

namespace {

struct AKind { std::string name; std::function<AnalyzerPtr()> make; bool words; };

AKind genAnalyzer(Case& c) {
    if (c.chance(1, 2)) { auto& k = c.pick(analyzers()); return {k.name, k.make, k.words}; }
    int t = (int)c.range(0, tokenizers() - 1);
    std::vector<int> f;
    int n = (int)c.range(0, 3);
    for (int i = 0; i < n; ++i) f.push_back((int)c.range(0, filters() - 1));
    std::string name = tokenizerName(t);
    for (int i : f) name += " > " + filterName(i);
    return {name, [t, f] { return chain(t, f); }, false};
}
ReaderPtr plain(const Str& s) { return newLucene<StringReader>(s); }
// what a new analyzer, used once, says
Analysed fresh(const AKind& a, const Str& text) { return consume(a.make()->tokenStream(L"f", plain(text))); }

std::string cut(const std::string& s) { return s.size() > 600 ? s.substr(0, 600) + "..." : s; }
#define SAME(got, want, what) do { std::string g_ = show(got), w_ = show(want); size_t d_ = 0; while (d_ < g_.size() && d_ < w_.size() && g_[d_] == w_[d_]) ++d_; d_ = d_ > 60 ? d_ - 60 : 0; \
    REQUIRE(g_ == w_, what << ": got ..." << cut(g_.substr(std::min(d_, g_.size()))) << " expected ..." << cut(w_.substr(std::min(d_, w_.size())))); } while (0)

class OddLength : public SinkFilter {
public:
    OddLength(int k) : k(k) {}
    virtual ~OddLength() {}
    LUCENE_CLASS(OddLength);
    int k;
    virtual bool accept(const AttributeSourcePtr& s) { return (int)s->getAttribute<TermAttribute>()->termLength() % 2 == k; }
};
class GapAnalyzer : public Analyzer {
public:
    GapAnalyzer(const AnalyzerPtr& a, int gap) : a(a), gap(gap) {}
    virtual ~GapAnalyzer() {}
    LUCENE_CLASS(GapAnalyzer);
    AnalyzerPtr a;
    int gap;
    virtual TokenStreamPtr tokenStream(const String& f, const ReaderPtr& r) { return a->tokenStream(f, r); }
    virtual TokenStreamPtr reusableTokenStream(const String& f, const ReaderPtr& r) { return a->reusableTokenStream(f, r); }
    virtual int32_t getPositionIncrementGap(const String&) { return gap; }
    virtual int32_t getOffsetGap(const FieldablePtr&) { return gap + 1; }
};

}

// One analyzer instance, a history of texts: read to the end, abandoned, failing, handed over in pieces.
VF_SUB(history, 12000, 600000) {
    AKind a = genAnalyzer(c);
    c.note(a.name);
    AnalyzerPtr an = a.make();
    int n = (int)c.range(2, 6), used = 0; bool odd = false;
    for (int i = 0; i < n; ++i) {
        Str text = genTextFor(c, (int)c.range(0, 6));
        int how = c.weighted({5, 2, 2, 1});
        int chunk = c.chance(1, 3) ? (int)c.range(1, 7) : 1 << 20;
        c.note("text '" + printable(text.size() > 300 ? text.substr(0, 40) + L"..." + text.substr(text.size() - 200) : text) + "'" + (chunk < 10 ? " in pieces of " + str(chunk) : ""));
        if (how == 1) {                      // abandoned after a few tokens
            int k = (int)c.range(0, 3);
            c.note("abandoned after " + str(k));
            consume(an->reusableTokenStream(L"f", newLucene<ChunkReader>(text, chunk, -1)), k, c.chance(1, 2), c.chance(2, 3));
            odd = true;
        } else if (how == 2) {               // the reader fails
            int k = (int)c.range(0, (int64_t)text.size());
            c.note("failing after " + str(k));
            Analysed g = consume(an->reusableTokenStream(L"f", newLucene<ChunkReader>(text, chunk, k)), -1, c.chance(1, 2));
            odd = true;
        } else if (how == 3) {               // a separate stream does not disturb the reused one
            SAME(consume(an->tokenStream(L"f", newLucene<ChunkReader>(text, chunk, -1))), fresh(a, text), "new stream of a used analyzer");
        } else {
            Analysed want = fresh(a, text);
            SAME(consume(an->reusableTokenStream(L"f", newLucene<ChunkReader>(text, chunk, -1)), -1, c.chance(3, 4)), want, "reused stream");
            used += want.toks.size() > 1;
        }
    }
    if (used && (odd || used > 1)) c.nontrivial();
}

// What a word becomes does not depend on the words before it.
VF_SUB(words, 12000, 600000) {
    std::vector<int> f;
    int n = (int)c.range(1, 3);
    std::string name;
    for (int i = 0; i < n; ++i) { f.push_back((int)c.range(0, filters() - 1)); name += " > " + filterName(f.back()); }
    c.note("words" + name);
    AnalyzerPtr an = chain(TK_WHITESPACE, f);
    int k = (int)c.range(2, 8);
    Str all;
    Analysed want;
    for (int i = 0; i < k; ++i) {
        Str w = genWordFor(c);
        for (auto& ch : w) if (iswspace((wint_t)ch) || ch == 0xa0 || ch == 0x2007 || ch == 0x202f) ch = L'x';
        if (w.empty()) w = L"q";
        c.note("word '" + printable(w) + "'");
        Analysed one = consume(chain(TK_WHITESPACE, f)->tokenStream(L"f", plain(w)));
        for (auto& t : one.toks) { t.so += (int)all.size(); t.eo += (int)all.size(); t.incr = 0; want.toks.push_back(t); }
        all += w + L" ";
    }
    Analysed got = consume(an->tokenStream(L"f", plain(all)));
    got.end = want.end;
    for (auto& t : got.toks) t.incr = 0;
    SAME(got, want, "the words together");
    if (want.toks.size() > 2) c.nontrivial();
}

// One analyzer, several threads.
VF_SUB(threads, 150, 10000) {
    AKind a = genAnalyzer(c);
    c.note(a.name);
    int nt = (int)c.range(2, 4);
    struct Job { Str text; int chunk; Analysed want; };
    std::vector<std::vector<Job>> jobs(nt);
    size_t toks = 0;
    for (auto& j : jobs) {
        int n = (int)c.range(1, 4);
        for (int i = 0; i < n; ++i) {
            Job x{genTextFor(c, 6), c.chance(1, 3) ? 3 : 1 << 20, {}};
            x.want = fresh(a, x.text);
            c.note("thread " + str(&j - &jobs[0]) + ": '" + printable(x.text.substr(0, 200)) + "'");
            toks += x.want.toks.size();
            j.push_back(x);
        }
    }
    AnalyzerPtr an = a.make();
    int rounds = (int)c.range(1, 3);
    for (int r = 0; r < rounds; ++r) {       // threads end and others begin
        std::vector<std::vector<Analysed>> got(nt);
        std::vector<std::string> err(nt);
        std::atomic<int> ready(0);
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
            ++ready;
            while (ready < nt) std::this_thread::yield();
            try {
                for (auto& j : jobs[t]) got[t].push_back(consume(an->reusableTokenStream(L"f", newLucene<ChunkReader>(j.text, j.chunk, -1))));
            } catch (LuceneException& e) { err[t] = exceptionText(e); }
        });
        for (auto& t : th) t.join();
        for (int t = 0; t < nt; ++t) {
            REQUIRE(err[t].empty(), "thread " << t << " fails: " << err[t]);
            for (size_t i = 0; i < jobs[t].size(); ++i) SAME(got[t][i], jobs[t][i].want, "thread " << t << " text " << i);
        }
    }
    if (toks > 4) c.nontrivial();
}

// Cached streams replay, sinks repeat what the tee saw.
VF_SUB(replay, 12000, 600000) {
    AKind a = genAnalyzer(c);
    Str text = genTextFor(c, 6);
    c.note(a.name + " '" + printable(text.substr(0, 200)) + "'");
    Analysed want = fresh(a, text);
    if (c.chance(1, 2)) {
        CachingTokenFilterPtr f = newLucene<CachingTokenFilter>(a.make()->tokenStream(L"f", plain(text)));
        int n = (int)c.range(1, 4);
        for (int i = 0; i < n; ++i) {
            int k = c.chance(1, 2) ? -1 : (int)c.range(0, 4);
            Analysed w = want;
            if (k >= 0) { w.end = -1; if ((size_t)k < w.toks.size()) w.toks.resize((size_t)k); }
            c.note("read " + str(k));
            SAME(consume(f, k, false), w, "cached stream, pass " << i);
        }
        if (want.toks.size() > 1 && n > 1) c.nontrivial();
        return;
    }
    TeeSinkTokenFilterPtr tee = newLucene<TeeSinkTokenFilter>(a.make()->tokenStream(L"f", plain(text)));
    struct S { SinkTokenStreamPtr s; int odd; Analysed want; };
    std::vector<S> sinks;
    int n = (int)c.range(1, 3);
    for (int i = 0; i < n; ++i) {
        int odd = c.chance(1, 2) ? -1 : (int)c.range(0, 1);
        S s{odd < 0 ? tee->newSinkTokenStream() : tee->newSinkTokenStream(newLucene<OddLength>(odd)), odd, want};
        if (odd >= 0) { s.want.toks.clear(); for (auto& t : want.toks) if ((int)t.term.size() % 2 == odd) s.want.toks.push_back(t); }
        sinks.push_back(s);
    }
    bool lower = c.chance(1, 2);
    TokenStreamPtr user = lower ? TokenStreamPtr(newLucene<LowerCaseFilter>(tee)) : TokenStreamPtr(tee);
    if (c.chance(1, 4)) { tee->reset(); tee->consumeAllTokens(); tee->end(); c.note("consumed at once"); }
    else { Analysed g = consume(user, -1, false); if (!lower) SAME(g, want, "the tee itself"); }
    // a second source for the same sinks
    if (c.chance(1, 3)) {
        Str t2 = genTextFor(c, 4);
        c.note("second text '" + printable(t2.substr(0, 200)) + "'");
        TeeSinkTokenFilterPtr tee2 = newLucene<TeeSinkTokenFilter>(a.make()->tokenStream(L"f", plain(t2)));
        for (auto& s : sinks) tee2->addSinkTokenStream(s.s);
        consume(tee2, -1, false);
        Analysed more = fresh(a, t2);
        for (auto& s : sinks) { for (auto& t : more.toks) if (s.odd < 0 || (int)t.term.size() % 2 == s.odd) s.want.toks.push_back(t); s.want.end = more.end; }
    }
    int reads = (int)c.range(1, 5);
    for (int i = 0; i < reads; ++i) {
        S& s = sinks[(size_t)c.range(0, n - 1)];
        int k = c.chance(1, 2) ? -1 : (int)c.range(0, 4);
        Analysed w = s.want;
        if (k >= 0) { w.end = -1; if ((size_t)k < w.toks.size()) w.toks.resize((size_t)k); }
        c.note("sink " + str(&s - &sinks[0]) + " (" + str(s.odd) + ") read " + str(k));
        SAME(consume(s.s, k, false), w, "sink");
    }
    if (want.toks.size() > 1) c.nontrivial();
}

// Per-field wrapping: each field gets exactly its analyzer, other fields the default.
VF_SUB(perField, 4000, 200000) {
    static const std::vector<Str> names{L"a", L"b", L"ab", L"", L"z"};
    AKind def = genAnalyzer(c);
    std::map<Str, AKind> by;
    std::map<Str, int> gaps;
    MapStringAnalyzer m = MapStringAnalyzer::newInstance();
    int n = (int)c.range(0, 3);
    for (int i = 0; i < n; ++i) { Str f = c.pick(names); AKind s = genAnalyzer(c); by[f] = s; gaps[f] = (int)c.range(0, 100); m.put(f, newLucene<GapAnalyzer>(s.make(), gaps[f])); }
    int dg = (int)c.range(101, 200);
    PerFieldAnalyzerWrapperPtr w = n ? newLucene<PerFieldAnalyzerWrapper>(newLucene<GapAnalyzer>(def.make(), dg), m) : newLucene<PerFieldAnalyzerWrapper>(newLucene<GapAnalyzer>(def.make(), dg));
    int ops = (int)c.range(2, 8), done = 0;
    std::set<Str> seen;
    for (int i = 0; i < ops; ++i) {
        Str f = c.pick(names);
        if (c.chance(1, 5)) {
            AKind s = genAnalyzer(c);
            by[f] = s; gaps[f] = (int)c.range(0, 100);
            w->addAnalyzer(f, newLucene<GapAnalyzer>(s.make(), gaps[f]));
            c.note("field '" + printable(f) + "' by " + s.name);
            continue;
        }
        const AKind& s = by.count(f) ? by[f] : def;
        int gap = by.count(f) ? gaps[f] : dg;
        Str text = genTextFor(c, 3);
        bool reuse = c.chance(2, 3);
        c.note("field '" + printable(f) + "' (" + s.name + ") text '" + printable(text.substr(0, 100)) + "'" + (reuse ? " reused" : ""));
        SAME(consume(reuse ? w->reusableTokenStream(f, plain(text)) : w->tokenStream(f, plain(text))), fresh(s, text), "field " << printable(f));
        REQUIRE_EQ(w->getPositionIncrementGap(f), gap, "position gap");
        REQUIRE_EQ(w->getOffsetGap(newLucene<Field>(f, text + L"x", Field::STORE_NO, Field::INDEX_ANALYZED)), gap + 1, "offset gap");
        ++done; seen.insert(f);
    }
    if (done > 1 && seen.size() > 1 && !by.empty()) c.nontrivial();
}

// Attributes: capture, restore, clone and copy against a model.
VF_SUB(attributes, 8000, 400000) {
    struct St { Str term; int so = 0, eo = 0, incr = 1, flags = 0; Str type = L"word"; std::string pay; bool hasPay = false;
        bool operator==(const St& o) const { return term == o.term && so == o.so && eo == o.eo && incr == o.incr && flags == o.flags && type == o.type && pay == o.pay && hasPay == o.hasPay; } };
    struct Src { AttributeSourcePtr s; St m; };
    auto make = [&] {
        AttributeSourcePtr s = newLucene<AttributeSource>();
        std::vector<int> order{0, 1, 2, 3, 4, 5};
        for (int i = 5; i > 0; --i) std::swap(order[i], order[(size_t)c.range(0, i)]);
        for (int i : order) switch (i) {
            case 0: s->addAttribute<TermAttribute>(); break; case 1: s->addAttribute<OffsetAttribute>(); break; case 2: s->addAttribute<PositionIncrementAttribute>(); break;
            case 3: s->addAttribute<TypeAttribute>(); break; case 4: s->addAttribute<PayloadAttribute>(); break; case 5: s->addAttribute<FlagsAttribute>(); break; }
        return s;
    };
    auto read = [](const AttributeSourcePtr& s) {
        St r;
        r.term = s->getAttribute<TermAttribute>()->term();
        r.so = s->getAttribute<OffsetAttribute>()->startOffset(); r.eo = s->getAttribute<OffsetAttribute>()->endOffset();
        r.incr = s->getAttribute<PositionIncrementAttribute>()->getPositionIncrement();
        r.flags = s->getAttribute<FlagsAttribute>()->getFlags();
        r.type = s->getAttribute<TypeAttribute>()->type();
        PayloadPtr p = s->getAttribute<PayloadAttribute>()->getPayload();
        r.hasPay = (bool)p;
        if (p) for (int i = 0; i < p->length(); ++i) r.pay += (char)p->byteAt(i);
        return r;
    };
    std::vector<Src> src;
    int ns = (int)c.range(1, 3);
    for (int i = 0; i < ns; ++i) src.push_back({make(), St()});
    std::vector<std::pair<AttributeSourceStatePtr, St>> saved;
    int n = (int)c.range(3, 25), restored = 0;
    for (int i = 0; i < n; ++i) {
        size_t k = (size_t)c.range(0, (int64_t)src.size() - 1);
        Src& s = src[k];
        switch (c.weighted({8, 3, 3, 1, 1, 2})) {
        case 0: {
            St& m = s.m;
            switch (c.range(0, 5)) {
            case 0: {
                Str t = c.chance(1, 5) ? Str((size_t)c.range(0, 40), L'k') : c.word(L"abcXYZ'", 1, 6);
                TermAttributePtr a = s.s->getAttribute<TermAttribute>();
                switch (c.range(0, 3)) {
                case 0: a->setTermBuffer(t); break;
                case 1: { Str big = L"zz" + t + L"yy"; a->setTermBuffer(big.c_str(), 2, (int)t.size()); break; }
                case 2: { CharArray b = a->resizeTermBuffer((int)t.size()); std::copy(t.begin(), t.end(), b.get()); a->setTermLength((int)t.size()); break; }
                case 3: { Str more = m.term + t; CharArray b = a->resizeTermBuffer((int)more.size()); std::copy(t.begin(), t.end(), b.get() + m.term.size()); a->setTermLength((int)more.size()); t = more; break; }
                }
                m.term = t;
                REQUIRE_EQ(a->termLength(), (int)t.size(), "term length");
                REQUIRE(a->termBuffer().size() >= (int)t.size(), "term buffer is too small");
                break;
            }
            case 1: m.so = (int)c.range(0, 9); m.eo = m.so + (int)c.range(0, 9); s.s->getAttribute<OffsetAttribute>()->setOffset(m.so, m.eo); break;
            case 2: m.incr = (int)c.range(0, 5); s.s->getAttribute<PositionIncrementAttribute>()->setPositionIncrement(m.incr); break;
            case 3: m.flags = (int)c.range(0, 9); s.s->getAttribute<FlagsAttribute>()->setFlags(m.flags); break;
            case 4: m.type = c.word(L"ab", 1, 3); s.s->getAttribute<TypeAttribute>()->setType(m.type); break;
            case 5: {
                m.hasPay = c.chance(3, 4); m.pay = m.hasPay ? c.bytes(4) : std::string();
                PayloadPtr p;
                if (m.hasPay) { ByteArray b = ByteArray::newInstance((int)m.pay.size() + 1); std::copy(m.pay.begin(), m.pay.end(), (char*)b.get()); p = newLucene<Payload>(b, 0, (int)m.pay.size()); }
                s.s->getAttribute<PayloadAttribute>()->setPayload(p);
                break;
            }
            }
            break;
        }
        case 1: c.note("capture " + str(k)); saved.push_back({s.s->captureState(), s.m}); break;
        case 2: {
            if (saved.empty()) break;
            auto& x = saved[(size_t)c.range(0, (int64_t)saved.size() - 1)];
            c.note("restore into " + str(k));
            s.s->restoreState(x.first);
            s.m = x.second;
            ++restored;
            break;
        }
        case 3: s.s->clearAttributes(); s.m = St(); c.note("clear"); break;
        case 4: if (src.size() < 6) { c.note("clone"); AttributeSourcePtr x = s.s->cloneAttributes(); St m = s.m; src.push_back({x, m}); } break;
        case 5: {
            Src& o = src[(size_t)c.range(0, (int64_t)src.size() - 1)];
            if (&o == &s) break;
            c.note("copy an attribute");
            switch (c.range(0, 5)) {
            case 0: s.s->getAttribute<TermAttribute>()->copyTo(o.s->getAttribute<TermAttribute>()); o.m.term = s.m.term; break;
            case 1: s.s->getAttribute<OffsetAttribute>()->copyTo(o.s->getAttribute<OffsetAttribute>()); o.m.so = s.m.so; o.m.eo = s.m.eo; break;
            case 2: s.s->getAttribute<PositionIncrementAttribute>()->copyTo(o.s->getAttribute<PositionIncrementAttribute>()); o.m.incr = s.m.incr; break;
            case 3: s.s->getAttribute<FlagsAttribute>()->copyTo(o.s->getAttribute<FlagsAttribute>()); o.m.flags = s.m.flags; break;
            case 4: s.s->getAttribute<TypeAttribute>()->copyTo(o.s->getAttribute<TypeAttribute>()); o.m.type = s.m.type; break;
            case 5: s.s->getAttribute<PayloadAttribute>()->copyTo(o.s->getAttribute<PayloadAttribute>()); o.m.pay = s.m.pay; o.m.hasPay = s.m.hasPay; break;
            }
            break;
        }
        }
        for (size_t j = 0; j < src.size(); ++j) {
            REQUIRE(read(src[j].s) == src[j].m, "source " << j << " holds other values after step " << i);
            for (size_t l = 0; l <= j; ++l) {
                bool eq = src[j].s->equals(src[l].s);
                REQUIRE_EQ(eq, src[j].m == src[l].m, "equality of sources " << j << " and " << l);
                if (eq) REQUIRE_EQ(src[j].s->hashCode(), src[l].s->hashCode(), "hash of equal sources");
            }
        }
    }
    if (restored && src.size() > 1) c.nontrivial();
}
