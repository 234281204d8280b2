// C08: term vectors equal the tokens of their document, however they are read.
#include "common.h"
#include "TermVectorMapper.h"
#include "SortedTermVectorMapper.h"
#include "FieldSortedTermVectorMapper.h"
#include "PositionBasedTermVectorMapper.h"
#include "TermVectorEntry.h"
#include "TermVectorEntryFreqSortedComparator.h"
#include "SimpleFSDirectory.h"
#include "FileUtils.h"
using namespace vf;

static TermPtr T(const std::wstring& f, const std::wstring& t) { return newLucene<Term>(f, t); }
typedef std::map<std::wstring, InvField> Inv;      // the fields of one document that have vectors

static std::string offs(const std::vector<Occ>& o) { std::string s; for (auto& x : o) s += str(x.so) + "-" + str(x.eo) + ","; return s; }
static std::string poss(const std::vector<Occ>& o) { std::string s; for (auto& x : o) s += str(x.pos) + ","; return s; }
static std::string offs(Collection<TermVectorOffsetInfoPtr> o) { std::string s; if (!o) return "none"; for (int i = 0; i < o.size(); ++i) s += str(o[i]->getStartOffset()) + "-" + str(o[i]->getEndOffset()) + ","; return s; }
static std::string poss(Collection<int32_t> o) { std::string s; if (!o) return "none"; for (int i = 0; i < o.size(); ++i) s += str(o[i]) + ","; return s; }

static void checkVector(Case& c, const TermFreqVectorPtr& v, const std::wstring& field, const InvField& f, const std::string& where0) {
    std::string where = where0 + " field " + narrow(field);
    REQUIRE(v, where << ": there is no vector");
    REQUIRE(v->getField() == field, where << ": the vector is of field " << narrow(v->getField()));
    REQUIRE_EQ((int)v->size(), (int)f.terms.size(), where << ": number of terms");
    Collection<String> ts = v->getTerms();
    Collection<int32_t> fs = v->getTermFrequencies();
    TermPositionVectorPtr p = boost::dynamic_pointer_cast<TermPositionVector>(v);
    REQUIRE_EQ((bool)p, f.tvPos || f.tvOff, where << ": the vector has positions or offsets");
    int i = 0;
    for (auto& t : f.terms) {
        REQUIRE(ts[i] == t.first, where << ": term " << i << " is " << narrow(ts[i]) << ", expected " << narrow(t.first));
        REQUIRE_EQ((int)fs[i], (int)t.second.size(), where << ": frequency of " << narrow(t.first));
        REQUIRE_EQ((int)v->indexOf(t.first), i, where << ": index of " << narrow(t.first));
        if (p) {
            Collection<int32_t> ps = p->getTermPositions(i);
            REQUIRE_EQ((bool)ps, f.tvPos, where << ": positions of " << narrow(t.first) << " are there");
            if (ps) REQUIRE_EQ(poss(ps), poss(t.second), where << ": positions of " << narrow(t.first));
            Collection<TermVectorOffsetInfoPtr> os = p->getOffsets(i);
            REQUIRE_EQ((bool)os, f.tvOff, where << ": offsets of " << narrow(t.first) << " are there");
            if (os) REQUIRE_EQ(offs(os), offs(t.second), where << ": offsets of " << narrow(t.first));
        }
        ++i;
    }
    std::wstring absent = c.word(L"abz\u00e9", 1, 4);
    if (!f.terms.count(absent)) REQUIRE_EQ((int)v->indexOf(absent), -1, where << ": index of the absent term " << narrow(absent));
    // several at once
    Collection<String> q = Collection<String>::newInstance();
    std::vector<int> want;
    int start = c.range(0, 2);
    for (int k = 0; k < start; ++k) q.add(L"skipped");
    for (int k = 0; k < 4 && c.more(3); ++k) {
        if (c.chance(1, 3)) { q.add(absent); auto it = f.terms.find(absent); want.push_back(it == f.terms.end() ? -1 : (int)std::distance(f.terms.begin(), it)); }
        else { auto it = f.terms.begin(); std::advance(it, (long)c.draw(f.terms.size())); q.add(it->first); want.push_back((int)std::distance(f.terms.begin(), it)); }
    }
    Collection<int32_t> got = v->indexesOf(q, start, (int)want.size());
    REQUIRE_EQ((int)got.size(), (int)want.size(), where << ": number of indexes asked for at once");
    for (size_t k = 0; k < want.size(); ++k) REQUIRE_EQ((int)got[(int)k], want[k], where << ": index " << k << " of several asked for at once (" << narrow(q[start + (int)k]) << ")");
}

// a mapper that records what it is told
class Recorder : public TermVectorMapper {
public:
    Recorder(bool noPos, bool noOff) : TermVectorMapper(noPos, noOff) {}
    virtual ~Recorder() {}
    LUCENE_CLASS(Recorder);
    std::string log;
    virtual void setExpectations(const String& field, int32_t numTerms, bool storeOffsets, bool storePositions) {
        log += "field " + narrow(field) + " " + str(numTerms) + (storeOffsets ? " offsets" : "") + (storePositions ? " positions" : "") + "\n";
    }
    virtual void map(const String& term, int32_t frequency, Collection<TermVectorOffsetInfoPtr> offsets, Collection<int32_t> positions) {
        log += narrow(term) + "*" + str(frequency) + "@" + poss(positions) + "#" + offs(offsets) + "\n";
    }
};
static std::string recorded(const std::wstring& name, const InvField& f, bool noPos, bool noOff) {
    std::string s = "field " + narrow(name) + " " + str(f.terms.size()) + (f.tvOff ? " offsets" : "") + (f.tvPos ? " positions" : "") + "\n";
    for (auto& t : f.terms) s += narrow(t.first) + "*" + str(t.second.size()) + "@" + (f.tvPos && !noPos ? poss(t.second) : "none") + "#" + (f.tvOff && !noOff ? offs(t.second) : "none") + "\n";
    return s;
}

struct Ent { std::wstring term, field; int freq; std::string pos, off; };
static std::string show(const Ent& e) { return narrow(e.field) + ":" + narrow(e.term) + "*" + str(e.freq) + "@" + e.pos + "#" + e.off + "\n"; }
static std::string show(const TermVectorEntryPtr& e) { return narrow(e->getField()) + ":" + narrow(e->getTerm()) + "*" + str(e->getFrequency()) + "@" + poss(e->getPositions()) + "#" + offs(e->getOffsets()) + "\n"; }
static bool byFreq(const Ent& a, const Ent& b) { return a.freq != b.freq ? a.freq > b.freq : a.term != b.term ? a.term < b.term : a.field < b.field; }

// every way of reading the vectors of one document
static void checkDoc(Case& c, const IndexReaderPtr& r, int n, const Inv& want, const std::vector<std::wstring>& order, const std::string& where) {
    Collection<TermFreqVectorPtr> vs = r->getTermFreqVectors(n);
    REQUIRE_EQ(vs ? (int)vs.size() : 0, (int)want.size(), where << ": number of vectors");
    std::vector<std::wstring> seen;
    if (vs) for (int i = 0; i < vs.size(); ++i) {
        auto f = want.find(vs[i]->getField());
        REQUIRE(f != want.end(), where << ": there is a vector of field " << narrow(vs[i]->getField()));
        REQUIRE(std::find(seen.begin(), seen.end(), f->first) == seen.end(), where << ": two vectors of field " << narrow(f->first));
        seen.push_back(f->first);
        checkVector(c, vs[i], f->first, f->second, where + " all vectors");
    }
    for (auto& name : order) {
        auto f = want.find(name);
        TermFreqVectorPtr v = r->getTermFreqVector(n, name);
        if (f == want.end()) REQUIRE(!v, where << ": field " << narrow(name) << " without vectors has one");
        else checkVector(c, v, name, f->second, where);
    }
    for (int k = 0; k < 3; ++k) {
        bool noPos = c.chance(1, 3), noOff = c.chance(1, 3);
        bool whole = c.chance(1, 2);
        std::wstring name = order[c.draw(order.size())];
        std::vector<std::wstring> fields;
        if (whole) fields = seen;
        else if (want.count(name)) fields.push_back(name);
        auto read = [&](const TermVectorMapperPtr& m) { if (whole) r->getTermFreqVector(n, m); else r->getTermFreqVector(n, name, m); };
        std::string how = where + (whole ? " whole document" : " field " + narrow(name)) + (noPos ? " ignoring positions" : "") + (noOff ? " ignoring offsets" : "");
        switch (c.draw(4)) {
            case 0: {
                boost::shared_ptr<Recorder> m = newLucene<Recorder>(noPos, noOff);
                read(m);
                std::string w;
                for (auto& f : fields) w += recorded(f, want.at(f), noPos, noOff);
                REQUIRE_EQ(m->log, w, how << ": what a mapper is told");
                break;
            }
            case 1: {
                SortedTermVectorMapperPtr m = noPos || noOff ? newLucene<SortedTermVectorMapper>(noPos, noOff, TermVectorEntryFreqSortedComparator::compare) : newLucene<SortedTermVectorMapper>(TermVectorEntryFreqSortedComparator::compare);
                read(m);
                std::map<std::wstring, Ent> all;
                bool mixed = false;     // a term of several fields with different settings: what is kept of positions is unspecified
                for (auto& f : fields) for (auto& t : want.at(f).terms) {
                    const InvField& v = want.at(f);
                    bool fresh = !all.count(t.first);
                    Ent& e = all[t.first];
                    std::string p = v.tvPos && !noPos ? poss(t.second) : "none", o = v.tvOff && !noOff ? offs(t.second) : "none";
                    if (fresh) { e.term = t.first; e.field = L"_ALL_"; e.freq = (int)t.second.size(); e.pos = p; e.off = o; }
                    else {
                        e.freq += (int)t.second.size();
                        if (e.pos == "none") e.pos = p; else if (p != "none") e.pos += p;
                        if (e.off == "none") e.off = o; else if (o != "none") e.off += o;
                    }
                }
                std::vector<Ent> es;
                for (auto& e : all) es.push_back(e.second);
                std::sort(es.begin(), es.end(), byFreq);
                std::string w, g;
                for (auto& e : es) w += show(e);
                Collection<TermVectorEntryPtr> got = m->getTermVectorEntrySet();
                for (int i = 0; i < got.size(); ++i) g += show(got[i]);
                (void)mixed;
                REQUIRE_EQ(g, w, how << ": entries of a sorting mapper");
                break;
            }
            case 2: {
                FieldSortedTermVectorMapperPtr m = newLucene<FieldSortedTermVectorMapper>(noPos, noOff, TermVectorEntryFreqSortedComparator::compare);
                read(m);
                MapStringCollectionTermVectorEntry got = m->getFieldToTerms();
                REQUIRE_EQ((int)got.size(), (int)fields.size(), how << ": number of fields of a field-sorting mapper");
                for (auto& f : fields) {
                    const InvField& v = want.at(f);
                    std::vector<Ent> es;
                    for (auto& t : v.terms) es.push_back(Ent{t.first, f, (int)t.second.size(), v.tvPos && !noPos ? poss(t.second) : "none", v.tvOff && !noOff ? offs(t.second) : "none"});
                    std::sort(es.begin(), es.end(), byFreq);
                    std::string w, g;
                    for (auto& e : es) w += show(e);
                    REQUIRE(got.contains(f), how << ": a field-sorting mapper lacks field " << narrow(f));
                    Collection<TermVectorEntryPtr> ge = got.get(f);
                    for (int i = 0; i < ge.size(); ++i) g += show(ge[i]);
                    REQUIRE_EQ(g, w, how << ": entries of a field-sorting mapper for " << narrow(f));
                }
                break;
            }
            default: {
                bool ok = true;
                for (auto& f : fields) ok = ok && want.at(f).tvPos;
                PositionBasedTermVectorMapperPtr m = newLucene<PositionBasedTermVectorMapper>(noOff);
                if (!ok) {
                    bool threw = false;
                    try { read(m); } catch (LuceneException&) { threw = true; }
                    REQUIRE(threw, how << ": a position mapper accepted a vector without positions");
                    break;
                }
                read(m);
                if (fields.empty()) break;
                MapStringMapIntTermVectorsPositionInfo got = m->getFieldToTerms();
                REQUIRE_EQ((int)got.size(), (int)fields.size(), how << ": number of fields of a position mapper");
                for (auto& f : fields) {
                    const InvField& v = want.at(f);
                    std::map<int, std::string> w;
                    for (auto& t : v.terms) for (auto& o : t.second) w[o.pos] += narrow(t.first) + (v.tvOff && !noOff ? "#" + str(o.so) + "-" + str(o.eo) : "") + " ";
                    REQUIRE(got.contains(f), how << ": a position mapper lacks field " << narrow(f));
                    MapIntTermVectorsPositionInfo ps = got.get(f);
                    REQUIRE_EQ((int)ps.size(), (int)w.size(), how << ": number of positions of " << narrow(f));
                    for (auto& x : w) {
                        TermVectorsPositionInfoPtr p = ps.get(x.first);
                        REQUIRE(p && p->getPosition() == x.first, how << ": position " << x.first << " of " << narrow(f) << " is missing");
                        std::string g;
                        Collection<String> ts = p->getTerms();
                        Collection<TermVectorOffsetInfoPtr> os = p->getOffsets();
                        for (int i = 0; i < ts.size(); ++i) g += narrow(ts[i]) + (v.tvOff && !noOff ? "#" + str(os[i]->getStartOffset()) + "-" + str(os[i]->getEndOffset()) : "") + " ";
                        REQUIRE_EQ(g, x.second, how << ": terms at position " << x.first << " of " << narrow(f));
                    }
                }
            }
        }
    }
}

static Inv vectorsOf(const DocSpec& d, const DumpCfg& dc) {
    Inv r;
    for (auto& f : invert(d, dc.posGap, dc.offGap, dc.maxFieldLength)) if (f.second.tv && !f.second.terms.empty()) r.insert(f);
    return r;
}

VF_SUB(vectors, 3000, 200000) {
    static const Field::TermVector TV[] = {Field::TERM_VECTOR_YES, Field::TERM_VECTOR_WITH_POSITIONS, Field::TERM_VECTOR_WITH_OFFSETS, Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS};
    GenCfg g;
    g.maxFields = 6;
    g.maxWords = c.chance(1, 8) ? 60 : 9;
    WriterCfg cfg = genWriterCfg(c, false);
    DumpCfg dc;
    if (c.chance(1, 6)) { cfg.maxFieldLength = c.range(1, 8); dc.maxFieldLength = cfg.maxFieldLength; }
    dc.posGap = c.chance(1, 3) ? c.range(1, 200) : 0;
    dc.offGap = c.chance(1, 3) ? c.range(0, 30) : 1;
    AnalyzerPtr a = blankAnalyzer(dc.posGap, dc.offGap);
    c.note(cfg.describe() + " posGap=" + str(dc.posGap) + " offGap=" + str(dc.offGap) + " maxFieldLength=" + str(cfg.maxFieldLength));
    int next = 0, kinds = 0;
    auto gen = [&]() {
        DocSpec d = genDoc(c, g, L"d" + std::to_wstring(next++));
        int same = c.range(0, 3);      // often one setting for the document, or none
        for (auto& f : d.fields) if (f.indexed() && f.name != L"id" && f.name != L"g" && c.chance(1, 2)) f.tv = same == 0 ? f.tv : same == 1 ? TV[3] : TV[c.draw(4)];
        for (auto& f : d.fields) if (f.kind == STREAM && !f.toks.empty() && c.chance(1, 20)) { Tok t; t.t = std::wstring(c.chance(1, 2) ? 16384 : 20000, L'y'); f.toks.push_back(t); }
        DocSpec e = d;
        for (auto& f : e.fields) for (auto& t : f.toks) if (t.t.size() > 60) t.t = L"<" + std::to_wstring(t.t.size()) + L" characters>";
        c.note("add " + describe(e));
        for (auto& f : vectorsOf(d, dc)) kinds |= 1 << ((f.second.tvPos ? 1 : 0) + (f.second.tvOff ? 2 : 0));
        return d;
    };
    LUCENE_GUARD(
        RAMDirectoryPtr dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(dir, a, cfg, true);
        std::vector<DocSpec> docs;
        int ops = 0;
        while (ops++ < 25 && c.more(8)) {
            switch (c.weighted({12, 3, 2, 1, 2})) {
                case 0: { DocSpec d = gen(); w->addDocument(build(d)); docs.push_back(d); break; }
                case 1: if (!docs.empty()) {
                    size_t k = (size_t)c.draw(docs.size());
                    c.note("delete " + narrow(docs[k].id()));
                    w->deleteDocuments(T(L"id", docs[k].id()));
                    docs.erase(docs.begin() + (long)k);
                    break;
                } break;
                case 2: c.note("commit"); w->commit(); break;
                case 3: c.note("optimize"); w->optimize(); break;
                default: {
                    RAMDirectoryPtr other = newLucene<RAMDirectory>();
                    WriterCfg oc = genWriterCfg(c, false);
                    oc.maxFieldLength = cfg.maxFieldLength;
                    IndexWriterPtr ow = openWriter(other, a, oc, true);
                    c.note("other index: " + oc.describe());
                    for (int i = 0; i < 4 && c.more(2); ++i) { DocSpec d = gen(); ow->addDocument(build(d)); docs.push_back(d); }
                    ow->close();
                    if (c.chance(1, 3)) {
                        c.note("import by reader");
                        IndexReaderPtr orr = IndexReader::open(other, true);
                        w->addIndexes(newCollection<IndexReaderPtr>(orr));
                        orr->close();
                    } else { c.note("import"); w->addIndexesNoOptimize(newCollection<DirectoryPtr>(other)); }
                }
            }
        }
        if (c.chance(1, 3)) { c.note("optimize"); w->optimize(); }
        w->close();
        c.nontrivial(__builtin_popcount((unsigned)kinds) >= 2);
        IndexReaderPtr r = IndexReader::open(dir, true);
        std::vector<int> at;
        for (int i = 0; i < r->maxDoc(); ++i) if (!r->isDeleted(i)) at.push_back(i);
        REQUIRE_EQ(at.size(), docs.size(), "number of live documents");
        std::vector<size_t> order;
        for (size_t i = 0; i < docs.size(); ++i) order.push_back(i);
        c.shuffle(order);
        for (size_t i : order) checkDoc(c, r, at[i], vectorsOf(docs[i], dc), {L"t0", L"t1", L"on", L"ot", L"id", L"st", L"absent"}, "document " + str(at[i]) + " (" + narrow(docs[i].id()) + ")");
        r->close();
    )
}
