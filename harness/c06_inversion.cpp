// C06: the inverted index read back equals the inversion of the token streams; term seeking and posting navigation
// land where stepping does.
#include "common.h"
#include "DefaultSimilarity.h"
#include "FieldInvertState.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "FileUtils.h"
using namespace vf;

static TermPtr T(const std::wstring& f, const std::wstring& t) { return newLucene<Term>(f, t); }

// --- navigation: everything below compares with plain stepping over the same reader ------------------------
struct Post { int doc, freq; std::vector<std::pair<int, std::string> > pos; };
struct TermRec { std::wstring f, t; std::vector<Post> posts; };

static std::vector<TermRec> step(const IndexReaderPtr& r, const std::set<std::wstring>& noPos) {
    std::vector<TermRec> v;
    TermEnumPtr te = r->terms();
    TermPositionsPtr tp = r->termPositions();
    while (te->next()) {
        TermRec ti;
        ti.f = te->term()->field();
        ti.t = te->term()->text();
        bool np = noPos.count(ti.f) > 0;
        tp->seek(te->term());
        while (tp->next()) {
            Post p;
            p.doc = tp->doc();
            p.freq = tp->freq();
            for (int k = 0; k < p.freq && !np; ++k) {
                int q = tp->nextPosition();
                int len = tp->getPayloadLength();
                std::string pay;
                if (tp->isPayloadAvailable() && len > 0) pay = fromBytes(tp->getPayload(ByteArray(), 0), 0, len);
                p.pos.push_back(std::make_pair(q, pay));
            }
            ti.posts.push_back(p);
        }
        v.push_back(ti);
    }
    te->close();
    tp->close();
    return v;
}
static int cmpTerm(const std::wstring& f, const std::wstring& t, const TermRec& x) {
    int k = f.compare(x.f);
    return k ? k : t.compare(x.t);
}

// random navigation of one reader
static void navigate(Case& c, const IndexReaderPtr& r, const std::set<std::wstring>& noPos, const std::vector<std::wstring>& probes, int rounds) {
    std::vector<TermRec> all = step(r, noPos);
    if (all.empty()) return;
    TermPositionsPtr tp = r->termPositions();
    TermDocsPtr td = r->termDocs();
    int max = r->maxDoc();
    for (int n = 0; n < rounds; ++n) {
        // a term: an existing one, a changed one, or a probe
        size_t which = (size_t)c.draw(all.size());
        std::wstring f = all[which].f, t = all[which].t;
        switch (c.weighted({6, 2, 1, 1, 1})) {
            case 0: break;
            case 1: t = probes[c.draw(probes.size())]; break;
            case 2: t += c.word(L"a\u00e9", 1, 1); break;
            case 3: if (!t.empty()) t.erase(t.size() - 1); break;
            case 4: f = c.chance(1, 2) ? L"zz" : L"a"; break;
        }
        if (t.empty()) { ++c.excluded; continue; }      // known finding empty-term
        size_t at = 0;
        while (at < all.size() && cmpTerm(f, t, all[at]) > 0) ++at;
        bool exact = at < all.size() && cmpTerm(f, t, all[at]) == 0;
        std::string where = "term " + narrow(f) + ":" + narrow(t);
        switch (c.draw(5)) {
            case 0: case 1: {  // enumeration from there on
                TermEnumPtr te = r->terms(T(f, t));
                size_t k = at;
                for (int j = 0; j < 6; ++j) {
                    TermPtr g = te->term();
                    if (k >= all.size()) {
                        REQUIRE(!g, where << ": an enumeration past the last term is at " << narrow(g->field()) << ":" << narrow(g->text()));
                        REQUIRE(!te->next(), where << ": an enumeration past the last term goes on");
                        break;
                    }
                    REQUIRE(g, where << ": the enumeration from there is at no term after " << j << " steps, expected " << narrow(all[k].f) << ":" << narrow(all[k].t));
                    REQUIRE(g->field() == all[k].f && g->text() == all[k].t, where << ": the enumeration from there is at " << narrow(g->field()) << ":" << narrow(g->text()) << " after " << j << " steps, expected " << narrow(all[k].f) << ":" << narrow(all[k].t));
                    if (!r->hasDeletions()) REQUIRE_EQ((int)te->docFreq(), (int)all[k].posts.size(), where << ": document frequency of " << narrow(all[k].t) << " in the enumeration");
                    else REQUIRE((int)te->docFreq() >= (int)all[k].posts.size(), where << ": document frequency below the number of documents");
                    if (c.chance(1, 3)) {   // seek the postings by the enumeration, after other uses of the same objects
                        td->seek(te);
                        bool any = td->next();
                        REQUIRE_EQ(any, !all[k].posts.empty(), where << ": postings sought by the enumeration are there");
                        if (any) REQUIRE_EQ((int)td->doc(), all[k].posts[0].doc, where << ": first document of postings sought by the enumeration");
                    }
                    bool more = te->next();
                    ++k;
                    REQUIRE_EQ(more, k < all.size(), where << ": the enumeration goes on after " << j << " steps");
                }
                te->close();
                break;
            }
            case 2: {  // frequency
                int df = r->docFreq(T(f, t));
                if (!r->hasDeletions()) REQUIRE_EQ(df, exact ? (int)all[at].posts.size() : 0, where << ": document frequency");
                else REQUIRE(df >= (exact ? (int)all[at].posts.size() : 0), where << ": document frequency " << df << " is below the number of documents");
                break;
            }
            case 3: {  // bulk read of the documents
                td->seek(T(f, t));
                Collection<int32_t> ds = Collection<int32_t>::newInstance(c.range(1, 40)), fs = Collection<int32_t>::newInstance(ds.size());
                size_t k = 0;
                std::vector<Post> none;
                const std::vector<Post>& posts = exact ? all[at].posts : none;
                for (int step = 0; step < 400; ++step) {
                    if (c.chance(1, 4)) {
                        bool more = td->next();
                        REQUIRE_EQ(more, k < posts.size(), where << ": next() after " << k << " documents");
                        if (!more) break;
                        REQUIRE_EQ((int)td->doc(), posts[k].doc, where << ": document after " << k);
                        REQUIRE_EQ((int)td->freq(), posts[k].freq, where << ": frequency after " << k);
                        ++k;
                        continue;
                    }
                    int got = td->read(ds, fs);
                    if (got == 0) { REQUIRE_EQ(k, posts.size(), where << ": bulk reading ended"); break; }
                    for (int j = 0; j < got; ++j, ++k) {
                        REQUIRE(k < posts.size(), where << ": bulk reading returned more than the documents");
                        REQUIRE_EQ((int)ds[j], posts[k].doc, where << ": bulk read document " << k);
                        REQUIRE_EQ((int)fs[j], posts[k].freq, where << ": bulk read frequency " << k);
                    }
                }
                break;
            }
            default: {  // positions by stepping and skipping
                bool np = noPos.count(f) > 0;
                tp->seek(T(f, t));
                std::vector<Post> none;
                const std::vector<Post>& posts = exact ? all[at].posts : none;
                int k = -1;
                for (int s = 0; s < 30; ++s) {
                    bool more;
                    int target = -1;
                    if (c.chance(1, 2)) { more = tp->next(); ++k; }
                    else {
                        int cur = k < 0 ? -1 : posts[k].doc;
                        target = cur + 1 + (c.chance(1, 4) ? (int)c.draw(max + 2) : (int)c.draw(std::max(2, max / 8)));
                        more = tp->skipTo(target);
                        ++k;
                        while (k < (int)posts.size() && posts[k].doc < target) ++k;
                    }
                    REQUIRE_EQ(more, k < (int)posts.size(), where << ": " << (target < 0 ? "next()" : "skipTo(" + str(target) + ")") << " finds a document");
                    if (!more) break;
                    REQUIRE_EQ((int)tp->doc(), posts[k].doc, where << ": document reached by " << (target < 0 ? "next()" : "skipTo(" + str(target) + ")"));
                    REQUIRE_EQ((int)tp->freq(), posts[k].freq, where << ": frequency at document " << posts[k].doc);
                    if (np) continue;
                    int use = (int)c.draw((uint64_t)std::min(posts[k].freq, 1000) + 1);
                    for (int j = 0; j < use; ++j) {
                        REQUIRE_EQ((int)tp->nextPosition(), posts[k].pos[j].first, where << ": position " << j << " in document " << posts[k].doc);
                        if (c.chance(1, 2)) {
                            REQUIRE_EQ((int)tp->getPayloadLength(), (int)posts[k].pos[j].second.size(), where << ": payload length at position " << j << " in document " << posts[k].doc);
                            if (!posts[k].pos[j].second.empty() && c.chance(1, 2)) {
                                int off = (int)c.draw(4);
                                ByteArray buf = c.chance(1, 2) ? ByteArray::newInstance(off + (int)c.draw(300)) : ByteArray();
                                bool fits = buf && buf.size() - off >= (int)posts[k].pos[j].second.size();
                                ByteArray b = tp->getPayload(buf, off);
                                std::string got = fromBytes(b, fits ? off : 0, (int)posts[k].pos[j].second.size());
                                REQUIRE_EQ(hex(got), hex(posts[k].pos[j].second), where << ": payload at position " << j << " in document " << posts[k].doc);
                            }
                        }
                    }
                }
                break;
            }
        }
    }
}

// adds tokens too long to be indexed, and short streams around the limits
static void spice(Case& c, DocSpec& d) {
    for (auto& f : d.fields) {
        if (f.kind == STREAM && !f.toks.empty() && c.chance(1, 8)) {
            Tok t;
            t.t = std::wstring(c.chance(1, 2) ? 16384 : c.chance(1, 2) ? 16383 : 40000, L'x');
            t.inc = c.range(0, 2);
            size_t at = (size_t)c.draw(f.toks.size() + 1);
            if (at == 0 && t.inc == 0) t.inc = 1;
            t.so = t.eo = at ? f.toks[at - 1].so : 0;
            f.toks.insert(f.toks.begin() + at, t);
        }
    }
}
static std::string describeShort(const DocSpec& d) {
    DocSpec e = d;
    for (auto& f : e.fields) for (auto& t : f.toks) if (t.t.size() > 60) t.t = L"<" + std::to_wstring(t.t.size()) + L" characters>";
    return describe(e);
}

static DirectoryPtr someDir(Case& c, std::string& path) {
    static int n = 0;
    switch (c.weighted({4, 1, 1})) {
        case 0: return newLucene<RAMDirectory>();
        case 1: path = scratchDir() + "/i" + std::to_string(n++); return newLucene<SimpleFSDirectory>(W(path));
        default: path = scratchDir() + "/i" + std::to_string(n++); return newLucene<MMapDirectory>(W(path));
    }
}
static void drop(const std::string& path) { if (!path.empty()) FileUtils::removeDirectory(W(path)); }

VF_SUB(fields, 4000, 400000) {
    GenCfg g;
    g.maxFields = 5;
    g.maxWords = 10;
    WriterCfg cfg = genWriterCfg(c, false);
    DumpCfg dc;
    dc.noPositions.insert(L"ot");
    if (c.chance(1, 6)) { cfg.maxFieldLength = c.range(1, 8); dc.maxFieldLength = cfg.maxFieldLength; }
    dc.posGap = c.chance(1, 3) ? c.range(1, 200) : 0;
    dc.offGap = c.chance(1, 3) ? c.range(0, 30) : 1;
    AnalyzerPtr a = blankAnalyzer(dc.posGap, dc.offGap);
    int divisor = c.chance(1, 4) ? c.range(2, 4) : 1;
    c.note(cfg.describe() + " posGap=" + str(dc.posGap) + " offGap=" + str(dc.offGap) + " maxFieldLength=" + str(cfg.maxFieldLength) + " divisor=" + str(divisor));
    std::string path;
    LUCENE_GUARD(
        DirectoryPtr dir = someDir(c, path);
        IndexWriterPtr w = openWriter(dir, a, cfg, true);
        std::vector<DocSpec> docs;
        bool dels = false;
        int n = 0;
        for (int i = 0; i < 30 && c.more(10); ++i) {
            if (!docs.empty() && c.chance(1, 6)) {
                size_t k = (size_t)c.draw(docs.size());
                c.note("delete " + narrow(docs[k].id()));
                w->deleteDocuments(T(L"id", docs[k].id()));
                docs.erase(docs.begin() + k);
                dels = true;
            }
            DocSpec d = genDoc(c, g, L"d" + std::to_wstring(n++));
            spice(c, d);
            c.note("add " + describeShort(d));
            w->addDocument(build(d));
            docs.push_back(d);
            if (c.chance(1, 8)) { c.note("commit"); w->commit(); }
        }
        bool opt = c.chance(1, 3);
        if (opt) w->optimize();
        c.note(opt ? "optimize, close" : "close");
        w->close();
        IndexReaderPtr r = IndexReader::open(dir, IndexDeletionPolicyPtr(), true, divisor);
        c.nontrivial(docs.size() > 2);
        if (dels) c.label("deletions");
        if (r->getSequentialSubReaders() && r->getSequentialSubReaders().size() > 1) c.label("several segments");
        if (opt) REQUIRE(!r->hasDeletions(), "an optimized index has deletions");
        std::string df = diff(dumpReader(r, dc), dumpModel(docs, dc));
        if (!df.empty()) throw Fail{"the index does not hold the inversion of the documents:" + df};
        std::vector<std::wstring> probes(g.words);
        probes.push_back(L"x1"); probes.push_back(L"d1"); probes.push_back(L"\u4e2d"); probes.push_back(L"\U0001F600");
        navigate(c, r, dc.noPositions, probes, 30);
        r->close();
        drop(path);
    )
}

// a similarity of the user's own decides the norms, and may discount overlapping tokens
class OwnSimilarity : public DefaultSimilarity {
public:
    OwnSimilarity(int mode) : mode(mode) {}
    int mode;
    virtual double lengthNorm(const String& fieldName, int32_t numTokens) {
        return mode == 1 ? 1.0 / (1 + numTokens) : fieldName == L"t0" ? (double)numTokens : 0.25;
    }
};
class StateSimilarity : public DefaultSimilarity {
public:
    std::vector<std::string> seen;
    virtual double computeNorm(const String& field, const FieldInvertStatePtr& s) {
        seen.push_back(narrow(field) + " len=" + str(s->getLength()) + " overlap=" + str(s->getNumOverlap()) + " boost=" + str(s->getBoost()));
        return s->getBoost() * (1 + s->getNumOverlap());
    }
};
VF_SUB(norms, 6000, 300000) {
    GenCfg g;
    g.maxFields = 4;
    g.vectors = g.binaries = false;
    int mode = c.range(0, 3);        // 0: discount overlaps, 1/2: own length norm, 3: own norm
    boost::shared_ptr<DefaultSimilarity> sim;
    if (mode == 0) { sim = newLucene<DefaultSimilarity>(); sim->setDiscountOverlaps(true); }
    else if (mode == 3) sim = newLucene<StateSimilarity>();
    else sim = newLucene<OwnSimilarity>(mode);
    WriterCfg cfg = genWriterCfg(c, false);
    if (c.chance(1, 4)) cfg.maxFieldLength = c.range(1, 4);
    c.note("similarity " + str(mode) + " " + cfg.describe() + " maxFieldLength " + str(cfg.maxFieldLength));
    LUCENE_GUARD(
        RAMDirectoryPtr dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(dir, blankAnalyzer(), cfg, true);
        w->setSimilarity(sim);
        std::vector<DocSpec> docs;
        for (int i = 0; i < 12 && c.more(5); ++i) {
            DocSpec d = genDoc(c, g, L"d" + std::to_wstring(i));
            c.note("add " + describe(d));
            w->addDocument(build(d));
            docs.push_back(d);
        }
        if (c.chance(1, 3)) w->optimize();
        w->close();
        IndexReaderPtr r = IndexReader::open(dir, true);
        REQUIRE_EQ((int)r->maxDoc(), (int)docs.size(), "documents");
        for (const wchar_t* f : {L"t0", L"t1"}) {
            if (!r->hasNorms(f)) continue;
            ByteArray b = r->norms(f);
            ByteArray b2 = ByteArray::newInstance((int)docs.size() + 3);
            r->norms(f, b2, 3);
            for (size_t i = 0; i < docs.size(); ++i) {
                REQUIRE_EQ((int)b2[(int)i + 3], (int)b[(int)i], "norm read into an array");
                auto inv = invert(docs[i], 0, 1, cfg.maxFieldLength);
                auto v = inv.find(f);
                if (v == inv.end() || v->second.terms.empty() || v->second.omitNorms) continue;
                const InvField& x = v->second;
                double want;
                switch (mode) {
                    case 0: want = x.boost * (1.0 / std::sqrt((double)(x.length - x.overlaps))); break;
                    case 1: want = x.boost * (1.0 / (1 + x.length)); break;
                    case 2: want = x.boost * (std::wstring(f) == L"t0" ? (double)x.length : 0.25); break;
                    default: want = x.boost * (1 + x.overlaps); break;
                }
                if (x.overlaps) c.nontrivial();
                if (x.boost != 1.0) c.nontrivial();
                REQUIRE_EQ((int)b[(int)i], (int)Similarity::encodeNorm(want), "norm byte of field " << narrow(f) << " in document " << i << " (length " << x.length << ", overlapping " << x.overlaps << ", boost " << x.boost << ", value " << want << ")");
            }
        }
        r->close();
    )
}

// long posting lists, long documents, large vocabularies
VF_SUB(large, 200, 12000) {
    WriterCfg cfg = genWriterCfg(c, false);
    cfg.maxBufferedDocs = c.chance(1, 2) ? 10000 : c.range(40, 400);
    if (c.chance(1, 4)) { cfg.maxBufferedDocs = -1; cfg.ramMB = 0.05 * (double)c.range(1, 30); }
    bool payloads = c.chance(1, 2);
    bool longDoc = c.chance(1, 3);
    int nd = longDoc ? c.range(1, 6) : c.range(100, 1500);
    int vocab = c.chance(1, 2) ? c.range(2, 60) : c.range(200, 6000);
    uint64_t seed = c.bits64();
    c.note(cfg.describe() + " docs=" + str(nd) + " vocabulary=" + str(vocab) + (payloads ? " payloads" : "") + (longDoc ? " long documents" : "") + " seed=" + std::to_string(seed));
    Rng rng(seed);
    auto rnd = [&](uint64_t n) { return rng.next() % n; };
    auto word = [&]() {
        double u = (double)(rnd(1000000) + 1) / 1000000.0;
        int k = (int)(std::pow((double)vocab, u)) - 1;      // about Zipf
        std::wstring w = L"w" + std::to_wstring(k);
        if (k % 7 == 3) w += std::wstring((size_t)(k % 40), (wchar_t)(L'a' + k % 5));
        if (k % 11 == 5) w = L"\u4e2d" + w;
        return w;
    };
    DumpCfg dc;
    dc.noPositions.insert(L"ot");
    dc.stored = false;
    LUCENE_GUARD(
        RAMDirectoryPtr dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(dir, blankAnalyzer(), cfg, true);
        std::vector<DocSpec> docs;
        for (int i = 0; i < nd; ++i) {
            DocSpec d;
            d.fields.push_back(keyword(L"id", L"d" + std::to_wstring(i), false));
            FieldSpec f;
            f.name = L"t0";
            f.kind = STREAM;
            if (longDoc && rnd(2)) f.tv = Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS;
            int n = longDoc ? (int)rnd(15000) : (int)rnd(rnd(20) == 0 ? 400 : 14);
            int last = 0;
            for (int j = 0; j < n; ++j) {
                Tok t;
                t.t = word();
                t.inc = rnd(12) == 0 ? (int)rnd(400) : 1;
                if (j == 0 && t.inc == 0) t.inc = 1;
                t.so = 3 * j; t.eo = 3 * j + 2;
                if (payloads && rnd(3)) { t.hasPay = true; t.pay.assign((size_t)(rnd(9) == 0 ? rnd(500) : last), (char)rnd(256)); last = rnd(4) == 0 ? (int)rnd(9) : last; }
                f.toks.push_back(t);
            }
            f.endOffset = 3 * n;
            d.fields.push_back(f);
            if (rnd(3)) {
                FieldSpec o = text(L"ot", L"");
                o.omitTf = true;
                std::wstring s;
                for (int j = 0; j < (int)rnd(9); ++j) s += word() + L" ";
                o.text = s;
                d.fields.push_back(o);
            }
            w->addDocument(build(d));
            docs.push_back(d);
        }
        bool dels = c.chance(1, 2);
        if (dels) {
            std::vector<DocSpec> keep;
            int every = c.range(2, 30);
            for (auto& d : docs) {
                if (rnd((uint64_t)every) == 0) w->deleteDocuments(T(L"id", d.id()));
                else keep.push_back(d);
            }
            docs.swap(keep);
            c.label("deletions");
        }
        if (c.chance(1, 3)) w->optimize();
        w->close();
        c.nontrivial();
        IndexReaderPtr r = IndexReader::open(dir, true);
        std::string df = diff(dumpReader(r, dc), dumpModel(docs, dc));
        if (!df.empty()) throw Fail{"the index does not hold the inversion of the documents:" + df.substr(0, 4000)};
        std::vector<std::wstring> probes{L"w0", L"w1", L"w10", L"w2", L"zzz", L"\u4e2d"};
        navigate(c, r, dc.noPositions, probes, 60);
        r->close();
    )
}
