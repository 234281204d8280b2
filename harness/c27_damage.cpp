// C27: a damaged commit is never taken for good; the index check tells the truth.
#include "LuceneInc.h"
#include "world.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "IndexDeletionPolicy.h"
#include "SerialMergeScheduler.h"
#include "CheckIndex.h"
#include "SegmentReader.h"
#include "MiscUtils.h"

using namespace vf;

namespace {

std::string slurp(const DirectoryPtr& d, const std::wstring& name) {
    IndexInputPtr in = d->openInput(name);
    int n = (int)in->length();
    ByteArray b = ByteArray::newInstance(n + 1);
    in->readBytes(b.get(), 0, n);
    in->close();
    return fromBytes(b, 0, n);
}
void spill(const DirectoryPtr& d, const std::wstring& name, const std::string& bytes) {
    IndexOutputPtr out = d->createOutput(name);
    ByteArray b = toBytes(bytes);
    if (!bytes.empty()) out->writeBytes(b.get(), 0, (int)bytes.size());
    out->close();
}
std::set<std::wstring> names(const DirectoryPtr& d) {
    HashSet<String> all = d->listAll();
    return std::set<std::wstring>(all.begin(), all.end());
}

class KeepN : public IndexDeletionPolicy {
public:
    explicit KeepN(int n) : n(n) {}
    virtual ~KeepN() {}
    LUCENE_CLASS(KeepN);
    int n;
    virtual void onInit(Collection<IndexCommitPtr> commits) { onCommit(commits); }
    virtual void onCommit(Collection<IndexCommitPtr> commits) {
        for (int i = 0; i + n < commits.size(); ++i) commits[i]->deleteCommit();
    }
};

struct Kept {
    std::wstring name;
    Dump dump;
    std::vector<std::wstring> ids;
    std::map<std::wstring, std::wstring> ud;
    int64_t version;
};
std::map<std::wstring, std::wstring> plain(MapStringString m) {
    std::map<std::wstring, std::wstring> r;
    if (m) for (MapStringString::iterator i = m.begin(); i != m.end(); ++i) r[i->first] = i->second;
    return r;
}

struct Hist {
    Case& c;
    RAMDirectoryPtr dir;
    World w;
    std::vector<Kept> kept;     // oldest first
    Hist(Case& c) : c(c), dir(newLucene<RAMDirectory>()), w(c, dir) {}
    void build(int steps) {
        SegmentInfos::setDefaultGenFileRetryPauseMsec(0);
        int keep = c.pick(std::vector<int>{1, 2, 3, 100});
        w.policy = newLucene<KeepN>(keep);
        w.cfg = genWriterCfg(c, false);
        c.note("keeping " + str(keep) + " commits; " + w.cfg.describe());
        w.open(true);
        int n = 0;
        bool ud = c.chance(1, 2);
        while (n < steps && c.more(steps)) {
            ++n;
            w.step();
            if (ud && c.chance(1, 3)) {
                MapStringString m = MapStringString::newInstance();
                m.put(L"k", L"v" + std::to_wstring(n));
                if (c.chance(1, 3)) m.put(L"other", std::wstring((size_t)c.draw(20), L'x'));
                w.addDoc();
                c.note("commit with user data");
                w.publishing(w.pend, [&] { w.w->commit(m); });
            }
        }
        w.close();
        Collection<IndexCommitPtr> cs = IndexReader::listCommits(dir);
        for (int i = 0; i < cs.size(); ++i) {
            Kept k;
            k.name = cs[i]->getSegmentsFileName();
            IndexReaderPtr r = IndexReader::open(cs[i], true);
            k.dump = dumpReader(r, w.dc);
            k.ids = liveIds(r);
            k.ud = plain(cs[i]->getUserData());
            k.version = cs[i]->getVersion();
            r->close();
            kept.push_back(k);
        }
        std::sort(kept.begin(), kept.end(), [](const Kept& a, const Kept& b) {
            return SegmentInfos::generationFromSegmentsFileName(a.name) < SegmentInfos::generationFromSegmentsFileName(b.name); });
        REQUIRE(!kept.empty(), "no commit is left");
        std::string bad = World::check(IndexReader::open(dir, true), w.comm, w.dc);
        REQUIRE(bad.empty(), "undamaged index: " << bad);
    }
    const Kept* find(const Dump& d) {
        for (size_t i = kept.size(); i-- > 0;) if (kept[i].dump == d) return &kept[i];
        return nullptr;
    }
    // the directory holds a damaged newest record
    int fell = 0, refused = 0;
    void look(const RAMDirectoryPtr& d, const std::string& what, bool deep) {
        auto guard = [&](const char* call, const std::function<void()>& f) {
            try { f(); }
            catch (LuceneException& e) { return false; }
            catch (Fail&) { throw; }
            catch (std::exception& e) { throw Fail{what + ": " + call + " raised something that is not a Lucene error: " + e.what()}; }
            return true;
        };
        bool ok = guard("opening", [&] {
            IndexReaderPtr r = IndexReader::open(d, true);
            Dump got;
            try { got = dumpReader(r, w.dc); } catch (LuceneException& e) { throw Fail{what + ": the reader opened but cannot be read: " + exceptionText(e)}; }
            const Kept* k = find(got);
            if (!k) throw Fail{what + ": the reader presents something no commit held:" + diff(got, kept.back().dump)};
            bool same = false;
            auto ud = plain(r->getIndexCommit()->getUserData());
            for (auto& x : kept) same |= x.dump == got && x.ud == ud;
            REQUIRE(same, what << ": the reader presents user data no commit with this content held");
            r->close();
        });
        ++(ok ? fell : refused);
        if (!deep) return;
        guard("the version", [&] {
            int64_t v = IndexReader::getCurrentVersion(d);
            bool known = false;
            for (auto& x : kept) known |= x.version == v;
            REQUIRE(known, what << ": version " << v << " belongs to no commit");
        });
        guard("the user data", [&] {
            auto ud = plain(IndexReader::getCommitUserData(d));
            bool known = false;
            for (auto& x : kept) known |= x.ud == ud;
            REQUIRE(known, what << ": user data that belongs to no commit");
        });
        guard("listing", [&] {
            Collection<IndexCommitPtr> cs = IndexReader::listCommits(d);
            for (int i = 0; i < cs.size(); ++i) {
                const Kept* k = nullptr;
                for (auto& x : kept) if (x.name == cs[i]->getSegmentsFileName()) k = &x;
                REQUIRE(k, what << ": an unknown commit is listed");
                guard("opening a listed commit", [&] {
                    IndexReaderPtr r = IndexReader::open(cs[i], true);
                    REQUIRE(dumpReader(r, w.dc) == k->dump, what << ": commit " << str(k->name) << " is listed with other content");
                    r->close();
                });
            }
        });
        guard("the check", [&] {
            IndexStatusPtr st = newLucene<CheckIndex>(d)->checkIndex();
            if (!st->clean) return;
            int n = 0;
            for (int i = 0; i < st->segmentInfos.size(); ++i) n += st->segmentInfos[i]->docCount - st->segmentInfos[i]->numDeleted;
            bool known = false;
            for (auto& x : kept) known |= (int)x.ids.size() == n && x.name == st->segmentsFileName;
            REQUIRE(known, what << ": the check calls an index of " << n << " documents clean that no commit held");
        });
        RAMDirectoryPtr e = copyDir(d);
        std::vector<std::wstring> before;
        bool readable = guard("opening", [&] { IndexReaderPtr r = IndexReader::open(e, true); before = liveIds(r); r->close(); });
        bool wrote = guard("writing", [&] {
            IndexWriterPtr x = newLucene<IndexWriter>(e, w.a, false, w.policy, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
            DocSpec s;
            s.fields.push_back(keyword(L"id", L"extra"));
            x->addDocument(vf::build(s));
            x->close();
        });
        if (wrote) {
            IndexReaderPtr r;
            try { r = IndexReader::open(e, true); } catch (LuceneException& x) { throw Fail{what + ": a writer committed on the damaged index and now it cannot be read: " + exceptionText(x)}; }
            std::vector<std::wstring> ids = liveIds(r);
            REQUIRE(!ids.empty() && ids.back() == L"extra", what << ": the document added afterwards is missing");
            ids.pop_back();
            bool known = false;
            for (auto& x : kept) known |= x.ids == ids;
            REQUIRE(known, what << ": a writer continued from [" << joinIds(ids) << "], which no commit held");
            if (readable) REQUIRE(ids == before, what << ": a writer continued from [" << joinIds(ids) << "] but readers saw [" << joinIds(before) << "]");
            r->close();
        }
    }
    void damaged(const std::string& orig, const std::string& bytes, const std::string& what, bool deep) {
        if (bytes == orig) return;
        spill(dir, kept.back().name, bytes);
        look(dir, what, deep);
        spill(dir, kept.back().name, orig);
    }
};

std::string genDamage(Case& c, const std::string& orig, std::string& what) {
    std::string b = orig;
    size_t n = b.size();
    size_t at = c.chance(1, 4) ? c.draw(std::min<size_t>(n, 24)) : c.chance(1, 6) ? n - 1 - c.draw(std::min<size_t>(n, 12)) : c.draw(n);
    switch (c.weighted({6, 4, 3, 2, 2, 1, 1})) {
    case 0: b[at] = (char)(b[at] ^ (1 << c.draw(8))); what = "a bit flipped in byte " + str(at); break;
    case 1: b[at] = (char)c.pick(std::vector<int>{0, 0xff, 0x7f, 0x80, 1, 0xfe, 0xfd, 0xfc, 0xfb}); what = "byte " + str(at) + " overwritten"; break;
    case 2: b.resize(at); what = "cut to " + str(at) + " bytes"; break;
    case 3: { size_t l = 1 + c.draw(std::min<size_t>(n - at, 30)); for (size_t i = at; i < at + l && i < n; ++i) b[i] = 0; what = "bytes " + str(at) + " to " + str(at + l - 1) + " zeroed"; break; }
    case 4: for (size_t i = at; i < n; ++i) b[i] = 0; what = "zeroed from byte " + str(at); break;
    case 5: { size_t l = 1 + c.draw(8); for (size_t i = at; i < at + l && i < n; ++i) b[i] = (char)c.draw(256); what = str(l) + " random bytes at " + str(at); break; }
    default: { size_t o = c.draw(n); std::swap(b[at], b[o]); what = "bytes " + str(at) + " and " + str(o) + " exchanged"; }
    }
    return b;
}

}  // namespace

// random damage to the newest record
VF_SUB(record, 500, 30000) {
    Hist h(c);
    LUCENE_GUARD(h.build(14));
    std::string orig = slurp(h.dir, h.kept.back().name);
    int n = 0;
    do {
        std::string what;
        std::string b = genDamage(c, orig, what);
        c.note(str(h.kept.back().name) + ": " + what);
        h.damaged(orig, b, what, c.chance(1, 3));
    } while (++n < 25 && c.more(20));
    c.nontrivial(h.fell + h.refused >= 3 && h.kept.back().ids.size() >= 2);
}
// every truncation and every byte of the newest record
VF_SUB(everyByte, 10, 600) {
    Hist h(c);
    LUCENE_GUARD(h.build(7));
    std::string orig = slurp(h.dir, h.kept.back().name);
    if (orig.size() > 700) return;
    c.note("record of " + str(orig.size()) + " bytes");
    for (size_t i = 0; i < orig.size(); ++i) h.damaged(orig, orig.substr(0, i), "cut to " + str(i) + " bytes", i % 16 == 0);
    for (size_t i = 0; i < orig.size(); ++i) {
        std::string b = orig;
        b[i] = (char)(b[i] ^ (1 << c.draw(8)));
        h.damaged(orig, b, "byte " + str(i) + " altered", i % 16 == 0);
        b[i] = (char)(orig[i] + (c.chance(1, 2) ? 1 : -1));
        h.damaged(orig, b, "byte " + str(i) + " off by one", false);
    }
    // the format: older formats have no checksum
    for (int v = 0; v < 256; v += v < 16 || v >= 232 ? 1 : 8) {
        std::string b = orig;
        b[3] = (char)v;
        h.damaged(orig, b, "format changed to " + str((int)(signed char)v), true);
    }
    c.nontrivial(h.kept.back().ids.size() >= 2);
}
// damage to the hint file segments.gen: the newest commit is presented all the same
VF_SUB(hintFile, 300, 10000) {
    Hist h(c);
    LUCENE_GUARD(h.build(8));
    if (!h.dir->fileExists(L"segments.gen")) return;
    std::string orig = slurp(h.dir, L"segments.gen");
    int n = 0;
    do {
        std::string what;
        std::string b = c.chance(1, 10) ? std::string() : genDamage(c, orig, what);
        c.note("segments.gen: " + what);
        if (c.chance(1, 12) && h.dir->fileExists(L"segments.gen")) h.dir->deleteFile(L"segments.gen");
        else spill(h.dir, L"segments.gen", b);
        LUCENE_GUARD(
            IndexReaderPtr r = IndexReader::open(h.dir, true);
            REQUIRE(dumpReader(r, h.w.dc) == h.kept.back().dump, "segments.gen " << what << ": the newest commit is not presented");
            r->close();
            REQUIRE_EQ(IndexReader::getCurrentVersion(h.dir), h.kept.back().version, "version"););
    } while (++n < 12 && c.more(10));
    c.nontrivial(h.kept.back().ids.size() >= 2);
}

namespace {
struct Built {
    RAMDirectoryPtr dir;
    std::vector<DocSpec> docs;
    std::vector<bool> live;
    DumpCfg dc;
};
// an index whose segments hold known ranges of the documents
Built genBuilt(Case& c, bool payloads) {
    SegmentInfos::setDefaultGenFileRetryPauseMsec(0);
    Built b;
    b.dc.noPositions.insert(L"ot");
    b.dir = newLucene<RAMDirectory>();
    GenCfg g;
    g.maxFields = 3;
    g.payloads = payloads;
    IndexWriterPtr w = newLucene<IndexWriter>(b.dir, blankAnalyzer(), true, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMergeFactor(1000);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    w->setMaxBufferedDocs(c.chance(1, 2) ? c.range(2, 9) : 1000);
    bool cf = c.chance(1, 2);
    w->setUseCompoundFile(cf);
    int n = 0;
    while (n < 25 && c.more(10)) {
        DocSpec d = genDoc(c, g, L"d" + std::to_wstring(n++));
        b.docs.push_back(d);
        c.note(describe(d));
        w->addDocument(build(d));
        if (c.chance(1, 6)) { c.note("commit"); w->commit(); }
    }
    b.live.assign(b.docs.size(), true);
    if (c.chance(2, 3)) for (size_t i = 0; i < b.docs.size(); ++i) if (c.chance(1, 5)) { b.live[i] = false; c.note("delete " + str(i)); w->deleteDocuments(newLucene<Term>(L"id", b.docs[i].id())); }
    if (!b.docs.empty() && c.chance(1, 6)) {
        // a whole segment dies: it stays in the index without live documents
        size_t from = c.draw(b.docs.size()), to = std::min(b.docs.size(), from + 1 + (size_t)c.draw(6));
        for (size_t i = from; i < to; ++i) if (b.live[i]) { b.live[i] = false; c.note("delete " + str(i)); w->deleteDocuments(newLucene<Term>(L"id", b.docs[i].id())); }
    }
    if (c.chance(1, 4)) { MapStringString m = MapStringString::newInstance(); m.put(L"k", L"v"); w->commit(m); }
    w->close();
    if (c.chance(1, 4)) {   // norms in files of their own
        IndexReaderPtr r = IndexReader::open(b.dir, false);
        int k = 0;
        while (r->numDocs() && k++ < 3 && c.more(1)) {
            int d = (int)c.draw((uint64_t)r->maxDoc());
            if (r->isDeleted(d)) continue;
            r->setNorm(d, L"id", (uint8_t)c.draw(256));
        }
        r->close();
    }
    return b;
}
std::vector<SegmentReaderPtr> segmentsOf(const IndexReaderPtr& r) {
    std::vector<SegmentReaderPtr> v;
    Collection<IndexReaderPtr> s = r->getSequentialSubReaders();
    for (int i = 0; s && i < s.size(); ++i) v.push_back(boost::dynamic_pointer_cast<SegmentReader>(s[i]));
    return v;
}
struct Want { int docs = 0, live = 0; int64_t terms = 0, freq = 0, pos = 0, stored = 0, vectors = 0; std::set<std::wstring> fields, norms; };
Want wanted(const Built& b, size_t from, size_t n) {
    Want w;
    w.docs = (int)n;
    std::set<std::pair<std::wstring, std::wstring> > terms;
    for (size_t i = from; i < from + n; ++i) {
        auto inv = invert(b.docs[i]);
        for (auto& f : inv) {
            for (auto& t : f.second.terms) {
                terms.insert(std::make_pair(f.first, t.first));
                ++w.freq;
                if (b.live[i]) w.pos += f.second.omitTf ? 1 : (int64_t)t.second.size();
            }
            if (b.live[i] && f.second.tv && !f.second.terms.empty()) ++w.vectors;
            if (f.second.indexed && !f.second.omitNorms) w.norms.insert(f.first);
        }
        for (auto& f : b.docs[i].fields) w.fields.insert(f.name);
        if (!b.live[i]) continue;
        ++w.live;
        for (auto& f : b.docs[i].fields) if (f.kind == BINARY || f.kind == STOREDTEXT || (f.stored && f.kind != STREAM)) ++w.stored;
    }
    w.terms = (int64_t)terms.size();
    return w;
}
}  // namespace

// what the check says about an index the library wrote
VF_SUB(cleanIndex, 2500, 80000) {
    Built b = genBuilt(c, true);
    LUCENE_GUARD(
        IndexReaderPtr r = IndexReader::open(b.dir, true);
        std::vector<SegmentReaderPtr> segs = segmentsOf(r);
        bool partial = c.chance(1, 4);
        std::vector<size_t> checked;
        Collection<String> only;
        if (partial) {
            only = Collection<String>::newInstance();
            for (size_t i = 0; i < segs.size(); ++i) if (c.chance(1, 2)) { checked.push_back(i); only.add(segs[i]->getSegmentName()); }
            c.note("checking " + str(checked.size()) + " of " + str(segs.size()) + " segments");
        } else for (size_t i = 0; i < segs.size(); ++i) checked.push_back(i);
        std::map<std::wstring, std::string> before;
        for (auto& n : names(b.dir)) before[n] = slurp(b.dir, n);
        IndexStatusPtr st = newLucene<CheckIndex>(b.dir)->checkIndex(only);
        REQUIRE(st->clean, "an undamaged index is not called clean");
        REQUIRE(!st->missingSegments && !st->cantOpenSegments && !st->missingSegmentVersion && !st->toolOutOfDate, "flags");
        REQUIRE_EQ((int)st->numSegments, (int)segs.size(), "number of segments");
        REQUIRE_EQ((int)st->numBadSegments, 0, "bad segments");
        REQUIRE_EQ((int)st->totLoseDocCount, 0, "documents to lose");
        REQUIRE_EQ(st->partial, partial, "partial");
        REQUIRE(st->segmentsFileName == r->getIndexCommit()->getSegmentsFileName(), "name of the commit record");
        REQUIRE(plain(st->userData) == plain(r->getIndexCommit()->getUserData()), "user data");
        REQUIRE_EQ((int)st->segmentInfos.size(), (int)checked.size(), "segments reported");
        if (partial) {
            REQUIRE_EQ((int)st->segmentsChecked.size(), (int)checked.size(), "names of the segments checked");
            bool threw = false;
            try { newLucene<CheckIndex>(b.dir)->fixIndex(st); } catch (LuceneException&) { threw = true; }
            REQUIRE(threw, "an index checked in part was repaired");
        }
        std::vector<size_t> start; size_t at = 0;
        for (auto& s : segs) { start.push_back(at); at += (size_t)s->maxDoc(); }
        REQUIRE_EQ(at, b.docs.size(), "documents in the segments");
        for (size_t k = 0; k < checked.size(); ++k) {
            SegmentReaderPtr s = segs[checked[k]];
            SegmentInfoStatusPtr i = st->segmentInfos[(int)k];
            Want w = wanted(b, start[checked[k]], (size_t)s->maxDoc());
            std::string n = "segment " + str(s->getSegmentName()) + ": ";
            REQUIRE(i->name == s->getSegmentName(), n << "named " << str(i->name));
            REQUIRE_EQ((int)i->docCount, w.docs, n << "documents");
            REQUIRE_EQ((int)i->numDeleted, w.docs - w.live, n << "deletions");
            REQUIRE_EQ(i->hasDeletions, w.live != w.docs, n << "has deletions");
            REQUIRE(i->openReaderPassed, n << "could be opened");
            HashSet<String> fn = s->getFieldNames(IndexReader::FIELD_OPTION_ALL);
            REQUIRE_EQ((int)i->numFields, (int)fn.size(), n << "fields");
            for (auto& f : w.fields) REQUIRE(fn.contains(f), n << "field " << str(f));
            int norms = 0;
            for (HashSet<String>::iterator f = fn.begin(); f != fn.end(); ++f) if (s->hasNorms(*f)) ++norms;
            REQUIRE_EQ((int)i->fieldNormStatus->totFields, norms, n << "fields with norms");
            for (auto& f : w.norms) REQUIRE(s->hasNorms(f), n << "norms of " << str(f));
            REQUIRE_EQ(i->termIndexStatus->termCount, w.terms, n << "terms");
            REQUIRE_EQ(i->termIndexStatus->totFreq, w.freq, n << "term/document pairs");
            REQUIRE_EQ(i->termIndexStatus->totPos, w.pos, n << "tokens");
            REQUIRE_EQ((int)i->storedFieldStatus->docCount, w.live, n << "documents with stored fields");
            REQUIRE_EQ(i->storedFieldStatus->totFields, w.stored, n << "stored fields");
            REQUIRE_EQ((int)i->termVectorStatus->docCount, w.live, n << "documents with vectors");
            REQUIRE_EQ(i->termVectorStatus->totVectors, w.vectors, n << "vectors");
            REQUIRE(i->fieldNormStatus->error.isNull() && i->termIndexStatus->error.isNull() && i->storedFieldStatus->error.isNull() && i->termVectorStatus->error.isNull(), n << "errors");
        }
        std::map<std::wstring, std::string> after;
        for (auto& n : names(b.dir)) after[n] = slurp(b.dir, n);
        REQUIRE(before == after, "checking changed the index");
        if (!partial && c.chance(1, 3)) {
            c.note("repairing the undamaged index");
            Dump d = dumpReader(r, b.dc);
            newLucene<CheckIndex>(b.dir)->fixIndex(st);
            IndexReaderPtr r2 = IndexReader::open(b.dir, true);
            std::string df = diff(dumpReader(r2, b.dc), d);
            REQUIRE(df.empty(), "repairing an undamaged index changed it:" << df);
            r2->close();
        }
        r->close();
        c.nontrivial(b.docs.size() >= 3 && segs.size() >= 2));
}

// segments that lost files or parts of files: reported, and repaired by keeping the rest
VF_SUB(damagedSegments, 4000, 150000) {
    Built b = genBuilt(c, true);
    bool hit = false, keptSome = false;
    LUCENE_GUARD(
        IndexReaderPtr r = IndexReader::open(b.dir, true);
        std::vector<SegmentReaderPtr> segs = segmentsOf(r);
        if (segs.empty()) return;
        std::vector<std::set<std::wstring> > files;
        std::vector<Dump> dumps;
        std::vector<std::wstring> segNames;
        std::vector<std::vector<std::wstring> > ids;
        SegmentInfosPtr sis = newLucene<SegmentInfos>();
        sis->read(b.dir);
        for (size_t i = 0; i < segs.size(); ++i) {
            HashSet<String> f = sis->info((int)i)->files();
            files.push_back(std::set<std::wstring>(f.begin(), f.end()));
            dumps.push_back(dumpReader(segs[i], b.dc));
            segNames.push_back(segs[i]->getSegmentName());
            ids.push_back(liveIds(segs[i]));
        }
        std::wstring record = r->getIndexCommit()->getSegmentsFileName();
        r->close();
        std::map<std::wstring, std::string> damage;   // file -> what
        std::set<std::wstring> missing;
        int n = 0;
        do {
            size_t s = c.draw(segs.size());
            std::vector<std::wstring> fs(files[s].begin(), files[s].end());
            std::wstring f = c.pick(fs);
            if (damage.count(f)) continue;
            std::string bytes = slurp(b.dir, f);
            if (bytes.empty() || c.chance(1, 3)) { b.dir->deleteFile(f); missing.insert(f); damage[f] = "missing"; }
            else {
                size_t to = c.chance(1, 3) ? bytes.size() - 1 : c.chance(1, 4) ? 0 : c.draw(bytes.size());
                spill(b.dir, f, bytes.substr(0, to));
                damage[f] = "cut from " + str(bytes.size()) + " to " + str(to);
            }
            c.note(str(f) + " " + damage[f]);
        } while (++n < 4 && c.more(1));
        IndexStatusPtr st = newLucene<CheckIndex>(b.dir)->checkIndex();
        REQUIRE(!st->missingSegments, "the commit record was not damaged");
        REQUIRE_EQ((int)st->segmentInfos.size(), (int)segNames.size(), "segments reported");
        std::set<std::wstring> good;
        for (int i = 0; i < st->newSegments->size(); ++i) good.insert(st->newSegments->info(i)->name);
        int bad = 0; int lose = 0;
        std::vector<std::wstring> want;
        for (size_t i = 0; i < segNames.size(); ++i) {
            bool miss = false; bool touched = false;
            // norms and vectors files may be there without being of any use to the segment
            for (auto& f : files[i]) { std::wstring x = f.substr(f.find(L'.')); miss |= missing.count(f) > 0 && x != L".nrm" && x.substr(0, 3) != L".tv" && x != L".prx"; touched |= damage.count(f) > 0; }
            bool ok = good.count(segNames[i]) > 0;
            {   // recorded finding allVectorFiles: nothing tells that a segment had vectors once all three files are gone
                std::set<std::wstring> v; int gone = 0;
                for (auto& f : files[i]) { std::wstring x = f.substr(f.find(L'.')); if (x == L".tvx" || x == L".tvd" || x == L".tvf") { v.insert(f); gone += missing.count(f) > 0; } }
                if (gone == 3) { ++c.excluded; return; }
            }
            std::string what;
            for (auto& f : files[i]) if (damage.count(f)) what += str(f) + " " + damage[f] + "; ";
            if (!touched) REQUIRE(ok, "undamaged segment " << str(segNames[i]) << " is reported broken");
            if (miss) REQUIRE(!ok, "segment " << str(segNames[i]) << " lacks a file (" << what << ") but is called good");
            hit |= touched;
            if (ok && touched) {
                // nothing a reader shows may have changed
                std::string err; Dump d;
                try {
                    SegmentReaderPtr x = SegmentReader::get(true, st->newSegments->info([&] { for (int k = 0; k < st->newSegments->size(); ++k) if (st->newSegments->info(k)->name == segNames[i]) return k; return -1; }()), 1);
                    d = dumpReader(x, b.dc);
                    x->close();
                    err = diff(d, dumps[i]);
                } catch (LuceneException& e) { err = exceptionText(e); }
                REQUIRE(err.empty(), "segment " << str(segNames[i]) << " (" << what << ") is called good but: " << err);
            }
            if (ok) want.insert(want.end(), ids[i].begin(), ids[i].end());
            else { ++bad; lose += (int)ids[i].size(); }
        }
        REQUIRE_EQ(st->clean, bad == 0, "clean");
        REQUIRE_EQ((int)st->numBadSegments, bad, "bad segments");
        // a segment that cannot be opened counts with all its documents
        REQUIRE((int)st->totLoseDocCount >= lose, "documents to lose: " << st->totLoseDocCount << " instead of " << lose);
        keptSome = !want.empty();
        newLucene<CheckIndex>(b.dir)->fixIndex(st);
        REQUIRE(slurp(b.dir, record).size() > 0, "the old record");
        IndexReaderPtr r2 = IndexReader::open(b.dir, true);
        std::vector<std::wstring> got = liveIds(r2);
        REQUIRE(got == want, "after the repair the index holds [" << joinIds(got) << "] instead of [" << joinIds(want) << "]");
        std::vector<SegmentReaderPtr> left = segmentsOf(r2);
        size_t at = 0;
        for (size_t i = 0; i < segNames.size(); ++i) if (good.count(segNames[i])) {
            REQUIRE(at < left.size() && left[at]->getSegmentName() == segNames[i], "segment " << str(segNames[i]) << " was kept");
            std::string df = diff(dumpReader(left[at], b.dc), dumps[i]);
            REQUIRE(df.empty(), "segment " << str(segNames[i]) << " changed by the repair:" << df);
            ++at;
        }
        REQUIRE_EQ(at, left.size(), "segments after the repair");
        r2->close();
        IndexStatusPtr st2 = newLucene<CheckIndex>(b.dir)->checkIndex();
        REQUIRE(st2->clean, "the repaired index is not clean");
        // work goes on, and no new segment takes the name of an old one
        IndexWriterPtr w = newLucene<IndexWriter>(b.dir, blankAnalyzer(), false, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
        DocSpec s;
        s.fields.push_back(keyword(L"id", L"extra"));
        w->addDocument(build(s));
        if (c.chance(1, 4)) w->optimize();
        w->close();
        want.push_back(L"extra");
        IndexReaderPtr r3 = IndexReader::open(b.dir, true);
        got = liveIds(r3);
        REQUIRE(got == want, "after writing on: [" << joinIds(got) << "] instead of [" << joinIds(want) << "]");
        std::vector<SegmentReaderPtr> now = segmentsOf(r3);
        for (auto& x : now) if (!good.count(x->getSegmentName()))
            for (auto& o : segNames) REQUIRE(x->getSegmentName() != o, "a new segment took the name " << str(o) << " of a removed one");
        r3->close(););
    c.nontrivial(hit && keptSome);
}

// recorded finding: all three vector files of a segment missing
VF_SUB(allVectorFiles, 0, 0) {
    RAMDirectoryPtr d = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(d, blankAnalyzer(), true, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
    w->setUseCompoundFile(false);
    w->getMergePolicy();
    DocSpec s;
    FieldSpec f = text(L"x", L"a b");
    f.tv = Field::TERM_VECTOR_YES;
    s.fields.push_back(f);
    w->addDocument(build(s));
    w->close();
    for (auto& n : names(d)) if (n.find(L".tv") != std::wstring::npos) d->deleteFile(n);
    IndexStatusPtr st = newLucene<CheckIndex>(d)->checkIndex();
    REQUIRE(!st->clean, "a segment that lost all its vector files is called good");
}
