// C02: an open reader is an immutable snapshot; reopening and cloning give exactly the present.
#include "LuceneInc.h"
#include "world.h"
#include "MultiReader.h"
#include "ParallelReader.h"
#include "FilterIndexReader.h"
#include "FieldCache.h"
#include "_SegmentReader.h"
#include "SegmentReader.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "FileUtils.h"
#include <boost/filesystem.hpp>

using namespace vf;

namespace {

class KeepAll : public IndexDeletionPolicy {
public:
    virtual ~KeepAll() {}
    LUCENE_CLASS(KeepAll);
    virtual void onInit(Collection<IndexCommitPtr> commits) {}
    virtual void onCommit(Collection<IndexCommitPtr> commits) {}
};

// everything a reader shows by document number
std::string raw(const IndexReaderPtr& r) {
    std::string s = "maxDoc " + str(r->maxDoc()) + " numDocs " + str(r->numDocs()) + " numDeleted " + str(r->numDeletedDocs())
        + " hasDeletions " + str((int)r->hasDeletions()) + "\n";
    for (int i = 0; i < r->maxDoc(); ++i) s += std::string(r->isDeleted(i) ? "-" : "+") + dumpStored(r->document(i)) + "\n";
    std::set<std::wstring> fields;
    HashSet<String> fn = r->getFieldNames(IndexReader::FIELD_OPTION_ALL);
    for (HashSet<String>::iterator f = fn.begin(); f != fn.end(); ++f) fields.insert(*f);
    for (auto& f : fields) {
        s += narrow(f) + ":";
        if (r->hasNorms(f)) { ByteArray b = r->norms(f); for (int i = 0; i < r->maxDoc(); ++i) s += str((int)b[i]) + ","; }
        s += "\n";
    }
    TermEnumPtr te = r->terms();
    while (te->next()) s += narrow(te->term()->toString()) + "*" + str(te->docFreq()) + " ";
    return s;
}

std::string segments(const IndexReaderPtr& r) {
    std::string s;
    Collection<IndexReaderPtr> l = r->getSequentialSubReaders();
    for (int i = 0; i < l.size(); ++i) s += narrow(boost::dynamic_pointer_cast<SegmentReader>(l[i])->getSegmentName()) + " ";
    return s;
}

struct Cursor { IndexReaderPtr r; TermPositionsPtr tp; std::vector<std::vector<int> > want; size_t at; std::string name; bool freqOnly; };
struct H {
    IndexReaderPtr r;
    std::vector<DocSpec> docs;
    std::wstring seg;           // segments file at the time of opening
    bool nrt = false, ro = true, verified = false;
    boost::weak_ptr<IndexWriter> writer;      // nrt: it may be gone
    int stamp = 0;              // nrt: number of operations then
    std::string rawAt;
    Dump dump;
    int refs = 1;
    std::string name;
    std::vector<std::string> cache;
};

struct Snap {
    Case& c;
    DirectoryPtr dir;
    World w;
    std::vector<H> hs;
    std::vector<Cursor> cur;
    std::map<std::wstring, std::vector<DocSpec> > commits;
    bool keepAll = false;
    int made = 0, ops = 0, checksAfterChange = 0, reopens = 0, shared = 0;

    Snap(Case& c, const DirectoryPtr& d) : c(c), dir(d), w(c, d) {}

    std::wstring seg() { return SegmentInfos::getCurrentSegmentFileName(dir); }
    void record() { commits[seg()] = w.comm; }

    void verify(H& h) {
        std::string p = World::check(h.r, h.docs, w.dc);
        REQUIRE(p.empty(), "reader " << h.name << " " << p);
        std::string x = raw(h.r);
        if (h.verified) { REQUIRE_EQ(x, h.rawAt, "reader " << h.name << " changed while open:"); if (h.seg != seg()) ++checksAfterChange; }
        h.rawAt = x;
        if (c.chance(1, 4)) {
            Collection<String> v = FieldCache::DEFAULT()->getStrings(h.r, L"id");
            for (int i = 0; i < h.r->maxDoc(); ++i) if (!h.r->isDeleted(i))
                REQUIRE_EQ(narrow(v[i]), narrow(h.r->document(i)->get(L"id")), "cached value of document " << i << " of reader " << h.name);
        }
        if (!h.nrt && !h.seg.empty()) REQUIRE_EQ((int)h.r->isCurrent(), (int)(h.seg == seg()), "isCurrent of reader " << h.name << " opened at " << narrow(h.seg) << " while the latest commit is " << narrow(seg()) << ":");
        h.verified = true;
    }
    H& add(const IndexReaderPtr& r, const std::vector<DocSpec>& docs, bool nrt, bool ro, const std::string& how, const std::wstring& at = L"") {
        H h;
        h.r = r; h.docs = docs; h.nrt = nrt; h.ro = ro;
        h.seg = nrt ? L"" : at.empty() ? seg() : at;
        h.stamp = ops;
        h.name = "#" + str(made++) + " (" + how + ")";
        c.note("  reader " + h.name);
        if (nrt) h.writer = w.w;
        hs.push_back(h);
        H& x = hs.back();
        REQUIRE_EQ(x.r->numDocs(), (int)docs.size(), "documents of new reader " << x.name);
        if (!c.chance(1, 3)) verify(x);
        return x;
    }
    void closeAt(size_t i) {
        H h = hs[i];
        c.note("close reader " + h.name);
        hs.erase(hs.begin() + i);
        for (size_t k = 0; k < cur.size();) if (cur[k].r == h.r) cur.erase(cur.begin() + k); else ++k;
        if (h.refs == 2) {
            h.r->close();
            verify(h);
            h.r->decRef();
        } else h.r->close();
        bool threw = false;
        try { h.r->document(0); } catch (AlreadyClosedException&) { threw = true; } catch (LuceneException&) {}
        REQUIRE(threw, "a closed reader still answers");
        for (H& o : hs) if (c.chance(1, 3)) verify(o);
    }
    void advance(Cursor& q, int n) {
        while (n-- > 0 && q.at < q.want.size()) {
            std::vector<int>& e = q.want[q.at++];
            REQUIRE(q.tp->next(), "cursor on " << q.name << " ends early");
            REQUIRE_EQ(q.tp->doc(), e[0], "document of the cursor on " << q.name);
            REQUIRE_EQ(q.tp->freq(), e[1], "frequency of the cursor on " << q.name);
            if (!q.freqOnly) for (size_t k = 2; k < e.size(); ++k) REQUIRE_EQ(q.tp->nextPosition(), e[k], "position of the cursor on " << q.name);
        }
        if (q.at == q.want.size()) REQUIRE(!q.tp->next(), "cursor on " << q.name << " goes on");
    }
    void reader() {
        if (hs.empty() || c.chance(1, 5)) {
            if (w.w && c.chance(1, 2)) {
                c.note("get reader from writer");
                IndexReaderPtr r = c.chance(1, 4) ? w.w->getReader(c.range(1, 3)) : w.w->getReader();
                add(r, w.pend, true, true, "near-real-time");
            } else {
                bool ro = !c.chance(1, 4);
                c.note("open reader");
                IndexReaderPtr r = IndexReader::open(dir, IndexDeletionPolicyPtr(), ro, c.range(1, 3));
                add(r, w.comm, false, ro, ro ? "read-only" : "modifiable");
            }
            return;
        }
        size_t i = c.draw(hs.size());
        switch (c.weighted({4, 5, 2, 3, 2, 2, 1})) {
            case 0: verify(hs[i]); break;
            case 1: {
                H h = hs[i];
                c.note("reopen " + h.name);
                ++reopens;
                if (h.nrt) {
                    IndexReaderPtr r;
                    bool closedWriter = !w.w || h.writer.lock() != w.w;
                    try { r = h.r->reopen(); }
                    catch (AlreadyClosedException&) { if (!closedWriter) throw; c.note("  writer closed"); return; }
                    if (r != h.r) add(r, closedWriter ? w.comm : w.pend, true, true, "reopened near-real-time").writer = h.writer;
                    else { std::string p = World::check(r, closedWriter ? w.comm : w.pend, w.dc); REQUIRE(p.empty(), "reopening a near-real-time reader gave the same reader, though " << p); }
                } else if (keepAll && c.chance(1, 3)) {
                    Collection<IndexCommitPtr> cs = IndexReader::listCommits(dir);
                    std::vector<IndexCommitPtr> known;
                    for (int k = 0; k < cs.size(); ++k) if (commits.count(cs[k]->getSegmentsFileName())) known.push_back(cs[k]);
                    if (known.empty()) return;
                    std::sort(known.begin(), known.end(), [](const IndexCommitPtr& a, const IndexCommitPtr& b) { return a->getGeneration() < b->getGeneration(); });
                    IndexCommitPtr p = known[c.draw(known.size())];
                    c.note("  on " + narrow(p->getSegmentsFileName()));
                    IndexReaderPtr r = h.r->reopen(p);
                    bool same = h.seg == p->getSegmentsFileName() && h.ro;
                    REQUIRE_EQ((int)(r == h.r), (int)same, "reopening a reader of " << narrow(h.seg) << " on " << narrow(p->getSegmentsFileName()) << " gives the same reader:");
                    if (r != h.r) {
                        H& x = add(r, commits[p->getSegmentsFileName()], false, true, "reopened on " + narrow(p->getSegmentsFileName()), p->getSegmentsFileName());
                        x.verified = false;
                        verify(x);
                        c.label("reopened on a commit");
                    }
                } else {
                    bool ro = h.ro;
                    IndexReaderPtr r;
                    if (c.chance(1, 3)) { ro = c.chance(1, 2); r = h.r->reopen(ro); } else r = h.r->reopen();
                    bool current = h.seg == seg(), same = current && ro == h.ro;
                    REQUIRE_EQ((int)(r == h.r), (int)same, "reopening (" << (current ? "nothing changed" : "a newer commit exists") << ", " << (ro == h.ro ? "same" : "other") << " mode) gives the same reader:");
                    if (r != h.r) add(r, w.comm, false, ro, "reopened from " + h.name);
                    else ++shared;
                }
                if (c.chance(1, 2)) for (size_t k = 0; k < hs.size(); ++k) if (hs[k].r == h.r) { if (c.chance(1, 3)) closeAt(k); else verify(hs[k]); break; }
                break;
            }
            case 2: {
                H h = hs[i];
                c.note("clone " + h.name);
                bool ro = h.ro;
                IndexReaderPtr r;
                if (c.chance(1, 2) && !h.nrt) { ro = c.chance(1, 2); r = boost::dynamic_pointer_cast<IndexReader>(h.r->clone(ro)); }
                else r = boost::dynamic_pointer_cast<IndexReader>(h.r->clone());
                REQUIRE(r && r != h.r, "the clone is the reader itself");
                H& x = add(r, h.docs, h.nrt, ro, "clone of " + h.name, h.seg);
                x.stamp = h.stamp;
                x.writer = h.writer;
                if (h.verified) { verify(x); REQUIRE_EQ(x.rawAt, h.rawAt, "a clone differs from the original"); }
                c.label("clone");
                break;
            }
            case 3: closeAt(i); break;
            case 4: {
                TermEnumPtr te = hs[i].r->terms();
                std::vector<TermPtr> ts;
                while (te->next()) ts.push_back(te->term());
                if (ts.empty()) break;
                TermPtr t = ts[c.draw(ts.size())];
                Cursor q;
                q.r = hs[i].r;
                q.at = 0;
                q.freqOnly = w.dc.noPositions.count(t->field()) > 0;
                q.name = narrow(t->toString()) + " of " + hs[i].name;
                TermPositionsPtr tp = hs[i].r->termPositions(t);
                while (tp->next()) {
                    std::vector<int> e{tp->doc(), tp->freq()};
                    if (!q.freqOnly) for (int k = 0; k < e[1]; ++k) e.push_back(tp->nextPosition());
                    q.want.push_back(e);
                }
                q.tp = hs[i].r->termPositions(t);
                c.note("cursor on " + q.name);
                cur.push_back(q);
                advance(cur.back(), c.range(0, 2));
                break;
            }
            case 5: if (!cur.empty()) { size_t k = c.draw(cur.size()); c.note("continue " + cur[k].name); advance(cur[k], c.range(1, 4)); if (cur[k].at >= cur[k].want.size()) cur.erase(cur.begin() + k); c.label("long-lived cursor"); } break;
            default: if (hs[i].refs == 1) { hs[i].r->incRef(); hs[i].refs = 2; } break;
        }
    }
    void nrtCurrent(bool changed) {
        // the writer is closed: such a reader may only claim to be current if it shows the latest commit
        for (H& h : hs) if (h.nrt && (!h.writer.lock() || h.writer.lock() != w.w) && h.r->isCurrent()) {
            std::string p = World::check(h.r, commits[seg()], w.dc);
            REQUIRE(p.empty(), "near-real-time reader " << h.name << ", whose writer is gone, claims to be current, but compared with the latest commit: " << p);
        }
        for (H& h : hs) if (h.nrt && h.writer.lock() == w.w && w.w && h.stamp == ops && !changed && !h.r->isCurrent()) {
            // getting a reader may start a merge: then there is something newer
            IndexReaderPtr n = w.w->getReader();
            std::string a = segments(h.r), b = segments(n);
            n->close();
            REQUIRE(a != b, "near-real-time reader " << h.name << " is not current, though its writer did nothing since");
        }
        for (H& h : hs) if (h.nrt && h.writer.lock() == w.w && w.w) {
            std::vector<std::wstring> a, b;
            for (auto& d : h.docs) a.push_back(d.id());
            for (auto& d : w.pend) b.push_back(d.id());
            if (a != b) REQUIRE(!h.r->isCurrent(), "near-real-time reader " << h.name << " claims to be current, but its writer holds [" << joinIds(b) << "] and it shows [" << joinIds(a) << "]");
        }
    }
};

DirectoryPtr makeDir(Case& c, std::string& path) {
    static int n = 0;
    if (!c.chance(1, 6)) return newLucene<RAMDirectory>();
    path = scratchDir() + "/snap" + str(n++);
    boost::filesystem::remove_all(path);
    if (c.chance(1, 2)) return newLucene<MMapDirectory>(W(path));
    return newLucene<SimpleFSDirectory>(W(path));
}
}  // namespace

// a directory's readers: plain, near-real-time, cloned, reopened, over a writer's whole life
VF_SUB(directory, 5000, 120000) {
    std::string path;
    DirectoryPtr d = makeDir(c, path);
    if (!path.empty()) c.note("on disk");
    struct Clean { std::string p; ~Clean() { if (!p.empty()) boost::filesystem::remove_all(p); } } clean{path};
    LUCENE_GUARD(
        Snap s(c, d);
        s.keepAll = c.chance(1, 3);
        if (s.keepAll) s.w.policy = newLucene<KeepAll>();
        s.w.cfg = genWriterCfg(c, false);
        c.note(s.w.cfg.describe());
        s.w.open(true);
        if (s.seg().empty()) s.w.commit();
        s.record();
        int avg = c.range(6, 25);
        for (int o = 0; o < 60 && c.more(avg); ++o) {
            if (s.hs.size() < 8 && c.chance(1, 2)) { s.reader(); s.nrtCurrent(false); }
            else {
                ++s.ops;
                s.w.step();
                s.record();
                s.nrtCurrent(true);
                if (!s.hs.empty() && c.chance(1, 2)) s.verify(s.hs[c.draw(s.hs.size())]);
            }
            if (s.hs.size() >= 8) s.closeAt(c.draw(s.hs.size()));
        }
        if (s.w.w && c.chance(1, 2)) { s.w.close(); s.record(); }
        for (auto& q : s.cur) s.advance(q, 1000);
        for (auto& h : s.hs) s.verify(h);
        while (!s.hs.empty()) s.closeAt(c.draw(s.hs.size()));
        if (s.w.w) s.w.close();
        if (s.checksAfterChange >= 2 && s.reopens > 0) c.nontrivial();
        if (s.reopens) c.label("reopened");
        if (s.shared) c.label("reopen gave the same reader");
        d->close(););
}

namespace {
struct Part {
    DirectoryPtr dir;
    World w;
    Part(Case& c, const DirectoryPtr& d) : dir(d), w(c, d) {}
};
typedef std::vector<DocSpec> Docs;
struct Whole {
    IndexReaderPtr r;
    std::vector<IndexReaderPtr> own;    // readers to close by hand
    std::vector<std::wstring> segs;     // commit of each part
    Docs docs;
    std::string rawAt;
    bool verified = false;
    std::string name;
};
}

// readers made of other readers: reopening, cloning and closing never affect the parts or each other
VF_SUB(composed, 2500, 60000) {
    LUCENE_GUARD(
        int kind = c.weighted({3, 3, 1});   // multi, parallel, filter
        int n = kind == 2 ? 1 : c.range(1, 3);
        std::vector<boost::shared_ptr<Part> > ps;
        DumpCfg dc;
        dc.noPositions.insert(L"ot");
        // parallel parts: the same documents with their fields spread over the parts
        std::vector<Docs> pdocs(n);
        for (int i = 0; i < n; ++i) {
            ps.push_back(boost::shared_ptr<Part>(new Part(c, newLucene<RAMDirectory>())));
            Part& p = *ps.back();
            p.w.cfg = genWriterCfg(c, false);
            p.w.next = 100 * i;
            if (kind == 1) { p.w.cfg.maxBufferedDocs = 2; p.w.cfg.mergeFactor = 10; }
            p.w.open(true);
        }
        int nextDoc = 0;
        auto both = [&] {       // kind 1: one more document in every part
            std::wstring id = L"d" + std::to_wstring(nextDoc++);
            GenCfg g;
            g.groups = false;
            DocSpec d = genDoc(c, g, id);
            for (int i = 0; i < n; ++i) {
                DocSpec x;
                x.boost = 1.0;
                for (auto f : d.fields) {
                    // a field belongs to one part only
                    size_t owner = 0;
                    for (wchar_t ch : f.name) owner += ch;
                    if (f.name == L"id" ? i == 0 : (int)(owner % n) == i) { f.boost *= 1.0; x.fields.push_back(f); }
                }
                ps[i]->w.w->addDocument(build(x));
                ps[i]->w.pend.push_back(x);
            }
        };
        std::vector<DocSpec> partDocs;
        auto total = [&] {
            Docs t;
            if (kind == 1) {
                for (size_t k = 0; k < ps[0]->w.comm.size(); ++k) {
                    DocSpec x;
                    for (int i = 0; i < n; ++i) for (auto& f : ps[i]->w.comm[k].fields) x.fields.push_back(f);
                    t.push_back(x);
                }
            } else for (auto& p : ps) t.insert(t.end(), p->w.comm.begin(), p->w.comm.end());
            return t;
        };
        auto segsNow = [&] { std::vector<std::wstring> v; for (auto& p : ps) v.push_back(SegmentInfos::getCurrentSegmentFileName(p->dir)); return v; };
        std::vector<Whole> ws;
        int made = 0, changedChecks = 0, reopened = 0;
        // stored fields of a parallel document come part by part; vectors and postings are compared as they are
        auto verify = [&](Whole& h) {
            std::string df = diff(dumpReader(h.r, dc), dumpModel(h.docs, dc));
            REQUIRE(df.empty(), "reader " << h.name << ": content differs:" << df);
            std::string x = raw(h.r);
            if (h.verified) { REQUIRE_EQ(x, h.rawAt, "reader " << h.name << " changed while open:"); if (h.segs != segsNow()) ++changedChecks; }
            h.rawAt = x;
            h.verified = true;
            REQUIRE_EQ((int)h.r->isCurrent(), (int)(h.segs == segsNow()), "isCurrent of reader " << h.name);
        };
        auto add = [&](Whole h, const std::string& how) {
            h.name = "#" + str(made++) + " (" + how + ")";
            c.note("  reader " + h.name);
            ws.push_back(h);
            if (!c.chance(1, 3)) verify(ws.back());
        };
        auto openNew = [&] {
            Whole h;
            std::vector<IndexReaderPtr> subs;
            for (auto& p : ps) subs.push_back(IndexReader::open(p->dir, true));
            bool closeSubs = c.chance(1, 2);
            if (kind == 0) h.r = newLucene<MultiReader>(Collection<IndexReaderPtr>::newInstance(subs.begin(), subs.end()), closeSubs);
            else if (kind == 1) {
                ParallelReaderPtr pr = newLucene<ParallelReader>(closeSubs);
                for (auto& s : subs) pr->add(s);
                h.r = pr;
            } else { h.r = newLucene<FilterIndexReader>(subs[0]); closeSubs = true; }
            if (!closeSubs) {
                if (c.chance(1, 2)) { for (auto& s : subs) s->close(); c.label("parts closed at once"); }
                else h.own = subs;
            }
            h.docs = total();
            h.segs = segsNow();
            add(h, closeSubs ? "owning" : "sharing");
        };
        for (auto& p : ps) p->w.commit();
        openNew();
        int avg = c.range(5, 18);
        for (int o = 0; o < 40 && c.more(avg); ++o) {
            if (c.chance(1, 2)) {
                if (kind == 1) {
                    c.note("documents in every part");
                    for (int k = 0; k == 0 || (k < 5 && c.more(2)); ++k) both();
                    if (c.chance(1, 4) && !ps[0]->w.pend.empty()) {
                        // delete the same document everywhere: it is found by its number in the parallel order
                        c.note("delete all");
                        for (auto& p : ps) { p->w.w->deleteAll(); p->w.pend.clear(); }
                    }
                    for (auto& p : ps) p->w.commit();
                } else {
                    Part& p = *ps[c.draw(ps.size())];
                    for (int k = 0; k == 0 || (k < 4 && c.more(2)); ++k) p.w.step();
                }
                if (!ws.empty() && c.chance(1, 2)) verify(ws[c.draw(ws.size())]);
                continue;
            }
            if (ws.empty() || c.chance(1, 6)) { openNew(); continue; }
            size_t i = c.draw(ws.size());
            switch (c.weighted({4, kind == 2 ? 0 : 2, 2, 2})) {
                case 0: {
                    if (kind == 2) { verify(ws[i]); break; }
                    Whole h = ws[i];
                    c.note("reopen " + h.name);
                    IndexReaderPtr r = h.r->reopen();
                    REQUIRE_EQ((int)(r == h.r), (int)(h.segs == segsNow()), "reopening gives the same reader:");
                    ++reopened;
                    if (r == h.r) { c.label("reopen gave the same reader"); break; }
                    Whole x;
                    x.r = r; x.docs = total(); x.segs = segsNow();
                    add(x, "reopened from " + h.name);
                    if (c.chance(1, 2)) verify(ws[i]);
                    break;
                }
                case 1: {
                    Whole h = ws[i];
                    c.note("clone " + h.name);
                    Whole x;
                    x.r = boost::dynamic_pointer_cast<IndexReader>(h.r->clone());
                    REQUIRE(x.r && x.r != h.r, "the clone is the reader itself");
                    x.docs = h.docs; x.segs = h.segs;
                    add(x, "clone of " + h.name);
                    c.label("clone");
                    break;
                }
                case 2: verify(ws[i]); break;
                default: {
                    Whole h = ws[i];
                    c.note("close " + h.name);
                    ws.erase(ws.begin() + i);
                    h.r->close();
                    for (auto& s : h.own) { REQUIRE_EQ(s->numDocs(), s->numDocs(), ""); raw(s); s->close(); }
                    for (auto& o2 : ws) if (c.chance(1, 2)) verify(o2);
                }
            }
        }
        for (auto& h : ws) verify(h);
        while (!ws.empty()) {
            Whole h = ws.back();
            ws.pop_back();
            h.r->close();
            for (auto& s : h.own) s->close();
            for (auto& o2 : ws) if (c.chance(1, 3)) verify(o2);
        }
        for (auto& p : ps) if (p->w.w) p->w.close();
        if (changedChecks && reopened) c.nontrivial(););
}
