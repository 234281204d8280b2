// C29: deletions and norm changes made through a reader are exact and transactional.
#include "LuceneInc.h"
#include "world.h"
#include "MultiReader.h"
#include "ParallelReader.h"
#include "CheckIndex.h"
#include "SegmentReader.h"
#include "_SegmentReader.h"
#include "LuceneException.h"

using namespace vf;

namespace {
class KeepAll : public IndexDeletionPolicy {
public:
    virtual ~KeepAll() {}
    LUCENE_CLASS(KeepAll);
    virtual void onInit(Collection<IndexCommitPtr> commits) {}
    virtual void onCommit(Collection<IndexCommitPtr> commits) {}
};

struct State {
    std::vector<std::wstring> ids;                       // by document number, deleted ones too
    std::vector<char> dead;
    std::map<std::wstring, std::vector<int> > norms;     // field -> norm bytes
    int live() const { int n = 0; for (char d : dead) if (!d) ++n; return n; }
};

struct R {
    IndexReaderPtr r;
    State s;
    std::wstring seg;           // its commit
    std::wstring base;          // the latest commit when it was opened or last committed: a newer one makes it stale
    bool ro = true, changed = false, lock = false, sawStale = false;
    bool undid = false;         // deletions were undone in it
    int epoch = 0;              // commits that undid deletions when its own commit was read
    std::string name;
};

typedef std::map<std::wstring, State> Commits;

// does the segment of a document have norms for the field?
bool leafHasNorms(const IndexReaderPtr& r, int doc, const std::wstring& f) {
    Collection<IndexReaderPtr> subs = r->getSequentialSubReaders();
    if (!subs) return r->hasNorms(f);
    int base = 0;
    for (int i = 0; i < subs.size(); ++i) {
        if (doc < base + subs[i]->maxDoc()) return leafHasNorms(subs[i], doc - base, f);
        base += subs[i]->maxDoc();
    }
    return false;
}

State readState(const IndexReaderPtr& r) {
    State s;
    for (int i = 0; i < r->maxDoc(); ++i) {
        s.ids.push_back(r->document(i)->get(L"id"));
        s.dead.push_back(r->isDeleted(i));
    }
    HashSet<String> fn = r->getFieldNames(IndexReader::FIELD_OPTION_INDEXED);
    for (HashSet<String>::iterator f = fn.begin(); f != fn.end(); ++f) if (r->hasNorms(*f)) {
        ByteArray b = r->norms(*f);
        std::vector<int>& v = s.norms[*f];
        for (int i = 0; i < r->maxDoc(); ++i) v.push_back(b[i]);
    }
    return s;
}

// a reader against a state
void same(Case& c, const IndexReaderPtr& r, const State& s, const std::string& name) {
    int n = (int)s.ids.size(), live = s.live();
    REQUIRE_EQ(r->maxDoc(), n, name << ": maxDoc");
    REQUIRE_EQ(r->numDocs(), live, name << ": numDocs");
    REQUIRE_EQ(r->numDeletedDocs(), n - live, name << ": numDeletedDocs");
    if (n != live) REQUIRE(r->hasDeletions(), name << ": deletions denied");
    for (int i = 0; i < n; ++i) {
        REQUIRE_EQ((int)r->isDeleted(i), (int)s.dead[i], name << ": document " << i << " deleted");
        if (c.chance(1, 3)) REQUIRE_EQ(narrow(r->document(i)->get(L"id")), narrow(s.ids[i]), name << ": document " << i);
    }
    TermDocsPtr all = r->termDocs(TermPtr());
    for (int i = 0; i < n; ++i) if (!s.dead[i]) {
        REQUIRE(all->next(), name << ": all documents end before " << i);
        REQUIRE_EQ(all->doc(), i, name << ": all documents");
    }
    REQUIRE(!all->next(), name << ": all documents go on");
    for (int k = 0; k < 3 && n; ++k) {
        int i = (int)c.draw(n);
        TermDocsPtr td = r->termDocs(term(L"id", s.ids[i]));
        bool has = td->next();
        REQUIRE_EQ((int)has, (int)!s.dead[i], name << ": document " << i << " found by its key");
        if (has) { REQUIRE_EQ(td->doc(), i, name << ": document found by its key"); REQUIRE(!td->next(), name << ": key of " << i << " found twice"); }
    }
    for (auto& f : s.norms) {
        REQUIRE(r->hasNorms(f.first), name << ": no norms for " << narrow(f.first));
        int how = c.chance(1, 2);
        ByteArray b;
        int off = 0;
        if (how == 0) b = r->norms(f.first);
        else { off = c.range(0, 3); b = ByteArray::newInstance(n + off); r->norms(f.first, b, off); }
        for (int i = 0; i < n; ++i) REQUIRE_EQ((int)b[off + i], f.second[i], name << ": norm of document " << i << " for " << narrow(f.first));
    }
}

struct Model {
    Case& c;
    FaultDirPtr dir;
    World w;
    std::map<std::wstring, DocSpec> all;
    std::map<std::pair<std::wstring, std::wstring>, int> over;      // norms that were set: (id, field)
    State comm;
    Commits commits;
    std::wstring latest;
    std::vector<R> rs;
    IndexDeletionPolicyPtr policy;
    int made = 0, mods = 0, committed = 0, refused = 0, faults = 0, undeletes = 0, undoCommits = 0;

    Model(Case& c, const FaultDirPtr& d) : c(c), dir(d), w(c, d) { w.dc.norms = false; }

    std::wstring seg() { return SegmentInfos::getCurrentSegmentFileName(dir); }
    IndexReaderPtr open(bool ro) { return policy ? IndexReader::open(dir, policy, ro) : IndexReader::open(dir, ro); }

    void remember(const std::vector<DocSpec>& ds) { for (auto& d : ds) all[d.id()] = d; }
    // the state the directory shows now, checked against the writer's model and the norms set earlier
    void baseline(const std::string& after) {
        IndexReaderPtr r = IndexReader::open(dir, true);
        remember(w.attempted);
        std::string p = World::check(r, w.comm, w.dc);
        REQUIRE(p.empty(), after << ": " << p);
        State s = readState(r);
        for (size_t i = 0; i < s.ids.size(); ++i) if (!s.dead[i]) {
            const DocSpec& d = all[s.ids[i]];
            auto inv = invert(d, 0, 1);
            for (auto& f : s.norms) {
                if (!leafHasNorms(r, (int)i, f.first)) continue;
                auto o = over.find(std::make_pair(s.ids[i], f.first));
                auto v = inv.find(f.first);
                if (o != over.end()) REQUIRE_EQ(f.second[i], o->second, after << ": norm that was set for " << narrow(s.ids[i]) << " field " << narrow(f.first));
                else if (v != inv.end() && !v->second.omitNorms && !v->second.terms.empty())
                    REQUIRE_EQ(f.second[i], (int)Similarity::encodeNorm(v->second.boost * (1.0 / std::sqrt((double)v->second.length))), after << ": norm of " << narrow(s.ids[i]) << " field " << narrow(f.first));
            }
        }
        r->close();
        comm = s;
        latest = seg();
        commits[latest] = comm;
    }
    std::vector<DocSpec> docsOf(const State& s) {
        std::vector<DocSpec> v;
        for (size_t i = 0; i < s.ids.size(); ++i) if (!s.dead[i]) v.push_back(all[s.ids[i]]);
        return v;
    }
    void overOf(const State& s) {
        // what the new latest commit holds is what counts from now on
        over.clear();
        for (auto& f : s.norms) for (size_t i = 0; i < s.ids.size(); ++i) over[std::make_pair(s.ids[i], f.first)] = f.second[i];
    }
    void writerSession() {
        c.note("writer session");
        w.reopen(c.chance(1, 2));
        for (int k = 0; k < 6 && c.more(2); ++k) w.step();
        w.close();
        // norms that were set survive; norms of documents the sets never touched follow from their text
        std::map<std::pair<std::wstring, std::wstring>, int> keep;
        keep.swap(over);
        for (auto& o : keep) over[o.first] = o.second;
        baseline("after the writer session");
    }
    bool lockHeld() { for (auto& x : rs) if (x.lock) return true; return false; }

    // a modification: must it go through?
    template <class F> bool attempt(R& x, const std::string& what, F f) {
        c.note(what + " on " + x.name);
        bool others = false;
        for (auto& y : rs) if (&y != &x && y.lock) others = true;
        bool stale = x.base != latest;
        try {
            f();
        } catch (StaleReaderException&) {
            REQUIRE(!x.ro && stale, what << " on " << x.name << ": stale, though no newer commit exists");
            ++refused;
            x.sawStale = true;
            c.label("stale");
            return false;
        } catch (LockObtainFailedException&) {
            REQUIRE(!x.ro && others, what << " on " << x.name << ": locked, though nobody holds the lock");
            ++refused;
            c.label("locked");
            return false;
        } catch (UnsupportedOperationException&) {
            REQUIRE(x.ro, what << " on " << x.name << " refused");
            ++refused;
            return false;
        }
        REQUIRE(!x.ro, what << " went through on the read-only reader " << x.name);
        REQUIRE(!stale, what << " went through on " << x.name << ", which is older than the latest commit " << narrow(latest) << " (opened or committed at " << narrow(x.base) << ")");
        REQUIRE(!others, what << " went through on " << x.name << " while another reader holds the lock");
        x.lock = true;
        x.changed = true;
        ++mods;
        return true;
    }
    void afterCommit(R& x) {
        latest = seg();
        if (x.undid) ++undoCommits;
        x.undid = false;
        x.epoch = undoCommits;
        x.base = x.seg = latest;
        x.changed = false;
        x.lock = false;
        comm = x.s;
        commits[latest] = comm;
        overOf(comm);
        w.comm = w.pend = docsOf(comm);
        ++committed;
        IndexReaderPtr r = IndexReader::open(dir, true);
        same(c, r, comm, "new reader after a commit");
        if (c.chance(1, 3)) {
            std::string p = World::check(r, w.comm, w.dc);
            REQUIRE(p.empty(), "new reader after a commit " << p);
        }
        r->close();
    }
    // commits or closes; with a fault in between perhaps
    void publish(R& x, int how) {
        static const char* N[] = {"commit", "commit with user data", "flush", "close"};
        c.note(std::string(N[how]) + " " + x.name);
        std::wstring before = seg();
        bool was = x.changed;
        MapStringString ud = MapStringString::newInstance();
        ud.put(L"k", L"v" + std::to_wstring(committed));
        doPublish(x, how, ud);
        std::wstring now = seg();
        REQUIRE_EQ((int)(now != before), (int)was, N[how] << " of " << x.name << " makes a commit:");
        if (was) {
            afterCommit(x);
            if (how == 1) REQUIRE_EQ(narrow(IndexReader::getCommitUserData(dir).get(L"k")), narrow(ud.get(L"k")), "user data of the commit");
        }
    }
    void doPublish(R& x, int how, MapStringString ud) {
        switch (how) {
            case 0: x.r->flush(); break;
            case 1: x.r->flush(ud); break;
            case 2: x.r->flush(); break;
            default: x.r->close();
        }
    }
    void faultyCommit(R& x) {
        // onto an older commit, an unreadable newer one counts as aborted (by design): no faults there
        if (!x.changed || x.seg != latest) return;
        int at = c.size(60), n = 0;
        bool read = c.chance(1, 4);
        std::wstring before = seg();
        dir->hook = [&](Ev e, const std::wstring&) {
            if (e == EV_TOUCH || (e == EV_READ && !read)) return;
            if (n++ == at) boost::throw_exception(IOException(L"injected"));
        };
        bool threw = false;
        try { x.r->flush(); } catch (LuceneException&) { threw = true; }
        dir->hook = nullptr;
        c.note("commit " + x.name + " with a fault at event " + str(at) + (threw ? ": failed" : ": went through"));
        if (threw) {
            ++faults;
            c.label("failed commit");
            std::wstring now = seg();
            IndexReaderPtr r = IndexReader::open(dir, true);
            bool isNew = now != before;
            if (isNew) {
                // the commit had been made, only cleaning up failed
                REQUIRE_EQ(r->maxDoc(), (int)x.s.ids.size(), "after a failed commit");
                same(c, r, x.s, "new reader after a commit whose clean-up failed");
                r->close();
                c.discard("failure after the commit");
            }
            same(c, r, comm, "new reader after a failed commit");
            r->close();
            same(c, x.r, x.s, x.name + " after its commit failed");
        } else {
            REQUIRE(seg() != before, "no commit was made");
            afterCommit(x);
        }
    }
    void addReader(const IndexReaderPtr& r, const State& s, bool ro, const std::wstring& sg, const std::wstring& base, const std::string& how, const R* from = nullptr) {
        R x;
        x.epoch = from ? from->epoch : undoCommits;
        x.r = r; x.s = s; x.ro = ro; x.seg = sg; x.base = base;
        x.name = "#" + str(made++) + " (" + how + ")";
        c.note("  reader " + x.name);
        rs.push_back(x);
        if (c.chance(2, 3)) same(c, r, s, x.name);
    }
    void step() {
        if (rs.empty() || (rs.size() < 5 && c.chance(1, 5))) {
            if (policy && c.chance(1, 3)) {
                Collection<IndexCommitPtr> cs = IndexReader::listCommits(dir);
                std::vector<IndexCommitPtr> known;
                for (int k = 0; k < cs.size(); ++k) if (commits.count(cs[k]->getSegmentsFileName())) known.push_back(cs[k]);
                std::sort(known.begin(), known.end(), [](const IndexCommitPtr& a, const IndexCommitPtr& b) { return a->getGeneration() < b->getGeneration(); });
                if (!known.empty()) {
                    IndexCommitPtr p = known[c.draw(known.size())];
                    bool ro = c.chance(1, 3);
                    std::wstring sg = p->getSegmentsFileName();
                    c.note("open " + narrow(sg));
                    addReader(IndexReader::open(p, policy, ro), commits[sg], ro, sg, latest, std::string(ro ? "read-only" : "modifiable") + " on " + narrow(sg));
                    c.label("opened on a commit");
                    return;
                }
            }
            bool ro = c.chance(1, 5);
            addReader(open(ro), comm, ro, latest, latest, ro ? "read-only" : "modifiable");
            return;
        }
        size_t at = c.draw(rs.size());
        R* x = &rs[at];
        int n = (int)x->s.ids.size();
        switch (c.weighted({6, 4, 1, 5, 4, 2, 3, 2, 2, 2, 2})) {
            case 0:
                if (n) {
                    int d = (int)c.draw(n);
                    if (attempt(*x, "delete document " + str(d), [&] { x->r->deleteDocument(d); })) x->s.dead[d] = 1;
                }
                break;
            case 1: {
                bool byId = !n || !c.chance(1, 3);
                std::wstring f = byId ? L"id" : L"g", v = byId ? (n ? x->s.ids[c.draw(n)] : std::wstring(L"d0")) : std::wstring(1, (wchar_t)(L'p' + c.draw(3)));
                std::vector<int> hit;
                for (int i = 0; i < n; ++i) if (!x->s.dead[i] && w.has(all[x->s.ids[i]], f, v)) hit.push_back(i);
                int got = 0;
                if (hit.empty()) {
                    c.note("delete nothing by " + narrow(f) + ":" + narrow(v) + " on " + x->name);
                    REQUIRE_EQ(x->r->deleteDocuments(term(f, v)), 0, "deleting an absent term");
                    break;
                }
                if (attempt(*x, "delete " + narrow(f) + ":" + narrow(v), [&] { got = x->r->deleteDocuments(term(f, v)); })) {
                    REQUIRE_EQ(got, (int)hit.size(), "documents deleted by term");
                    for (int i : hit) x->s.dead[i] = 1;
                }
                break;
            }
            case 2:
                if (attempt(*x, "undelete all", [&] { x->r->undeleteAll(); })) {
                    for (char& d : x->s.dead) d = 0;
                    REQUIRE(!x->r->hasDeletions(), "deletions after undeleting all");
                    ++undeletes;
                    x->undid = true;
                }
                break;
            case 3:
                if (n) {
                    int d = (int)c.draw(n);
                    std::vector<std::wstring> fs;
                    for (auto& f : x->s.norms) fs.push_back(f.first);
                    fs.push_back(L"none");
                    std::wstring f = fs[c.draw(fs.size())];
                    int v = c.chance(1, 2) ? (int)c.draw(256) : -1;
                    double fl = v >= 0 ? 0 : c.pick(std::vector<double>{0.5, 1.0, 3.0, 0.1, 100.0, 0.0});
                    if (attempt(*x, "set norm of document " + str(d) + " field " + narrow(f), [&] { if (v >= 0) x->r->setNorm(d, f, (uint8_t)v); else x->r->setNorm(d, f, fl); }))
                        if (x->s.norms.count(f) && leafHasNorms(x->r, d, f)) x->s.norms[f][d] = v >= 0 ? v : Similarity::encodeNorm(fl);
                }
                break;
            case 4: same(c, x->r, x->s, x->name); break;
            case 5: { int how = (int)c.draw(3); publish(*x, how); break; }
            case 6: {
                R y = *x;
                bool was = y.changed;
                (void)was;
                publish(y, 3);
                rs.erase(rs.begin() + at);
                for (auto& o : rs) if (c.chance(1, 2)) same(c, o.r, o.s, o.name);
                break;
            }
            case 7: {
                bool ro = c.chance(1, 2);
                c.note(std::string("clone ") + (ro ? "read-only " : "modifiable ") + x->name);
                IndexReaderPtr r = boost::dynamic_pointer_cast<IndexReader>(x->r->clone(ro));
                R old = *x;
                // the base of a modifiable clone is the one of its original; of a read-only one, its commit
                addReader(r, old.s, ro, old.seg, old.ro ? old.seg : old.base, "clone of " + old.name, &old);
                x = &rs[at];
                R& y = rs.back();
                if (!ro && x->lock) { y.lock = true; y.changed = x->changed; y.undid = x->undid; x->undid = false; x->lock = false; x->changed = false; c.label("changes moved to a clone"); }
                c.label("clone");
                break;
            }
            case 8: {
                // known finding (undone-name): after deletions were undone the name of their file may be used again
                bool had = false;
                for (char d : x->s.dead) had |= d;
                if (!policy && had && x->epoch < undoCommits) { ++c.excluded; break; }
                bool ro = c.chance(1, 3) ? c.chance(1, 2) : x->ro;
                c.note(std::string("reopen ") + (ro ? "read-only " : "modifiable ") + x->name);
                // a reader whose changes moved away shows a state of its own until they are committed
                IndexReaderPtr r = x->r->reopen(ro);
                bool current = x->changed || x->seg == latest;
                REQUIRE_EQ((int)(r == x->r), (int)(current && ro == x->ro), "reopening gives the same reader:");
                if (r != x->r) {
                    R old = *x;
                    addReader(r, current ? old.s : comm, ro, current ? old.seg : latest, !current ? latest : old.ro ? old.seg : old.base, "reopened from " + old.name, current ? &old : nullptr);
                    x = &rs[at];
                    if (current && !ro && x->lock) { R& y = rs.back(); y.lock = true; y.changed = x->changed; y.undid = x->undid; x->undid = false; x->lock = false; x->changed = false; }
                    same(c, x->r, x->s, x->name);
                }
                break;
            }
            case 9: faultyCommit(*x); break;
            default: {
                if (lockHeld()) {
                    bool threw = false;
                    c.note("try a writer");
                    try { IndexWriterPtr t = newLucene<IndexWriter>(dir, w.a, false, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED); t->rollback(); }
                    catch (LockObtainFailedException&) { threw = true; }
                    REQUIRE(threw, "a writer opened while a reader holds uncommitted changes");
                } else writerSession();
            }
        }
        while (rs.size() > 6) {
            R y = rs[0];
            publish(y, 3);
            rs.erase(rs.begin());
        }
    }
};
}  // namespace

// readers modifying an index, against a state per reader
VF_SUB(history, 4000, 100000) {
    FaultDirPtr d = newLucene<FaultDir>();
    IndexWriter::setDefaultWriteLockTimeout(0);
    SegmentInfos::setDefaultGenFileRetryPauseMsec(0);
    LUCENE_GUARD(
        Model m(c, d);
        if (c.chance(1, 3)) { m.policy = newLucene<KeepAll>(); m.w.policy = m.policy; }
        m.w.cfg = genWriterCfg(c, false);
        c.note(m.w.cfg.describe());
        m.w.open(true);
        for (int k = 0; k < 12 && c.more(6); ++k) m.w.step();
        m.w.close();
        m.baseline("at the start");
        int avg = c.range(6, 30);
        for (int o = 0; o < 60 && c.more(avg); ++o) m.step();
        for (auto& x : m.rs) same(c, x.r, x.s, x.name);
        while (!m.rs.empty()) { R y = m.rs.back(); m.rs.pop_back(); std::vector<R> rest; m.publish(y, 3); }
        IndexReaderPtr r = IndexReader::open(d, true);
        same(c, r, m.comm, "the index at the end");
        r->close();
        // merging keeps exactly the live documents and their norms
        m.w.reopen(false);
        m.w.w->optimize();
        m.w.close();
        m.baseline("after merging everything");
        REQUIRE_EQ(m.comm.live(), (int)m.comm.ids.size(), "deleted documents after merging everything");
        CheckIndexPtr ci = newLucene<CheckIndex>(d);
        IndexStatusPtr st = ci->checkIndex();
        REQUIRE(st->clean, "the index check is not satisfied at the end");
        if (m.mods >= 2 && m.committed >= 1) c.nontrivial();
        if (m.undeletes) c.label("undeleted"););
}

// recorded finding: the name of a deletions file is used again after the deletions were undone
VF_SUB(undoneName, 0, 0) {
    DocSpec d0, d1;
    d0.fields.push_back(keyword(L"id", L"d0"));
    d1.fields.push_back(keyword(L"id", L"d1"));
    RAMDirectoryPtr dir = buildIndex({d0, d1}, WriterCfg(), blankAnalyzer());
    auto del = [&](int doc) { IndexReaderPtr r = IndexReader::open(dir, false); if (doc < 0) r->undeleteAll(); else r->deleteDocument(doc); r->close(); };
    del(0);
    IndexReaderPtr held = IndexReader::open(dir, true);
    del(-1);
    del(1);
    IndexReaderPtr now = held->reopen();
    REQUIRE_EQ((int)now->isDeleted(0), 0, "document 0 deleted in the reopened reader");
    REQUIRE_EQ((int)now->isDeleted(1), 1, "document 1 deleted in the reopened reader");
}

// the same through readers made of several
VF_SUB(composed, 2500, 60000) {
    IndexWriter::setDefaultWriteLockTimeout(0);
    SegmentInfos::setDefaultGenFileRetryPauseMsec(0);
    LUCENE_GUARD(
        bool parallel = c.chance(1, 2);
        int n = c.range(1, 3);
        std::vector<RAMDirectoryPtr> dirs;
        std::vector<std::vector<DocSpec> > docs(n);
        GenCfg g;
        g.groups = true;
        int count = c.range(1, 8);
        for (int i = 0; i < n; ++i) {
            WriterCfg cfg = genWriterCfg(c, false);
            if (!parallel) count = c.range(0, 6);
            for (int k = 0; k < count; ++k) {
                DocSpec d;
                if (!parallel || i == 0) d = genDoc(c, g, L"d" + std::to_wstring(i * 10 + k));
                else {
                    d.fields.push_back(text(L"p" + std::to_wstring(i), genText(c, g, 4), true));
                    d.fields.push_back(keyword(L"key" + std::to_wstring(i), L"k" + std::to_wstring(k)));
                }
                docs[i].push_back(d);
            }
            dirs.push_back(buildIndex(docs[i], cfg, blankAnalyzer()));
        }
        auto open = [&](bool ro) -> IndexReaderPtr {
            std::vector<IndexReaderPtr> subs;
            for (auto& d : dirs) subs.push_back(IndexReader::open(d, ro));
            if (!parallel) return newLucene<MultiReader>(Collection<IndexReaderPtr>::newInstance(subs.begin(), subs.end()), true);
            ParallelReaderPtr p = newLucene<ParallelReader>(true);
            for (auto& s : subs) p->add(s);
            return p;
        };
        c.note(std::string(parallel ? "parallel" : "multi") + " reader over " + str(n) + " parts");
        IndexReaderPtr r = open(false);
        State s = readState(r), comm = s;
        std::map<std::wstring, DocSpec> all;
        World w(c, dirs[0]);
        for (auto& v : docs) for (auto& d : v) if (!d.id().empty()) all[d.id()] = d;
        int mods = 0, commits = 0;
        int avg = c.range(4, 15);
        auto norm = [&](int d, const std::wstring& f) {
            // which part decides
            Collection<IndexReaderPtr> subs = r->getSequentialSubReaders();
            if (!parallel) return leafHasNorms(r, d, f);
            return true;
        };
        for (int o = 0; o < 40 && c.more(avg); ++o) {
            int max = (int)s.ids.size();
            switch (c.weighted({4, 2, 1, 4, 3, 2, 1, 1})) {
                case 0: if (max) { int d = (int)c.draw(max); c.note("delete " + str(d)); r->deleteDocument(d); s.dead[d] = 1; ++mods; } break;
                case 1: if (max) {
                    std::wstring v = s.ids[c.draw(max)];
                    int want = 0;
                    for (int i = 0; i < max; ++i) if (!s.dead[i] && s.ids[i] == v) { s.dead[i] = 1; ++want; }
                    c.note("delete id:" + narrow(v));
                    REQUIRE_EQ(r->deleteDocuments(term(L"id", v)), want, "documents deleted by key");
                    mods += want;
                    break;
                }
                case 2: c.note("undelete all"); r->undeleteAll(); for (char& d : s.dead) d = 0; REQUIRE(!r->hasDeletions(), "deletions after undeleting all"); ++mods; break;
                case 3: if (max && !s.norms.empty()) {
                    std::vector<std::wstring> fs;
                    for (auto& f : s.norms) fs.push_back(f.first);
                    std::wstring f = fs[c.draw(fs.size())];
                    int d = (int)c.draw(max), v = (int)c.draw(256);
                    bool has = norm(d, f);
                    if (parallel) {
                        // the part owning the field
                        IndexReaderPtr probe = open(true);
                        has = false;
                        for (int i = 0; i < n && !has; ++i) { IndexReaderPtr q = IndexReader::open(dirs[i], true); if (q->hasNorms(f)) has = leafHasNorms(q, d, f); q->close(); }
                        probe->close();
                    }
                    c.note("set norm of " + str(d) + " field " + narrow(f) + (has ? "" : " (none there)"));
                    r->setNorm(d, f, (uint8_t)v);
                    if (has) s.norms[f][d] = v;
                    ++mods;
                    break;
                }
                case 4: same(c, r, s, "the reader"); break;
                case 5: c.note("commit"); r->flush(); comm = s; ++commits; { IndexReaderPtr q = open(true); same(c, q, comm, "new reader after a commit"); q->close(); } break;
                case 6: { IndexReaderPtr q = open(true); same(c, q, comm, "another reader before the commit");
                          bool threw = false;
                          if (max) { try { q->deleteDocument(0); } catch (UnsupportedOperationException&) { threw = true; } REQUIRE(threw, "a document was deleted through read-only parts"); }
                          q->close(); break; }
                default: c.note("close and open"); r->close(); comm = s; ++commits; r = open(false); same(c, r, comm, "reader after closing"); break;
            }
        }
        same(c, r, s, "the reader");
        r->close();
        IndexReaderPtr q = open(true);
        same(c, q, s, "reader at the end");
        q->close();
        if (mods >= 2 && commits) c.nontrivial(););
}
