// C05: commits, two-phase commit, rollback, deletion policies, snapshots.
#include "LuceneInc.h"
#include "world.h"
#include "SnapshotDeletionPolicy.h"
#include "IndexDeletionPolicy.h"
#include "KeepOnlyLastCommitDeletionPolicy.h"
#include "TestPoint.h"

using namespace vf;

namespace {
typedef std::map<std::wstring, std::wstring> UD;
UD udOf(MapStringString m) {
    UD r;
    if (m) for (MapStringString::iterator i = m.begin(); i != m.end(); ++i) r[i->first] = i->second;
    return r;
}
MapStringString udTo(const UD& u) {
    MapStringString m = MapStringString::newInstance();
    for (auto& x : u) m.put(x.first, x.second);
    return m;
}
std::string show(const UD& u) {
    std::string s = "{";
    for (auto& x : u) s += narrow(x.first) + "=" + narrow(x.second) + " ";
    return s + "}";
}

struct Commit {
    std::vector<DocSpec> docs;
    UD ud;
};
int64_t genOf(const std::wstring& seg) { return SegmentInfos::generationFromSegmentsFileName(seg); }
struct GenLess {
    bool operator()(const std::wstring& a, const std::wstring& b) const { return genOf(a) < genOf(b); }
};
typedef std::map<std::wstring, Commit, GenLess> Commits;

struct Driver;

// the generated policy; checks what it is told against the model
class GenPolicy : public IndexDeletionPolicy {
public:
    explicit GenPolicy(Driver* d) : d(d) {}
    virtual ~GenPolicy() {}
    LUCENE_CLASS(GenPolicy);
    Driver* d;
    virtual void onInit(Collection<IndexCommitPtr> commits);
    virtual void onCommit(Collection<IndexCommitPtr> commits);
    void prune(Collection<IndexCommitPtr> commits, bool init);
};

struct Peek : public IndexWriter {
    using IndexWriter::pendingCommit;
};

struct Driver {
    Case& c;
    DirectoryPtr dir;
    World w;
    Commits alive;                       // what the directory must hold
    int kind = 0, keepN = 1;
    bool wrapped = false;
    SnapshotDeletionPolicyPtr snap;
    std::wstring snapName;               // "" when none is held
    IndexCommitPtr snapCommit;
    Commit snapContent;
    std::wstring trimAfter;              // onInit: delete everything newer than this
    bool deleteAllOnInit = false;
    bool expectCommit = false;           // a commit may be recorded now
    Commit incoming;
    std::wstring incomingName;
    bool incomingSeen = false;
    bool initSeen = false;
    UD lastUd;                           // user data the writer carries over
    int nCommits = 0, deleted = 0, backs = 0, held = 0, pruned = 0, rollbacks = 0;
    struct Held { IndexReaderPtr r; std::vector<DocSpec> docs; };
    std::vector<Held> readers;

    explicit Driver(Case& c, const DirectoryPtr& d) : c(c), dir(d), w(c, d) {}

    std::string names() {
        std::string s;
        for (auto& x : alive) s += narrow(x.first) + " ";
        return s;
    }
    void newPolicy() {
        IndexDeletionPolicyPtr p = newLucene<GenPolicy>(this);
        snapName.clear();
        snapCommit.reset();
        snap.reset();
        if (wrapped) { snap = newLucene<SnapshotDeletionPolicy>(p); w.policy = snap; }
        else w.policy = p;
    }
    UD genUd() {
        UD u;
        while (u.size() < 3 && c.more(1)) u[std::wstring(1, L'k' + (wchar_t)c.draw(3))] = c.chance(1, 6) ? c.unicode(4) : std::wstring(c.size(3), L'v');
        for (auto& x : u) {
            std::wstring s;
            for (wchar_t ch : x.second) if (ch < 0xD800 || (ch > 0xDFFF && (ch & 0xFFFE) != 0xFFFE && ch <= 0x10FFFF)) s += ch;
            x.second = s;
        }
        return u;
    }
    // f may publish `docs` with user data `ud`; when nothing changed it may also publish nothing
    template <class F> void publishing(const std::vector<DocSpec>& docs, const UD& ud, F f) {
        expectCommit = true;
        incomingSeen = false;
        incoming.docs = docs;
        incoming.ud = ud;
        std::vector<std::wstring> had;
        std::wstring last = alive.empty() ? L"" : alive.rbegin()->first;
        Commit lastContent = alive.empty() ? Commit() : alive.rbegin()->second;
        f();
        expectCommit = false;
        if (incomingSeen) {
            ++nCommits;
            lastUd = ud;
            w.comm = docs;
            w.hasCommit = true;
            if (alive.empty() || alive.rbegin()->first != incomingName) throw Fail{"the commit just made is not the latest one"};
            return;
        }
        if (last.empty()) throw Fail{"a commit on an index without commits made none"};
        std::vector<std::wstring> a, b;
        for (auto& x : docs) a.push_back(x.id());
        for (auto& x : lastContent.docs) b.push_back(x.id());
        if (a != b) throw Fail{"a commit with changes recorded no commit point: pending [" + joinIds(a) + "], last commit [" + joinIds(b) + "]"};
    }
    void openW(const IndexCommitPtr& on = IndexCommitPtr()) {
        initSeen = false;
        lastUd = alive.empty() ? UD() : alive.rbegin()->second.ud;
        bool create = alive.empty();
        std::vector<DocSpec> start = alive.empty() ? std::vector<DocSpec>() : alive.rbegin()->second.docs;
        auto go = [&] {
            if (on) {
                w.w = newLucene<IndexWriter>(dir, w.a, w.policy, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED, on);
                w.cfg.apply(w.w);
            } else w.w = openWriter(dir, w.a, w.cfg, create, w.policy);
        };
        if (on) {
            start = alive[on->getSegmentsFileName()].docs;
            go();
        } else if (create) publishing({}, UD(), go);
        else go();
        if (!initSeen && !create) throw Fail{"the deletion policy was not initialised when the writer was opened"};
        w.pend = start;
        w.comm = alive.empty() ? std::vector<DocSpec>() : alive.rbegin()->second.docs;
        w.hasCommit = !alive.empty();
        w.prepared = false;
    }
    // sorted by age (the library does not promise an order)
    Collection<IndexCommitPtr> list() {
        if (alive.empty() && !IndexReader::indexExists(dir)) return Collection<IndexCommitPtr>::newInstance();
        Collection<IndexCommitPtr> l = IndexReader::listCommits(dir);
        std::vector<IndexCommitPtr> v(l.begin(), l.end());
        std::sort(v.begin(), v.end(), [](const IndexCommitPtr& a, const IndexCommitPtr& b) { return genOf(a->getSegmentsFileName()) < genOf(b->getSegmentsFileName()); });
        Collection<IndexCommitPtr> r = Collection<IndexCommitPtr>::newInstance();
        for (auto& x : v) r.add(x);
        return r;
    }
    bool pending() { return (bool)((*w.w).*(&Peek::pendingCommit)); }

    void commit() {
        bool with = c.chance(1, 2);
        UD u = with ? genUd() : lastUd;
        c.note("commit " + (with ? show(u) : std::string("(no user data)")));
        publishing(w.pend, u, [&] { if (with) w.w->commit(udTo(u)); else w.w->commit(); });
    }
    void closeW() {
        c.note("close");
        publishing(w.pend, lastUd, [&] { w.w->close(); });
        w.w.reset();
        afterClose();
    }
    void rollbackW() {
        c.note("rollback");
        ++rollbacks;
        w.w->rollback();
        w.w.reset();
        w.pend = w.comm;
        afterClose();
    }
    void afterClose() {
        if (alive.empty()) return;
        std::string u = unreferenced(dir);
        if (!u.empty()) throw Fail{"after the writer is closed these files belong to no commit: " + u};
    }
    void twoPhase() {
        if (c.chance(3, 4)) w.addDoc();
        bool with = c.chance(1, 2);
        UD u = with ? genUd() : lastUd;
        c.note("prepareCommit " + (with ? show(u) : std::string("(no user data)")));
        if (with) w.w->prepareCommit(udTo(u)); else w.w->prepareCommit();
        std::vector<DocSpec> at = w.pend;
        std::vector<std::wstring> a, b;
        for (auto& x : at) a.push_back(x.id());
        for (auto& x : w.comm) b.push_back(x.id());
        if (!pending()) {
            if (a != b) throw Fail{"prepareCommit with pending changes prepared nothing"};
            return;
        }
        verify();
        while (c.more(1)) {
            switch (c.weighted({4, 2, 2, 1, 1, 1})) {
                case 0: w.addDoc(); break;
                case 1: w.del(); break;
                case 2: w.update(); break;
                case 3: c.note("optimize"); w.w->optimize(); break;
                case 4: {
                    c.note("prepareCommit again");
                    bool threw = false;
                    try { w.w->prepareCommit(); } catch (LuceneException&) { threw = true; }
                    if (!threw) throw Fail{"a second prepareCommit did not fail"};
                    break;
                }
                default: {
                    c.note("close with a prepared commit");
                    bool threw = false;
                    try { w.w->close(); } catch (LuceneException&) { threw = true; }
                    if (!threw) throw Fail{"close with a prepared commit did not fail"};
                    break;
                }
            }
            verify();
        }
        if (c.chance(1, 3)) { rollbackW(); openW(); return; }
        c.note("commit (prepared)");
        std::vector<DocSpec> later = w.pend;
        UD other = genUd();
        bool pass = c.chance(1, 3);      // user data given now is too late
        publishing(at, u, [&] { if (pass) w.w->commit(udTo(other)); else w.w->commit(); });
        w.pend = later;
        if (!incomingSeen) throw Fail{"completing a prepared commit recorded no commit"};
    }
    void backTo() {
        Collection<IndexCommitPtr> l = list();
        int i = (int)c.draw(l.size());
        IndexCommitPtr t = l[i];
        if (snapCommit && c.chance(1, 3)) t = snapCommit;
        c.note("close, open the writer on " + narrow(t->getSegmentsFileName()));
        if (c.chance(1, 2)) { closeW(); } else { rollbackW(); }
        if (!alive.count(t->getSegmentsFileName())) { openW(); return; }   // close made a commit that drove it out
        ++backs;
        if (kind == 4 || c.chance(1, 4)) trimAfter = t->getSegmentsFileName();
        if (!snapName.empty() && genOf(snapName) > genOf(t->getSegmentsFileName())) trimAfter.clear();
        bool head = !trimAfter.empty() && alive.rbegin()->first != trimAfter;
        openW(t);
        trimAfter.clear();
        if (head) {
            // The policy has dropped the front commit: by its contract the index may be unreadable until the next
            // commit, which the writer must make even when nothing else changes.
            c.note("(newer commits trimmed)");
            while (c.more(1)) w.addDoc();
            if (c.chance(1, 2)) commit();
            else closeW();
            if (!incomingSeen) throw Fail{"a writer whose front commit was deleted made no new commit"};
            if (!w.w) openW();
            return;
        }
        if (c.chance(1, 3)) return;
        if (c.chance(1, 3)) { rollbackW(); openW(); }
        else {
            bool same = true;
            (void)same;
            closeW();
            if (!incomingSeen) throw Fail{"closing a writer opened on an older commit did not make it the current one"};
            openW();
        }
    }
    void readerCommit() {
        closeW();
        std::wstring v = w.pickId();
        c.note("reader deletes id:" + narrow(v));
        IndexReaderPtr r = IndexReader::open(dir, w.policy, false);
        if (udOf(r->getCommitUserData()) != alive.rbegin()->second.ud) throw Fail{"reader reports the wrong user data"};
        std::vector<DocSpec> keep = w.pend;
        int n = r->deleteDocuments(term(L"id", v));
        w.delWhere(L"id", v);
        std::vector<DocSpec> after = w.pend;
        w.pend = keep;
        if ((size_t)n != keep.size() - after.size()) throw Fail{"reader deleted " + str(n) + " documents, expected " + str(keep.size() - after.size())};
        int how = c.weighted({2, 1});
        UD u;
        {
            if (how == 1) u = genUd();
            publishing(after, u, [&] { if (how == 1) r->commit(udTo(u)); r->close(); });
            if (!incomingSeen && n) throw Fail{"the reader's deletion was not committed"};
            w.pend = after;
        }
        openW();
    }
    // everything that must hold at any time
    void verify() {
        Collection<IndexCommitPtr> l = list();
        std::vector<std::wstring> got, want;
        for (int i = 0; i < l.size(); ++i) got.push_back(l[i]->getSegmentsFileName());
        for (auto& x : alive) want.push_back(x.first);
        if (got != want) throw Fail{"commits are [" + joinIds(got) + "], expected [" + joinIds(want) + "]"};
        HashSet<String> all = dir->listAll();
        for (int i = 0; i < l.size(); ++i) {
            const Commit& m = alive[got[i]];
            if (udOf(l[i]->getUserData()) != m.ud) throw Fail{"user data of " + narrow(got[i]) + " is " + show(udOf(l[i]->getUserData())) + ", expected " + show(m.ud)};
            HashSet<String> fs = l[i]->getFileNames();
            for (HashSet<String>::iterator x = fs.begin(); x != fs.end(); ++x)
                if (!all.contains(*x)) throw Fail{"file " + narrow(*x) + " of commit " + narrow(got[i]) + " is gone"};
            if (l[i]->isDeleted()) throw Fail{"a listed commit says it is deleted"};
            if (i + 1 < l.size() && i > 0 && l.size() > 4 && !c.chance(1, 3)) continue;
            IndexReaderPtr r = IndexReader::open(l[i], true);
            std::string p = World::check(r, m.docs, w.dc);
            if (!p.empty()) throw Fail{"commit " + narrow(got[i]) + ": " + p};
            if (r->getIndexCommit()->getSegmentsFileName() != got[i]) throw Fail{"the reader opened on " + narrow(got[i]) + " names another commit"};
            if (r->isOptimized() != l[i]->isOptimized()) throw Fail{"isOptimized of the commit differs from its reader's"};
            r->close();
        }
        if (!alive.empty()) {
            IndexReaderPtr r = IndexReader::open(dir, true);
            std::string p = World::check(r, alive.rbegin()->second.docs, w.dc);
            if (!p.empty()) throw Fail{"reader on the directory: " + p};
            r->close();
            if (udOf(IndexReader::getCommitUserData(dir)) != alive.rbegin()->second.ud) throw Fail{"user data of the current commit is wrong"};
        } else if (IndexReader::indexExists(dir)) throw Fail{"an index exists although its only commit was deleted"};
        for (auto& h : readers) {
            std::string p = World::check(h.r, h.docs, w.dc);
            if (!p.empty()) throw Fail{"an open reader changed: " + p};
        }
        if (snapCommit) {
            IndexReaderPtr r = IndexReader::open(snapCommit, true);
            std::string p = World::check(r, snapContent.docs, w.dc);
            r->close();
            if (!p.empty()) throw Fail{"the snapshot's commit: " + p};
            if (udOf(snapCommit->getUserData()) != snapContent.ud) throw Fail{"user data of the snapshot changed"};
        }
    }
    void backup() {
        // copy the snapshot's files while writing goes on
        HashSet<String> fs = snapCommit->getFileNames();
        RAMDirectoryPtr o = newLucene<RAMDirectory>();
        std::vector<std::wstring> names;
        for (HashSet<String>::iterator x = fs.begin(); x != fs.end(); ++x) names.push_back(*x);
        std::sort(names.begin(), names.end());
        c.note("back up " + narrow(snapName));
        for (size_t i = 0; i < names.size(); ++i) {
            if (c.chance(1, 4)) { w.addDoc(); if (c.chance(1, 2)) commit(); }
            IndexInputPtr in = dir->openInput(names[i]);
            IndexOutputPtr out = o->createOutput(names[i]);
            int64_t n = in->length();
            ByteArray b = ByteArray::newInstance((int)n + 1);
            in->readBytes(b.get(), 0, (int)n);
            out->writeBytes(b.get(), (int)n);
            out->close();
            in->close();
        }
        IndexReaderPtr r = IndexReader::open(o, true);
        std::string p = World::check(r, snapContent.docs, w.dc);
        r->close();
        if (!p.empty()) throw Fail{"the backup of a snapshot: " + p};
    }
    void run() {
        SegmentInfos::setDefaultGenFileRetryPauseMsec(0);
        w.cfg = genWriterCfg(c, false);
        kind = c.weighted({3, 2, 3, 3, 1});
        keepN = c.range(1, 3);
        wrapped = c.chance(1, 2);
        c.note(w.cfg.describe() + " policy " + str(kind) + " keep " + str(keepN) + (wrapped ? " with snapshots" : ""));
        newPolicy();
        openW();
        int avg = c.range(4, 16);
        for (int o = 0; o < 40 && c.more(avg); ++o) {
            switch (c.weighted({8, 3, 4, 7, 3, 2, 3, 3, 3, 2, 3, 1, 2, 1})) {
                case 0: for (int i = 0; i == 0 || (i < 6 && c.more(1)); ++i) w.addDoc(); break;
                case 1: w.update(); break;
                case 2: w.del(); break;
                case 3: commit(); break;
                case 4: twoPhase(); break;
                case 5: rollbackW(); openW(); break;
                case 6:
                    closeW();
                    if (c.chance(1, 4)) { w.cfg = genWriterCfg(c, false); c.note(w.cfg.describe()); }
                    if (c.chance(1, 6)) { c.note("new policy object"); newPolicy(); }
                    openW();
                    break;
                case 7: backTo(); break;
                case 8: {
                    if (!snap) break;
                    if (snapCommit) {
                        bool threw = false;
                        try { snap->snapshot(); } catch (LuceneException&) { threw = true; }
                        if (!threw) throw Fail{"a second snapshot was handed out"};
                        if (c.chance(1, 2)) { backup(); break; }
                        c.note("release");
                        snap->release();
                        snapCommit.reset();
                        snapName.clear();
                    } else {
                        if (alive.empty()) break;
                        bool threw = false;
                        try { snap->release(); } catch (LuceneException&) { threw = true; }
                        if (!threw) throw Fail{"release without a snapshot did not fail"};
                        snapCommit = snap->snapshot();
                        snapName = snapCommit->getSegmentsFileName();
                        c.note("snapshot of " + narrow(snapName));
                        if (snapName != alive.rbegin()->first) throw Fail{"the snapshot is of " + narrow(snapName) + ", not of the last commit"};
                        snapContent = alive[snapName];
                        ++held;
                    }
                    break;
                }
                case 9: readerCommit(); break;
                case 10: c.note("optimize"); w.w->optimize(); break;
                case 11: {
                    // start over: nothing is lost before the next commit
                    c.note("close, create");
                    closeW();
                    std::map<int, int> none;
                    w.w = openWriter(dir, w.a, w.cfg, true, w.policy);
                    lastUd = alive.rbegin()->second.ud;
                    w.pend.clear();
                    break;
                }
                case 12: {
                    if (readers.size() >= 3) { readers[0].r->close(); readers.erase(readers.begin()); }
                    Collection<IndexCommitPtr> l = list();
                    if (l.empty()) break;
                    int i = (int)c.draw(l.size());
                    c.note("hold a reader on " + narrow(l[i]->getSegmentsFileName()));
                    Held h;
                    h.r = IndexReader::open(l[i], true);
                    h.docs = alive[l[i]->getSegmentsFileName()].docs;
                    readers.push_back(h);
                    break;
                }
                default: {
                    // a policy that drops the very commit the writer starts from
                    if (!snapName.empty()) break;
                    c.note("close, open with a policy that deletes every commit");
                    closeW();
                    deleteAllOnInit = true;
                    std::vector<DocSpec> keep = w.pend;
                    initSeen = false;
                    w.w = openWriter(dir, w.a, w.cfg, false, w.policy);
                    deleteAllOnInit = false;
                    w.pend = keep;
                    w.hasCommit = false;
                    w.comm.clear();
                    verify();
                    if (c.chance(1, 2)) w.addDoc();
                    closeW();
                    if (!incomingSeen) throw Fail{"closing did not write a commit in place of the deleted one"};
                    openW();
                    break;
                }
            }
            verify();
        }
        closeW();
        verify();
        for (auto& h : readers) h.r->close();
        CheckIndexPtr ci = newLucene<CheckIndex>(dir);
        REQUIRE(ci->checkIndex()->clean, "CheckIndex not clean at the end");
        if (backs) c.label("went back to an older commit");
        if (held) c.label("snapshot held");
        if (pruned) c.label("policy deleted commits");
        if (rollbacks) c.label("rolled back");
        c.nontrivial(nCommits >= 3 && w.adds >= 2 && pruned + backs + held >= 1);
    }
};

void GenPolicy::onInit(Collection<IndexCommitPtr> commits) {
    d->initSeen = true;
    // an index that is just being created: its empty first commit is there already
    if (d->alive.empty() && d->expectCommit && commits.size() == 1) {
        d->incomingName = commits[0]->getSegmentsFileName();
        d->alive[d->incomingName] = d->incoming;
        d->incomingSeen = true;
    }
    prune(commits, true);
}
void GenPolicy::onCommit(Collection<IndexCommitPtr> commits) {
    if (!d->expectCommit) throw Fail{"the policy was told of a commit nobody made"};
    if (commits.empty()) throw Fail{"onCommit without commits"};
    if (d->incomingSeen) throw Fail{"the policy was told twice of one commit"};
    std::wstring n = commits[commits.size() - 1]->getSegmentsFileName();
    if (d->alive.count(n)) throw Fail{"a new commit reuses the name " + narrow(n)};
    if (!d->alive.empty() && genOf(d->alive.rbegin()->first) >= genOf(n)) throw Fail{"the new commit " + narrow(n) + " is not newer than " + narrow(d->alive.rbegin()->first)};
    d->alive[n] = d->incoming;
    d->incomingName = n;
    d->incomingSeen = true;
    prune(commits, false);
}
void GenPolicy::prune(Collection<IndexCommitPtr> commits, bool init) {
    Case& c = d->c;
    std::vector<std::wstring> got, want;
    for (int i = 0; i < commits.size(); ++i) got.push_back(commits[i]->getSegmentsFileName());
    for (auto& x : d->alive) want.push_back(x.first);
    if (got != want) throw Fail{std::string(init ? "onInit" : "onCommit") + " got commits [" + joinIds(got) + "], expected [" + joinIds(want) + "]"};
    for (int i = 0; i < commits.size(); ++i)
        if (udOf(commits[i]->getUserData()) != d->alive[got[i]].ud) throw Fail{"the policy sees user data " + show(udOf(commits[i]->getUserData())) + " for " + narrow(got[i]) + ", expected " + show(d->alive[got[i]].ud)};
    int n = commits.size();
    for (int i = 0; i < n; ++i) {
        bool del = false, last = i == n - 1;
        if (init && d->deleteAllOnInit) del = true;
        else if (init && !d->trimAfter.empty()) del = genOf(got[i]) > genOf(d->trimAfter);
        else if (init && d->kind != 3) del = false;
        else switch (d->kind) {
            case 0: del = !last; break;
            case 1: case 4: break;
            case 2: del = i < n - d->keepN; break;
            default: del = !last && c.chance(1, 3); break;
        }
        if (!del) continue;
        commits[i]->deleteCommit();
        if (c.chance(1, 8)) commits[i]->deleteCommit();     // asking twice is harmless
        bool kept = !d->snapName.empty() && d->snapName == got[i];
        if (commits[i]->isDeleted() == kept) throw Fail{"commit " + narrow(got[i]) + (kept ? " is deleted although a snapshot holds it" : " is not marked deleted")};
        if (!kept) { d->alive.erase(got[i]); ++d->pruned; }
    }
}
}  // namespace

VF_SUB(commitHistory, 5000, 200000) {
    Driver d(c, newLucene<RAMDirectory>());
    d.run();
}
