// C04: directory faults at generated points.
#include "LuceneInc.h"
#include "world.h"
#include "IndexReader.h"
#include "SegmentInfos.h"
#include "IndexFileNames.h"

using namespace vf;

namespace {

// which events fail, and when
struct Plan {
    std::set<int> kinds;
    std::string suffix;              // only files whose name contains this ("" = all)
    int64_t skip = 0;                // matching events let through first
    int64_t burst = 1;               // how many fail then (-1: all until healed)
    int64_t cap = -1;                // disk-full mode: total bytes allowed
    bool on = false;
    int64_t hits = 0;
};

struct Faulty {
    Case& c;
    FaultDirPtr dir;
    Plan p;
    bool suspended = false;
    int raised = 0;
    std::string lastWhere;
    Faulty(Case& c, const FaultDirPtr& d) : c(c), dir(d) {
        dir->hook = [this](Ev e, const std::wstring& n) { event(e, n); };
    }
    void event(Ev e, const std::wstring& n) {
        static const char* N[] = {"create", "write", "close", "sync", "delete", "open", "read", "touch", "list"};
        if (suspended || !p.on) return;
        if (p.cap >= 0) {
            if (e != EV_WRITE && e != EV_CREATE) return;
            int64_t t = 0;
            for (auto& f : dir->files) t += (int64_t)f.second->data.size();
            if (t < p.cap) return;
            ++raised;
            lastWhere = std::string("disk full, ") + N[e] + " " + narrow(n);
            boost::throw_exception(IOException(L"generated fault: no space left"));
        }
        if (!p.kinds.count(e)) return;
        if (!p.suffix.empty() && narrow(n).find(p.suffix) == std::string::npos) return;
        if (p.skip > 0) { --p.skip; return; }
        if (p.burst == 0) return;
        if (p.burst > 0) --p.burst;
        ++raised;
        lastWhere = std::string(N[e]) + " " + narrow(n);
        boost::throw_exception(IOException(L"generated fault: " + String(W(lastWhere))));
    }
    void arm() {
        p = Plan();
        p.on = true;
        if (c.chance(1, 6)) {
            int64_t t = 0;
            for (auto& f : dir->files) t += (int64_t)f.second->data.size();
            p.cap = t + (int64_t)c.draw(4000);
            c.note("[arm: disk full at " + str(p.cap) + " bytes]");
            return;
        }
        switch (c.weighted({3, 2, 2, 2, 2, 2, 2, 1, 1, 3})) {
            case 0: p.kinds = {EV_WRITE}; break;
            case 1: p.kinds = {EV_CREATE}; break;
            case 2: p.kinds = {EV_SYNC}; break;
            case 3: p.kinds = {EV_CLOSEOUT}; break;
            case 4: p.kinds = {EV_OPEN}; break;
            case 5: p.kinds = {EV_READ}; break;
            case 6: p.kinds = {EV_DELETE}; break;
            case 7: p.kinds = {EV_LIST}; break;
            case 8: p.kinds = {EV_TOUCH}; break;
            default: for (int i = 0; i < EV_KINDS; ++i) p.kinds.insert(i); break;
        }
        if (c.chance(1, 4)) p.suffix = c.pick(std::vector<std::string>{"segments", ".cfs", ".cfx", ".del", ".fdt", ".tis", ".prx", ".tvd", "segments.gen", ".s0", ".nrm"});
        p.skip = c.weighted({2, 1, 1}) == 2 ? (int64_t)c.draw(120) : (int64_t)c.draw(12);
        p.burst = c.weighted({4, 1, 1}) == 0 ? 1 : c.chance(1, 2) ? -1 : 2 + (int64_t)c.draw(4);
        std::string k;
        for (int i : p.kinds) k += str(i) + ",";
        c.note("[arm: kinds " + k + (p.suffix.empty() ? "" : " files *" + p.suffix + "*") + " after " + str(p.skip) + ", burst " + str(p.burst) + "]");
    }
    void heal() { if (p.on) c.note("[heal]"); p.on = false; }
};

struct Quiet {
    Faulty& f;
    bool was;
    explicit Quiet(Faulty& f) : f(f), was(f.suspended) { f.suspended = true; }
    ~Quiet() { f.suspended = was; }
};

struct Held { IndexReaderPtr r; Dump d; };

std::vector<std::wstring> idsOf(const std::vector<DocSpec>& v) {
    std::vector<std::wstring> r;
    for (auto& d : v) r.push_back(d.id());
    return r;
}

int idNumber(const std::wstring& id) { return std::stoi(id.substr(1)); }

struct Driver {
    Case& c;
    FaultDirPtr dir;
    Faulty f;
    World w;
    bool exact = true;
    int failures = 0, recovered = 0;
    // A commit whose record could neither be completed nor removed can be visible although the call failed;
    // until the writer is closed or commits, undoing it (back to this content) is just as right.
    bool hasAlt = false;
    std::vector<DocSpec> alt;
    std::vector<Held> held;
    Driver(Case& c) : c(c), dir(newLucene<FaultDir>()), f(c, dir), w(c, dir) {}

    void checkHeld() {
        Quiet q(f);
        for (auto& h : held) {
            std::string df = diff(dumpReader(h.r, w.dc), h.d);
            if (!df.empty()) throw Fail{"a reader opened earlier changed:" + df};
        }
    }
    std::vector<DocSpec> must() {
        std::vector<DocSpec> r;
        if (w.deleteAllAttempted) return r;
        for (auto& d : w.comm) {
            bool hit = false;
            for (auto& t : w.delAttempts) if (w.has(d, t.first, t.second)) hit = true;
            if (!hit) r.push_back(d);
        }
        return r;
    }
    // which of the acceptable contents is on disk; commBefore: committed state before the step
    void checkDisk(const std::vector<DocSpec>& commBefore, bool hadCommit, bool threw, bool published, const std::string& what) {
        Quiet q(f);
        IndexReaderPtr r;
        try {
            r = IndexReader::open(dir, true);
        } catch (LuceneException& e) {
            if (!w.hasCommit && !hadCommit) return;
            throw Fail{"after " + what + ": the index cannot be opened: " + exceptionText(e)};
        }
        std::string p;
        if (exact) {
            p = World::check(r, w.comm, w.dc);
            if (p.empty()) { r->close(); return; }
            if (hasAlt && !published && World::check(r, alt, w.dc).empty()) { w.comm = alt; r->close(); return; }
            if (threw && w.inFlight) {
                std::string p2 = World::check(r, *w.inFlight, w.dc);
                if (p2.empty()) { hasAlt = true; alt = w.comm; w.comm = *w.inFlight; w.hasCommit = true; r->close(); c.label("commit failed but became visible"); return; }
                p += "\n or " + p2;
            }
            throw Fail{"after " + what + ": index on disk is not the expected commit: " + p};
        }
        // uncertain: unchanged, or between must and may
        std::string same = World::check(r, commBefore, w.dc);
        if (same.empty()) {
            w.comm = commBefore;
            if (threw || !published) { r->close(); return; }
        }
        if (!same.empty() && hasAlt && World::check(r, alt, w.dc).empty()) {
            w.comm = alt;
            if (threw || !published) { r->close(); return; }
        }
        if (!same.empty() && !(published || (threw && w.inFlight)))
            throw Fail{"after " + what + ": committed state changed without a commit: " + same};
        std::vector<std::wstring> got = liveIds(r);
        std::vector<DocSpec> all = commBefore, found;
        for (auto& d : w.attempted) {
            bool in = false;
            for (auto& x : commBefore) if (x.id() == d.id()) in = true;
            if (!in) all.push_back(d);
        }
        // ids are handed out in insertion order
        std::sort(all.begin(), all.end(), [](const DocSpec& a, const DocSpec& b) { return idNumber(a.id()) < idNumber(b.id()); });
        size_t at = 0;
        for (auto& g : got) {
            while (at < all.size() && all[at].id() != g) ++at;
            if (at == all.size()) throw Fail{"after " + what + ": [" + joinIds(got) + "] is not an ordered subset of what was added [" + joinIds(idsOf(all)) + "]"};
            found.push_back(all[at++]);
        }
        std::vector<DocSpec> m;
        {   // documents committed before and hit by no delete
            std::vector<DocSpec> keep = w.comm;
            w.comm = commBefore;
            m = must();
            w.comm = keep;
            if (hasAlt) {
                std::vector<DocSpec> both;
                for (auto& d : m) for (auto& x : alt) if (x.id() == d.id()) both.push_back(d);
                m = both;
            }
        }
        for (auto& d : m) {
            bool ok = false;
            for (auto& x : found) if (x.id() == d.id()) ok = true;
            if (!ok) throw Fail{"after " + what + ": committed document " + narrow(d.id()) + " is lost; index holds [" + joinIds(got) + "]"};
        }
        p = World::check(r, found, w.dc);
        if (!p.empty()) throw Fail{"after " + what + ": " + p};
        r->close();
        if (threw && !same.empty()) { hasAlt = true; alt = commBefore; }
        w.comm = found;
        w.hasCommit = true;
    }
    // every file of the last commit has been synced after it was last written
    void checkSynced() {
        Quiet q(f);
        SegmentInfosPtr s = newLucene<SegmentInfos>();
        s->read(dir);
        HashSet<String> fs = s->files(dir, true);
        for (HashSet<String>::iterator x = fs.begin(); x != fs.end(); ++x) {
            if (!dir->files.count(*x)) throw Fail{"file " + narrow(*x) + " of the last commit is missing"};
            FileData& d = *dir->files[*x];
            if (!d.everSynced || d.synced != d.data) throw Fail{"file " + narrow(*x) + " of a completed commit was not synced"};
        }
    }
    void openHeld() {
        if (held.size() >= 3) { Quiet q(f); held[0].r->close(); held.erase(held.begin()); }
        Held h;
        try {
            h.r = IndexReader::open(dir, true);
        } catch (LuceneException& e) {
            c.note("  (reader open failed: " + exceptionText(e) + ")");
            if (f.raised == raisedBefore) throw Fail{"reader open failed without a fault: " + exceptionText(e)};
            return;
        }
        Quiet q(f);
        h.d = dumpReader(h.r, w.dc);
        std::string p = World::check(h.r, w.comm, w.dc);
        // a commit record that cannot be read makes the open fall back to an older complete commit, if one is left
        if (!p.empty() && f.raised > raisedBefore)
            for (auto& o : past) if (!p.empty() && World::check(h.r, o, w.dc).empty()) { p.clear(); c.label("open fell back to an older commit"); }
        if (!p.empty()) throw Fail{"reader opened under faults shows wrong content: " + p};
        held.push_back(h);
    }
    int raisedBefore = 0;
    std::vector<std::vector<DocSpec> > past;      // contents of the commits so far

    void reopenHealed() {
        Quiet q(f);
        try {
            w.open(!w.hasCommit);
        } catch (LuceneException& e) {
            throw Fail{"a new writer cannot be opened after the fault cleared: " + exceptionText(e)};
        }
    }
    // an operation of the uncertain mode (some earlier call failed, its effect is open)
    void looseStep() {
        if (w.closing) { w.close(); w.reopen(false); return; }
        if (w.prepared) { w.commit(); return; }
        switch (c.weighted({4, 2, 2, 4, 1, 2})) {
            case 0: w.addDoc(); break;
            case 1: w.update(); break;
            case 2: w.del(); break;
            case 3: w.commit(); break;
            case 4: c.note("optimize"); w.w->optimize(); break;
            default: w.close(); w.reopen(false); break;
        }
    }
    void run() {
        SegmentInfos::setDefaultGenFileRetryPauseMsec(0);
        w.cfg = genWriterCfg(c, false);
        c.note(w.cfg.describe());
        w.open(true);
        int avg = c.range(5, 20);
        for (int o = 0; o < 40 && c.more(avg); ++o) {
            if (!f.p.on && c.chance(2, 5)) f.arm();
            else if (f.p.on && c.chance(1, 8)) f.heal();
            if (c.chance(1, 8)) { raisedBefore = f.raised; openHeld(); }
            std::vector<DocSpec> commBefore = w.comm;
            bool hadCommit = w.hasCommit;
            int openedBefore = w.opened;
            int commitsBefore = w.commits, r0 = f.raised;
            bool threw = false;
            std::string what = "operation " + str(o);
            w.inFlight = nullptr;
            try {
                if (exact) w.step();
                else looseStep();
            } catch (LuceneException& e) {
                threw = true;
                what += " failing with " + exceptionText(e);
                c.note("  -> " + exceptionText(e));
                if (f.raised == r0) throw Fail{what + " although no fault was injected"};
                ++failures;
            }
            bool published = w.commits > commitsBefore;
            past.push_back(commBefore);
            checkDisk(commBefore, hadCommit, threw, published, what);
            checkHeld();
            if (!threw && published) hasAlt = false;
            if (!threw) {
                if (published && w.hasCommit) checkSynced();
                if (published && !exact) {
                    // only a new writer is known to agree with what is on disk: after a failed call a commit
                    // may have had nothing to do although parts of that call took effect in memory
                    if (w.opened > openedBefore) {
                        exact = true;
                        w.pend = w.comm;
                        w.inSync();
                    }
                } else if (published && exact) w.inSync();
                if (exact && published) {
                    // pending documents after the commit point stay attempted
                    for (auto& d : w.pend) {
                        bool in = false;
                        for (auto& x : w.comm) if (x.id() == d.id()) in = true;
                        if (!in) w.attempted.push_back(d);
                    }
                }
                w.inFlight = nullptr;
                continue;
            }
            if (w.delReader) {
                // a reader whose close (or delete) failed: closing it again must work once the fault is gone
                Quiet q(f);
                c.note("reader close again");
                std::vector<DocSpec> before = w.comm;
                try {
                    w.delReader->close();
                } catch (LuceneException& e) {
                    throw Fail{"a reader whose close failed cannot be closed after the fault cleared: " + exceptionText(e)};
                }
                w.delReader.reset();
                checkDisk(before, true, true, true, "closing the reader again");
            }
            w.inFlight = nullptr;
            if (!w.w) {
                // no writer: reader commit or reopening failed
                if (c.chance(1, 2)) f.heal();
                c.note("reopen writer");
                try {
                    w.open(!w.hasCommit);
                } catch (LuceneException& e) {
                    c.note("  -> " + exceptionText(e));
                    f.heal();
                    reopenHealed();
                }
                w.inFlight = nullptr;
                hasAlt = false;
                w.pend = w.comm;
                w.inSync();
                exact = true;
                ++recovered;
                continue;
            }
            if (c.chance(1, 2)) {
                // give up on this writer
                bool done = false;
                if (c.chance(1, 3)) {
                    c.note("rollback under faults");
                    try { w.w->rollback(); done = true; } catch (LuceneException& e) { c.note("  -> " + exceptionText(e)); }
                }
                Quiet q(f);
                c.note("rollback");
                try {
                    if (!done) w.w->rollback();
                } catch (LuceneException& e) {
                    throw Fail{"rollback fails after the fault cleared: " + exceptionText(e)};
                }
                w.w.reset();
                w.closing = false;
                IndexReaderPtr r;
                if (w.hasCommit) {
                    r = IndexReader::open(dir, true);
                    std::string p = World::check(r, w.comm, w.dc);
                    if (!p.empty() && hasAlt && World::check(r, alt, w.dc).empty()) { w.comm = alt; p.clear(); }
                    r->close();
                    if (!p.empty()) throw Fail{"after rollback of a failed operation the last commit is not what is visible: " + p};
                }
                reopenHealed();
                hasAlt = false;
                w.pend = w.comm;
                w.inSync();
                exact = true;
            } else {
                c.note("[continue with this writer]");
                exact = false;
                // a prepared commit may be outstanding: complete it, faults off
            }
            ++recovered;
        }
        f.heal();
        f.suspended = true;
        c.note("[healed] close");
        std::vector<DocSpec> commBefore = w.comm;
        int cb = w.commits;
        w.inFlight = nullptr;
        try {
            if (w.prepared) w.commit();
            w.close();
        } catch (LuceneException& e) {
            throw Fail{"close fails after the fault cleared: " + exceptionText(e)};
        }
        checkDisk(commBefore, true, false, w.commits > cb, "the final close");
        checkSynced();
        checkHeld();
        w.pend = w.comm;
        w.reopen(true);
        w.addDoc();
        if (c.chance(1, 2)) w.w->optimize();
        w.close();
        exact = true;
        checkDisk(w.comm, true, false, true, "writing with a new writer");
        std::string u = unreferenced(dir);
        if (!u.empty()) throw Fail{"files left over after recovery: " + u};
        CheckIndexPtr ci = newLucene<CheckIndex>(dir);
        REQUIRE(ci->checkIndex()->clean, "CheckIndex not clean at the end");
        checkHeld();
        for (auto& h : held) h.r->close();
        if (failures) c.label("some call failed");
        if (failures >= 3) c.label("3 or more calls failed");
        c.nontrivial(failures >= 1 && w.adds >= 2 && w.commits >= 2);
    }
};
}  // namespace

VF_SUB(faultHistory, 6000, 200000) {
    Driver d(c);
    d.run();
}
