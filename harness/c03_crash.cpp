// C03: a crash at any I/O event leaves the previous or the new commit
#include "world.h"
using namespace vf;

namespace {
struct Capture {
    Image img;                                   // removed files included, marked below
    std::set<std::wstring> live;
    bool hasCommit;
    std::vector<std::vector<DocSpec> > accept;
    std::string where;
};

// one surviving state of the medium
Image survivors(Case& c, const Capture& k, std::string& how) {
    Image r;
    int mode = (int)c.draw(6);   // 0 nothing unsynced survives, 1 everything survives, others mixed
    bool resurrect = c.chance(1, 3);
    how = "mode " + str(mode) + (resurrect ? " with undone deletes" : "");
    for (auto& f : k.img) {
        const FileData& d = f.second;
        if (!k.live.count(f.first)) {
            if (!resurrect || !d.everSynced || c.chance(1, 2)) continue;
        }
        FileData n = d;
        if (d.everSynced && d.data == d.synced) { r[f.first] = n; continue; }
        int what = mode == 0 ? (d.everSynced ? 1 : 0) : mode == 1 ? 2 : (int)c.draw(7);
        switch (what) {
            case 0: if (!d.everSynced) continue; n.data = d.synced; break;         // lost
            case 1: n.data = d.synced; if (!d.everSynced) n.data.clear(); break;   // synced content or empty
            case 2: break;                                                          // complete
            case 3: n.data = d.data.substr(0, c.draw(d.data.size() + 1)); break;    // prefix
            case 4: { size_t b = c.draw(d.data.size() + 1); for (size_t i = b; i < n.data.size(); ++i) n.data[i] = 0; break; }
            case 5: for (size_t i = 0; i < n.data.size(); ++i) n.data[i] = (char)(i * 37 + 11); break;
            default: { size_t b = c.draw(d.data.size() + 1), e = b + c.draw(d.data.size() - b + 1); for (size_t i = b; i < e; ++i) n.data[i] = 0; break; }
        }
        n.synced = n.data;
        n.everSynced = true;
        r[f.first] = n;
    }
    return r;
}
}  // namespace

VF_SUB(crashHistory, 5500, 150000) {
    SegmentInfos::setDefaultGenFileRetryPauseMsec(0);
    FaultDirPtr dir = newLucene<FaultDir>();
    World w(c, dir);
    w.cfg = genWriterCfg(c, false);
    c.note(w.cfg.describe());
    std::vector<Capture> caps;
    // captures: every `gap`-th event, and densely while a commit is running
    uint64_t gap = 1 + c.draw(60), nextAt = c.draw(40), dense = 1 + c.draw(6);
    bool inCommit = false;
    dir->hook = [&](Ev e, const std::wstring& n) {
        if (e == EV_READ || e == EV_OPEN || e == EV_LIST) return;
        bool now = dir->events >= nextAt || (inCommit && dir->events % dense == 0) || (w.inFlight && dir->events % dense == 0);
        if (!now || caps.size() >= 60) return;
        nextAt = dir->events + gap;
        Capture k;
        k.img = dir->image(true);
        for (auto& f : dir->files) k.live.insert(f.first);
        k.hasCommit = w.hasCommit;
        if (w.hasCommit) k.accept.push_back(w.comm);
        if (w.inFlight) k.accept.push_back(*w.inFlight);
        static const char* N[] = {"create", "write", "close", "sync", "delete", "open", "read", "touch", "list"};
        k.where = "event " + str(dir->events) + " before " + N[e] + " " + narrow(n);
        caps.push_back(k);
    };
    w.open(true);
    int avg = c.range(4, 16);
    for (int o = 0; o < 30 && c.more(avg); ++o) {
        if (c.chance(1, 6)) dir->removed.clear();
        w.step();
    }
    if (c.chance(1, 2)) w.close();
    dir->hook = nullptr;
    c.note("--- " + str(caps.size()) + " crash points captured");
    if (caps.empty()) return;
    int evaluated = 0, mid = 0;
    std::vector<size_t> order;
    for (size_t i = 0; i < caps.size(); ++i) order.push_back(i);
    c.shuffle(order);
    for (size_t q = 0; q < order.size() && evaluated < 8; ++q) {
        Capture& k = caps[order[q]];
        std::string how;
        Image img = survivors(c, k, how);
        FaultDirPtr d = newLucene<FaultDir>();
        d->load(img);
        ++evaluated;
        if (k.accept.size() > 1) ++mid;
        std::string where = "crash at " + k.where + " (" + how + ")";
        c.note(where);
        IndexReaderPtr r;
        try {
            r = IndexReader::open(d, true);
        } catch (LuceneException& e) {
            if (!k.hasCommit) continue;     // nothing had been committed yet
            throw Fail{where + ": the index cannot be opened: " + exceptionText(e)};
        }
        std::string why;
        int got = -1;
        for (size_t i = 0; i < k.accept.size(); ++i) {
            std::string p = World::check(r, k.accept[i], w.dc);
            if (p.empty()) { got = (int)i; break; }
            why += "\n  against " + std::string(i == 0 && k.hasCommit ? "last completed commit: " : "commit in progress: ") + p;
        }
        if (got < 0) throw Fail{where + ": neither the last completed nor the commit in progress is visible:" + why};
        r->close();
        // recovery: the next writer must work, keep that content and clean up
        std::vector<DocSpec> m = k.accept[got];
        WriterCfg cfg = genWriterCfg(c, false);
        IndexWriterPtr w2 = openWriter(d, w.a, cfg, false);
        if (c.chance(1, 2)) {
            DocSpec x;
            x.fields.push_back(keyword(L"id", L"after"));
            w2->addDocument(build(x));
            m.push_back(x);
        }
        if (c.chance(1, 3)) w2->optimize();
        w2->close();
        r = IndexReader::open(d, true);
        std::string p = World::check(r, m, w.dc);
        r->close();
        if (!p.empty()) throw Fail{where + ": after recovery by a new writer: " + p};
        std::string u = unreferenced(d);
        if (!u.empty()) throw Fail{where + ": files left over after recovery: " + u};
        CheckIndexPtr ci = newLucene<CheckIndex>(d);
        REQUIRE(ci->checkIndex()->clean, where << ": CheckIndex not clean after recovery");
    }
    if (mid) c.label("crash during commit");
    c.nontrivial(evaluated >= 2 && w.commits >= 2 && w.adds >= 2);
}
