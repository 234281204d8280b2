// C26: at most one writer holds an index, whichever lock implementation is used.
#include "LuceneInc.h"
#include "common.h"
#include "SerialMergeScheduler.h"
#include "NativeFSLockFactory.h"
#include "SimpleFSLockFactory.h"
#include "SingleInstanceLockFactory.h"
#include "NoLockFactory.h"
#include "Lock.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "IndexReader.h"
#include "FileUtils.h"
#include "IndexInput.h"
#include <boost/algorithm/string.hpp>
#include <boost/filesystem.hpp>
#include <atomic>
#include <mutex>
#include <chrono>
#include <thread>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>

using namespace vf;
namespace fs = boost::filesystem;

namespace {
enum Impl { NATIVE, SIMPLE, SINGLE, NONE };
const char* implName(int i) { static const char* N[] = {"native", "simple", "single-instance", "no"}; return N[i]; }

double since(std::chrono::steady_clock::time_point t) { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count(); }

// another process that holds (or tries to take) a native lock
struct Other {
    pid_t pid = -1;
    int to = -1;
    bool got = false;
    bool start(const std::string& path) {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return false;
        pid = fork();
        if (pid == 0) {
            close(a[1]); close(b[0]);
            int fd = ::open(path.c_str(), O_RDWR | O_CREAT, 0644);
            struct flock l;
            memset(&l, 0, sizeof l);
            l.l_type = F_WRLCK; l.l_whence = SEEK_SET;
            char r = fd >= 0 && fcntl(fd, F_SETLK, &l) == 0 ? 'y' : 'n';
            if (write(b[1], &r, 1) != 1) _exit(1);
            char x;
            while (read(a[0], &x, 1) < 0) {}
            _exit(0);
        }
        close(a[0]); close(b[1]);
        to = a[1];
        char r = 'n';
        if (read(b[0], &r, 1) != 1) r = 'n';
        close(b[0]);
        got = r == 'y';
        return true;
    }
    void stop() {
        if (pid <= 0) return;
        if (write(to, "q", 1) != 1) kill(pid, SIGKILL);
        close(to);
        int st;
        waitpid(pid, &st, 0);
        pid = -1;
    }
    ~Other() { stop(); }
};

std::string fresh(Case& c) {
    static int n = 0;
    (void)c;
    std::string p = scratchDir() + "/lk" + str(n++);
    fs::remove_all(p);
    fs::create_directories(p);
    return p;
}

struct Place {                       // a physical index directory
    std::string path;
    std::vector<DirectoryPtr> dirs;  // opened on it, perhaps under other spellings
};

LockFactoryPtr factory(int impl, const std::string& lockDir) {
    switch (impl) {
        case NATIVE: return lockDir.empty() ? newLucene<NativeFSLockFactory>() : newLucene<NativeFSLockFactory>(W(lockDir));
        case SIMPLE: return lockDir.empty() ? newLucene<SimpleFSLockFactory>() : newLucene<SimpleFSLockFactory>(W(lockDir));
        case SINGLE: return newLucene<SingleInstanceLockFactory>();
        default: return NoLockFactory::getNoLockFactory();
    }
}
struct Setup {
    int impl = NATIVE;
    std::vector<Place> places;
    std::string lockDir;             // "" = in the index directory
    std::string describe() const { return std::string(implName(impl)) + " locks" + (lockDir.empty() ? "" : ", in a directory of their own") + ", " + str(places.size()) + " places"; }
};
Setup setup(Case& c) {
    Setup s;
    s.impl = c.weighted({4, 3, 3, 1});
    bool fsImpl = s.impl == NATIVE || s.impl == SIMPLE;
    bool ram = s.impl == SINGLE ? !c.chance(1, 3) : s.impl == NONE && c.chance(1, 2);
    std::string top = fresh(c);
    if (fsImpl && c.chance(1, 3)) { s.lockDir = top + "/locks"; if (c.chance(1, 2)) fs::create_directories(s.lockDir); }
    int n = c.range(1, 3);
    static const wchar_t* NAMES[] = {L"a", L"b", L"\u00e9\u00e9x", L"\u00e9\u00e9y", L"\u65e5\u672c\u8a9e1", L"\u65e5\u672c\u8a9e2"};
    std::vector<std::wstring> names(NAMES, NAMES + 6);
    c.shuffle(names);
    for (int i = 0; i < n; ++i) {
        Place p;
        p.path = top + "/" + fs::path(names[i]).string();
        if (ram) p.dirs.push_back(newLucene<RAMDirectory>());
        if (ram && s.impl == NONE) p.dirs[0]->setLockFactory(NoLockFactory::getNoLockFactory());
        if (!ram) {
            fs::create_directories(p.path);
            auto wide = [](const std::string& x) { return fs::path(x).wstring(); };
            auto open = [&](const std::string& x) -> DirectoryPtr {
                LockFactoryPtr f = factory(s.impl, s.lockDir);
                if (c.chance(1, 3)) return newLucene<MMapDirectory>(wide(x), f);
                return newLucene<SimpleFSDirectory>(wide(x), f);
            };
            p.dirs.push_back(open(p.path));
            // single-instance locks are those of one directory object
            if (fsImpl) for (int k = c.range(0, 2); k > 0; --k) {
                std::string alias = p.path;
                // where locks are kept apart from the index they are named after the path as it was given
                if (s.lockDir.empty()) switch (c.draw(4)) {
                    case 1: alias = p.path + "/."; break;
                    case 2: alias = top + "/./" + fs::path(names[i]).string(); break;
                    case 3: alias = top + "/link" + str(i) + "_" + str(k); fs::create_directory_symlink(p.path, alias); break;
                    default: break;
                }
                p.dirs.push_back(open(alias));
            }
        }
        s.places.push_back(p);
    }
    c.note(s.describe());
    return s;
}

std::string lockFile(const Setup& s, const Place& p, const DirectoryPtr& d, const std::wstring& name) {
    std::string dir = s.lockDir.empty() ? p.path : s.lockDir;
    std::wstring pre = s.lockDir.empty() ? L"" : d->getLockID() + L"-";
    return dir + "/" + fs::path(pre + name).string();
}
}  // namespace

static void utf8() {
    static bool done = false;
    if (!done) fs::path::imbue(std::locale("C.UTF-8"));
    done = true;
}

// raw locks against a table of holders
VF_SUB(locks, 15000, 200000) {
    utf8();
    LUCENE_GUARD(
        Setup s = setup(c);
        struct L { LockPtr l; int place; std::wstring name; std::string label; };
        std::vector<L> ls;
        std::map<std::pair<int, std::wstring>, int> held;      // -> index in ls, or -1: orphaned, -2: another process
        std::map<std::pair<int, std::wstring>, boost::shared_ptr<Other> > others;
        std::vector<std::wstring> names{L"write.lock", L"x.lock", L"y.lock"};
        int obtained = 0; int refused = 0;
        auto make = [&] {
            L x;
            x.place = (int)c.draw(s.places.size());
            x.name = names[c.draw(2 + c.draw(2))];
            size_t k = c.draw(s.places[x.place].dirs.size());
            x.l = s.places[x.place].dirs[k]->makeLock(x.name);
            x.label = "#" + str(ls.size()) + "(" + narrow(x.name) + " of place " + str(x.place) + "." + str(k) + ")";
            ls.push_back(x);
        };
        make();
        make();
        auto holder = [&](const L& x) -> int { auto it = held.find(std::make_pair(x.place, x.name)); return it == held.end() ? -3 : it->second; };
        auto truth = [&](const std::string& after) {
            for (size_t i = 0; i < ls.size(); ++i) if (ls[i].l && c.chance(1, 2)) {
                bool want = s.impl != NONE && holder(ls[i]) != -3;
                REQUIRE_EQ((int)ls[i].l->isLocked(), (int)want, "isLocked of " << ls[i].label << " " << after);
            }
        };
        int avg = c.range(6, 25);
        for (int o = 0; o < 60 && c.more(avg); ++o) {
            if (ls.size() < 8 && c.chance(1, 6)) { make(); continue; }
            size_t i = c.draw(ls.size());
            L& x = ls[i];
            auto key = std::make_pair(x.place, x.name);
            int h = holder(x);
            int op = c.weighted({5, 4, 1, 1, 1, 1});
            if (!x.l) op = op == 0 ? 4 : 6;
            if (op == 0) {
                bool want = s.impl == NONE || h == -3;
                auto t = std::chrono::steady_clock::now();
                bool got;
                if (c.chance(1, 4)) {
                    c.note("obtain within 0 ms " + x.label);
                    try { got = x.l->obtain(0); REQUIRE(got, "obtain with a timeout returned false"); } catch (LockObtainFailedException&) { got = false; }
                } else { c.note("obtain " + x.label); got = x.l->obtain(); }
                REQUIRE_EQ((int)got, (int)want, "obtaining " << x.label << (h == -3 ? ", which is free" : h == -2 ? ", which another process holds" : h == -1 ? ", which was never released" : h == (int)i ? ", which it holds itself" : ", which is held") << ":");
                REQUIRE(since(t) < 20, "obtain without a timeout took " << since(t) << " s");
                if (want) { if (s.impl != NONE) held[key] = (int)i; ++obtained; } else ++refused;
            } else if (op == 1) {
                c.note("release " + x.label);
                bool threw = false;
                // an unconditional release frees single-instance and simple locks whoever holds them
                if (s.impl != NATIVE && s.impl != NONE && h >= 0 && h != (int)i && !c.chance(1, 4)) continue;
                try { x.l->release(); } catch (LockReleaseFailedException&) { threw = true; }
                bool must = s.impl == NATIVE && h != -3 && h != (int)i;
                REQUIRE_EQ((int)threw, (int)must, "releasing " << x.label << (must ? ", which another one holds, is refused:" : " fails:"));
                if (!must) held.erase(key);
            } else if (op == 2) {
                c.note("drop " + x.label);
                x.l.reset();
                if (s.impl == NATIVE && h == (int)i) held.erase(key);
                else if (h == (int)i) held[key] = -1;
            } else if (op == 3) {
                // only where the lock is known not to be in use
                if (h >= 0 || h == -2) continue;
                c.note("clear " + x.label);
                s.places[x.place].dirs[0]->clearLock(x.name);
                held.erase(key);
            } else if (op == 4 && s.impl == NATIVE && s.places[x.place].dirs.size() && h == -3 && others.size() < 2 && c.chance(1, 2)) {
                std::string f = lockFile(s, s.places[x.place], s.places[x.place].dirs[0], x.name);
                if (!fs::exists(fs::path(f).parent_path())) continue;
                c.note("another process takes " + x.label);
                boost::shared_ptr<Other> p(new Other);
                REQUIRE(p->start(f), "no process");
                REQUIRE(p->got, "another process cannot lock " << f << ", which is free");
                others[key] = p;
                held[key] = -2;
                c.label("another process");
            } else if (op == 4 && s.impl == NATIVE && h >= 0) {
                std::string f = lockFile(s, s.places[x.place], s.places[x.place].dirs[0], x.name);
                c.note("another process tries " + x.label);
                Other p;
                REQUIRE(p.start(f), "no process");
                REQUIRE(!p.got, "another process could lock " << f << ", which is held here");
                p.stop();
                c.label("another process");
            } else if (op == 5 && !others.empty()) {
                auto it = others.begin();
                std::advance(it, c.draw(others.size()));
                c.note("the other process lets go of " + narrow(it->first.second) + " of place " + str(it->first.first));
                it->second->stop();
                held.erase(it->first);
                others.erase(it);
            }
            truth("after that");
        }
        others.clear();
        if (s.lockDir.empty() && s.impl == NATIVE)
            for (auto& x : ls) x.l.reset();
        if (obtained >= 2 && refused >= 1) c.nontrivial();
        if (s.impl == NONE && obtained >= 2) c.nontrivial();
        c.label(implName(s.impl)););
}

// writers and modifying readers
VF_SUB(writers, 4000, 60000) {
    utf8();
    IndexWriter::setDefaultWriteLockTimeout(0);
    SegmentInfos::setDefaultGenFileRetryPauseMsec(0);
    LUCENE_GUARD(
        Setup s = setup(c);
        bool excl = s.impl != NONE;
        struct H { IndexWriterPtr w; IndexReaderPtr r; int place; std::wstring seg; std::set<std::wstring> dead; bool lock; };
        std::vector<H> hs;
        std::vector<std::vector<std::wstring> > comm(s.places.size());
        std::vector<std::vector<std::wstring> > pend(s.places.size());
        std::vector<bool> exists(s.places.size());
        std::vector<bool> orphan(s.places.size());
        int made = 0; int refused = 0; int opened = 0;
        auto dirOf = [&](int p) { return s.places[p].dirs[c.draw(s.places[p].dirs.size())]; };
        auto holder = [&](int p) -> int { for (size_t i = 0; i < hs.size(); ++i) if (hs[i].place == p && hs[i].lock) return (int)i; return -1; };
        auto check = [&](int p, const std::string& after) {
            if (!exists[p]) return;
            IndexReaderPtr r = IndexReader::open(s.places[p].dirs[0], true);
            std::vector<std::wstring> got = liveIds(r);
            std::vector<std::wstring> want = comm[p];
            r->close();
            REQUIRE_EQ(joinIds(got), joinIds(want), "documents of place " << p << " " << after);
        };
        auto content = [&](int p) {
            std::map<std::wstring, std::string> m;
            DirectoryPtr d = s.places[p].dirs[0];
            HashSet<String> l = d->listAll();
            for (HashSet<String>::iterator f = l.begin(); f != l.end(); ++f) {
                if (boost::ends_with(*f, L".lock")) continue;
                IndexInputPtr in = d->openInput(*f);
                ByteArray b = ByteArray::newInstance((int)in->length() + 1);
                in->readBytes(b.get(), 0, (int)in->length());
                m[*f] = fromBytes(b, 0, (int)in->length());
                in->close();
            }
            return m;
        };
        auto locked = [&](int p, const std::string& after) {
            bool want = excl && (holder(p) >= 0 || orphan[p]);
            REQUIRE_EQ((int)IndexWriter::isLocked(dirOf(p)), (int)want, "isLocked of place " << p << " " << after);
        };
        int avg = c.range(6, 25);
        for (int o = 0; o < 50 && c.more(avg); ++o) {
            int p = (int)c.draw(s.places.size());
            int op = c.weighted({4, 6, 3, 2, 3, 3, 1, 2});
            if (op == 0) {
                bool create = !exists[p] || c.chance(1, 5);
                bool must = !excl || (holder(p) < 0 && !orphan[p]);
                if (!excl && holder(p) >= 0) continue;
                c.note(std::string("open a ") + (create ? "creating " : "") + "writer on place " + str(p));
                auto before = content(p);
                H h;
                h.place = p; h.lock = true;
                bool threw = false;
                auto t = std::chrono::steady_clock::now();
                try { h.w = newLucene<IndexWriter>(dirOf(p), blankAnalyzer(), create, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED); } catch (LockObtainFailedException&) { threw = true; }
                REQUIRE(since(t) < 20, "opening a writer without a timeout took " << since(t) << " s");
                REQUIRE_EQ((int)threw, (int)!must, "opening a writer on place " << p << (must ? ", which is free, is refused:" : ", which is locked, is refused:"));
                if (threw) {
                    ++refused;
                    h.w.reset();
                    REQUIRE(content(p) == before, "a refused writer changed the index");
                } else {
                    h.w->setMergeScheduler(newLucene<SerialMergeScheduler>());
                    hs.push_back(h);
                    ++opened;
                    if (create) { pend[p].clear(); if (!exists[p]) comm[p].clear(); exists[p] = true; } else pend[p] = comm[p];
                }
            } else if (op == 1) {
                int h = holder(p);
                if (h < 0 || !hs[h].w) continue;
                std::wstring id = L"d" + std::to_wstring(made++);
                DocSpec d;
                d.fields.push_back(keyword(L"id", id));
                hs[h].w->addDocument(build(d));
                pend[p].push_back(id);
                if (c.chance(1, 2)) { c.note("add and commit " + narrow(id)); hs[h].w->commit(); comm[p] = pend[p]; } else c.note("add " + narrow(id));
            } else if (op == 2) {
                int h = holder(p);
                if (h < 0) continue;
                if (hs[h].w) {
                    int how = (int)c.draw(3);
                    static const char* N[] = {"close", "roll back", "abandon"};
                    c.note(std::string(N[how]) + " the writer on place " + str(p));
                    if (how == 0) { hs[h].w->close(); comm[p] = pend[p]; }
                    else if (how == 1) hs[h].w->rollback();
                    else { hs[h].w.reset(); if (excl && s.impl != NATIVE) orphan[p] = true; c.label("abandoned"); }
                } else {
                    c.note("close the reader holding place " + str(p));
                    hs[h].r->close();
                    std::vector<std::wstring> left;
                    for (auto& id : comm[p]) if (!hs[h].dead.count(id)) left.push_back(id);
                    comm[p] = left;
                }
                hs.erase(hs.begin() + h);
            } else if (op == 3) {
                if (!exists[p]) continue;
                int n = 0;
                for (auto& h : hs) n += (bool)h.r;
                if (n >= 4) continue;
                c.note("open a reader on place " + str(p));
                H h;
                h.place = p; h.lock = false;
                h.r = IndexReader::open(dirOf(p), false);
                h.seg = SegmentInfos::getCurrentSegmentFileName(s.places[p].dirs[0]);
                hs.push_back(h);
            } else if (op == 4) {
                std::vector<int> rs;
                for (size_t i = 0; i < hs.size(); ++i) if (hs[i].r) rs.push_back((int)i);
                if (rs.empty()) continue;
                int i = rs[c.draw(rs.size())];
                p = hs[i].place;
                std::vector<std::wstring> live = liveIds(hs[i].r);
                if (live.empty()) continue;
                std::wstring id = live[c.draw(live.size())];
                int h = holder(p);
                if (!excl && h >= 0 && h != i) continue;
                bool lockFree = !excl || h == i || (h < 0 && !orphan[p]);
                bool stale = hs[i].seg != SegmentInfos::getCurrentSegmentFileName(s.places[p].dirs[0]);
                c.note("delete " + narrow(id) + " through a reader on place " + str(p));
                int res = 0;
                auto before = content(p);
                try { REQUIRE_EQ(hs[i].r->deleteDocuments(newLucene<Term>(L"id", id)), 1, "documents deleted"); }
                catch (LockObtainFailedException&) { res = 1; }
                catch (StaleReaderException&) { res = 2; }
                if (!lockFree && res != 2) { REQUIRE_EQ(res, 1, "a reader modifying place " << p << ", which is locked, is refused:"); ++refused; }
                else if (!lockFree || stale) REQUIRE(res == 2 && stale, "a reader modifying place " << p << ": outcome " << res << " though it is " << (stale ? "outdated" : "current"));
                else { REQUIRE_EQ(res, 0, "a reader modifying place " << p << ", which is free, is refused:"); hs[i].lock = true; hs[i].dead.insert(id); ++opened; }
                if (res) REQUIRE(content(p) == before, "a refused reader changed the index");
            } else if (op == 5) {
                for (size_t i = 0; i < hs.size(); ++i) if (hs[i].r && hs[i].place == p && hs[i].lock) {
                    c.note("commit the reader holding place " + str(p));
                    hs[i].r->flush();
                    std::vector<std::wstring> left;
                    for (auto& id : comm[p]) if (!hs[i].dead.count(id)) left.push_back(id);
                    comm[p] = left;
                    hs[i].lock = false;
                    hs[i].dead.clear();
                    hs[i].seg = SegmentInfos::getCurrentSegmentFileName(s.places[p].dirs[0]);
                    break;
                }
            } else if (op == 6) {
                if (holder(p) >= 0 && s.impl != NATIVE) continue;
                c.note("unlock place " + str(p));
                bool threw = false;
                try { IndexWriter::unlock(dirOf(p)); } catch (LockReleaseFailedException&) { threw = true; }
                REQUIRE_EQ((int)threw, (int)(holder(p) >= 0), "unlocking place " << p << ":");
                if (!threw) orphan[p] = false;
            } else {
                if (hs.empty()) continue;
                size_t i = c.draw(hs.size());
                if (!hs[i].r || hs[i].lock) continue;
                c.note("close a reader on place " + str(hs[i].place));
                hs[i].r->close();
                hs.erase(hs.begin() + i);
            }
            locked(p, "after that");
            if (c.chance(1, 3)) check(p, "after that");
        }
        for (size_t i = 0; i < hs.size(); ++i) {
            int p = hs[i].place;
            if (hs[i].w) { hs[i].w->close(); comm[p] = pend[p]; }
            else {
                hs[i].r->close();
                std::vector<std::wstring> left;
                for (auto& id : comm[p]) if (!hs[i].dead.count(id)) left.push_back(id);
                comm[p] = left;
            }
        }
        for (size_t p = 0; p < s.places.size(); ++p) {
            if (orphan[p]) IndexWriter::unlock(s.places[p].dirs[0]);
            check((int)p, "at the end");
            if (!exists[p]) continue;
            IndexWriterPtr w = newLucene<IndexWriter>(dirOf((int)p), blankAnalyzer(), false, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED);
            w->close();
        }
        if (opened >= 2 && (refused >= 1 || !excl)) c.nontrivial();
        c.label(implName(s.impl)););
}

// threads competing for one lock: never two holders
VF_SUB(race, 400, 8000) {
    utf8();
    LUCENE_GUARD(
        Setup s;
        do { s = setup(c); } while (s.impl == NONE);
        int threads = c.range(2, 5);
        int rounds = c.range(20, 200);
        std::atomic<int> in(0);
        std::atomic<int> worst(0);
        std::atomic<int> got(0);
        std::atomic<int> errors(0);
        std::mutex mu;
        std::string firstError;
        std::vector<DirectoryPtr> ds = s.places[0].dirs;
        bool own = c.chance(1, 2);
        std::vector<LockPtr> pre;
        for (int t = 0; t < threads; ++t) pre.push_back(ds[t % ds.size()]->makeLock(L"write.lock"));
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; ++t) ts.push_back(std::thread([&, t] {
            try {
                for (int k = 0; k < rounds; ++k) {
                    LockPtr l = own ? pre[t] : ds[t % ds.size()]->makeLock(L"write.lock");
                    if (!l->obtain()) { std::this_thread::yield(); continue; }
                    int now = ++in;
                    int w = worst;
                    while (now > w && !worst.compare_exchange_weak(w, now)) {}
                    ++got;
                    std::this_thread::yield();
                    --in;
                    l->release();
                }
            } catch (LuceneException& e) { std::lock_guard<std::mutex> g(mu); if (!errors++) firstError = exceptionText(e); }
        }));
        for (auto& t : ts) t.join();
        REQUIRE((int)worst <= 1, (int)worst << " threads held the lock at once (" << s.describe() << ")");
        REQUIRE((int)errors == 0, "a thread failed: " << firstError);
        LockPtr l = ds[0]->makeLock(L"write.lock");
        REQUIRE(l->obtain(), "the lock is not free after everybody released it");
        l->release();
        if (got >= 2) c.nontrivial();
        c.label(implName(s.impl)););
}

// waiting: a lock freed in time is obtained, one that is not makes the call fail when the time is over
VF_SUB(waits, 24, 300) {
    utf8();
    LUCENE_GUARD(
        Setup s;
        do { s = setup(c); } while (s.impl == NONE);
        DirectoryPtr d = s.places[0].dirs[0];
        LockPtr a = d->makeLock(L"write.lock");
        LockPtr b = d->makeLock(L"write.lock");
        REQUIRE(a->obtain(), "a free lock");
        bool frees = c.chance(1, 2);
        int limit = frees ? c.range(2000, 3000) : c.range(0, 1500);
        int at = c.range(0, 300);
        c.note(s.describe() + (frees ? ", released after " + str(at) + " ms" : "") + ", timeout " + str(limit) + " ms");
        std::thread t([&] { if (frees) { std::this_thread::sleep_for(std::chrono::milliseconds(at)); a->release(); } });
        auto t0 = std::chrono::steady_clock::now();
        bool got = false;
        bool threw = false;
        try { got = b->obtain(limit); } catch (LockObtainFailedException&) { threw = true; } catch (...) { t.join(); throw; }
        double took = since(t0);
        t.join();
        REQUIRE_EQ((int)got, (int)frees, "waiting for the lock");
        REQUIRE_EQ((int)threw, (int)!frees, "giving up");
        REQUIRE(took < limit / 1000.0 + 20, "waited " << took << " s with a timeout of " << limit << " ms");
        if (frees) b->release(); else a->release();
        c.nontrivial();
        c.label(implName(s.impl)););
}
