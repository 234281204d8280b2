// A writer with its sequential model, driven by generated operations (C02-C05, C27).
#ifndef VF_WORLD_H
#define VF_WORLD_H
#include "common.h"
#include "faultdir.h"
#include "TermQuery.h"
#include "CheckIndex.h"
#include "SegmentInfos.h"
#include "SegmentInfo.h"
#include "IndexFileNames.h"
#include "IndexCommit.h"
#include "KeepOnlyLastCommitDeletionPolicy.h"

namespace vf {

inline TermPtr term(const std::wstring& f, const std::wstring& t) { return newLucene<Term>(f, t); }

struct World {
    Case& c;
    DirectoryPtr dir;
    AnalyzerPtr a;
    WriterCfg cfg;
    GenCfg g;
    DumpCfg dc;
    IndexWriterPtr w;
    std::vector<DocSpec> pend, comm;
    bool hasCommit = false;                 // some commit completed
    const std::vector<DocSpec>* inFlight = nullptr;   // content of a commit that is being executed
    std::vector<DocSpec> inFlightDocs;
    int opened = 0;
    int next = 0, adds = 0, dels = 0, commits = 0;
    IndexDeletionPolicyPtr policy;
    // since the last time the committed state was known to be the pending state
    std::vector<DocSpec> attempted;                                     // documents handed to the writer
    std::vector<std::pair<std::wstring, std::wstring> > delAttempts;    // deletes handed to the writer
    bool deleteAllAttempted = false;
    void inSync() { attempted.clear(); delAttempts.clear(); deleteAllAttempted = false; }

    World(Case& c, const DirectoryPtr& d) : c(c), dir(d), a(blankAnalyzer()) {
        dc.noPositions.insert(L"ot");
        g.maxFields = 2;
        g.maxWords = 4;
    }
    bool has(const DocSpec& d, const std::wstring& f, const std::wstring& t) const {
        auto inv = invert(d, dc.posGap, dc.offGap, dc.maxFieldLength);
        auto i = inv.find(f);
        return i != inv.end() && i->second.terms.count(t) > 0;
    }
    void delWhere(const std::wstring& f, const std::wstring& t) {
        std::vector<DocSpec> r;
        for (auto& d : pend) if (!has(d, f, t)) r.push_back(d); else ++dels;
        pend.swap(r);
    }
    std::wstring pickId() { return next == 0 || c.chance(1, 8) ? std::wstring(L"nope") : L"d" + std::to_wstring(c.draw(next)); }
    std::wstring group() { return std::wstring(1, (wchar_t)(L'p' + c.draw(3))); }

    // runs f, which publishes the content "docs" when it succeeds
    template <class F> void publishing(const std::vector<DocSpec>& docs, F f) {
        inFlightDocs = docs;
        inFlight = &inFlightDocs;
        f();
        comm = inFlightDocs;
        hasCommit = true;
        inFlight = nullptr;
        ++commits;
    }
    void open(bool create) {
        auto go = [&] {
            if (policy) w = openWriter(dir, a, cfg, create, policy);
            else w = openWriter(dir, a, cfg, create);
        };
        if (create && !hasCommit) publishing({}, go);
        else go();
        prepared = false;
        ++opened;
    }
    void addDoc() {
        DocSpec d = genDoc(c, g, L"d" + std::to_wstring(next++));
        c.note("add " + describe(d));
        attempted.push_back(d);
        w->addDocument(build(d));
        pend.push_back(d);
        ++adds;
    }
    void update() {
        bool byId = !c.chance(1, 3);
        std::wstring f = byId ? L"id" : L"g", v = byId ? pickId() : group();
        DocSpec d = genDoc(c, g, L"d" + std::to_wstring(next++));
        c.note("update " + narrow(f) + ":" + narrow(v) + " " + describe(d));
        attempted.push_back(d);
        delAttempts.push_back(std::make_pair(f, v));
        w->updateDocument(term(f, v), build(d));
        delWhere(f, v);
        pend.push_back(d);
        ++adds;
    }
    void del() {
        bool byId = !c.chance(1, 4);
        std::wstring f = byId ? L"id" : L"g", v = byId ? pickId() : group();
        c.note("delete " + narrow(f) + ":" + narrow(v));
        delAttempts.push_back(std::make_pair(f, v));
        if (c.chance(1, 4)) w->deleteDocuments(newLucene<TermQuery>(term(f, v)));
        else w->deleteDocuments(term(f, v));
        delWhere(f, v);
    }
    bool prepared = false;      // prepareCommit() succeeded, the commit is outstanding
    void commit() { c.note("commit"); prepared = false; publishing(pend, [&] { w->commit(); }); }
    bool closing = false;       // close() was called and has not succeeded: only close and rollback remain
    void close() { c.note("close"); closing = true; publishing(pend, [&] { w->close(); }); w.reset(); closing = false; }
    void rollback() { c.note("rollback"); prepared = false; w->rollback(); w.reset(); pend = comm; closing = false; }
    void reopen(bool newCfg) {
        if (newCfg) { cfg = genWriterCfg(c, false); c.note(cfg.describe()); }
        open(false);
    }
    void import() {
        std::vector<DocSpec> docs;
        bool viaReaders = c.chance(1, 2);
        for (int i = 0; i < 5 && c.more(2); ++i) docs.push_back(genDoc(c, g, L"d" + std::to_wstring(next++)));
        RAMDirectoryPtr o = buildIndex(docs, genWriterCfg(c, false), a);
        c.note(std::string("addIndexes") + (viaReaders ? "(readers) " : "NoOptimize ") + str((int)docs.size()) + " docs");
        for (auto& d : docs) c.note("  " + describe(d));
        attempted.insert(attempted.end(), docs.begin(), docs.end());
        if (viaReaders) {
            IndexReaderPtr r = IndexReader::open(o, true);
            w->addIndexes(newCollection<IndexReaderPtr>(r));
            r->close();
        } else w->addIndexesNoOptimize(newCollection<DirectoryPtr>(o));
        pend.insert(pend.end(), docs.begin(), docs.end());
        adds += (int)docs.size();
    }
    // deletes through a reader while no writer is open
    IndexReaderPtr delReader;   // a modifying reader that has not been closed successfully
    void readerDeletes() {
        IndexReaderPtr r = IndexReader::open(dir, false);
        std::wstring v = pickId();
        c.note("reader deletes id:" + narrow(v));
        delAttempts.push_back(std::make_pair(std::wstring(L"id"), v));
        std::vector<DocSpec> before = pend;
        delReader = r;
        delWhere(L"id", v);
        std::vector<DocSpec> after = pend;
        pend = before;
        publishing(after, [&] { r->deleteDocuments(term(L"id", v)); r->close(); });
        pend = after;
        delReader.reset();
    }
    // one generated operation; the writer is open before and after
    void step() {
        switch (c.weighted({14, 4, 6, 5, 2, 2, 2, 2, 2, 1, 1, 2})) {
            case 0: for (int i = 0; i == 0 || (i < 8 && c.more(1)); ++i) addDoc(); break;
            case 1: update(); break;
            case 2: del(); break;
            case 3: commit(); break;
            case 4: c.note("maybeMerge"); w->maybeMerge(); break;
            case 5: c.note("optimize"); w->optimize(); break;
            case 6: c.note("expungeDeletes"); w->expungeDeletes(); break;
            case 7: close(); if (c.chance(1, 3)) readerDeletes(); reopen(c.chance(1, 2)); break;
            case 8: addDoc(); c.note("prepareCommit"); w->prepareCommit(); prepared = true; inFlightDocs = pend;
                    if (c.chance(1, 4)) { rollback(); reopen(false); }
                    else {
                        std::vector<DocSpec> at = pend;
                        while (c.more(1)) addDoc();
                        c.note("commit prepared");
                        std::vector<DocSpec> later = pend;
                        prepared = false;
                        publishing(at, [&] { w->commit(); });
                        pend = later;
                        (void)later;
                        commitPrepared = true;
                    }
                    break;
            case 9: rollback(); reopen(c.chance(1, 2)); break;
            case 10: c.note("deleteAll"); deleteAllAttempted = true; w->deleteAll(); dels += (int)pend.size(); pend.clear(); break;
            default: import(); break;
        }
    }
    bool commitPrepared = false;

    static std::string check(const IndexReaderPtr& r, const std::vector<DocSpec>& m, const DumpCfg& dc) {
        std::vector<std::wstring> ids = liveIds(r), want;
        for (auto& d : m) want.push_back(d.id());
        if (ids != want) return "live documents are [" + joinIds(ids) + "], expected [" + joinIds(want) + "]";
        std::string df = diff(dumpReader(r, dc), dumpModel(m, dc));
        return df.empty() ? "" : "content differs:" + df;
    }
};

// files in the directory that no commit references ("" when none)
inline std::string unreferenced(const DirectoryPtr& d) {
    std::set<std::wstring> ok;
    HashSet<String> all = d->listAll();
    Collection<IndexCommitPtr> commits = IndexReader::listCommits(d);
    for (int i = 0; i < commits.size(); ++i) {
        HashSet<String> f = commits[i]->getFileNames();
        for (HashSet<String>::iterator x = f.begin(); x != f.end(); ++x) ok.insert(*x);
    }
    std::string bad;
    for (HashSet<String>::iterator x = all.begin(); x != all.end(); ++x)
        if (!ok.count(*x) && *x != IndexFileNames::SEGMENTS_GEN()) bad += narrow(*x) + " ";
    for (auto& x : ok) if (!all.contains(x)) bad += "(missing " + narrow(x) + ") ";
    return bad;
}

}  // namespace vf
#endif
