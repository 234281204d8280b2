// C01: writer operations against a sequential model
#include "common.h"
#include "TermQuery.h"
#include "BooleanQuery.h"
#include "MatchAllDocsQuery.h"
#include "QueryWrapperFilter.h"
#include "PrefixQuery.h"
#include "CheckIndex.h"
#include "KeepOnlyLastCommitDeletionPolicy.h"
using namespace vf;

static TermPtr T(const std::wstring& f, const std::wstring& t) { return newLucene<Term>(f, t); }

static void verify(Case& c, const IndexReaderPtr& r, const std::vector<DocSpec>& m, const DumpCfg& dc, const std::string& where) {
    (void)c;
    std::vector<std::wstring> ids = liveIds(r), want;
    for (auto& d : m) want.push_back(d.id());
    if (ids != want) throw Fail{where + ": live documents are [" + joinIds(ids) + "] but the calls leave [" + joinIds(want) + "]"};
    std::string df = diff(dumpReader(r, dc), dumpModel(m, dc));
    if (!df.empty()) throw Fail{where + ": content differs:" + df};
}

static void history(Case& c, bool wide) {
    GenCfg g;
    if (wide) { g.maxFields = 1; g.maxWords = 3; g.streams = false; g.binaries = false; g.unicode = false; }
    WriterCfg cfg = genWriterCfg(c);
    DumpCfg dc;
    dc.noPositions.insert(L"ot");
    if (c.chance(1, 10)) { cfg.maxFieldLength = c.range(1, 3); dc.maxFieldLength = cfg.maxFieldLength; }
    int posGap = c.chance(1, 4) ? c.range(1, 10) : 0;
    dc.posGap = posGap;
    AnalyzerPtr a = blankAnalyzer(posGap);
    c.note(cfg.describe() + " posGap=" + str(posGap) + " maxFieldLength=" + str(cfg.maxFieldLength));
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, a, cfg, true);
    std::vector<DocSpec> pend, comm;       // pending and last committed content
    bool everCommitted = true;             // creating the writer commits an empty index
    int next = 0, maxOps = wide ? 70 : 40, avg = wide ? c.range(5, 40) : c.range(3, 20), dels = 0, adds = 0, structural = 0;
    std::vector<IndexReaderPtr> readers;
    auto pickId = [&]() -> std::wstring {
        if (next == 0) return L"d0";
        if (c.chance(1, 6)) return L"nope";
        return L"d" + std::to_wstring(c.draw(next));
    };
    auto genGroup = [&]() { return std::wstring(1, (wchar_t)(L'p' + c.draw(3))); };
    auto delWhere = [&](std::function<bool(const DocSpec&)> p) {
        std::vector<DocSpec> r;
        for (auto& d : pend) if (!p(d)) r.push_back(d); else ++dels;
        pend.swap(r);
    };
    auto hasTerm = [&](const DocSpec& d, const std::wstring& f, const std::wstring& t) {
        auto inv = invert(d, dc.posGap, dc.offGap, dc.maxFieldLength);
        auto i = inv.find(f);
        return i != inv.end() && i->second.terms.count(t) > 0;
    };
    for (int o = 0; o < maxOps && c.more(avg); ++o) {
        switch (c.weighted({22, 6, 8, 5, 4, 5, 4, 2, 3, 2, 2, 1, 3, 3, 2, 2, 2})) {
            case 0: {  // add, several at a time
                for (int i = 0; i == 0 || (i < 14 && c.more(wide ? 5 : 1)); ++i) {
                    DocSpec d = genDoc(c, g, L"d" + std::to_wstring(next++));
                    c.note("add " + describe(d));
                    w->addDocument(build(d));
                    pend.push_back(d);
                    ++adds;
                }
                break;
            }
            case 1: {  // update by id or group
                bool byId = !c.chance(1, 3);
                std::wstring f = byId ? L"id" : L"g", v = byId ? pickId() : genGroup();
                DocSpec d = genDoc(c, g, byId && v != L"nope" && c.chance(1, 2) ? v : L"d" + std::to_wstring(next++));
                c.note("update " + narrow(f) + ":" + narrow(v) + " " + describe(d));
                w->updateDocument(T(f, v), build(d));
                delWhere([&](const DocSpec& x) { return hasTerm(x, f, v); });
                pend.push_back(d);
                ++adds;
                break;
            }
            case 2: {
                std::wstring v = pickId();
                c.note("delete id:" + narrow(v));
                w->deleteDocuments(T(L"id", v));
                delWhere([&](const DocSpec& x) { return hasTerm(x, L"id", v); });
                break;
            }
            case 3: {  // delete by term of a text field, or several terms at once
                Collection<TermPtr> ts = Collection<TermPtr>::newInstance();
                std::vector<std::pair<std::wstring, std::wstring> > tv;
                int n = 1 + c.size(3);
                for (int i = 0; i < n; ++i) {
                    std::wstring f = c.draw(2) ? L"t0" : L"g", v = f == L"g" ? genGroup() : genWord(c, g);
                    if (c.chance(1, 2)) { f = L"id"; v = pickId(); }
                    ts.add(T(f, v));
                    tv.push_back(std::make_pair(f, v));
                    c.note("delete(terms) " + narrow(f) + ":" + narrow(v));
                }
                w->deleteDocuments(ts);
                for (auto& t : tv) delWhere([&](const DocSpec& x) { return hasTerm(x, t.first, t.second); });
                break;
            }
            case 4: {  // delete by query
                std::wstring v = genWord(c, g), gr = genGroup();
                QueryPtr q;
                int k = (int)c.draw(4);
                if (k == 0) q = newLucene<TermQuery>(T(L"t0", v));
                else if (k == 1) {
                    BooleanQueryPtr b = newLucene<BooleanQuery>();
                    b->add(newLucene<TermQuery>(T(L"g", gr)), BooleanClause::MUST);
                    b->add(newLucene<TermQuery>(T(L"t0", v)), BooleanClause::MUST_NOT);
                    q = b;
                } else if (k == 2) q = newLucene<PrefixQuery>(T(L"id", L"d1"));
                else q = newLucene<TermQuery>(T(L"g", gr));
                c.note("delete(query) " + narrow(q->toString()));
                w->deleteDocuments(q);
                delWhere([&](const DocSpec& x) {
                    switch (k) {
                        case 0: return hasTerm(x, L"t0", v);
                        case 1: return hasTerm(x, L"g", gr) && !hasTerm(x, L"t0", v);
                        case 2: return x.id().compare(0, 2, L"d1") == 0;
                        default: return hasTerm(x, L"g", gr);
                    }
                });
                break;
            }
            case 5: c.note("commit"); w->commit(); comm = pend; everCommitted = true; ++structural; break;
            case 6: c.note("maybeMerge"); w->maybeMerge(); ++structural; break;
            case 7: { int n = c.chance(1, 2) ? c.range(2, 4) : 1; c.note("optimize " + str(n)); if (n == 1) w->optimize(); else w->optimize(n); ++structural; break; }
            case 8: c.note("expungeDeletes"); w->expungeDeletes(); ++structural; break;
            case 9: {  // close and reopen the writer (with another configuration)
                c.note("close+reopen");
                w->close();
                comm = pend;
                IndexReaderPtr r = IndexReader::open(dir, true);
                verify(c, r, comm, dc, "after close");
                r->close();
                int mfl = cfg.maxFieldLength;
                cfg = genWriterCfg(c);
                cfg.maxFieldLength = mfl;
                c.note(cfg.describe());
                w = openWriter(dir, a, cfg, false);
                ++structural;
                break;
            }
            case 10: {  // rollback
                c.note("rollback");
                w->rollback();
                pend = comm;
                w = openWriter(dir, a, cfg, false);
                ++structural;
                break;
            }
            case 11: c.note("deleteAll"); w->deleteAll(); dels += (int)pend.size(); pend.clear(); break;
            case 12: {  // near-real-time reader
                if (!cfg.nrt) break;
                c.note("getReader");
                IndexReaderPtr r = w->getReader();
                verify(c, r, pend, dc, "near-real-time reader");
                if (c.chance(1, 2)) readers.push_back(r); else r->close();
                ++structural;
                break;
            }
            case 13: {  // import other indexes
                bool viaReaders = c.chance(1, 2);
                int n = 1 + (int)c.draw(2);
                Collection<DirectoryPtr> dirs = Collection<DirectoryPtr>::newInstance();
                Collection<IndexReaderPtr> rs = Collection<IndexReaderPtr>::newInstance();
                c.note(std::string("addIndexes ") + (viaReaders ? "readers" : "directories"));
                std::vector<DocSpec> all;
                for (int k = 0; k < n; ++k) {
                    std::vector<DocSpec> docs;
                    int nd = c.size(5);
                    RAMDirectoryPtr d2 = newLucene<RAMDirectory>();
                    WriterCfg oc = genWriterCfg(c, false);
                    oc.maxFieldLength = cfg.maxFieldLength;
                    IndexWriterPtr w2 = openWriter(d2, a, oc, true);
                    for (int i = 0; i < nd; ++i) {
                        DocSpec d = genDoc(c, g, L"d" + std::to_wstring(next++));
                        c.note("  with " + describe(d));
                        w2->addDocument(build(d));
                        docs.push_back(d);
                    }
                    if (nd && c.chance(1, 2)) {
                        size_t k2 = c.draw(nd);
                        c.note("  minus " + narrow(docs[k2].id()));
                        w2->deleteDocuments(T(L"id", docs[k2].id()));
                        docs.erase(docs.begin() + k2);
                        ++dels;
                    }
                    w2->close();
                    all.insert(all.end(), docs.begin(), docs.end());
                    if (viaReaders) rs.add(IndexReader::open(d2, true)); else dirs.add(d2);
                }
                if (viaReaders) { w->addIndexes(rs); for (int i = 0; i < rs.size(); ++i) rs[i]->close(); }
                else w->addIndexesNoOptimize(dirs);
                pend.insert(pend.end(), all.begin(), all.end());
                adds += (int)all.size();
                ++structural;
                break;
            }
            case 14: {  // a document whose analysis fails is not added and spoils nothing
                DocSpec d = genDoc(c, g, L"d" + std::to_wstring(next++));
                d.fields.push_back(text(c.draw(2) ? L"t0" : L"t1", genText(c, g, 3) + L" !boom " + genText(c, g, 2)));
                bool failsWithin = true;
                if (cfg.maxFieldLength != INT_MAX) { c.label("failing doc skipped"); break; }
                c.note("add failing " + describe(d));
                bool threw = false;
                try { w->addDocument(build(d)); } catch (IOException&) { threw = true; }
                REQUIRE(threw == failsWithin, "exception of the analyzer was swallowed");
                break;
            }
            case 15: {  // content of the committed state seen by a fresh reader while the writer goes on
                IndexReaderPtr r = IndexReader::open(dir, true);
                verify(c, r, comm, dc, "fresh reader during writing");
                r->close();
                break;
            }
            default: {  // counters of the writer
                REQUIRE(w->maxDoc() >= (int)pend.size(), "maxDoc smaller than the number of live documents");
                w->prepareCommit();
                c.note("prepareCommit; then " + std::string(c.chance(1, 2) ? "commit" : "ops; commit"));
                IndexReaderPtr r = IndexReader::open(dir, true);
                verify(c, r, comm, dc, "fresh reader between prepareCommit and commit");
                r->close();
                w->commit();
                comm = pend;
                ++structural;
                break;
            }
        }
    }
    c.note("close");
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    verify(c, r, pend, dc, "final reader");
    REQUIRE_EQ(r->numDocs(), (int)pend.size(), "numDocs");
    r->close();
    for (auto& x : readers) x->close();
    CheckIndexPtr ci = newLucene<CheckIndex>(dir);
    IndexStatusPtr st = ci->checkIndex();
    REQUIRE(st && st->clean, "CheckIndex does not find the final index clean");
    if (dels) c.label("deletes hit");
    if (cfg.concurrent) c.label("concurrent merges");
    c.nontrivial(adds >= 2 && dels >= 1 && structural >= 1);
}

VF_SUB(writerHistory, 7000, 400000) { history(c, false); }
VF_SUB(writerHistoryWide, 3000, 200000) { history(c, true); }
