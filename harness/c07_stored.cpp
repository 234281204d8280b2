// C07: stored fields come back exactly, whichever way they are selected and whatever happened to their segment.
#include "common.h"
#include "NumericField.h"
#include "CompressionTools.h"
#include "MapFieldSelector.h"
#include "SetBasedFieldSelector.h"
#include "LoadFirstFieldSelector.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "FileUtils.h"
#include "faultdir.h"
#include "StringUtils.h"
#include "MiscUtils.h"
using namespace vf;

static TermPtr T(const std::wstring& f, const std::wstring& t) { return newLucene<Term>(f, t); }

struct Val {                 // one stored value
    std::wstring name;
    bool binary = false;
    std::wstring text;
    std::string bin;
    int packed = 0;          // 1: bin is a compressed string, 2: bin is compressed bytes
    std::wstring unpackedText;
    std::string unpackedBin;
    bool numeric = false;
};
typedef std::vector<Val> Doc;

static std::string utf8(const std::wstring& s) { return Lucene::StringUtils::toUTF8(s); }
static std::string cut(const std::string& s) { return s.size() > 80 ? s.substr(0, 80) + "...(" + str(s.size()) + ")" : s; }
static std::string show(const Val& v) { return narrow(v.name) + (v.binary ? "#" + cut(hex(v.bin)) : "=" + cut(narrow(v.text))); }
static std::string showDoc(const Doc& d) { std::string s; for (auto& v : d) s += show(v) + "; "; return "[" + s + "]"; }

static std::wstring genValue(Case& c) {
    switch (c.weighted({3, 3, 1, 1, 1})) {
        case 0: return c.word(L"abc ", 0, 8);
        case 1: return c.unicode(20);
        case 2: return c.unicode(1200);
        case 3: return std::wstring((size_t)c.draw(3000), L'x') + c.word(L"\u00e9\U0001F600\u4e2d", 0, 3);   // a character across a buffer end
        default: return L"";
    }
}
static std::string genBytes(Case& c) {
    switch (c.weighted({6, 2, 1})) {
        case 0: return c.bytes(12);
        case 1: return c.bytes(1200);
        default: return std::string((size_t)c.draw(70000), (char)c.draw(256)) + c.bytes(4);
    }
}
static const wchar_t* NAMES[] = {L"a", L"b", L"c", L"\u4e2d", L"A", L"n"};

// generates a document: what goes into the index and what must come back
static DocumentPtr genStored(Case& c, const std::wstring& id, Doc& want, std::string& desc) {
    DocumentPtr doc = newLucene<Document>();
    auto add = [&](const FieldablePtr& f, const Val* v, const std::string& how) {
        doc->add(f);
        if (v) want.push_back(*v);
        desc += " " + how;
    };
    {
        Val v; v.name = L"id"; v.text = id;
        add(newLucene<Field>(L"id", id, Field::STORE_YES, Field::INDEX_NOT_ANALYZED), &v, "id=" + narrow(id));
    }
    for (int i = 0; i < 10 && c.more(4); ++i) {
        Val v;
        v.name = NAMES[c.draw(6)];
        switch (c.weighted({4, 2, 2, 4, 2, 2, 1, 2, 2, 1})) {
            case 0: v.text = genValue(c); add(newLucene<Field>(v.name, v.text, Field::STORE_YES, Field::INDEX_NO), &v, "stored " + show(v)); break;
            case 1: v.text = genValue(c); for (auto& ch : v.text) if (ch == L'!') ch = L'?';   // '!' makes the analyzer throw
                add(newLucene<Field>(v.name, v.text, Field::STORE_YES, Field::INDEX_ANALYZED, c.chance(1, 3) ? Field::TERM_VECTOR_YES : Field::TERM_VECTOR_NO), &v, "text+stored " + show(v)); break;
            case 2: v.text = genValue(c); add(newLucene<Field>(v.name, v.text, Field::STORE_YES, Field::INDEX_NOT_ANALYZED_NO_NORMS), &v, "keyword+stored " + show(v)); break;
            case 3: {
                v.binary = true;
                v.bin = genBytes(c);
                if (c.chance(1, 3)) {   // a slice of an array
                    int before = c.range(0, 5), after = c.range(0, 5);
                    std::string all = std::string((size_t)before, 'X') + v.bin + std::string((size_t)after, 'Y');
                    add(newLucene<Field>(v.name, toBytes(all), before, (int)v.bin.size(), Field::STORE_YES), &v, "slice " + show(v));
                } else add(newLucene<Field>(v.name, toBytes(v.bin), Field::STORE_YES), &v, "binary " + show(v));
                break;
            }
            case 4: {
                v.binary = true;
                v.unpackedText = genValue(c);
                v.packed = 1;
                ByteArray b = c.chance(1, 2) ? CompressionTools::compressString(v.unpackedText) : CompressionTools::compressString(v.unpackedText, c.range(0, 9));
                v.bin = fromBytes(b, 0, b.size());
                add(newLucene<Field>(v.name, b, Field::STORE_YES), &v, "compressed text " + cut(narrow(v.unpackedText)));
                break;
            }
            case 5: {
                v.binary = true;
                v.unpackedBin = genBytes(c);
                v.packed = 2;
                ByteArray src = toBytes(v.unpackedBin);
                ByteArray b = CompressionTools::compress(src);
                v.bin = fromBytes(b, 0, b.size());
                add(newLucene<Field>(v.name, b, Field::STORE_YES), &v, "compressed bytes " + cut(hex(v.unpackedBin)));
                break;
            }
            case 6: {
                int64_t x = (int64_t)c.bits64();
                v.text = std::to_wstring(x);
                v.numeric = true;
                NumericFieldPtr f = newLucene<NumericField>(v.name, c.range(1, 64), Field::STORE_YES, c.chance(1, 2));
                f->setLongValue(x);
                add(f, &v, "number " + show(v));
                break;
            }
            case 7: { std::wstring t = c.word(L"abc ", 1, 8); add(newLucene<Field>(v.name, t, Field::STORE_NO, Field::INDEX_ANALYZED), nullptr, "unstored " + narrow(v.name) + "=" + narrow(t)); break; }
            case 8: { std::vector<Tok> toks(1); toks[0].t = L"q"; add(newLucene<Field>(v.name, newLucene<SpecStream>(toks, 1)), nullptr, "stream " + narrow(v.name)); break; }
            default: { NumericFieldPtr f = newLucene<NumericField>(v.name); f->setIntValue(c.range(-5, 5)); add(f, nullptr, "unstored number " + narrow(v.name)); break; }
        }
    }
    return doc;
}

// one returned value against the expected one
static void checkValue(const FieldablePtr& f, const Val& v, const std::string& where) {
    REQUIRE(f->name() == v.name, where << ": field is called " << narrow(f->name()) << ", expected " << show(v));
    REQUIRE_EQ(f->isBinary(), v.binary, where << ": " << show(v) << " is binary");
    REQUIRE(f->isStored(), where << ": " << show(v) << " is not marked as stored");
    if (v.binary) {
        ByteArray b = f->getBinaryValue();
        REQUIRE(b, where << ": " << show(v) << " came back without bytes");
        std::string got = fromBytes(b, f->getBinaryOffset(), f->getBinaryLength());
        REQUIRE(got == v.bin, where << ": " << show(v) << " came back as " << cut(hex(got)));
    } else {
        String got = f->stringValue();
        REQUIRE(got == v.text, where << ": " << show(v) << " came back as " << cut(narrow(got)));
    }
}
static void checkDoc(const DocumentPtr& d, const Doc& want, const std::string& where) {
    Collection<FieldablePtr> fs = d->getFields();
    std::string names;
    for (int i = 0; i < fs.size(); ++i) names += narrow(fs[i]->name()) + " ";
    REQUIRE_EQ((int)fs.size(), (int)want.size(), where << ": number of fields of " << showDoc(want) << " (returned: " << names << ")");
    for (size_t i = 0; i < want.size(); ++i) checkValue(fs[(int)i], want[i], where + " field " + str(i));
    // access by name
    for (auto& v : want) {
        const Val* firstText = nullptr;
        const Val* firstBin = nullptr;
        std::vector<const Val*> texts, bins;
        for (auto& x : want) if (x.name == v.name) {
            if (x.binary) { bins.push_back(&x); if (!firstBin) firstBin = &x; }
            else { texts.push_back(&x); if (!firstText) firstText = &x; }
        }
        REQUIRE(d->get(v.name) == (firstText ? firstText->text : L""), where << ": get(" << narrow(v.name) << ")");
        Collection<String> vs = d->getValues(v.name);
        REQUIRE_EQ((int)vs.size(), (int)texts.size(), where << ": number of values of " << narrow(v.name));
        for (size_t i = 0; i < texts.size(); ++i) REQUIRE(vs[(int)i] == texts[i]->text, where << ": value " << i << " of " << narrow(v.name));
        ByteArray b = d->getBinaryValue(v.name);
        REQUIRE_EQ((bool)b, firstBin != nullptr, where << ": binary value of " << narrow(v.name) << " exists");
        if (b) REQUIRE(fromBytes(b, 0, b.size()) == firstBin->bin, where << ": binary value of " << narrow(v.name));
        Collection<ByteArray> bs = d->getBinaryValues(v.name);
        REQUIRE_EQ((int)bs.size(), (int)bins.size(), where << ": number of binary values of " << narrow(v.name));
        for (size_t i = 0; i < bins.size(); ++i) REQUIRE(fromBytes(bs[(int)i], 0, bs[(int)i].size()) == bins[i]->bin, where << ": binary value " << i << " of " << narrow(v.name));
        REQUIRE_EQ((int)d->getFieldables(v.name).size(), (int)(texts.size() + bins.size()), where << ": number of fields " << narrow(v.name));
        REQUIRE(d->getFieldable(v.name)->name() == v.name, where << ": getFieldable(" << narrow(v.name) << ")");
        if (v.packed) {
            ByteArray p = toBytes(v.bin);
            if (v.packed == 1) REQUIRE(CompressionTools::decompressString(p) == v.unpackedText, where << ": decompressed text of " << narrow(v.name));
            else { ByteArray u = CompressionTools::decompress(p); REQUIRE(u && fromBytes(u, 0, u.size()) == v.unpackedBin, where << ": decompressed bytes of " << narrow(v.name)); }
        }
    }
    REQUIRE(d->get(L"absent").empty() && !d->getBinaryValue(L"absent") && !d->getFieldable(L"absent") && d->getValues(L"absent").empty(), where << ": an absent field has a value");
}

class OwnSelector : public FieldSelector {
public:
    virtual ~OwnSelector() {}
    LUCENE_CLASS(OwnSelector);
    std::map<std::wstring, FieldSelector::FieldSelectorResult> m;
    std::vector<std::wstring> asked;
    virtual FieldSelectorResult accept(const String& f) { asked.push_back(f); auto i = m.find(f); return i == m.end() ? SELECTOR_NO_LOAD : i->second; }
};

// what a selector's answers leave of a document
struct Sel { FieldSelectorPtr s; std::function<FieldSelector::FieldSelectorResult(const std::wstring&)> f; std::string desc; boost::shared_ptr<OwnSelector> own; };
static Sel genSel(Case& c) {
    static const char* RN[] = {"NULL", "LOAD", "LAZY", "NO", "LOADBREAK", "SIZE", "SIZEBREAK"};
    Sel r;
    std::vector<std::wstring> names(NAMES, NAMES + 6);
    for (const wchar_t* x : {L"id", L"r", L"rb"}) names.push_back(x);
    switch (c.weighted({8, 2, 2, 1})) {
        case 0: {
            boost::shared_ptr<OwnSelector> o = newLucene<OwnSelector>();
            static const FieldSelector::FieldSelectorResult R[] = {FieldSelector::SELECTOR_LOAD, FieldSelector::SELECTOR_LAZY_LOAD, FieldSelector::SELECTOR_NO_LOAD, FieldSelector::SELECTOR_SIZE, FieldSelector::SELECTOR_LOAD_AND_BREAK, FieldSelector::SELECTOR_SIZE_AND_BREAK};
            r.desc = "own{";
            for (auto& n : names) { o->m[n] = R[c.weighted({4, 5, 3, 2, 1, 1})]; r.desc += narrow(n) + ":" + RN[(int)o->m[n]] + " "; }
            r.desc += "}";
            r.s = o;
            r.own = o;
            auto m = o->m;
            r.f = [m](const std::wstring& n) { return m.at(n); };
            break;
        }
        case 1: {
            HashSet<String> l = HashSet<String>::newInstance(), z = HashSet<String>::newInstance();
            std::set<std::wstring> ls, zs;
            r.desc = "set{";
            for (auto& n : names) {
                if (c.chance(1, 2)) { l.add(n); ls.insert(n); r.desc += narrow(n) + " "; }
                if (c.chance(1, 3)) { z.add(n); zs.insert(n); r.desc += narrow(n) + "(lazy) "; }
            }
            r.desc += "}";
            r.s = newLucene<SetBasedFieldSelector>(l, z);
            r.f = [ls, zs](const std::wstring& n) { return zs.count(n) ? FieldSelector::SELECTOR_LAZY_LOAD : ls.count(n) ? FieldSelector::SELECTOR_LOAD : FieldSelector::SELECTOR_NO_LOAD; };
            break;
        }
        case 2: {
            Collection<String> l = Collection<String>::newInstance();
            std::set<std::wstring> ls;
            r.desc = "map{";
            for (auto& n : names) if (c.chance(1, 2)) { l.add(n); ls.insert(n); r.desc += narrow(n) + " "; }
            r.desc += "}";
            r.s = newLucene<MapFieldSelector>(l);
            r.f = [ls](const std::wstring& n) { return ls.count(n) ? FieldSelector::SELECTOR_LOAD : FieldSelector::SELECTOR_NO_LOAD; };
            break;
        }
        default:
            r.s = newLucene<LoadFirstFieldSelector>();
            r.desc = "first";
            r.f = [](const std::wstring&) { return FieldSelector::SELECTOR_LOAD_AND_BREAK; };
    }
    return r;
}

static void checkSelected(Case& c, const IndexReaderPtr& r, int n, const Doc& want, std::vector<std::pair<FieldablePtr, Val> >& lazies) {
    Sel s = genSel(c);
    std::string where = "document " + str(n) + " selected by " + s.desc;
    DocumentPtr d = r->document(n, s.s);
    Collection<FieldablePtr> fs = d->getFields();
    int k = 0;
    std::vector<std::wstring> asked;
    for (auto& v : want) {
        FieldSelector::FieldSelectorResult a = s.f(v.name);
        asked.push_back(v.name);
        if (a == FieldSelector::SELECTOR_NO_LOAD) continue;
        REQUIRE(k < fs.size(), where << ": " << show(v) << " is missing");
        FieldablePtr f = fs[k++];
        if (a == FieldSelector::SELECTOR_SIZE || a == FieldSelector::SELECTOR_SIZE_AND_BREAK) {
            int size = v.binary ? (int)v.bin.size() : 2 * (int)utf8(v.text).size();
            REQUIRE(f->name() == v.name && f->isBinary(), where << ": the size of " << show(v) << " is not there");
            std::string got = fromBytes(f->getBinaryValue(), f->getBinaryOffset(), f->getBinaryLength());
            std::string w{(char)(size >> 24), (char)(size >> 16), (char)(size >> 8), (char)size};
            REQUIRE_EQ(hex(got), hex(w), where << ": size of " << show(v));
        } else if (a == FieldSelector::SELECTOR_LAZY_LOAD) {
            REQUIRE(f->name() == v.name, where << ": lazy field is called " << narrow(f->name()) << ", expected " << show(v));
            REQUIRE(f->isLazy(), where << ": " << show(v) << " is not lazy");
            REQUIRE_EQ(f->isBinary(), v.binary, where << ": lazy field " << show(v) << " is binary");
            if (v.binary) REQUIRE_EQ((int)f->getBinaryLength(), (int)v.bin.size(), where << ": length of lazy " << show(v));
            lazies.push_back(std::make_pair(f, v));
        } else {
            REQUIRE(!f->isLazy(), where << ": " << show(v) << " is lazy");
            checkValue(f, v, where);
        }
        if (a == FieldSelector::SELECTOR_LOAD_AND_BREAK || a == FieldSelector::SELECTOR_SIZE_AND_BREAK) break;
    }
    REQUIRE_EQ((int)fs.size(), k, where << ": number of fields of " << showDoc(want));
    if (s.own) REQUIRE(s.own->asked == asked, where << ": the selector was asked about [" << joinIds(s.own->asked) << "] instead of [" << joinIds(asked) << "]");
}
static void loadLazy(Case& c, std::vector<std::pair<FieldablePtr, Val> >& lazies) {
    if (lazies.empty()) return;
    size_t i = (size_t)c.draw(lazies.size());
    FieldablePtr f = lazies[i].first;
    const Val& v = lazies[i].second;
    if (v.binary && c.chance(1, 3)) {   // into a buffer of the caller's
        ByteArray buf = ByteArray::newInstance((int)c.draw(40));
        ByteArray b = f->getBinaryValue(buf);
        REQUIRE(b && fromBytes(b, f->getBinaryOffset(), f->getBinaryLength()) == v.bin, "lazy field " << show(v) << " read into a given buffer");
    } else checkValue(f, v, "lazy field");
    if (c.chance(1, 2)) checkValue(f, v, "lazy field read again");
}

static DirectoryPtr someDir(Case& c, std::string& path) {
    static int n = 0;
    switch (c.weighted({3, 1, 1})) {
        case 0: return newLucene<RAMDirectory>();
        case 1: path = scratchDir() + "/i" + std::to_string(n++); return newLucene<SimpleFSDirectory>(W(path));
        default: path = scratchDir() + "/i" + std::to_string(n++); return newLucene<MMapDirectory>(W(path));
    }
}

VF_SUB(stored, 1500, 150000) {
    WriterCfg cfg = genWriterCfg(c, false);
    c.note(cfg.describe());
    std::string path;
    LUCENE_GUARD(
        DirectoryPtr dir = someDir(c, path);
        IndexWriterPtr w = openWriter(dir, blankAnalyzer(), cfg, true);
        std::vector<Doc> docs;
        int next = 0;
        bool repeated = false;
        FieldPtr reused = newLucene<Field>(L"r", L"0", Field::STORE_YES, Field::INDEX_ANALYZED);
        FieldPtr reusedBin = newLucene<Field>(L"rb", toBytes("0"), Field::STORE_YES);
        auto addOne = [&](const IndexWriterPtr& to, std::vector<Doc>& into) {
            Doc d;
            std::string desc;
            DocumentPtr doc = genStored(c, L"d" + std::to_wstring(next++), d, desc);
            if (c.chance(1, 4)) {       // a field object used for several documents
                Val v;
                v.name = L"r";
                v.text = genValue(c);
                for (auto& ch : v.text) if (ch == L'!') ch = L'?';
                reused->setValue(v.text);
                doc->add(reused);
                d.push_back(v);
                Val b;
                b.name = L"rb";
                b.binary = true;
                b.bin = genBytes(c);
                int off = c.range(0, 3);
                if (off) reusedBin->setValue(toBytes(std::string((size_t)off, 'Z') + b.bin), off, (int)b.bin.size());
                else reusedBin->setValue(toBytes(b.bin));
                doc->add(reusedBin);
                d.push_back(b);
                desc += " reused " + show(v) + " " + show(b);
            }
            if (d.size() > 3) repeated = true;
            c.note("add" + desc);
            to->addDocument(doc);
            into.push_back(d);
        };
        int ops = 0;
        while (ops++ < 20 && c.more(7)) {
            switch (c.weighted({12, 3, 2, 1, 2})) {
                case 0: addOne(w, docs); break;
                case 1: if (!docs.empty()) {
                    size_t k = (size_t)c.draw(docs.size());
                    c.note("delete " + narrow(docs[k][0].text));
                    w->deleteDocuments(T(L"id", docs[k][0].text));
                    docs.erase(docs.begin() + (long)k);
                    break;
                } break;
                case 2: c.note("commit"); w->commit(); break;
                case 3: c.note("optimize"); w->optimize(); break;
                default: {   // import: other field numbers
                    RAMDirectoryPtr other = newLucene<RAMDirectory>();
                    WriterCfg oc = genWriterCfg(c, false);
                    IndexWriterPtr ow = openWriter(other, blankAnalyzer(), oc, true);
                    std::vector<Doc> od;
                    c.note("other index: " + oc.describe());
                    for (int i = 0; i < 4 && c.more(2); ++i) addOne(ow, od);
                    ow->close();
                    bool byReader = c.chance(1, 3);
                    c.note(byReader ? "import by reader" : "import");
                    if (byReader) {
                        IndexReaderPtr orr = IndexReader::open(other, true);
                        w->addIndexes(newCollection<IndexReaderPtr>(orr));
                        orr->close();
                    } else w->addIndexesNoOptimize(newCollection<DirectoryPtr>(other));
                    docs.insert(docs.end(), od.begin(), od.end());
                }
            }
        }
        if (c.chance(1, 3)) { c.note("optimize"); w->optimize(); }
        w->close();
        c.nontrivial(docs.size() > 2 && repeated);
        IndexReaderPtr r = IndexReader::open(dir, !c.chance(1, 3));
        std::vector<int> at;
        for (int i = 0; i < r->maxDoc(); ++i) if (!r->isDeleted(i)) at.push_back(i);
        REQUIRE_EQ(at.size(), docs.size(), "number of live documents");
        std::vector<size_t> order;
        for (size_t i = 0; i < docs.size(); ++i) order.push_back(i);
        c.shuffle(order);
        for (size_t i : order) checkDoc(r->document(at[i]), docs[i], "document " + str(at[i]));
        std::vector<std::pair<FieldablePtr, Val> > lazies;
        if (!docs.empty()) for (int n = 0; n < 12; ++n) {
            size_t i = (size_t)c.draw(docs.size());
            checkSelected(c, r, at[i], docs[i], lazies);
            while (c.chance(1, 2)) loadLazy(c, lazies);
        }
        bool closed = c.chance(1, 3);
        IndexReaderPtr clone;
        if (closed && c.chance(1, 2)) clone = boost::dynamic_pointer_cast<IndexReader>(r->clone());
        if (clone) { r->close(); r = clone; c.label("lazy fields of a reader closed while its clone is open"); }
        for (size_t i = 0; i < lazies.size(); ++i) loadLazy(c, lazies);
        // after the reader is closed a lazy field still gives its value or reports that it cannot
        r->close();
        r.reset();
        for (auto& l : lazies) {
            try { checkValue(l.first, l.second, "lazy field after its reader was closed"); } catch (LuceneException& e) { c.label("closed: " + str((int)e.getType())); }
        }
        lazies.clear();
        if (!path.empty()) FileUtils::removeDirectory(W(path));
    )
}

// the document object itself: adding, removing, looking up
VF_SUB(document, 8000, 400000) {
    DocumentPtr d = newLucene<Document>();
    std::vector<Val> m;
    auto check = [&](const std::string& where) {
        if (m.empty()) REQUIRE_EQ((int)d->getFields().size(), 0, where << ": number of fields");
        else checkDoc(d, m, where);
    };
    LUCENE_GUARD(
        for (int i = 0; i < 25 && c.more(8); ++i) {
            std::wstring n = NAMES[c.draw(4)];
            switch (c.weighted({5, 3, 2, 1})) {
                case 0: { Val v; v.name = n; v.text = genValue(c); c.note("add " + show(v)); d->add(newLucene<Field>(n, v.text, Field::STORE_YES, Field::INDEX_NO)); m.push_back(v); break; }
                case 1: { Val v; v.name = n; v.binary = true; v.bin = c.bytes(9); c.note("add " + show(v)); d->add(newLucene<Field>(n, toBytes(v.bin), Field::STORE_YES)); m.push_back(v); break; }
                case 2: {
                    c.note("remove " + narrow(n));
                    d->removeField(n);
                    for (size_t k = 0; k < m.size(); ++k) if (m[k].name == n) { m.erase(m.begin() + (long)k); c.nontrivial(); break; }
                    break;
                }
                default: {
                    c.note("remove all " + narrow(n));
                    d->removeFields(n);
                    std::vector<Val> r;
                    for (auto& v : m) if (v.name != n) r.push_back(v);
                    if (r.size() + 1 < m.size()) c.nontrivial();
                    m.swap(r);
                }
            }
            check("after operation " + str(i));
        }
    )
}

// reads that fail: an error, or the right value - never a document with fields missing or changed
VF_SUB(failingReads, 1500, 100000) {
    LUCENE_GUARD(
        boost::shared_ptr<FaultDir> dir = newLucene<FaultDir>();
        WriterCfg cfg = genWriterCfg(c, false);
        cfg.compound = cfg.docStoreCompound = c.chance(1, 2);
        c.note(cfg.describe());
        IndexWriterPtr w = openWriter(dir, blankAnalyzer(), cfg, true);
        std::vector<Doc> docs;
        for (int i = 0; i < 6 && (i == 0 || c.more(3)); ++i) {
            Doc d;
            std::string desc;
            DocumentPtr doc = genStored(c, L"d" + std::to_wstring(i), d, desc);
            c.note("add" + desc);
            w->addDocument(doc);
            docs.push_back(d);
        }
        w->close();
        IndexReaderPtr r = IndexReader::open(dir, true);
        int failures = 0;
        int64_t left = 0;
        bool armed = false;
        dir->hook = [&](Ev e, const std::wstring& n) {
            (void)n;
            if (e == EV_READ && armed && left-- <= 0) { ++failures; boost::throw_exception(IOException(L"injected")); }
        };
        for (int n = 0; n < 10; ++n) {
            size_t i = (size_t)c.draw(docs.size());
            left = (int64_t)c.draw(12);
            std::vector<std::pair<FieldablePtr, Val> > lazies;
            armed = true;
            int before = failures;
            std::string how;
            try {
                if (c.chance(1, 2)) { DocumentPtr d = r->document((int)i); armed = false; checkDoc(d, docs[i], "document " + str(i) + " read with a read failing"); }
                else {
                    boost::shared_ptr<OwnSelector> o = newLucene<OwnSelector>();
                    for (auto& v : docs[i]) o->m[v.name] = FieldSelector::SELECTOR_LAZY_LOAD;
                    DocumentPtr d = r->document((int)i, o);
                    Collection<FieldablePtr> fs = d->getFields();
                    REQUIRE_EQ((int)fs.size(), (int)docs[i].size(), "number of lazy fields with a read failing");
                    for (size_t k = 0; k < docs[i].size(); ++k) {
                        // once failing, once not: the failure must not stick
                        try { checkValue(fs[(int)k], docs[i][k], "lazy field with a read failing"); } catch (LuceneException&) {}
                        armed = false;
                        checkValue(fs[(int)k], docs[i][k], "lazy field after a failed read");
                        armed = true;
                        left = (int64_t)c.draw(3);
                    }
                }
            } catch (LuceneException& e) {
                armed = false;
                REQUIRE(failures > before, "reading document " << i << " failed by itself: " << exceptionText(e));
                c.nontrivial();
            }
            armed = false;
            checkDoc(r->document((int)i), docs[i], "document " + str(i) + " read after a failed read");
        }
        dir->hook = nullptr;
        r->close();
    )
}
