// C21: directories store and return bytes faithfully.
#include "LuceneInc.h"
#include "common.h"
#include "faultdir.h"
#include "BufferedIndexInput.h"
#include "ChecksumIndexInput.h"
#include "ChecksumIndexOutput.h"
#include "CompoundFileReader.h"
#include "CompoundFileWriter.h"
#include "FileSwitchDirectory.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "MMapDirectory.h"
#include "RAMFile.h"
#include "RAMInputStream.h"
#include "RAMOutputStream.h"
#include "SimpleFSDirectory.h"
#include <boost/filesystem.hpp>
#include <csignal>
#include <sys/resource.h>

using namespace vf;
typedef std::string Bytes;

namespace {
struct Dirs {       // directories on disk made by a case, removed at its end
    std::vector<std::string> paths;
    std::string fresh(bool make = true) {
        static int n = 0;
        std::string p = scratchDir() + "/s" + std::to_string(n++);
        if (make) boost::filesystem::create_directory(p);
        paths.push_back(p);
        return p;
    }
    ~Dirs() { boost::system::error_code ec; for (auto& p : paths) if (p.find(scratchDir()) == 0) boost::filesystem::remove_all(p, ec); }
};
DirectoryPtr fsDir(Case& c, Dirs& d, bool mmap) {
    String p = W(d.fresh(c.chance(1, 2)));     // sometimes created by the first output
    if (mmap) return newLucene<MMapDirectory>(p);
    return newLucene<SimpleFSDirectory>(p);
}
DirectoryPtr genDir(Case& c, Dirs& d, std::string& name) {
    switch (c.draw(5)) {
        case 0: name = "ram"; return newLucene<RAMDirectory>();
        case 1: name = "simple"; return fsDir(c, d, false);
        case 2: name = "mmap"; return fsDir(c, d, true);
        case 3: {
            name = "switch(ram, simple)";
            HashSet<String> ext = HashSet<String>::newInstance();
            ext.add(L"fdt"); ext.add(L"tis");
            String p = W(d.fresh());
            return newLucene<FileSwitchDirectory>(ext, newLucene<RAMDirectory>(), newLucene<SimpleFSDirectory>(p), true);
        }
        default: {
            name = "switch(mmap, ram)";
            HashSet<String> ext = HashSet<String>::newInstance();
            ext.add(L"frq"); ext.add(L"");
            String p = W(d.fresh());
            return newLucene<FileSwitchDirectory>(ext, newLucene<MMapDirectory>(p), newLucene<RAMDirectory>(), true);
        }
    }
}

int edgy(Case& c, int max) {     // sizes around the buffer sizes
    static const int E[] = {0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 16383, 16384, 16385, 32768, 3072, 4096};
    int v = c.chance(1, 2) ? c.range(0, 40) : c.chance(1, 2) ? E[c.draw(14)] + c.range(0, 2) - 1 : c.range(0, 6000);
    return std::max(0, std::min(v, max));
}
Bytes blob(Case& c, int n) {
    Bytes b((size_t)n, 0);
    Rng r(c.draw(1000));
    for (auto& x : b) x = (char)r.next();
    return b;
}

// typed values written at known places
struct Rec { size_t at; int kind; int32_t i = 0; int64_t l = 0; std::wstring s; std::map<std::wstring, std::wstring> m; size_t len = 0; };
enum { R_INT, R_VINT, R_LONG, R_VLONG, R_STRING, R_MAP, R_CHARS, R_KINDS };

void vnum(Bytes& b, uint64_t v) { while (v >= 128) { b += (char)(v & 127 | 128); v >>= 7; } b += (char)v; }
Bytes utf8(const std::wstring& s) {
    Bytes b;
    for (wchar_t w : s) {
        uint32_t u = (uint32_t)w;
        if (u < 0x80) b += (char)u;
        else if (u < 0x800) { b += (char)(0xc0 | u >> 6); b += (char)(0x80 | (u & 63)); }
        else if (u < 0x10000) { b += (char)(0xe0 | u >> 12); b += (char)(0x80 | (u >> 6 & 63)); b += (char)(0x80 | (u & 63)); }
        else { b += (char)(0xf0 | u >> 18); b += (char)(0x80 | (u >> 12 & 63)); b += (char)(0x80 | (u >> 6 & 63)); b += (char)(0x80 | (u & 63)); }
    }
    return b;
}
void be(Bytes& b, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b += (char)(v >> (8 * i)); }
std::wstring bmp(Case& c, int max) { std::wstring s = c.unicode(max), r; for (wchar_t w : s) if (w < 0xd800 || (w > 0xdfff && w <= 0xffff)) r += w; return r; }

struct FileModel { Bytes data; std::vector<Rec> recs; };

// an output and what it has to hold
struct Out {
    IndexOutputPtr out;
    Bytes data;
    size_t pos = 0;
    std::vector<Rec> recs;
    bool appendOnly = true;
    void put(const Bytes& b) {
        if (data.size() < pos + b.size()) data.resize(pos + b.size());
        for (size_t i = 0; i < b.size(); ++i) data[pos + i] = b[i];
        // records overwritten are no longer there
        recs.erase(std::remove_if(recs.begin(), recs.end(), [&](const Rec& r) { return r.at < pos + b.size() && pos < r.at + r.len; }), recs.end());
        pos += b.size();
    }
};
void rec(Out& o, Rec r, const Bytes& b) { r.at = o.pos; r.len = b.size(); o.put(b); o.recs.push_back(r); }

void writeSome(Case& c, Out& o, const std::string& name) {
    Bytes b;
    Rec r;
    switch (c.weighted({3, 5, 1, 1, 1, 1, 2, 1, 1, 3, 2, 1})) {
        case 0: b = blob(c, 1); o.out->writeByte((uint8_t)b[0]); o.put(b); c.note(name + " writeByte"); break;
        case 1: {
            int n = edgy(c, 40000), off = c.chance(1, 3) ? c.range(1, 20) : 0;
            b = blob(c, n + off);
            if (off || c.chance(1, 2)) o.out->writeBytes((const uint8_t*)b.data(), off, n); else o.out->writeBytes((const uint8_t*)b.data(), n);
            o.put(b.substr((size_t)off));
            c.note(name + " writeBytes " + str(n));
            break;
        }
        case 2: r.kind = R_INT; r.i = (int32_t)c.bits64(); o.out->writeInt(r.i); be(b, (uint32_t)r.i, 4); rec(o, r, b); c.note(name + " int " + str(r.i)); break;
        case 3: r.kind = R_VINT; r.i = (int32_t)c.bits64(); o.out->writeVInt(r.i); vnum(b, (uint32_t)r.i); rec(o, r, b); c.note(name + " vint " + str(r.i)); break;
        case 4: r.kind = R_LONG; r.l = (int64_t)c.bits64(); o.out->writeLong(r.l); be(b, (uint64_t)r.l, 8); rec(o, r, b); c.note(name + " long " + str(r.l)); break;
        case 5: r.kind = R_VLONG; r.l = (int64_t)c.bits64(); o.out->writeVLong(r.l); vnum(b, (uint64_t)r.l); rec(o, r, b); c.note(name + " vlong " + str(r.l)); break;
        case 6: {
            r.kind = R_STRING;
            r.s = c.unicode(20);
            if (c.chance(1, 6)) { std::wstring u = r.s.empty() ? L"q" : r.s; int n = edgy(c, 18000); r.s.clear(); while ((int)r.s.size() < n) r.s += u; }
            Bytes u = utf8(r.s);
            vnum(b, u.size());
            b += u;
            o.out->writeString(r.s);
            rec(o, r, b);
            c.note(name + " string of " + str((int)r.s.size()) + " " + narrow(r.s.substr(0, 20)));
            break;
        }
        case 7: {
            r.kind = R_MAP;
            MapStringString m = MapStringString::newInstance();
            while (c.more(2) && r.m.size() < 5) { std::wstring k = c.unicode(4), v = c.unicode(6); r.m[k] = v; m.put(k, v); }
            if (r.m.empty() && c.chance(1, 2)) m = MapStringString();
            size_t at = o.pos;
            o.out->writeStringStringMap(m);
            // entries come in any order: take the bytes from the iteration order of the map itself
            be(b, r.m.size(), 4);
            if (m) for (auto i = m.begin(); i != m.end(); ++i) { Bytes k = utf8(i->first), v = utf8(i->second); vnum(b, k.size()); b += k; vnum(b, v.size()); b += v; }
            (void)at;
            rec(o, r, b);
            c.note(name + " map of " + str((int)r.m.size()));
            break;
        }
        case 8: {       // the old form of strings: characters below U+10000
            r.kind = R_CHARS;
            r.s = bmp(c, 12);
            o.out->writeVInt((int32_t)r.s.size());
            vnum(b, r.s.size());
            for (wchar_t w : r.s) {
                if (w == 0) b += "\xc0\x80"[0], b += "\xc0\x80"[1];
                else b += utf8(std::wstring(1, w));
            }
            std::wstring pad = L"ab" + r.s + L"c";
            if (c.chance(1, 2)) o.out->writeChars(pad, 2, (int32_t)r.s.size()); else o.out->writeChars(r.s, 0, (int32_t)r.s.size());
            rec(o, r, b);
            c.note(name + " chars " + narrow(r.s));
            break;
        }
        case 9: {
            if (o.data.empty()) break;
            size_t p = c.chance(1, 3) ? o.data.size() : c.chance(1, 2) ? (size_t)c.draw(o.data.size()) : (size_t)std::min<int>((int)o.data.size(), edgy(c, 1 << 20));
            o.out->seek((int64_t)p);
            o.pos = p;
            o.appendOnly = false;
            c.note(name + " seek " + str((int)p));
            break;
        }
        case 10: {
            o.out->flush();
            REQUIRE_EQ((int64_t)o.out->length(), (int64_t)o.data.size(), "length of the flushed output " << name);
            c.note(name + " flush");
            break;
        }
        default: {
            // copied from another file
            RAMDirectoryPtr t = newLucene<RAMDirectory>();
            IndexOutputPtr x = t->createOutput(L"t");
            b = blob(c, edgy(c, 40000));
            if (!b.empty()) x->writeBytes((const uint8_t*)b.data(), (int32_t)b.size());
            x->close();
            IndexInputPtr in = t->openInput(L"t");
            size_t from = b.empty() ? 0 : (size_t)c.draw(b.size());
            in->seek((int64_t)from);
            int64_t n = (int64_t)c.draw(b.size() - from + 1);
            o.out->copyBytes(in, n);
            o.put(b.substr(from, (size_t)n));
            in->close();
            c.note(name + " copyBytes " + str(n));
        }
    }
    REQUIRE_EQ((int64_t)o.out->getFilePointer(), (int64_t)o.pos, "position of output " << name);
}

struct Cursor { IndexInputPtr in; size_t pos; bool known; bool isClone; };

// random reading of one file through several cursors
void readAll(Case& c, const IndexInputPtr& first, const FileModel& f, const std::string& name, int maxSteps, bool closeFirst = true) {
    const size_t n = f.data.size();
    REQUIRE_EQ((int64_t)first->length(), (int64_t)n, "length of " << name);
    std::vector<Cursor> cur{{first, 0, true, false}};
    REQUIRE_EQ((int64_t)first->getFilePointer(), (int64_t)0, "position of the fresh input " << name);
    int k = 0;
    std::vector<uint8_t> buf;
    while (k++ < maxSteps && c.more(12)) {
        size_t ci = (size_t)c.draw(cur.size());
        Cursor& u = cur[ci];
        std::string w = name + " cursor " + str((int)ci);
        auto expectEnd = [&](const std::string& what, std::function<void()> fn) {
            bool threw = false;
            try { fn(); } catch (IOException&) { threw = true; }
            REQUIRE(threw, w << ": " << what << " passes the end (" << n << ") without an error");
            u.known = false;
            c.label("read past the end");
        };
        int op = c.weighted({5, 5, 6, 3, 2, 1, 1});
        if (!u.known && op != 3 && op != 5) op = 2;
        switch (op) {
            case 0: {
                if (u.pos < n) {
                    uint8_t b = u.in->readByte();
                    REQUIRE_EQ((int)b, (int)(uint8_t)f.data[u.pos], w << ": byte at " << u.pos);
                    ++u.pos;
                } else expectEnd("reading a byte at " + str((int)u.pos), [&] { u.in->readByte(); });
                break;
            }
            case 1: {
                int len = c.chance(1, 8) ? (int)std::max<int64_t>(0, (int64_t)n - (int64_t)u.pos) + c.range(0, 2) : edgy(c, 20000);
                int off = c.chance(1, 3) ? c.range(1, 9) : 0;
                int how = (int)c.draw(3);
                buf.assign((size_t)(len + off + 8), 0xee);
                auto doRead = [&] { if (how == 0) u.in->readBytes(buf.data(), off, len); else u.in->readBytes(buf.data(), off, len, how == 1); };
                if (u.pos + (size_t)len <= n || len == 0) {
                    doRead();
                    for (int i = 0; i < len; ++i) REQUIRE_EQ((int)buf[(size_t)(off + i)], (int)(uint8_t)f.data[u.pos + (size_t)i], w << ": byte " << i << " of " << len << " read at " << u.pos);
                    for (int i = 0; i < off; ++i) REQUIRE_EQ((int)buf[(size_t)i], 0xee, w << ": byte before the offset");
                    for (int i = 0; i < 8; ++i) REQUIRE_EQ((int)buf[(size_t)(off + len + i)], 0xee, w << ": byte after the requested length");
                    u.pos += (size_t)len;
                    if (len > 40) c.nontrivial();
                } else expectEnd("reading " + str(len) + " bytes at " + str((int)u.pos), doRead);
                break;
            }
            case 2: {
                size_t p = c.chance(1, 6) ? n : c.chance(1, 6) ? n + (size_t)edgy(c, 20000) : c.chance(1, 2) ? (size_t)c.draw(n + 1) : (size_t)edgy(c, (int)n);
                u.in->seek((int64_t)p);
                u.pos = p;
                u.known = true;
                if (p > n) c.label("seek past the end");
                break;
            }
            case 3: {
                if (cur.size() >= 4) break;
                Cursor x{boost::dynamic_pointer_cast<IndexInput>(u.in->clone()), u.pos, u.known, true};
                REQUIRE(x.in, "clone is not an input");
                if (u.known && u.pos <= n) REQUIRE_EQ((int64_t)x.in->getFilePointer(), (int64_t)u.pos, w << ": position of the clone");
                cur.push_back(x);
                c.label("cloned");
                continue;
            }
            case 4: {
                if (f.recs.empty()) break;
                const Rec& r = f.recs[(size_t)c.draw(f.recs.size())];
                if (r.kind == R_CHARS) {
                    IndexInputPtr in = boost::dynamic_pointer_cast<IndexInput>(u.in->clone());
                    in->seek((int64_t)r.at);
                    if (c.chance(1, 2)) {
                        int32_t len = in->readVInt();
                        REQUIRE_EQ((int)len, (int)r.s.size(), w << ": length of characters");
                        if (c.chance(1, 2)) in->skipChars(len);
                        else {
                            std::vector<wchar_t> ch((size_t)len + 4, L'?');
                            int got = len ? in->readChars(ch.data(), 2, len) : 0;
                            REQUIRE(got == len && std::wstring(ch.data() + 2, (size_t)len) == r.s, w << ": characters at " << r.at << " read as " << narrow(std::wstring(ch.data() + 2, (size_t)len)));
                        }
                    } else {
                        in->setModifiedUTF8StringsMode();
                        REQUIRE_EQ(narrow(in->readString()), narrow(r.s), w << ": old-style string at " << r.at);
                    }
                    REQUIRE_EQ((int64_t)in->getFilePointer(), (int64_t)(r.at + r.len), w << ": position after the characters");
                    break;
                }
                u.in->seek((int64_t)r.at);
                switch (r.kind) {
                    case R_INT: REQUIRE_EQ(u.in->readInt(), r.i, w << ": int at " << r.at); break;
                    case R_VINT: REQUIRE_EQ(u.in->readVInt(), r.i, w << ": vint at " << r.at); break;
                    case R_LONG: REQUIRE_EQ(u.in->readLong(), r.l, w << ": long at " << r.at); break;
                    case R_VLONG: REQUIRE_EQ(u.in->readVLong(), r.l, w << ": vlong at " << r.at); break;
                    case R_STRING: REQUIRE(u.in->readString() == r.s, w << ": string at " << r.at << " differs"); break;
                    case R_MAP: {
                        MapStringString m = u.in->readStringStringMap();
                        REQUIRE_EQ((int)m.size(), (int)r.m.size(), w << ": entries of the map at " << r.at);
                        for (auto& e : r.m) REQUIRE(m.contains(e.first) && m.get(e.first) == e.second, w << ": map entry " << narrow(e.first));
                        break;
                    }
                }
                u.pos = r.at + r.len;
                u.known = true;
                c.label("typed value");
                break;
            }
            case 5: {
                BufferedIndexInputPtr b = boost::dynamic_pointer_cast<BufferedIndexInput>(u.in);
                if (b) { b->setBufferSize(std::max(1, edgy(c, 20000))); c.label("buffer resized"); }
                break;
            }
            default:
                REQUIRE_EQ((int64_t)u.in->length(), (int64_t)n, w << ": length");
                if (u.isClone && c.chance(1, 2)) { u.in->close(); cur.erase(cur.begin() + (long)ci); c.label("clone closed"); continue; }
        }
        if (u.known && u.pos <= n) REQUIRE_EQ((int64_t)u.in->getFilePointer(), (int64_t)u.pos, w << ": position after operation " << op);
    }
    for (size_t i = cur.size(); i-- > 1;) cur[i].in->close();
    if (closeFirst) first->close();
}
IndexInputPtr open(Case& c, const DirectoryPtr& d, const String& name) {
    if (c.chance(1, 2)) return d->openInput(name);
    return d->openInput(name, std::max(1, edgy(c, 20000)));
}
String fileName(Case& c) {
    static const wchar_t* N[] = {L"_0.fdt", L"_0.tis", L"_1.frq", L"segments_2", L"segments.gen", L"_a.prx", L"_1.del", L"_0.s3"};
    return N[c.draw(8)];
}
void listing(const DirectoryPtr& d, const std::map<std::wstring, FileModel>& m, const std::string& when) {
    HashSet<String> l = HashSet<String>::newInstance();
    try { l = d->listAll(); } catch (NoSuchDirectoryException&) { REQUIRE(m.empty(), when << ": the directory is said not to exist"); return; }
    std::set<std::wstring> got(l.begin(), l.end()), want;
    for (auto& e : m) want.insert(e.first);
    std::string g, w;
    for (auto& x : got) g += narrow(x) + " ";
    for (auto& x : want) w += narrow(x) + " ";
    REQUIRE(got == want, when << ": listed " << g << "instead of " << w);
    for (auto& e : m) {
        REQUIRE(d->fileExists(e.first), when << ": " << narrow(e.first) << " does not exist");
        REQUIRE_EQ((int64_t)d->fileLength(e.first), (int64_t)e.second.data.size(), when << ": length of " << narrow(e.first));
    }
}
}  // namespace

VF_SUB(files, 40000, 800000) {
    Dirs dirs;
    std::string kind;
    DirectoryPtr d = genDir(c, dirs, kind);
    c.note("directory " + kind);
    c.label(kind);
    std::map<std::wstring, FileModel> m;
    std::vector<std::pair<IndexInputPtr, FileModel> > held;   // inputs over files since replaced or deleted
    LUCENE_GUARD(
        int rounds = 0;
        do {
            // write one to three files at once
            std::map<std::wstring, Out> outs;
            int want = c.weighted({3, 2, 1}) + 1;
            for (int i = 0; i < want; ++i) {
                String name = fileName(c);
                if (outs.count(name)) continue;
                if (m.count(name)) {
                    if (c.chance(1, 2)) held.push_back({open(c, d, name), m[name]});
                    c.label("replaced");
                }
                Out o;
                o.out = d->createOutput(name);
                outs[name] = o;
                c.note("create " + narrow(name));
            }
            int k = 0;
            while (k++ < 30 && c.more(9)) {
                auto it = outs.begin();
                std::advance(it, (long)c.draw(outs.size()));
                writeSome(c, it->second, narrow(it->first));
            }
            for (auto& o : outs) {
                o.second.out->close();
                FileModel f;
                f.data = o.second.data;
                f.recs = o.second.recs;
                m[o.first] = f;
            }
            listing(d, m, "after writing");
            // read, delete
            k = 0;
            while (k++ < 5 && !m.empty() && c.more(3)) {
                auto it = m.begin();
                std::advance(it, (long)c.draw(m.size()));
                switch (c.weighted({6, 2, 1, 1})) {
                    case 0: {
                        IndexInputPtr in = open(c, d, it->first);
                        readAll(c, in, it->second, narrow(it->first), 40);
                        break;
                    }
                    case 1: {
                        if (c.chance(1, 2)) held.push_back({open(c, d, it->first), it->second});
                        c.note("delete " + narrow(it->first));
                        String name = it->first;
                        d->deleteFile(name);
                        m.erase(it);
                        REQUIRE(!d->fileExists(name), "the deleted file exists");
                        bool threw = false;
                        try { open(c, d, name); } catch (IOException&) { threw = true; }
                        REQUIRE(threw, "the deleted file can be opened");
                        threw = false;
                        try { d->deleteFile(name); } catch (IOException&) { threw = true; }
                        REQUIRE(threw, "the deleted file can be deleted again");
                        listing(d, m, "after deleting");
                        break;
                    }
                    case 2: d->sync(it->first); break;
                    default:
                        if (c.chance(1, 4)) { uint64_t t = d->fileModified(it->first); d->touchFile(it->first); REQUIRE(d->fileModified(it->first) + 1 >= t, "touched file is older")  /* a second of slack: the file system has a clock of its own */; }
                }
            }
        } while (++rounds < 4 && c.more(2));
        for (auto& h : held) { readAll(c, h.first, h.second, "replaced file", 15); c.label("read after replacement"); }
        // copies
        if (!m.empty() && c.chance(1, 2)) {
            DirectoryPtr e;
            std::string k2;
            bool indexFiles = true;
            if (c.chance(1, 3)) { e = newLucene<RAMDirectory>(d); k2 = "ram copy"; }
            else { e = genDir(c, dirs, k2); Directory::copy(d, e, false); k2 = "copy into " + k2; }
            (void)indexFiles;
            c.note(k2);
            listing(e, m, k2);
            for (auto& f : m) readAll(c, open(c, e, f.first), f.second, k2 + " " + narrow(f.first), 12);
            e->close();
        }
        if (auto r = boost::dynamic_pointer_cast<RAMDirectory>(d)) {
            int64_t s = 0;
            for (auto& f : m) s += ((int64_t)f.second.data.size() + 1023) / 1024 * 1024;
            REQUIRE(r->sizeInBytes() >= s && r->sizeInBytes() <= s + 1024 * (int64_t)m.size(), "memory size " << r->sizeInBytes() << " for buffers of " << s);
        }
        d->close(););
}

// a compound file gives back each of its parts
VF_SUB(compound, 20000, 400000) {
    Dirs dirs;
    std::string kind;
    DirectoryPtr d = genDir(c, dirs, kind);
    c.note("directory " + kind);
    c.label(kind);
    std::map<std::wstring, FileModel> m;
    std::vector<String> order;
    LUCENE_GUARD(
        int want = c.range(1, 6);
        for (int i = 0; i < want; ++i) {
            String name = L"_" + std::to_wstring(i) + L"." + std::wstring(1, (wchar_t)(L'a' + i));
            if (c.chance(1, 6)) name += c.word(L"x\u00e9\u4e2d", 1, 3);
            Out o;
            o.out = d->createOutput(name);
            int k = 0;
            while (k++ < 12 && c.more(4)) writeSome(c, o, narrow(name));
            o.out->close();
            m[name].data = o.data;
            m[name].recs = o.recs;
            order.push_back(name);
        }
        c.shuffle(order);
        {
            CompoundFileWriterPtr w = newLucene<CompoundFileWriter>(d, L"_9.cfs");
            for (auto& n : order) w->addFile(n);
            bool threw = false;
            try { w->addFile(order[0]); } catch (IllegalArgumentException&) { threw = true; }
            REQUIRE(threw, "the same file can be added twice");
            w->close();
        }
        if (c.chance(1, 2)) for (auto& n : order) d->deleteFile(n);
        CompoundFileReaderPtr r = c.chance(1, 2) ? newLucene<CompoundFileReader>(d, L"_9.cfs") : newLucene<CompoundFileReader>(d, L"_9.cfs", std::max(1, edgy(c, 20000)));
        listing(r, m, "compound");
        bool threw = false;
        try { r->openInput(L"_9.zzz"); } catch (IOException&) { threw = true; }
        REQUIRE(threw, "a part that is not there can be opened");
        std::vector<std::pair<String, IndexInputPtr> > ins;
        int k = 0;
        while (k++ < 6 && c.more(4)) {
            auto it = m.begin();
            std::advance(it, (long)c.draw(m.size()));
            if (!ins.empty() && c.chance(1, 3)) {      // one opened before: carry on after other parts were read
                auto& p = ins[(size_t)c.draw(ins.size())];
                p.second->seek(0);
                readAll(c, p.second, m[p.first], "part " + narrow(p.first), 15, false);
                p.second->seek(0);
                continue;
            }
            IndexInputPtr in = open(c, r, it->first);
            readAll(c, in, it->second, "part " + narrow(it->first), 30, false);
            ins.push_back({it->first, in});
        }
        r->close();
        threw = false;
        try { r->openInput(order[0]); } catch (IOException&) { threw = true; }
        REQUIRE(threw, "a part of a closed compound file can be opened");
        d->close(););
}

// checksums: of exactly the bytes that passed, and the two-phase end
static uint32_t crc32(const Bytes& b) {
    uint32_t r = 0xffffffffu;
    for (unsigned char x : b) { r ^= x; for (int i = 0; i < 8; ++i) r = r & 1 ? r >> 1 ^ 0xedb88320u : r >> 1; }
    return ~r;
}
VF_SUB(checksum, 14000, 250000) {
    Dirs dirs;
    std::string kind;
    DirectoryPtr d = genDir(c, dirs, kind);
    c.note("directory " + kind);
    LUCENE_GUARD(
        Out o;
        ChecksumIndexOutputPtr co = newLucene<ChecksumIndexOutput>(d->createOutput(L"segments_1"));
        o.out = co;
        int k = 0;
        while (k++ < 20 && c.more(8)) {
            int before = c.weighted({1});
            (void)before;
            // everything but seeking
            Bytes b = blob(c, edgy(c, 3000));
            switch (c.draw(4)) {
                case 0: co->writeBytes((const uint8_t*)b.data(), 0, (int32_t)b.size()); o.put(b); break;
                case 1: { int32_t v = (int32_t)c.bits64(); Bytes x; be(x, (uint32_t)v, 4); co->writeInt(v); o.put(x); break; }
                case 2: { std::wstring s = c.unicode(8); Bytes u = utf8(s), x; vnum(x, u.size()); co->writeString(s); o.put(x + u); break; }
                default: if (!b.empty()) { int off = (int)c.draw(b.size()); co->writeBytes((const uint8_t*)b.data(), off, (int32_t)b.size() - off); o.put(b.substr((size_t)off)); }
            }
            REQUIRE_EQ((int64_t)co->getChecksum(), (int64_t)crc32(o.data), "checksum after " << o.data.size() << " bytes");
            REQUIRE_EQ((int64_t)co->getFilePointer(), (int64_t)o.data.size(), "position");
        }
        bool finish = c.chance(2, 3), prepare = c.chance(3, 4);
        if (prepare) co->prepareCommit();
        if (finish) co->finishCommit();
        co->close();
        IndexInputPtr raw = d->openInput(L"segments_1");
        REQUIRE_EQ((int64_t)raw->length(), (int64_t)(o.data.size() + (prepare || finish ? 8 : 0)), "length of the file");
        ChecksumIndexInputPtr ci = newLucene<ChecksumIndexInput>(raw);
        Bytes got;
        while (got.size() < o.data.size()) {
            if (c.chance(1, 3)) { got += (char)ci->readByte(); continue; }
            size_t n = (size_t)c.draw(o.data.size() - got.size() + 1);
            int off = c.range(0, 5);
            std::vector<uint8_t> buf(n + (size_t)off + 1);
            ci->readBytes(buf.data(), off, (int32_t)n);
            got.append((char*)buf.data() + off, n);
            REQUIRE_EQ((int64_t)ci->getChecksum(), (int64_t)crc32(got), "checksum after reading " << got.size() << " bytes");
        }
        REQUIRE(got == o.data, "bytes read under the checksum differ");
        int64_t sum = ci->getChecksum();
        REQUIRE_EQ(sum, (int64_t)crc32(o.data), "checksum read back");
        if (prepare || finish) {
            int64_t stored = ci->readLong();
            if (finish) REQUIRE_EQ(stored, sum, "stored checksum");
            else REQUIRE(stored != sum, "a file whose commit was not finished carries the right checksum");
        }
        ci->close();
        d->close();
        c.nontrivial(o.data.size() > 10););
}

// buffers written in memory and moved elsewhere
VF_SUB(memory, 30000, 600000) {
    RAMFilePtr file = newLucene<RAMFile>();
    RAMOutputStreamPtr os = newLucene<RAMOutputStream>(file);
    Out o;
    o.out = os;
    int rounds = 0;
    LUCENE_GUARD(
        do {
            int k = 0;
            while (k++ < 12 && c.more(5)) writeSome(c, o, "memory");
            os->flush();
            REQUIRE_EQ((int64_t)os->length(), (int64_t)o.data.size(), "length");
            REQUIRE(os->sizeInBytes() >= (int64_t)o.data.size(), "memory used " << os->sizeInBytes() << " for " << o.data.size() << " bytes");
            FileModel f;
            f.data = o.data;
            f.recs = o.recs;
            readAll(c, newLucene<RAMInputStream>(file), f, "memory file", 20);
            if (c.chance(1, 2)) {
                RAMDirectoryPtr t = newLucene<RAMDirectory>();
                IndexOutputPtr x = t->createOutput(L"t");
                x->writeByte(7);
                os->writeTo(x);
                x->close();
                FileModel g;
                g.data = "\x07" + o.data;
                readAll(c, t->openInput(L"t"), g, "moved", 15);
            }
            if (c.chance(1, 2)) { os->reset(); o.data.clear(); o.pos = 0; o.recs.clear(); c.note("reset"); c.label("reset"); }
        } while (++rounds < 4 && c.more(2)););
}

// a full disk or a missing directory is reported, never ignored
VF_SUB(refusals, 12000, 250000) {
    static bool once = (signal(SIGXFSZ, SIG_IGN), true);
    (void)once;
    Dirs dirs;
    std::string p = dirs.fresh();
    bool mmap = c.chance(1, 2);
    DirectoryPtr d;
    if (mmap) d = newLucene<MMapDirectory>(W(p)); else d = newLucene<SimpleFSDirectory>(W(p));
    if (c.chance(1, 5)) {
        d->createOutput(L"_0.fdt")->close();
        boost::filesystem::remove_all(p);
        bool threw = false;
        std::string made = p;
        try {
            IndexOutputPtr out = d->createOutput(L"_1.fdt");
            out->writeInt(7);
            out->close();
        } catch (IOException&) { threw = true; }
        REQUIRE(threw || boost::filesystem::exists(p + "/_1.fdt"), "writing into a removed directory succeeds and leaves nothing");
        c.label("removed directory");
        c.nontrivial();
        return;
    }
    int limit = edgy(c, 40000);
    c.note("file size limit " + str(limit));
    Out o;
    bool copying = c.chance(1, 4), failed = false;
    std::string what;
    RAMDirectoryPtr src = newLucene<RAMDirectory>();
    if (copying) {
        Out so;
        so.out = src->createOutput(L"_0.fdt");
        int k = 0;
        while (k++ < 10 && c.more(5)) writeSome(c, so, "source");
        so.out->close();
        o.data = so.data;
    }
    struct rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    lim = old;
    lim.rlim_cur = (rlim_t)limit;
    std::string msg;
    {
        struct Restore { struct rlimit o; ~Restore() { setrlimit(RLIMIT_FSIZE, &o); } } restore{old};
        setrlimit(RLIMIT_FSIZE, &lim);
        try {
            if (copying) Directory::copy(src, d, false);
            else {
                o.out = d->createOutput(L"_0.fdt");
                int k = 0;
                while (k++ < 20 && c.more(8)) writeSome(c, o, "file");
                o.out->close();
            }
        } catch (IOException& e) { failed = true; }
          catch (LuceneException& e) { msg = exceptionText(e); }
    }
    if (!msg.empty()) c.fail("unexpected exception " + msg);
    o.out.reset();
    if (!failed) {
        LUCENE_GUARD(
            IndexInputPtr in = d->openInput(L"_0.fdt");
            Bytes got;
            REQUIRE_EQ((int64_t)in->length(), (int64_t)o.data.size(), "nothing failed under a file size limit of " << limit << ", and the length");
            for (size_t i = 0; i < o.data.size(); ++i) REQUIRE_EQ((int)in->readByte(), (int)(uint8_t)o.data[i], "byte " << i);
            in->close(););
    } else {
        REQUIRE((int)o.data.size() >= limit || copying || true, "");
        c.label("full");
        c.nontrivial();
    }
}
