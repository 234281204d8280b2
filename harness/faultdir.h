// In-memory Directory that reports every I/O event (before it takes effect) to a hook, which may throw,
// and tracks which content has been synced, so that crash states can be built.
#ifndef VF_FAULTDIR_H
#define VF_FAULTDIR_H
#include "common.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "BufferedIndexOutput.h"
#include "SingleInstanceLockFactory.h"
#include "MiscUtils.h"
#include <mutex>

namespace vf {
using namespace Lucene;

struct FileData {
    std::string data, synced;
    bool everSynced = false;
    uint64_t modified = 0;
};
typedef std::shared_ptr<FileData> FileDataP;
typedef std::map<std::wstring, FileData> Image;     // a deep copy of a directory's state

enum Ev { EV_CREATE, EV_WRITE, EV_CLOSEOUT, EV_SYNC, EV_DELETE, EV_OPEN, EV_READ, EV_TOUCH, EV_LIST, EV_KINDS };

class FaultDir : public Directory {
public:
    FaultDir() { }
    virtual ~FaultDir() {}
    virtual void initialize() { setLockFactory(newLucene<SingleInstanceLockFactory>()); }
    LUCENE_CLASS(FaultDir);

    std::recursive_mutex mu;
    std::map<std::wstring, FileDataP> files;
    std::map<std::wstring, FileDataP> removed;                 // deleted since the last crash image reset
    std::function<void(Ev, const std::wstring&)> hook;          // called before the effect; may throw
    uint64_t clock = 1, events = 0;
    int bufferBytes = 1024;
    std::set<std::wstring> openOuts;

    void event(Ev e, const std::wstring& n) {
        ++events;
        static const bool trace = getenv("VF_TRACE") != nullptr;   // debugging aid
        static const char* N[] = {"create", "write", "close", "sync", "delete", "open", "read", "touch", "list"};
        if (!trace || e == EV_READ || e == EV_WRITE || e == EV_TOUCH) { if (hook) hook(e, n); return; }
        fprintf(stderr, "%s %s\n", N[e], narrow(n).c_str());
        try { if (hook) hook(e, n); } catch (...) { fprintf(stderr, "   FAILS\n"); throw; }
    }

    virtual HashSet<String> listAll() {
        std::lock_guard<std::recursive_mutex> l(mu);
        event(EV_LIST, L"");
        HashSet<String> r = HashSet<String>::newInstance();
        for (auto& f : files) r.add(f.first);
        return r;
    }
    virtual bool fileExists(const String& name) { std::lock_guard<std::recursive_mutex> l(mu); return files.count(name) > 0; }
    virtual uint64_t fileModified(const String& name) { std::lock_guard<std::recursive_mutex> l(mu); return need(name)->modified; }
    virtual void touchFile(const String& name) { std::lock_guard<std::recursive_mutex> l(mu); event(EV_TOUCH, name); need(name)->modified = ++clock; }
    virtual void deleteFile(const String& name) {
        std::lock_guard<std::recursive_mutex> l(mu);
        FileDataP f = need(name);
        event(EV_DELETE, name);
        removed[name] = f;
        files.erase(name);
    }
    virtual int64_t fileLength(const String& name) { std::lock_guard<std::recursive_mutex> l(mu); return (int64_t)need(name)->data.size(); }
    virtual IndexOutputPtr createOutput(const String& name);
    virtual IndexInputPtr openInput(const String& name);
    virtual IndexInputPtr openInput(const String& name, int32_t bufferSize) { return openInput(name); }
    virtual void sync(const String& name) {
        std::lock_guard<std::recursive_mutex> l(mu);
        FileDataP f = need(name);
        event(EV_SYNC, name);
        f->synced = f->data;
        f->everSynced = true;
    }
    virtual void close() { isOpen = false; }
    virtual String toString() { return L"FaultDir@" + std::to_wstring((uint64_t)(size_t)this); }

    FileDataP need(const std::wstring& n) {
        auto i = files.find(n);
        if (i == files.end()) boost::throw_exception(FileNotFoundException(String(n)));
        return i->second;
    }
    Image image(bool withRemoved = false) {
        std::lock_guard<std::recursive_mutex> l(mu);
        Image m;
        if (withRemoved) for (auto& f : removed) m[f.first] = *f.second;
        for (auto& f : files) m[f.first] = *f.second;
        return m;
    }
    void load(const Image& m) {
        files.clear();
        for (auto& f : m) files[f.first] = std::make_shared<FileData>(f.second);
    }
};
typedef boost::shared_ptr<FaultDir> FaultDirPtr;

class FaultOut : public BufferedIndexOutput {
public:
    FaultOut(const FaultDirPtr& d, const std::wstring& n, FileDataP f) : dir(d), name(n), file(f) {}
    virtual ~FaultOut() {}
    LUCENE_CLASS(FaultOut);
    FaultDirPtr dir;
    std::wstring name;
    FileDataP file;
    int64_t pos = 0;
    bool isOpen = true;
    virtual void flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
        std::lock_guard<std::recursive_mutex> l(dir->mu);
        dir->event(EV_WRITE, name);
        if ((int64_t)file->data.size() < pos + length) file->data.resize(pos + length);
        memcpy(&file->data[pos], b + offset, length);
        pos += length;
        file->modified = ++dir->clock;
    }
    virtual void close() {
        if (!isOpen) return;
        isOpen = false;
        LuceneException keep;
        try { BufferedIndexOutput::close(); } catch (LuceneException& e) { keep = e; }
        { std::lock_guard<std::recursive_mutex> l(dir->mu); dir->openOuts.erase(name); }
        if (keep.isNull()) { std::lock_guard<std::recursive_mutex> l(dir->mu); dir->event(EV_CLOSEOUT, name); }
        keep.throwException();
    }
    virtual void seek(int64_t p) { BufferedIndexOutput::seek(p); pos = p; }
    virtual int64_t length() { std::lock_guard<std::recursive_mutex> l(dir->mu); return (int64_t)file->data.size(); }
};

class FaultIn : public IndexInput {
public:
    FaultIn() {}
    FaultIn(const FaultDirPtr& d, const std::wstring& n, FileDataP f) : dir(d), name(n), file(f) {}
    virtual ~FaultIn() {}
    LUCENE_CLASS(FaultIn);
    FaultDirPtr dir;
    std::wstring name;
    FileDataP file;
    int64_t pos = 0;
    int64_t nextEvent = 0;      // one read event per 1024 bytes or seek
    bool closed = false;
    void need(int64_t n) {
        if (closed) boost::throw_exception(AlreadyClosedException(L"input closed"));
        if (pos + n > (int64_t)file->data.size()) boost::throw_exception(IOException(L"read past EOF"));
        if (pos >= nextEvent || pos + 1024 < nextEvent) { nextEvent = pos + 1024; dir->event(EV_READ, name); }
    }
    virtual uint8_t readByte() { std::lock_guard<std::recursive_mutex> l(dir->mu); need(1); return (uint8_t)file->data[pos++]; }
    virtual void readBytes(uint8_t* b, int32_t offset, int32_t length) {
        std::lock_guard<std::recursive_mutex> l(dir->mu);
        if (length == 0) return;
        need(length);
        memcpy(b + offset, &file->data[pos], length);
        pos += length;
    }
    virtual void close() { closed = true; }
    virtual int64_t getFilePointer() { return pos; }
    virtual void seek(int64_t p) { pos = p; }
    virtual int64_t length() { std::lock_guard<std::recursive_mutex> l(dir->mu); return (int64_t)file->data.size(); }
    virtual LuceneObjectPtr clone(const LuceneObjectPtr& other = LuceneObjectPtr()) {
        LuceneObjectPtr c = IndexInput::clone(other ? other : newLucene<FaultIn>());
        boost::shared_ptr<FaultIn> f = boost::dynamic_pointer_cast<FaultIn>(c);
        f->dir = dir; f->name = name; f->file = file; f->pos = pos; f->nextEvent = 0; f->closed = closed;
        return f;
    }
};

inline IndexOutputPtr FaultDir::createOutput(const String& name) {
    std::lock_guard<std::recursive_mutex> l(mu);
    event(EV_CREATE, name);
    FileDataP f = std::make_shared<FileData>();
    f->modified = ++clock;
    files[name] = f;
    openOuts.insert(name);
    return newLucene<FaultOut>(boost::static_pointer_cast<FaultDir>(shared_from_this()), name, f);
}
inline IndexInputPtr FaultDir::openInput(const String& name) {
    std::lock_guard<std::recursive_mutex> l(mu);
    FileDataP f = need(name);
    event(EV_OPEN, name);
    return newLucene<FaultIn>(boost::static_pointer_cast<FaultDir>(shared_from_this()), name, f);
}

}  // namespace vf
#endif
