// Shared document model, analyzers, writer configuration generator and logical index dump.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include "LuceneInc.h"
#include "engine.h"
#include "Analyzer.h"
#include "Document.h"
#include "Field.h"
#include "FieldSelector.h"
#include "IndexReader.h"
#include "IndexWriter.h"
#include "IndexSearcher.h"
#include "RAMDirectory.h"
#include "Directory.h"
#include "Term.h"
#include "TermDocs.h"
#include "TermEnum.h"
#include "TermPositions.h"
#include "TermFreqVector.h"
#include "TermPositionVector.h"
#include "TermVectorOffsetInfo.h"
#include "TermAttribute.h"
#include "PositionIncrementAttribute.h"
#include "OffsetAttribute.h"
#include "PayloadAttribute.h"
#include "Payload.h"
#include "Similarity.h"
#include "TokenStream.h"
#include "Reader.h"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vf {
using namespace Lucene;

struct Tok {
    std::wstring t;
    int inc = 1, so = 0, eo = 0;
    bool hasPay = false;
    std::string pay;
};

// emits a given list of tokens
class SpecStream : public TokenStream {
public:
    SpecStream(const std::vector<Tok>& toks, int endOffset);
    virtual ~SpecStream() {}
    LUCENE_CLASS(SpecStream);
    std::vector<Tok> toks;
    int finalOffset;
    size_t upto = 0;
    bool payloads = false;
    TermAttributePtr term;
    OffsetAttributePtr off;
    PositionIncrementAttributePtr inc;
    PayloadAttributePtr pay;
    virtual bool incrementToken();
    virtual void reset() { upto = 0; }
    virtual void end();
};
typedef boost::shared_ptr<SpecStream> SpecStreamPtr;

// splits on single blanks; configurable gaps. A word starting with '!' makes the stream throw IOException.
class BlankAnalyzer : public Analyzer {
public:
    BlankAnalyzer(int posGap = 0, int offGap = 1) : posGap(posGap), offGap(offGap) {}
    virtual ~BlankAnalyzer() {}
    LUCENE_CLASS(BlankAnalyzer);
    int posGap, offGap;
    virtual TokenStreamPtr tokenStream(const String& fieldName, const ReaderPtr& reader);
    virtual int32_t getPositionIncrementGap(const String& fieldName) { return posGap; }
    virtual int32_t getOffsetGap(const FieldablePtr& field) { return field->isTokenized() ? offGap : 0; }
};
AnalyzerPtr blankAnalyzer(int posGap = 0, int offGap = 1);
std::vector<Tok> blankTokens(const std::wstring& text);

enum Kind { TEXT, STREAM, KEYWORD, STOREDTEXT, BINARY };

struct FieldSpec {
    std::wstring name;
    Kind kind = TEXT;
    bool stored = false;
    Field::TermVector tv = Field::TERM_VECTOR_NO;
    bool omitNorms = false, omitTf = false;
    double boost = 1.0;
    std::wstring text;         // TEXT, KEYWORD, STOREDTEXT
    std::vector<Tok> toks;     // STREAM
    int endOffset = 0;         // STREAM: final offset
    std::string bin;           // BINARY
    bool indexed() const { return kind == TEXT || kind == STREAM || kind == KEYWORD; }
};
struct DocSpec {
    std::vector<FieldSpec> fields;
    double boost = 1.0;
    std::wstring id() const;   // text of the first field called "id"
    std::wstring first(const std::wstring& f) const;
};

FieldSpec keyword(const std::wstring& name, const std::wstring& v, bool stored = true);
FieldSpec text(const std::wstring& name, const std::wstring& v, bool stored = false);
DocumentPtr build(const DocSpec& d);
std::string describe(const DocSpec& d);

struct Occ { int pos, so, eo; bool hasPay; std::string pay; };
struct InvField {                       // one field of one document, inverted
    std::map<std::wstring, std::vector<Occ> > terms;
    int length = 0, overlaps = 0;
    double boost = 1.0;
    bool indexed = false, omitNorms = false, omitTf = false;
    bool tv = false, tvPos = false, tvOff = false;
};
std::map<std::wstring, InvField> invert(const DocSpec& d, int posGap = 0, int offGap = 1, int maxFieldLength = INT_MAX);

// --- logical content of an index, live documents numbered 0.. in order ----------------------
typedef std::map<std::string, std::string> Dump;
struct DumpCfg {
    std::set<std::wstring> noPositions;   // fields indexed without positions
    bool norms = true, vectors = true, stored = true, postings = true;
    int posGap = 0, offGap = 1, maxFieldLength = INT_MAX;
};
Dump dumpReader(const IndexReaderPtr& r, const DumpCfg& cfg = DumpCfg());
Dump dumpModel(const std::vector<DocSpec>& docs, const DumpCfg& cfg = DumpCfg());
std::string diff(const Dump& got, const Dump& want);   // "" when equal
std::string dumpStored(const DocumentPtr& d);
std::vector<std::wstring> liveIds(const IndexReaderPtr& r, const std::wstring& field = L"id");
std::string joinIds(const std::vector<std::wstring>& v);
std::string hex(const std::string& s);
std::string hexb(const ByteArray& b);
ByteArray toBytes(const std::string& s);
std::string fromBytes(const ByteArray& b, int off, int len);

// --- generators -----------------------------------------------------------------------------
struct GenCfg {
    std::vector<std::wstring> words{L"a", L"b", L"c", L"d", L"e", L"f"};
    int maxFields = 3, maxWords = 6;
    bool vectors = true, payloads = true, binaries = true, boosts = true, unicode = true, streams = true, omits = true;
    bool groups = true;     // keyword field "g"
};
std::wstring genWord(Case& c, const GenCfg& g);
std::wstring genText(Case& c, const GenCfg& g, int maxWords);
DocSpec genDoc(Case& c, const GenCfg& g, const std::wstring& id);

// a writer configuration, drawn once and applied to any writer
struct WriterCfg {
    int maxBufferedDocs = 1000, mergeFactor = 10, maxBufferedDeleteTerms = -1, termIndexInterval = 128;
    int maxMergeDocs = INT_MAX;
    double ramMB = 16.0;
    bool compound = true, docStoreCompound = true, byteSize = true, calibrate = false, concurrent = false;
    bool balanced = false;
    bool nrt = false;
    int maxFieldLength = INT_MAX;
    void apply(const IndexWriterPtr& w) const;
    std::string describe() const;
};
WriterCfg genWriterCfg(Case& c, bool allowConcurrent = true);
IndexWriterPtr openWriter(const DirectoryPtr& dir, const AnalyzerPtr& a, const WriterCfg& cfg, bool create);
IndexWriterPtr openWriter(const DirectoryPtr& dir, const AnalyzerPtr& a, const WriterCfg& cfg, bool create, const IndexDeletionPolicyPtr& p);

// byte-for-byte copy of a directory into memory
RAMDirectoryPtr copyDir(const DirectoryPtr& d);
// builds a one-off index of the documents with a given configuration
RAMDirectoryPtr buildIndex(const std::vector<DocSpec>& docs, const WriterCfg& cfg, const AnalyzerPtr& a, bool optimize = false);

std::string exceptionText(const LuceneException& e);
inline String W(const std::string& s) { return String(s.begin(), s.end()); }

#define LUCENE_GUARD(...) \
    try { __VA_ARGS__; } catch (Lucene::LuceneException& vf_e) { throw vf::Fail{"unexpected exception: " + vf::exceptionText(vf_e)}; }

}  // namespace vf
#endif
