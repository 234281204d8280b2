// Analyzers, chains of filters and texts for C19 and C20.
#pragma once
#include "LuceneInc.h"
#include "common.h"
#include "Analyzer.h"
#include "Tokenizer.h"
#include "TokenFilter.h"
#include "Reader.h"
#include "StringReader.h"
#include "TermAttribute.h"
#include "OffsetAttribute.h"
#include "PositionIncrementAttribute.h"
#include "TypeAttribute.h"
#include "PayloadAttribute.h"
#include "FlagsAttribute.h"
#include "Payload.h"

namespace vf {

typedef std::wstring Str;

struct ATok { Str term; int so, eo, incr; Str type; std::string rest; };
struct Analysed {
    std::vector<ATok> toks;
    int end = -1;             // final offset, -1: end() not called
    std::string error;
};
std::string show(const ATok& t);
std::string show(const Analysed& a);
std::string printable(const Str& s);

// A reader that hands out at most `chunk` characters at a time and fails after `fail` characters (-1: never).
class ChunkReader : public Reader {
public:
    ChunkReader(const Str& s, int chunk, int fail) : s(s), chunk(chunk), fail(fail) {}
    virtual ~ChunkReader() {}
    LUCENE_CLASS(ChunkReader);
    Str s;
    int at = 0, chunk, fail;
    bool closed = false;
    virtual int32_t read();
    virtual int32_t read(wchar_t* b, int32_t off, int32_t len);
    virtual bool ready() { return at < (int)s.size(); }
    virtual void close() { closed = true; }
    virtual bool markSupported() { return false; }
    virtual int64_t length() { return (int64_t)s.size(); }
};

// Consumes a stream: reset() first; all of it (limit < 0, then end()) or `limit` tokens.
Analysed consume(const TokenStreamPtr& ts, int limit = -1, bool close = true, bool reset = true);

struct Kind_ { std::string name; std::function<AnalyzerPtr()> make; bool words; };   // words: text is cut at white space before anything else
const std::vector<Kind_>& analyzers();

// a chain: tokenizer and filters, reusable
AnalyzerPtr chain(int tokenizer, const std::vector<int>& filters);
int tokenizers();
int filters();
std::string tokenizerName(int i);
std::string filterName(int i);
TokenStreamPtr makeFilter(int i, const TokenStreamPtr& in);
TokenizerPtr makeTokenizer(int i, const ReaderPtr& r);
enum { TK_WHITESPACE = 0 };

Str genWordFor(Case& c);          // a word of some language, or something odd
Str genTextFor(Case& c, int maxWords);

}
