#include "anal.h"
#include "LuceneContrib.h"
#include "WhitespaceAnalyzer.h"
#include "WhitespaceTokenizer.h"
#include "SimpleAnalyzer.h"
#include "StopAnalyzer.h"
#include "KeywordAnalyzer.h"
#include "KeywordTokenizer.h"
#include "LetterTokenizer.h"
#include "LowerCaseTokenizer.h"
#include "StandardAnalyzer.h"
#include "StandardTokenizer.h"
#include "StandardFilter.h"
#include "NGramAnalyzer.h"
#include "NGramTokenizer.h"
#include "NGramTokenFilter.h"
#include "EdgeNGramAnalyzer.h"
#include "EdgeNGramTokenizer.h"
#include "EdgeNGramTokenFilter.h"
#include "LowerCaseFilter.h"
#include "StopFilter.h"
#include "LengthFilter.h"
#include "ASCIIFoldingFilter.h"
#include "ISOLatin1AccentFilter.h"
#include "PorterStemFilter.h"
#include "ArabicAnalyzer.h"
#include "ArabicLetterTokenizer.h"
#include "ArabicNormalizationFilter.h"
#include "ArabicStemFilter.h"
#include "BrazilianAnalyzer.h"
#include "BrazilianStemFilter.h"
#include "CJKAnalyzer.h"
#include "CJKTokenizer.h"
#include "ChineseAnalyzer.h"
#include "ChineseFilter.h"
#include "ChineseTokenizer.h"
#include "CzechAnalyzer.h"
#include "DutchAnalyzer.h"
#include "DutchStemFilter.h"
#include "ElisionFilter.h"
#include "FrenchAnalyzer.h"
#include "FrenchStemFilter.h"
#include "GermanAnalyzer.h"
#include "GermanStemFilter.h"
#include "GreekAnalyzer.h"
#include "GreekLowerCaseFilter.h"
#include "PersianAnalyzer.h"
#include "PersianNormalizationFilter.h"
#include "ReverseStringFilter.h"
#include "RussianAnalyzer.h"
#include "RussianLetterTokenizer.h"
#include "RussianLowerCaseFilter.h"
#include "RussianStemFilter.h"
#include "SnowballAnalyzer.h"
#include "SnowballFilter.h"

namespace vf {

std::string printable(const Str& s) {
    std::string r;
    for (wchar_t ch : s) { if (ch > 32 && ch < 127 && ch != '%') r += (char)ch; else { char b[16]; snprintf(b, sizeof b, "%%%x;", (unsigned)ch); r += b; } }
    return r;
}
std::string show(const ATok& t) {
    return "'" + printable(t.term) + "'[" + std::to_string(t.so) + "," + std::to_string(t.eo) + ")+" + std::to_string(t.incr) + (t.type == L"word" ? "" : " " + printable(t.type)) + t.rest;
}
std::string show(const Analysed& a) {
    std::string r;
    for (auto& t : a.toks) r += show(t) + "  ";
    if (a.end >= 0) r += "end " + std::to_string(a.end);
    if (!a.error.empty()) r += " fails: " + a.error;
    return r;
}

int32_t ChunkReader::read() {
    if (fail >= 0 && at >= fail) boost::throw_exception(IOException(L"planted failure"));
    return at >= (int)s.size() ? READER_EOF : (int32_t)s[at++];
}
int32_t ChunkReader::read(wchar_t* b, int32_t off, int32_t len) {
    if (fail >= 0 && at >= fail) boost::throw_exception(IOException(L"planted failure"));
    if (at >= (int)s.size()) return READER_EOF;
    int n = std::min(std::min((int)len, chunk), (int)s.size() - at);
    if (fail >= 0) n = std::min(n, fail - at);
    std::copy(s.begin() + at, s.begin() + at + n, b + off);
    at += n;
    return n;
}

Analysed consume(const TokenStreamPtr& ts, int limit, bool close, bool reset) {
    Analysed r;
    try {
        if (reset) ts->reset();
        TermAttributePtr term = ts->hasAttribute<TermAttribute>() ? ts->getAttribute<TermAttribute>() : TermAttributePtr();
        OffsetAttributePtr off = ts->hasAttribute<OffsetAttribute>() ? ts->getAttribute<OffsetAttribute>() : OffsetAttributePtr();
        PositionIncrementAttributePtr inc = ts->hasAttribute<PositionIncrementAttribute>() ? ts->getAttribute<PositionIncrementAttribute>() : PositionIncrementAttributePtr();
        TypeAttributePtr type = ts->hasAttribute<TypeAttribute>() ? ts->getAttribute<TypeAttribute>() : TypeAttributePtr();
        PayloadAttributePtr pay = ts->hasAttribute<PayloadAttribute>() ? ts->getAttribute<PayloadAttribute>() : PayloadAttributePtr();
        FlagsAttributePtr flags = ts->hasAttribute<FlagsAttribute>() ? ts->getAttribute<FlagsAttribute>() : FlagsAttributePtr();
        bool all = false;
        for (int i = 0; limit < 0 || i < limit; ++i) {
            if (!ts->incrementToken()) { all = true; break; }
            ATok t{term ? term->term() : Str(), off ? off->startOffset() : -1, off ? off->endOffset() : -1, inc ? inc->getPositionIncrement() : 1, type ? type->type() : Str(L"word"), ""};
            if (pay && pay->getPayload()) {
                PayloadPtr p = pay->getPayload();
                t.rest += " payload";
                for (int k = 0; k < p->length(); ++k) t.rest += " " + std::to_string((int)p->byteAt(k));
            }
            if (flags && flags->getFlags()) t.rest += " flags " + std::to_string(flags->getFlags());
            r.toks.push_back(t);
            if (r.toks.size() > 200000) { r.error = "endless"; return r; }
        }
        if (all && limit < 0) {
            ts->end();
            r.end = off ? off->startOffset() : 0;
            if (off && off->endOffset() != r.end) r.error = "final offsets differ";
        }
        if (close) ts->close();
    } catch (IOException& e) {
        r.error = exceptionText(e);
    }
    return r;
}

namespace {

HashSet<String> setOf(const std::vector<Str>& v) { HashSet<String> s = HashSet<String>::newInstance(); for (auto& x : v) s.add(x); return s; }
const LuceneVersion::Version V = LuceneVersion::LUCENE_CURRENT;
HashSet<String> someStops() { return setOf({L"the", L"and", L"der", L"und", L"le", L"et", L"\u0438", L"de", L"a"}); }
HashSet<String> exclusions() { return setOf({L"running", L"h\u00e4user", L"mangez", L"lopen", L"cantar"}); }

struct TkK { std::string name; std::function<TokenizerPtr(const ReaderPtr&)> make; };
#define TK(x) {#x, [](const ReaderPtr& r) -> TokenizerPtr { return x; }}
const std::vector<TkK>& tks() {
    static const std::vector<TkK> v{
        TK(newLucene<WhitespaceTokenizer>(r)), TK(newLucene<LetterTokenizer>(r)), TK(newLucene<LowerCaseTokenizer>(r)), TK(newLucene<KeywordTokenizer>(r)),
        TK(newLucene<StandardTokenizer>(V, r)), TK(newLucene<StandardTokenizer>(LuceneVersion::LUCENE_20, r)), TK(newLucene<NGramTokenizer>(r)), TK((newLucene<NGramTokenizer>(r, 2, 4))),
        TK(newLucene<EdgeNGramTokenizer>(r)), TK((newLucene<EdgeNGramTokenizer>(r, 1, 3))), TK(newLucene<ArabicLetterTokenizer>(r)), TK(newLucene<CJKTokenizer>(r)), TK(newLucene<ChineseTokenizer>(r)),
        TK(newLucene<RussianLetterTokenizer>(r))};
    return v;
}
struct FiK { std::string name; std::function<TokenStreamPtr(const TokenStreamPtr&)> make; };
#define FI(x) {#x, [](const TokenStreamPtr& in) -> TokenStreamPtr { return x; }}
#define SB(n) {std::string("Snowball ") + n, [](const TokenStreamPtr& in) -> TokenStreamPtr { return newLucene<SnowballFilter>(in, L##n); }}
const std::vector<FiK>& fis() {
    static const std::vector<FiK> v{
        FI(newLucene<LowerCaseFilter>(in)), FI((newLucene<StopFilter>(true, in, someStops()))), FI((newLucene<StopFilter>(false, in, someStops(), true))), FI((newLucene<LengthFilter>(in, 2, 6))),
        FI(newLucene<ASCIIFoldingFilter>(in)), FI(newLucene<ISOLatin1AccentFilter>(in)), FI(newLucene<PorterStemFilter>(in)), FI((newLucene<NGramTokenFilter>(in, 1, 2))), FI((newLucene<NGramTokenFilter>(in, 2, 3, true))),
        FI((newLucene<EdgeNGramTokenFilter>(in, 1, 3))), FI((newLucene<EdgeNGramTokenFilter>(in, 2, 4, true))), FI(newLucene<StandardFilter>(in)), FI(newLucene<ArabicNormalizationFilter>(in)),
        FI(newLucene<ArabicStemFilter>(in)), FI(newLucene<BrazilianStemFilter>(in)), FI((newLucene<BrazilianStemFilter>(in, exclusions()))), FI(newLucene<ChineseFilter>(in)), FI(newLucene<DutchStemFilter>(in)),
        FI((newLucene<DutchStemFilter>(in, exclusions()))), FI(newLucene<ElisionFilter>(in)), FI(newLucene<FrenchStemFilter>(in)), FI((newLucene<FrenchStemFilter>(in, exclusions()))), FI(newLucene<GermanStemFilter>(in)),
        FI((newLucene<GermanStemFilter>(in, exclusions()))), FI(newLucene<GreekLowerCaseFilter>(in)), FI(newLucene<PersianNormalizationFilter>(in)), FI(newLucene<ReverseStringFilter>(in)),
        FI((newLucene<ReverseStringFilter>(in, L'\x1'))), FI(newLucene<RussianLowerCaseFilter>(in)), FI(newLucene<RussianStemFilter>(in)),
        SB("english"), SB("porter"), SB("german"), SB("french"), SB("dutch"), SB("russian"), SB("spanish"), SB("finnish"), SB("turkish"), SB("hungarian"), SB("romanian"), SB("swedish"), SB("italian"), SB("portuguese"), SB("danish"), SB("norwegian")};
    return v;
}

class Saved : public LuceneObject {
public:
    virtual ~Saved() {}
    LUCENE_CLASS(Saved);
    TokenizerPtr source;
    TokenStreamPtr result;
};
class Chain : public Analyzer {
public:
    Chain(int t, const std::vector<int>& f) : t(t), f(f) {}
    virtual ~Chain() {}
    LUCENE_CLASS(Chain);
    int t;
    std::vector<int> f;
    TokenStreamPtr wrap(TokenStreamPtr s) { for (int i : f) s = makeFilter(i, s); return s; }
    virtual TokenStreamPtr tokenStream(const String&, const ReaderPtr& r) { return wrap(makeTokenizer(t, r)); }
    virtual TokenStreamPtr reusableTokenStream(const String&, const ReaderPtr& r) {
        boost::shared_ptr<Saved> s = boost::dynamic_pointer_cast<Saved>(getPreviousTokenStream());
        if (!s) {
            s = newLucene<Saved>();
            s->source = makeTokenizer(t, r);
            s->result = wrap(s->source);
            setPreviousTokenStream(s);
        } else s->source->reset(r);
        return s->result;
    }
};

}

AnalyzerPtr chain(int t, const std::vector<int>& f) { return newLucene<Chain>(t, f); }
int tokenizers() { return (int)tks().size(); }
int filters() { return (int)fis().size(); }
std::string tokenizerName(int i) { return tks()[i].name; }
std::string filterName(int i) { return fis()[i].name; }
TokenStreamPtr makeFilter(int i, const TokenStreamPtr& in) { return fis()[i].make(in); }
TokenizerPtr makeTokenizer(int i, const ReaderPtr& r) { return tks()[i].make(r); }

#define AN(x) {#x, []() -> AnalyzerPtr { return x; }, true}
const std::vector<Kind_>& analyzers() {
    static const std::vector<Kind_> v{
        AN(newLucene<WhitespaceAnalyzer>()), AN(newLucene<SimpleAnalyzer>()), AN(newLucene<StopAnalyzer>(V)), AN((newLucene<StopAnalyzer>(V, someStops()))),
        {"KeywordAnalyzer", []() -> AnalyzerPtr { return newLucene<KeywordAnalyzer>(); }, false},
        AN(newLucene<StandardAnalyzer>(V)), AN((newLucene<StandardAnalyzer>(V, someStops()))), AN(newLucene<StandardAnalyzer>(LuceneVersion::LUCENE_23)),
        {"StandardAnalyzer max 5", []() -> AnalyzerPtr { StandardAnalyzerPtr a = newLucene<StandardAnalyzer>(V); a->setMaxTokenLength(5); return a; }, true},
        {"NGramAnalyzer", []() -> AnalyzerPtr { return newLucene<NGramAnalyzer>(); }, false}, {"NGramAnalyzer 2 3", []() -> AnalyzerPtr { return newLucene<NGramAnalyzer>(2, 3); }, false},
        {"EdgeNGramAnalyzer", []() -> AnalyzerPtr { return newLucene<EdgeNGramAnalyzer>(); }, false}, {"EdgeNGramAnalyzer 1 4", []() -> AnalyzerPtr { return newLucene<EdgeNGramAnalyzer>(1, 4); }, false},
        AN(newLucene<ArabicAnalyzer>(V)), AN((newLucene<ArabicAnalyzer>(V, someStops()))), AN(newLucene<BrazilianAnalyzer>(V)), AN((newLucene<BrazilianAnalyzer>(V, someStops(), exclusions()))),
        AN(newLucene<ChineseAnalyzer>()), AN(newLucene<CJKAnalyzer>(V)), AN(newLucene<CzechAnalyzer>(V)), AN(newLucene<DutchAnalyzer>(V)), AN((newLucene<DutchAnalyzer>(V, someStops(), exclusions()))),
        AN(newLucene<FrenchAnalyzer>(V)), AN((newLucene<FrenchAnalyzer>(V, someStops(), exclusions()))), AN(newLucene<GermanAnalyzer>(V)), AN((newLucene<GermanAnalyzer>(V, someStops(), exclusions()))),
        AN(newLucene<GreekAnalyzer>(V)), AN(newLucene<PersianAnalyzer>(V)), AN(newLucene<RussianAnalyzer>(V)), AN((newLucene<RussianAnalyzer>(V, someStops()))),
        AN((newLucene<SnowballAnalyzer>(V, L"english"))), AN((newLucene<SnowballAnalyzer>(V, L"german", someStops()))), AN((newLucene<SnowballAnalyzer>(V, L"russian"))), AN((newLucene<SnowballAnalyzer>(V, L"finnish"))), AN((newLucene<SnowballAnalyzer>(V, L"turkish")))};
    return v;
}

Str genWordFor(Case& c) {
    static const std::vector<std::vector<Str>> stems{
        {L"run", L"hop", L"relat", L"nation", L"the", L"and", L"a", L"happ", L"general", L"conflat", L"troubl", L"ag", L"y", L"sky", L"fil", L"siz", L"Run", L"NATION"},
        {L"h\u00e4us", L"stra\u00dfe", L"gest\u00fctz", L"der", L"und", L"sch\u00f6n", L"lauf", L"\u00c4pfel", L"wissen", L"ge", L"bau"},
        {L"mang", L"l'\u00e9t\u00e9", L"qu'il", L"le", L"et", L"nation", L"\u00e9tudi", L"chev", L"journ", L"oeil", L"continu", L"majest", L"L'Avion", L"aujourd'hui"},
        {L"lop", L"de", L"huiz", L"maak", L"vrij", L"ge", L"bedrijf", L"opgav"},
        {L"cant", L"a\u00e7\u00e3o", L"infelizment", L"de", L"liga\u00e7", L"bras", L"quilom"},
        {L"\u043c\u043e\u0441\u043a\u0432", L"\u0438", L"\u0432\u043c\u0435\u0441\u0442\u0435", L"\u0441\u0438\u043b\u044c\u043d", L"\u043e\u0431\u044a\u0435\u0434\u0438\u043d\u044f", L"\u041c\u041e\u0421\u041a\u0412", L"\u0451\u043b\u043a", L"\u0431\u0443\u0434"},
        {L"\u03ba\u03b1\u03b9", L"\u039a\u0391\u0399", L"\u03ad\u03bd\u03b1", L"\u03a3\u03bf\u03c6\u03af\u03b1\u03c2", L"\u038a\u03bf"},
        {L"\u0627\u0644\u0643\u062a\u0627\u0628", L"\u0648\u0627\u0644", L"\u0643\u0628\u064a\u0631", L"\u0645\u0650\u0646", L"\u0623\u062d\u0645\u062f", L"\u0641\u064a", L"\u0640\u0640\u0627", L"\u0633\u0627\u0647\u062f\u0647\u0627\u062a"},
        {L"\u06a9\u062a\u0627\u0628", L"\u0645\u06cc", L"\u0647\u06c0", L"\u062e\u0648\u0631\u062f", L"\u0647\u0627\u06cc"},
        {L"\u4e2d\u56fd", L"\u6211", L"\u4eba\u6c11\u5171", L"\u65e5\u672c\u8a9e", L"\u30c6\u30b9\u30c8", L"\u3042", L"\ud55c\uad6d", L"a\u4e2d", L"\uff21\uff22", L"\uff0c", L"\u3000"},
        {L"auto", L"p\u0159ib\u011bhy", L"a", L"kter\u00fd", L"\u017ee"},
        {L"I.B.M.", L"U.S.", L"a.b.c", L"x@y.com", L"www.a-b.org", L"127.0.0.1", L"3.14", L"2,000", L"AT&T", L"O'Neil", L"o'", L"'s", L"dog's", L"dog\u2019s", L"a_b", L"x-1", L"1-x-2", L"R2D2", L"c++", L"$5", L"a/b.c", L"wi-fi4", L"192-168", L"a.", L".a", L"A.B", L"ABC.", L"T.", L"&a&b", L"foo@", L"\u0e01\u0e38"},
        {L"\x1f600", L"a\x1f600z", L"\u00ad", L"\u200b", L"\ufeff", L"\u0130", L"\u01c5", L"\ufb01x", L"\u1e9e", L"\u00c6\u00d8", L"e\u0301", L"\uffff", L"\u2028", L"\u00a0", L"\u0660\u0661", L"\u2167", L"\u00bd"}};
    static const std::vector<std::vector<Str>> ends{
        {L"", L"", L"s", L"ing", L"ed", L"es", L"ational", L"izer", L"fulness", L"iveness", L"ement", L"y", L"ies", L"'s", L"ated", L"ability", L"ness", L"eed", L"ical", L"ously"},
        {L"", L"er", L"en", L"e", L"ern", L"em", L"es", L"t", L"nd", L"heit", L"ung", L"lich", L"keit", L"isch"},
        {L"", L"ez", L"ait", L"ations", L"eur", L"ement", L"aux", L"euses", L"ique", L"ables", L"it\u00e9", L"eaux", L"es", L"\u00e9e", L"issant", L"\u00e8rent", L"ance"},
        {L"", L"en", L"heden", L"ing", L"je", L"end", L"lijk", L"baar", L"s", L"t", L"\u00eb"},
        {L"", L"ar", L"\u00e3o", L"ando", L"amento", L"es", L"mente", L"idade", L"ivas", L"aria", L"\u00f5es"},
        {L"", L"\u0430", L"\u043e\u0439", L"\u044b\u0445", L"\u0435\u043d\u0438\u0435", L"\u043e\u0441\u0442\u044c", L"\u0438\u0432\u0448\u0438\u0441\u044c", L"\u0435\u0439\u0448\u0435", L"\u0441\u044f", L"\u0443\u044e\u0449\u0438\u0439", L"\u044c"},
        {L"", L"\u03c2", L"\u03c3"}, {L"", L"\u0647\u0627", L"\u0627\u062a", L"\u0629", L"\u064a\u0629", L"\u064a\u0646"}, {L"", L"\u0647\u0627"}, {L"", L"\u7684", L"a"}, {L"", L"ch", L"y"}, {L"", L"", L".", L"'s", L"-2"}, {L"", L"a"}};
    switch (c.weighted({10, 1, 1})) {
    case 1: return c.unicode(c.chance(1, 6) ? 12 : 4);
    case 2: return Str((size_t)c.pick(std::vector<int>{1, 2, 9, 10, 11, 50, 254, 255, 256, 300, 511, 600}), c.pick(std::vector<wchar_t>{L'a', L'\u00e9', L'1', L'\u4e2d', L'x', L'\u044a', L'.'}));
    }
    size_t l = (size_t)c.range(0, (int64_t)stems.size() - 1);
    Str s = c.pick(stems[l]) + c.pick(ends[l]);
    if (c.chance(1, 6)) s += c.pick(ends[(size_t)c.range(0, (int64_t)ends.size() - 1)]);
    if (c.chance(1, 10)) for (auto& x : s) x = (wchar_t)towupper((wint_t)x);
    if (c.chance(1, 12)) s = c.pick(stems[(size_t)c.range(0, (int64_t)stems.size() - 1)]) + s;
    return s;
}
Str genTextFor(Case& c, int maxWords) {
    static const std::vector<Str> sep{L" ", L" ", L" ", L"  ", L"\n", L"\t", L", ", L". ", L"-", L"/", L"", L"\u3000", L" & ", L"; ", L"'", L"\u00a0"};
    Str s;
    int n = (int)c.range(0, maxWords);
    if (c.chance(1, 8)) s += c.pick(sep);
    for (int i = 0; i < n; ++i) s += genWordFor(c) + (i + 1 < n || c.chance(1, 4) ? c.pick(sep) : Str());
    if (c.chance(1, 40)) {       // across the ends of the tokenizers' buffers
        int at = c.pick(std::vector<int>{256, 1024, 4096, 8192}) - (int)c.range(0, 8);
        Str pad;
        Str w = genWordFor(c) + L" ";
        if (w.size() > 50) w = L"ab ";
        while ((int)pad.size() < at) pad += w;
        pad.resize((size_t)at, L' ');
        s = pad + s;
    }
    return s;
}

}
