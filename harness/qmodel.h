// Queries as specifications: generator, builder, and a reference evaluation of matches, spans and scores
// over the inverted documents (independent of the index and of the search code).
#ifndef VF_QMODEL_H
#define VF_QMODEL_H
#include "common.h"
#include "Query.h"
#include "BooleanQuery.h"
#include "Searcher.h"
#include "Collector.h"
#include "Scorer.h"
#include "TopDocs.h"
#include "ScoreDoc.h"
#include "Filter.h"
#include "SpanQuery.h"

namespace vf {

enum QKind { Q_TERM, Q_BOOL, Q_DISMAX, Q_CONST, Q_ALL, Q_FILTERED, Q_PHRASE, Q_MPHRASE, Q_PREFIX, Q_WILD, Q_FUZZY, Q_RANGE,
             Q_SPANTERM, Q_SPANFIRST, Q_SPANOR, Q_SPANNOT, Q_SPANNEAR, Q_SPANMASK };
enum { MUST = 0, SHOULD = 1, MUSTNOT = 2 };

struct Q {
    QKind kind = Q_ALL;
    double boost = 1.0;
    std::wstring field, text, text2;
    bool incLo = true, incHi = true, openLo = false, openHi = false;
    bool flag = false;          // BOOL: coord disabled; SPANNEAR: in order
    int n = 0;                  // BOOL: minimum should match; phrases, SPANNEAR: slop; SPANFIRST: end; FUZZY: prefix
    double d = 0;               // DISMAX: tie breaker; FUZZY: minimum similarity
    int rewrite = 0;            // multi-term rewrite: 0 default, 1 filter, 2 scoring boolean, 3 constant boolean, 4 auto
    std::vector<Q> subs;
    std::vector<int> occ;
    std::vector<std::vector<std::wstring> > terms;   // phrases: alternatives per place
    std::vector<int> pos;
    // weights, filled by weigh()
    double value = 0, qw = 0, normed = 0;
    std::vector<Q> rewritten;   // scoring rewrite of a multi-term query, at most one
};

struct QCfg {
    std::vector<std::wstring> fields{L"x", L"y", L"z"};
    std::vector<std::wstring> words{L"a", L"b", L"c", L"d", L"e", L"ab", L"abc", L"abd", L"bcd", L"dab", L"aab", L"cab"};
    int depth = 3;
    bool boosts = true, zeroBoosts = true, phrases = true, multi = true, spans = true, filtered = true;
    bool sloppyRepeats = true;  // sloppy phrases holding a term twice
    bool rewrites = true;
    std::vector<QKind> only;    // when not empty: leaves
};
struct QIndexCfg {
    int maxDocs = 30, maxWords = 8;
    bool deletes = true, boosts = true, merges = false, streams = true, payloads = false;
    bool ints = false;          // adds the single-valued field i (integers as text)
    std::vector<std::wstring> words;
};

// documents with their place in an index: document i is Lucene document i
struct QIndex {
    std::vector<DocSpec> docs;
    std::vector<bool> live;
    std::vector<std::map<std::wstring, InvField> > inv;
    RAMDirectoryPtr dir;
    int maxDoc() const { return (int)docs.size(); }
    int numLive() const { int n = 0; for (bool b : live) n += b; return n; }
    int df(const std::wstring& f, const std::wstring& t) const;      // includes deleted documents
    std::set<std::wstring> termsOf(const std::wstring& f) const;     // includes deleted documents
    double norm(int doc, const std::wstring& f) const;
    const std::vector<Occ>* occ(int doc, const std::wstring& f, const std::wstring& t) const;
};
DocSpec genQDoc(Case& c, const QIndexCfg& g, int id);
// builds the index (never merging, unless optimised afterwards) with generated segment boundaries and deletions
QIndex genIndex(Case& c, const QIndexCfg& g);
void setDocs(QIndex& ix, const std::vector<DocSpec>& docs);
void buildInto(Case& c, QIndex& ix);     // (re)builds ix.dir for ix.docs and ix.live with another layout

Q genQ(Case& c, const QCfg& g, int depth);
Q genSpan(Case& c, const QCfg& g, int depth, const std::wstring& field);
QueryPtr build(const Q& q);
SpanQueryPtr buildSpan(const Q& q);
std::string describe(const Q& q);
bool isSpan(const Q& q);
// the query holds a sloppy phrase two of whose terms share a position in some document (recorded finding
// C10 sloppyStacked: such terms are taken for repetitions of one term)
bool stackedSloppy(const QIndex& ix, const Q& q);

// whether the term satisfies the multi-term query's definition
bool termMatches(const Q& q, const std::wstring& term, double* boost = nullptr);
bool matches(const QIndex& ix, const Q& q, int doc);
std::vector<std::pair<int, int> > spansOf(const QIndex& ix, const Q& q, int doc);

// scores, default similarity
void weigh(const QIndex& ix, Q& q);          // top level: computes the weights incl. query norm
double scoreOf(const QIndex& ix, const Q& q, int doc);   // assumes matches()
bool scorable(const QIndex& ix, const Q& q);                    // scoreOf is exact for this query

// all hits of a query by collector, in collection order: (doc, score)
struct Hit { int doc; double score; };
std::vector<Hit> collect(const SearcherPtr& s, const QueryPtr& q, const FilterPtr& f = FilterPtr(), bool outOfOrder = false);
std::vector<Hit> hits(const TopDocsPtr& t);
std::string show(const std::vector<Hit>& h);

}  // namespace vf
#endif
