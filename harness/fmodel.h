// Filters as specifications with a reference predicate.
#ifndef VF_FMODEL_H
#define VF_FMODEL_H
#include "qmodel.h"
#include "Filter.h"
#include "DocIdSet.h"
#include "DocIdSetIterator.h"
#include "BitSet.h"
#include "OpenBitSet.h"
namespace vf {
struct F {
    FilterPtr f;
    std::function<bool(const QIndex&, int)> ok;   // on live documents
    std::string desc;
};
// a filter whose sets are made from a list of accepted ids (field "id") with a generated set implementation
F genFilter(Case& c, const QIndex& ix, int depth, bool caching = true);
// set implementations: 0 OpenBitSet, 1 BitSet, 2 SortedVIntList, 3 sorted-int-set iterator, 4 filtered, 5 null/empty when empty
DocIdSetPtr makeSet(int kind, const std::set<int>& s, int maxDoc);
std::set<int> drain(const DocIdSetPtr& s);
}
#endif
