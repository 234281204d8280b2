// A small choice-sequence property-testing engine.
//
// A test case is a pure function of a finite sequence of bounded draws.  In generation mode the
// draws come from a PRNG seeded by (VERIF_SEED, sub-check, case number), or from a mutated earlier
// sequence that reached new code (coverage guidance); in replay mode they come from a file.
// Shrinking works on the sequence (internal shrinking), so every shrunk case is still a case the
// generator can produce.
#ifndef VF_ENGINE_H
#define VF_ENGINE_H

#include <cstdint>
#include <functional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

struct Fail { std::string msg; };
struct Discard { std::string why; };

std::string narrow(const std::wstring& s);  // printable ascii with \u{..} escapes

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
};

class Case {
public:
    // --- draws -----------------------------------------------------------------------------
    uint64_t draw(uint64_t n);                       // uniform in [0, n), n >= 1
    int range(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo + 1)); }  // inclusive
    bool chance(int num, int den) { return (int)draw(den) >= den - num; }  // simplest: false
    int size(int max);                               // small-biased size in [0, max]
    // loop control "one more?": stops with probability 1/(avg+1); simplest: stop.  Lists drawn this way
    // shrink by deleting an element's draws.
    bool more(int avg) { return draw((uint64_t)avg + 1) != 0; }
    int weighted(std::initializer_list<int> w);      // index; simplest: 0
    uint64_t bits64();                               // 64-bit value biased to boundaries
    double anyDouble(bool nan = false);              // finite-biased double, incl. extremes
    template <class C> auto pick(const C& c) -> decltype(c[0]) { return c[(size_t)draw(c.size())]; }
    std::wstring word(const std::wstring& alphabet, int minLen, int maxLen);
    std::wstring unicode(int maxLen);                // any mix of valid code points
    std::string bytes(int maxLen);
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[i - 1 - (size_t)draw(i)]);
    }

    // --- reporting -------------------------------------------------------------------------
    void note(const std::string& s) { if (desc.size() < maxDesc) { desc += s; desc += '\n'; } }
    void note(const std::wstring& s) { if (desc.size() < maxDesc) note(narrow(s)); }
    void label(const std::string& l) { labels.insert(l); }
    void nontrivial(bool b = true) { if (b) isNontrivial = true; }
    [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
    [[noreturn]] void discard(const std::string& m = "") { throw Discard{m}; }
    uint64_t excluded = 0;                           // inputs left out for a recorded finding

    // --- engine side -----------------------------------------------------------------------
    std::vector<uint64_t> choices;                   // what was drawn
    const std::vector<uint64_t>* source = nullptr;   // replayed / mutated prefix
    bool tailRandom = true;                          // past the prefix: random or zero
    bool inner = false;                              // a generator run inside a case: its draws are not the case's
    Rng rng{0};
    std::string desc;
    size_t maxDesc = 6000;
    std::set<std::string> labels;
    bool isNontrivial = false;
};

typedef void (*SubFn)(Case&);
struct Sub {
    std::string name;
    SubFn fn;
    int quick, thorough;     // number of cases per tier
};
std::vector<Sub>& subs();
struct Reg {
    Reg(const char* n, SubFn f, int q, int t) { subs().push_back(Sub{n, f, q, t}); }
};

// scratch directory of this process (created by the driver, removed by it)
const std::string& scratchDir();
// hook run before every case: resets library globals
void setReset(void (*fn)());

template <class T> std::string str(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
inline std::string str(const std::wstring& t) { return narrow(t); }
inline std::string str(bool b) { return b ? "true" : "false"; }

}  // namespace vf

#define VF_SUB(name, quick, thorough) \
    static void name(vf::Case& c); \
    static vf::Reg vf_reg_##name(#name, name, quick, thorough); \
    static void name(vf::Case& c)

#define VF_CAT2(a, b) a##b
#define REQUIRE(cond, msg) \
    do { if (!(cond)) { std::ostringstream vf_o; vf_o.precision(17); vf_o << msg << "  [" #cond "] at " << __FILE__ << ":" << __LINE__; throw vf::Fail{vf_o.str()}; } } while (0)
#define REQUIRE_EQ(a, b, msg) \
    do { auto vf_a = (a); decltype(vf_a) vf_b = (b); if (!(vf_a == vf_b)) { std::ostringstream vf_o; vf_o.precision(17); vf_o << msg << ": got " << vf::str(vf_a) << ", expected " << vf::str(vf_b) << "  [" #a "] at " << __FILE__ << ":" << __LINE__; throw vf::Fail{vf_o.str()}; } } while (0)

#endif
