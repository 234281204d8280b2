#include "LuceneInc.h"
#include "engine.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=86:hard_rss_limit_mb=3500:max_malloc_fill_size=4096:"
           "malloc_fill_byte=202:allocator_may_return_null=0:detect_stack_use_after_return=0:"
           "quarantine_size_mb=32:abort_on_error=0:handle_abort=1:symbolize=1";
}

// ---- coverage counters (inline-8bit-counters) ---------------------------------------------
static std::vector<std::pair<uint8_t*, uint8_t*> > g_cov;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e) {
    for (auto& p : g_cov) if (p.first == b) return;
    g_cov.push_back(std::make_pair(b, e));
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

namespace vf {

struct Status {
    uint64_t sub, idx, n, state;
    uint64_t choices[1 << 20];
};
static Status* g_status = nullptr;
static std::string g_scratch;
static void (*g_reset)() = nullptr;

std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
const std::string& scratchDir() { return g_scratch; }
void setReset(void (*fn)()) { g_reset = fn; }

std::string narrow(const std::wstring& s) {
    std::string o;
    for (wchar_t w : s) {
        if (w >= 32 && w < 127 && w != '\\') o += (char)w;
        else { char b[24]; snprintf(b, sizeof b, "\\u{%x}", (unsigned)w); o += b; }
    }
    return o;
}

uint64_t Case::draw(uint64_t n) {
    uint64_t v;
    if (n == 0) n = 1;
    if (source && choices.size() < source->size()) v = (*source)[choices.size()] % n;
    else if (tailRandom) v = rng.next() % n;
    else v = 0;
    if (choices.size() >= (1 << 20)) throw Discard{"too many draws"};
    if (g_status && !inner) { g_status->choices[choices.size()] = v; g_status->n = choices.size() + 1; }
    choices.push_back(v);
    return v;
}
int Case::size(int max) {
    if (max <= 0) return 0;
    // mixture: mostly small, sometimes anywhere
    switch (draw(4)) {
        case 0: return (int)draw(std::min(max, 2) + 1);
        case 1: return (int)draw(std::min(max, 5) + 1);
        case 2: return (int)draw(std::min(max, 12) + 1);
        default: return (int)draw((uint64_t)max + 1);
    }
}
int Case::weighted(std::initializer_list<int> w) {
    int t = 0;
    for (int x : w) t += x;
    int r = (int)draw(t), i = 0;
    for (int x : w) { if (r < x) return i; r -= x; ++i; }
    return 0;
}
uint64_t Case::bits64() {
    switch (draw(6)) {
        case 0: return draw(4);
        case 1: return draw(300);
        case 2: { int b = (int)draw(64); int64_t d = (int64_t)draw(5) - 2; return ((uint64_t)1 << b) + (uint64_t)d; }
        case 3: { int b = (int)draw(64); int64_t d = (int64_t)draw(5) - 2; return (uint64_t)(-(int64_t)((uint64_t)1 << b)) + (uint64_t)d; }
        case 4: { int b = 1 + (int)draw(63); return draw((uint64_t)1 << b); }
        default: { uint64_t hi = draw((uint64_t)1 << 32), lo = draw((uint64_t)1 << 32); return (hi << 32) | lo; }
    }
}
double Case::anyDouble(bool nan) {
    static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1e-308, -1e-308, 5e-324, -5e-324, 1.7976931348623157e308,
        -1.7976931348623157e308, 3.4028234663852886e38, 1.17549435e-38, 1e10, -1e10, 1e-10};
    switch (draw(5)) {
        case 0: return (double)((int64_t)draw(21) - 10);
        case 1: return ((double)((int64_t)draw(2001) - 1000)) / 8.0;
        case 2: return sp[draw(sizeof(sp) / sizeof(*sp))];
        case 3: { if (nan && draw(4) == 3) { double s[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; return s[draw(3)]; }
                  return (double)(int64_t)bits64(); }
        default: { uint64_t b = bits64(); double d; memcpy(&d, &b, 8); if (!(d == d) || d - d != 0) return (double)(b & 0xffff); return d; }
    }
}
std::wstring Case::word(const std::wstring& alphabet, int minLen, int maxLen) {
    int n = range(minLen, maxLen);
    std::wstring s;
    for (int i = 0; i < n; ++i) s += alphabet[(size_t)draw(alphabet.size())];
    return s;
}
std::wstring Case::unicode(int maxLen) {
    int n = size(maxLen);
    std::wstring s;
    for (int i = 0; i < n; ++i) {
        uint32_t cp;
        switch (draw(8)) {
            case 0: case 1: cp = 'a' + (uint32_t)draw(26); break;
            case 2: cp = 32 + (uint32_t)draw(95); break;
            case 3: cp = 0xa0 + (uint32_t)draw(0x160); break;
            case 4: cp = 0x370 + (uint32_t)draw(0x2000); break;
            case 5: cp = 0x3000 + (uint32_t)draw(0xa000); break;
            case 6: { static const uint32_t sp[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x1ffff, 0x1d11e, 0x10fffd, 9, 10, 13, 1, 0xfeff};
                      cp = sp[draw(16)]; break; }
            default: cp = 0x10000 + (uint32_t)draw(0x100000); break;
        }
        if (cp >= 0xd800 && cp < 0xe000) cp = 0xe000;
        s += (wchar_t)cp;
    }
    return s;
}
std::string Case::bytes(int maxLen) {
    int n = size(maxLen);
    std::string s;
    int mode = (int)draw(3);
    for (int i = 0; i < n; ++i) s += (char)(mode == 0 ? draw(4) : mode == 1 ? 'a' + draw(3) : draw(256));
    return s;
}

// -------------------------------------------------------------------------------------------
static uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x632be59bd9b4e019ULL));
    r.next();
    return r.next();
}
static uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; }
    return h;
}
static uint64_t hashVec(const std::vector<uint64_t>& v) {
    uint64_t h = v.size() + 77;
    for (uint64_t x : v) h = (h ^ x) * 0x9e3779b97f4a7c15ULL, h ^= h >> 29;
    return h;
}

// returns empty string when the case passes
enum Outcome { OK, FAILED, DISCARDED };
static Outcome runCase(const Sub& s, Case& c, std::string& msg) {
    if (g_reset) g_reset();
    try {
        s.fn(c);
        return OK;
    } catch (Fail& f) { msg = f.msg; return FAILED;
    } catch (Discard& d) { msg = d.why; return DISCARDED;
    } catch (Lucene::LuceneException& e) { msg = "unexpected LuceneException type " + str((int)e.getType()) + ": " + narrow(e.getError()); return FAILED;
    } catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return FAILED;
    } catch (...) { msg = "unexpected exception of unknown type"; return FAILED; }
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}
static std::string jvec(const std::vector<uint64_t>& v) {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
    o << "]";
    return o.str();
}
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static int g_caseLimit = 60;
static Case* g_printOnHang = nullptr;
static void onAlarm(int) {
    if (g_status) g_status->state = 2;  // hang
    if (g_printOnHang) { ssize_t n = write(1, g_printOnHang->desc.data(), g_printOnHang->desc.size()); (void)n; }
    _exit(77);
}
static void arm(int secs) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = secs;
    setitimer(ITIMER_REAL, &t, nullptr);
}

// ---- coverage guidance --------------------------------------------------------------------
struct Coverage {
    std::vector<uint8_t> seen;
    uint64_t features = 0;
    void init() {
        size_t n = 0;
        for (auto& p : g_cov) n += p.second - p.first;
        seen.assign(n, 0);
    }
    void clear() { for (auto& p : g_cov) memset(p.first, 0, p.second - p.first); }
    static uint8_t bucket(uint8_t v) {
        if (v <= 3) return (uint8_t)(1 << (v - 1));
        if (v < 8) return 8;
        if (v < 16) return 16;
        if (v < 32) return 32;
        if (v < 128) return 64;
        return 128;
    }
    bool collect() {
        bool fresh = false;
        size_t base = 0;
        for (auto& p : g_cov) {
            uint8_t* b = p.first;
            size_t n = p.second - p.first, i = 0;
            while (i < n) {
                if (i + 8 <= n && ((uintptr_t)(b + i) & 7) == 0) {
                    uint64_t w;
                    memcpy(&w, b + i, 8);
                    if (!w) { i += 8; continue; }
                }
                if (b[i]) {
                    uint8_t k = bucket(b[i]);
                    if (!(seen[base + i] & k)) { seen[base + i] |= k; ++features; fresh = true; }
                }
                ++i;
            }
            base += n;
        }
        return fresh;
    }
    uint64_t edges() { uint64_t k = 0; for (uint8_t x : seen) k += x != 0; return k; }
};

static std::vector<uint64_t> mutate(Rng& r, const std::vector<std::vector<uint64_t> >& corpus) {
    const std::vector<uint64_t>& a = corpus[r.next() % 3 ? corpus.size() - 1 - r.next() % std::min<size_t>(corpus.size(), 32) : r.next() % corpus.size()];
    std::vector<uint64_t> v = a;
    int k = 1 + (int)(r.next() % 4);
    for (int i = 0; i < k && !v.empty(); ++i) {
        size_t p = r.next() % v.size();
        switch (r.next() % 7) {
            case 0: case 1: v[p] = r.next(); break;
            case 2: v[p] = v[p] + 1; break;
            case 3: v[p] = v[p] ? v[p] - 1 : 0; break;
            case 4: { size_t n = 1 + r.next() % std::min<size_t>(16, v.size() - p); v.erase(v.begin() + p, v.begin() + p + n); break; }
            case 5: { size_t n = 1 + r.next() % std::min<size_t>(16, v.size() - p); std::vector<uint64_t> t(v.begin() + p, v.begin() + p + n); v.insert(v.begin() + p, t.begin(), t.end()); break; }
            default: { const std::vector<uint64_t>& o = corpus[r.next() % corpus.size()]; if (!o.empty()) { size_t q = r.next() % o.size(); size_t n = 1 + r.next() % std::min<size_t>(32, o.size() - q); v.insert(v.begin() + p, o.begin() + q, o.begin() + q + n); } break; }
        }
    }
    if (r.next() % 2) v.resize(v.size() - r.next() % (v.size() / 2 + 1));  // random tail
    return v;
}

struct Args {
    std::map<std::string, std::string> m;
    std::string get(const std::string& k, const std::string& d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
    int64_t num(const std::string& k, int64_t d = 0) const { auto i = m.find(k); return i == m.end() ? d : atoll(i->second.c_str()); }
};

static std::vector<uint64_t> readChoices(const std::string& f) {
    std::ifstream in(f);
    std::vector<uint64_t> v;
    uint64_t x;
    while (in >> x) v.push_back(x);
    return v;
}

static int runMode(const Args& a) {
    uint64_t seed = (uint64_t)a.num("seed", 1);
    int w = (int)a.num("worker"), W = (int)a.num("workers", 1);
    bool thorough = a.get("tier") == "thorough";
    double scale = atof(a.get("scale", "1").c_str());
    double budget = atof(a.get("budget", "1e9").c_str());
    std::string only = a.get("sub");
    double t0 = now();
    std::unordered_set<uint64_t> nt;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> perSub, perSubNt, perSubDisc;
    std::map<std::string, double> perSubTime;
    std::vector<std::string> samples;
    uint64_t total = 0, discarded = 0, excluded = 0, mutated = 0;
    bool truncated = false;
    std::string failJson;
    Coverage cov;
    cov.init();
    bool guided = !g_cov.empty() && a.get("guided", "1") == "1";
    size_t corpusTotal = 0;
    uint64_t fullTime = 0;
    for (size_t si = 0; si < subs().size() && failJson.empty() && !truncated; ++si) {
        const Sub& s = subs()[si];
        if (!only.empty() && s.name != only) continue;
        uint64_t n = (uint64_t)((thorough ? s.thorough : s.quick) * scale + 0.5);
        if ((thorough ? s.thorough : s.quick) > 0 && n == 0) n = 1;
        std::vector<std::vector<uint64_t> > corpus;
        if (guided) { cov.init(); }
        double ts = now();
        for (uint64_t i = w; i < n; i += W) {
            if (now() - t0 > budget) { truncated = true; break; }
            uint64_t cs = mix(mix(seed, hashStr(s.name)), i);
            Case c;
            c.rng = Rng(cs);
            std::vector<uint64_t> src;
            if (guided && !corpus.empty() && c.rng.next() % 3 == 0) {
                src = mutate(c.rng, corpus);
                c.source = &src;
                ++mutated;
            }
            if (g_status) { g_status->sub = si; g_status->idx = i; g_status->n = 0; g_status->state = 1; }
            if (guided) cov.clear();
            std::string msg;
            arm(g_caseLimit);
            Outcome o = runCase(s, c, msg);
            arm(0);
            ++total;
            ++perSub[s.name];
            excluded += c.excluded;
            if (o == FAILED) {
                failJson = "{\"sub\":" + jstr(s.name) + ",\"idx\":" + str(i) + ",\"msg\":" + jstr(msg) + ",\"choices\":" + jvec(c.choices) + ",\"desc\":" + jstr(c.desc) + "}";
                break;
            }
            if (o == DISCARDED) { ++discarded; ++perSubDisc[s.name]; continue; }
            if (guided && cov.collect() && c.choices.size() < 20000) { corpus.push_back(c.choices); if (corpus.size() > 600) corpus.erase(corpus.begin() + (c.rng.next() % 300)); }
            for (auto& l : c.labels) ++labels[s.name + ":" + l];
            if (c.isNontrivial) {
                if (nt.insert(hashVec(c.choices) ^ hashStr(s.name)).second) {
                    ++perSubNt[s.name];
                    if (perSubNt[s.name] == 2 && c.desc.size() < 2500 && w < 4) samples.push_back(s.name + ":\n" + c.desc);
                }
            }
        }
        corpusTotal += corpus.size();
        perSubTime[s.name] = now() - ts;
        (void)fullTime;
        if (guided) labels["cov_edges:" + s.name] = cov.edges();
    }
    if (g_status) g_status->state = 0;
    std::ofstream o(a.get("out"));
    o << "{\"total\":" << total << ",\"discarded\":" << discarded << ",\"excluded\":" << excluded << ",\"mutated\":" << mutated
      << ",\"corpus\":" << corpusTotal << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"wall\":" << now() - t0;
    auto emit = [&](const char* k, const std::map<std::string, uint64_t>& m) {
        o << ",\"" << k << "\":{";
        bool f = true;
        for (auto& p : m) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
        o << "}";
    };
    emit("labels", labels);
    emit("per_sub", perSub);
    emit("per_sub_nontrivial", perSubNt);
    emit("per_sub_discarded", perSubDisc);
    o << ",\"per_sub_time\":{";
    bool f = true;
    for (auto& p : perSubTime) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << jstr(samples[i]);
    o << "],\"nt\":[";
    f = true;
    for (uint64_t h : nt) { o << (f ? "" : ",") << h; f = false; }
    o << "],\"failure\":" << (failJson.empty() ? "null" : failJson) << "}\n";
    o.close();
    fflush(stdout);
    _exit(failJson.empty() ? 0 : 3);
}

static const Sub* findSub(const std::string& n) {
    for (auto& s : subs()) if (s.name == n) return &s;
    std::cerr << "no such sub " << n << "\n";
    exit(2);
}

static int oneMode(const Args& a) {
    const Sub* s = findSub(a.get("sub"));
    Case c;
    std::vector<uint64_t> v;
    if (!a.get("choices").empty()) {
        v = readChoices(a.get("choices"));
        c.source = &v;
        c.tailRandom = false;
    } else {
        c.rng = Rng(mix(mix((uint64_t)a.num("seed", 1), hashStr(s->name)), (uint64_t)a.num("idx")));
    }
    c.maxDesc = 1 << 20;
    std::string msg;
    g_printOnHang = &c;
    arm(g_caseLimit);
    Outcome o = runCase(*s, c, msg);
    arm(0);
    std::cout << "case " << s->name << " (" << c.choices.size() << " draws)\n" << c.desc;
    for (auto& l : c.labels) std::cout << "label " << l << "\n";
    if (o == FAILED) std::cout << "FAILED: " << msg << std::endl;
    else std::cout << (o == OK ? "OK" : "DISCARDED") << (c.isNontrivial ? " nontrivial" : "") << std::endl;
    _exit(o == FAILED ? 3 : 0);
}

// runs one sequence in a child; true when it fails (or crashes)
static bool attempt(const Sub& s, std::vector<uint64_t>& v, std::string& msg, int limit) {
    int p[2];
    if (pipe(p)) return false;
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
        Case c;
        c.source = &v;
        c.tailRandom = false;
        std::string m;
        arm(limit);
        Outcome o = runCase(s, c, m);
        arm(0);
        if (o == FAILED) {
            std::string t = m.substr(0, 2000);
            t += '\0';
            for (auto x : c.choices) t += str(x) + " ";
            size_t off = 0;
            while (off < t.size()) { ssize_t k = write(p[1], t.data() + off, t.size() - off); if (k <= 0) break; off += k; }
        }
        close(p[1]);
        _exit(o == FAILED ? 3 : 0);
    }
    close(p[1]);
    std::string buf;
    char b[65536];
    ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) buf.append(b, k);
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
        size_t z = buf.find('\0');
        msg = buf.substr(0, z);
        if (z != std::string::npos) {
            std::istringstream in(buf.substr(z + 1));
            std::vector<uint64_t> nv;
            uint64_t x;
            while (in >> x) nv.push_back(x);
            if (nv.size() <= v.size()) v = nv;  // normalised
        }
        return true;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { msg = "case does not terminate"; return true; }
    if (WIFSIGNALED(st)) msg = "crash: signal " + str(WTERMSIG(st));
    else msg = "crash: exit status " + str(WEXITSTATUS(st)) + (WEXITSTATUS(st) == 86 ? " (AddressSanitizer)" : "");
    return true;
}

static int shrinkMode(const Args& a) {
    const Sub* s = findSub(a.get("sub"));
    std::vector<uint64_t> v = readChoices(a.get("choices"));
    double t0 = now(), budget = atof(a.get("budget", "60").c_str());
    int attempts = 0, maxAttempts = (int)a.num("attempts", 6000);
    std::string msg, m;
    std::vector<uint64_t> t = v;
    int limit = 20;
    if (!attempt(*s, t, msg, g_caseLimit)) { std::cout << "{\"reproduced\":false}" << std::endl; return 0; }
    if (t.size() <= v.size()) v = t;
    std::set<uint64_t> tried;
    auto over = [&]() { return now() - t0 > budget || attempts > maxAttempts; };
    auto tryv = [&](std::vector<uint64_t> cand) {
        if (over()) return false;
        if (!tried.insert(hashVec(cand)).second) return false;
        ++attempts;
        if (attempt(*s, cand, m, limit)) {
            if (m == "case does not terminate" && msg != m) return false;
            v = cand;
            msg = m;
            return true;
        }
        return false;
    };
    bool improved = true;
    while (improved && !over()) {
        improved = false;
        for (size_t k = std::max<size_t>(1, v.size() / 2); k >= 1 && !over(); k /= 2) {
            for (size_t i = v.size(); i > 0 && !over();) {
                size_t st = i >= k ? i - k : 0;
                if (st < v.size()) {
                    std::vector<uint64_t> cnd = v;
                    cnd.erase(cnd.begin() + st, cnd.begin() + std::min(v.size(), st + k));
                    if (tryv(cnd)) { improved = true; i = std::min(st, v.size()); continue; }
                }
                i = st;
            }
            if (k == 1) break;
        }
        for (size_t k = 8; k >= 1; k /= 2) {
            for (size_t i = 0; i < v.size() && !over(); i += k) {
                std::vector<uint64_t> cnd = v;
                bool any = false;
                for (size_t j = i; j < std::min(v.size(), i + k); ++j) { any |= cnd[j] != 0; cnd[j] = 0; }
                if (any && tryv(cnd)) improved = true;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < v.size() && !over(); ++i) {
            uint64_t lo = 0;
            while (i < v.size() && v[i] > lo && !over()) {
                uint64_t mid = lo + (v[i] - lo) / 2;
                std::vector<uint64_t> cnd = v;
                cnd[i] = mid;
                if (tryv(cnd)) improved = true;
                else if (lo == mid) break;
                else lo = mid + (mid < v[i] - 1 ? 0 : 0), lo = mid == lo ? mid + 1 : mid;
                if (lo >= v[std::min(i, v.size() - 1)]) break;
            }
        }
        // delete one + decrement a previous length-like draw
        for (size_t i = 0; i + 1 < v.size() && !over(); ++i) {
            if (v[i] == 0) continue;
            for (size_t k = 1; k <= 4 && i + k < v.size() && !over(); ++k) {
                std::vector<uint64_t> cnd = v;
                cnd[i]--;
                cnd.erase(cnd.begin() + i + 1, cnd.begin() + i + 1 + k);
                if (tryv(cnd)) { improved = true; break; }
            }
        }
    }
    std::cout << "{\"reproduced\":true,\"attempts\":" << attempts << ",\"msg\":" << jstr(msg) << ",\"choices\":" << jvec(v) << "}" << std::endl;
    return 0;
}

}  // namespace vf

int main(int argc, char** argv) {
    using namespace vf;
    if (!getenv("VF_NOASLR")) {
        setenv("VF_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    Args a;
    std::string mode = argc > 1 ? argv[1] : "list";
    for (int i = 2; i + 1 < argc; i += 2) a.m[std::string(argv[i]).substr(2)] = argv[i + 1];
    g_scratch = a.get("scratch", "/tmp/vf_scratch_default");
    mkdir(g_scratch.c_str(), 0700);
    g_caseLimit = (int)a.num("caselimit", 60);
    setlocale(LC_ALL, "C.UTF-8");
    signal(SIGALRM, onAlarm);
    signal(SIGPIPE, SIG_IGN);
    if (!a.get("status").empty()) {
        int fd = open(a.get("status").c_str(), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && !ftruncate(fd, sizeof(Status))) {
            void* m = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) g_status = (Status*)m;
        }
    }
    if (mode == "run") return runMode(a);
    if (mode == "one") return oneMode(a);
    if (mode == "shrink") return shrinkMode(a);
    for (auto& s : subs()) std::cout << s.name << " " << s.quick << " " << s.thorough << "\n";
    return 0;
}
