// C22: encodings of numbers, dates, bytes, norms and Unicode text round-trip, keep order, and reject or survive
// malformed input.
#include "common.h"
#include "StringUtils.h"
#include "MiscUtils.h"
#include "NumericUtils.h"
#include "NumberTools.h"
#include "DateTools.h"
#include "DateField.h"
#include "Base64.h"
#include "SmallDouble.h"
#include "CompressionTools.h"
#include "CharFolder.h"
#include "UnicodeUtils.h"
#include "UTF8Stream.h"
#include "StringReader.h"
#include "VariantUtils.h"
#include <cmath>
#include <cstring>
using namespace vf;

static int sgn(int64_t x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
template <class A> static int cmp3(const A& a, const A& b) { return a < b ? -1 : b < a ? 1 : 0; }
static int scmp(const String& a, const String& b) { return sgn(a.compare(b)); }
// two values of which the second is often close to the first
static void pair64(Case& c, int64_t& a, int64_t& b) {
    a = (int64_t)c.bits64();
    switch (c.draw(4)) {
        case 0: b = (int64_t)c.bits64(); break;
        case 1: b = (int64_t)((uint64_t)a + (uint64_t)(int64_t)c.range(-3, 3)); break;
        case 2: b = (int64_t)((uint64_t)a ^ (1ULL << c.draw(64))); break;
        default: b = (int64_t)(~(uint64_t)a + c.draw(3)); break;
    }
}

VF_SUB(numbers, 30000*5, 3000000) {
    int64_t a, b;
    pair64(c, a, b);
    c.note("a=" + std::to_string(a) + " b=" + std::to_string(b));
    c.nontrivial(a != b && (a < 0 || b < 0 || a > 1000));
    LUCENE_GUARD(
        // sortable text of a long
        String x = NumberTools::longToString(a), y = NumberTools::longToString(b);
        REQUIRE_EQ((int)x.length(), (int)NumberTools::STR_SIZE(), "length of a long as text");
        REQUIRE_EQ((int64_t)NumberTools::stringToLong(x), a, "long back from its text " << narrow(x));
        REQUIRE_EQ(scmp(x, y), cmp3(a, b), "order of " << narrow(x) << " and " << narrow(y));
        REQUIRE(x >= NumberTools::MIN_STRING_VALUE() && x <= NumberTools::MAX_STRING_VALUE(), "text " << narrow(x) << " of " << a << " is outside the documented bounds");
        // prefix coded
        int sh = c.range(0, 63);
        String p = NumericUtils::longToPrefixCoded(a), q = NumericUtils::longToPrefixCoded(b);
        REQUIRE_EQ((int64_t)NumericUtils::prefixCodedToLong(p), a, "long back from its prefix-coded form");
        REQUIRE_EQ(scmp(p, q), cmp3(a, b), "order of prefix-coded longs");
        String ps = NumericUtils::longToPrefixCoded(a, sh), qs = NumericUtils::longToPrefixCoded(b, sh);
        uint64_t mask = ~0ULL << sh;
        REQUIRE_EQ((int64_t)NumericUtils::prefixCodedToLong(ps), (int64_t)((uint64_t)a & mask), "long back from its prefix-coded form with shift " << sh);
        REQUIRE_EQ(scmp(ps, qs), cmp3((int64_t)((uint64_t)a & mask), (int64_t)((uint64_t)b & mask)), "order of prefix-coded longs with shift " << sh);
        if (sh) REQUIRE(p[0] < ps[0], "a lower precision must sort after a higher one");
        int32_t ia = (int32_t)a, ib = (int32_t)b;
        int ish = c.range(0, 31);
        uint32_t imask = ~0U << ish;
        String ip = NumericUtils::intToPrefixCoded(ia), iq = NumericUtils::intToPrefixCoded(ib);
        REQUIRE_EQ((int32_t)NumericUtils::prefixCodedToInt(ip), ia, "int back from its prefix-coded form");
        REQUIRE_EQ(scmp(ip, iq), cmp3(ia, ib), "order of prefix-coded ints");
        String ips = NumericUtils::intToPrefixCoded(ia, ish), iqs = NumericUtils::intToPrefixCoded(ib, ish);
        REQUIRE_EQ((int32_t)NumericUtils::prefixCodedToInt(ips), (int32_t)((uint32_t)ia & imask), "int back from its prefix-coded form with shift " << ish);
        REQUIRE_EQ(scmp(ips, iqs), cmp3((int32_t)((uint32_t)ia & imask), (int32_t)((uint32_t)ib & imask)), "order of prefix-coded ints with shift " << ish);
        // doubles, as order-preserving integers and prefix coded
        double d = c.anyDouble(), e = c.chance(1, 3) ? std::nextafter(d, c.chance(1, 2) ? INFINITY : -INFINITY) : c.chance(1, 2) ? -d : c.anyDouble();
        int64_t ld = NumericUtils::doubleToSortableLong(d), le = NumericUtils::doubleToSortableLong(e);
        double back = NumericUtils::sortableLongToDouble(ld);
        REQUIRE(std::memcmp(&back, &d, sizeof d) == 0, "double " << d << " comes back as " << back << " from its sortable form");
        if (d < e || e < d) REQUIRE_EQ(cmp3(ld, le), cmp3(d, e), "order of the sortable forms of " << d << " and " << e);
        back = NumericUtils::prefixCodedToDouble(NumericUtils::doubleToPrefixCoded(d));
        REQUIRE(std::memcmp(&back, &d, sizeof d) == 0, "double " << d << " comes back as " << back << " from its prefix-coded form");
        // digits in a base
        int base = c.range(2, 36);
        int64_t n = a & INT64_MAX;
        String t = StringUtils::toString(n, base);
        String want;
        uint64_t u = (uint64_t)n;
        do { want.insert(want.begin(), L"0123456789abcdefghijklmnopqrstuvwxyz"[u % (unsigned)base]); u /= (unsigned)base; } while (u);
        REQUIRE_EQ(t, want, "digits of " << n << " in base " << base);
        REQUIRE_EQ((int64_t)StringUtils::toLong(t, base), n, "number back from its digits in base " << base);
        REQUIRE_EQ((int64_t)StringUtils::toLong(StringUtils::toString(a)), a, "long back from decimal text");
        REQUIRE_EQ((int32_t)StringUtils::toInt(StringUtils::toString(ia)), ia, "int back from decimal text"););
}

// norms: eight bits, three of mantissa
VF_SUB(norms, 20000*5, 1000000) {
    double d = c.weighted({2, 1, 1}) == 0 ? (double)c.range(0, 100000) / (double)(1 + c.draw(1000)) : c.anyDouble();
    double e = c.chance(1, 2) ? d * (1.0 + (double)c.range(-30, 30) / 100.0) : c.anyDouble();
    c.note("d=" + str(d) + " e=" + str(e));
    uint8_t b = SmallDouble::doubleToByte(d), b2 = SmallDouble::doubleToByte(e);
    double v = SmallDouble::byteToDouble(b);
    c.nontrivial(b > 0 && b < 255);
    if (!std::isnan(d) && !std::isnan(e) && d <= e) REQUIRE(b <= b2, "norms of " << d << " and " << e << " are out of order");
    // the largest representable value not above the value, as a single-precision number
    float f = (float)d;
    std::vector<double> all;
    for (int i = 0; i < 256; ++i) {
        double x = SmallDouble::byteToDouble((uint8_t)i);
        REQUIRE_EQ((int)SmallDouble::doubleToByte(x), i, "byte back from its value " << x);
        if (i) REQUIRE(x > all.back(), "decoded values must increase at byte " << i);
        all.push_back(x);
    }
    // independent table: byte i > 0 is (8 + mantissa... ) as a small float with zero exponent 15
    for (int i = 1; i < 256; ++i) {
        uint32_t bits = ((uint32_t)i << 21) + ((63u - 15u) << 24);
        float g;
        std::memcpy(&g, &bits, 4);
        REQUIRE_EQ(all[(size_t)i], (double)g, "value of byte " << i);
    }
    if (std::isnan(d)) return;
    int want;
    if (d <= 0) want = 0;
    else if (f < all[1]) want = 1;
    else { want = 255; while (want > 1 && all[(size_t)want] > (double)f) --want; }
    REQUIRE_EQ((int)b, want, "byte of " << d << " (decoded " << v << ")");
    SimilarityPtr s = Similarity::getDefault();
    REQUIRE_EQ((int)Similarity::encodeNorm(d), want, "norm of " << d);
    REQUIRE_EQ(Similarity::decodeNorm(b), v, "decoded norm");
    REQUIRE_EQ(Similarity::getNormDecoder()[b], v, "norm decoder table");
}

// civil calendar, independent of the library's
static int64_t daysFromCivil(int64_t y, int m, int d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
static void civilFromDays(int64_t z, int64_t& y, int& m, int& d) {
    z += 719468;
    int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
    int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    d = (int)(doy - (153 * mp + 2) / 5 + 1);
    m = (int)(mp < 10 ? mp + 3 : mp - 9);
    y = yoe + era * 400 + (m <= 2);
}
static const int64_t DAY = 86400000;
static int64_t genTime(Case& c) {
    int64_t lo = daysFromCivil(1400, 1, 1) * DAY, hi = daysFromCivil(10000, 1, 1) * DAY - 1;
    switch (c.draw(6)) {
        case 0: return (int64_t)c.draw(4000000000000ULL);
        case 1: return -(int64_t)c.draw(4000000000000ULL);
        case 2: { int64_t y = c.range(1401, 9998); int64_t t = daysFromCivil(y, c.chance(1, 2) ? 1 : c.range(1, 12), 1) * DAY; return t + c.range(-2, 2) * (int64_t)c.pick(std::vector<int64_t>{1, 1000, 60000, 3600000, DAY}); }
        case 3: { int64_t y = c.range(350, 2499) * 4; return daysFromCivil(y, 2, 28) * DAY + (int64_t)c.draw(3 * (uint64_t)DAY); }
        case 4: return (int64_t)c.range(-5, 5);
        default: return lo + (int64_t)c.draw((uint64_t)(hi - lo));
    }
}
VF_SUB(dates, 20000*5, 1000000) {
    int64_t t = genTime(c), u = c.chance(1, 2) ? genTime(c) : t + (int64_t)c.range(-1, 1) * (int64_t)c.draw((uint64_t)c.pick(std::vector<int64_t>{2, 1500, 90000, 5400000, 2 * DAY, 40 * DAY, 400 * DAY}));
    int64_t hi = daysFromCivil(10000, 1, 1) * DAY - 1, lo = daysFromCivil(1400, 1, 1) * DAY;
    t = std::max(lo, std::min(hi, t));
    u = std::max(lo, std::min(hi, u));
    int res = c.range(1, 7);
    c.note("t=" + std::to_string(t) + " u=" + std::to_string(u) + " resolution " + std::to_string(res));
    auto rounded = [&](int64_t x, String& s) {
        int64_t days = x >= 0 ? x / DAY : -((-x + DAY - 1) / DAY), ms = x - days * DAY, y;
        int m, d;
        civilFromDays(days, y, m, d);
        int h = (int)(ms / 3600000), mi = (int)(ms / 60000 % 60), se = (int)(ms / 1000 % 60), mil = (int)(ms % 1000);
        if (res < 7) mil = 0;
        if (res < 6) se = 0;
        if (res < 5) mi = 0;
        if (res < 4) h = 0;
        if (res < 3) d = 1;
        if (res < 2) m = 1;
        char b[64];
        snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02d%03d", (int)y, m, d, h, mi, se, mil);
        static const int len[] = {0, 4, 6, 8, 10, 12, 14, 17};
        s = W(std::string(b, (size_t)len[res]));
        return ((daysFromCivil(y, m, d) * 24 + h) * 60 + mi) * 60000 + se * 1000 + mil;
    };
    String st, su;
    int64_t rt = rounded(t, st), ru = rounded(u, su);
    c.nontrivial(rt != t && t != u);
    LUCENE_GUARD(
        DateTools::Resolution R = (DateTools::Resolution)res;
        String x = DateTools::timeToString(t, R), y = DateTools::timeToString(u, R);
        REQUIRE_EQ(x, st, "text of time " << t);
        REQUIRE_EQ(y, su, "text of time " << u);
        REQUIRE_EQ((int64_t)DateTools::stringToTime(x), rt, "time back from " << narrow(x));
        REQUIRE_EQ((int64_t)DateTools::round(t, R), rt, "rounded time");
        REQUIRE_EQ(scmp(x, y), cmp3(rt, ru), "order of dates as text");
        boost::posix_time::ptime p = DateTools::stringToDate(x);
        REQUIRE_EQ(DateTools::dateToString(p, R), st, "text of the date");
        REQUIRE(DateTools::round(p, R) == p, "rounding twice changes the date");
        // the old format: from 1970 on
        if (t >= 0 && u >= 0 && std::max(t, u) < 101559956668416LL) {
            String a = DateField::timeToString(t), b = DateField::timeToString(u);
            REQUIRE_EQ((int64_t)DateField::stringToTime(a), t, "time back from " << narrow(a));
            REQUIRE_EQ(scmp(a, b), cmp3(t, u), "order of dates in the old format");
            REQUIRE(a >= DateField::MIN_DATE_STRING() && a <= DateField::MAX_DATE_STRING(), "old date format out of its bounds");
        });
    // a time which the old format cannot hold is rejected
    int64_t big = c.chance(1, 2) ? (int64_t)(101559956668416LL + (int64_t)c.draw(1000000)) : (int64_t)(c.bits64() & INT64_MAX);
    if (c.chance(1, 4)) big = -1 - (int64_t)(c.bits64() & INT64_MAX) / 2;
    bool fits = big >= 0 && big < 101559956668416LL;   // 36^9
    try {
        String a = DateField::timeToString(big);
        REQUIRE(fits, "time " << big << " is encoded as " << narrow(a) << " although it does not fit");
        REQUIRE_EQ((int64_t)DateField::stringToTime(a), big, "time back from " << narrow(a));
    } catch (LuceneException& e) {
        REQUIRE(!fits, "time " << big << " is rejected: " << exceptionText(e));
    }
}

// dates as people write them, for every field order
VF_SUB(humanDates, 3000*5, 100000) {
    int y = c.range(1970, 2049), m = c.range(1, 12), d = c.range(1, 28);
    if (c.chance(1, 3)) { y = c.range(1400, 9999); }
    std::wstring sep(1, L",-. /"[c.draw(5)]);
    int order = c.range(1, 3);
    auto two = [&](int v, bool pad) { std::wstring s = std::to_wstring(v); return pad && s.size() == 1 ? L"0" + s : s; };
    bool pad = c.chance(1, 2);
    static const wchar_t* mon[] = {L"Jan", L"Feb", L"Mar", L"Apr", L"May", L"Jun", L"Jul", L"Aug", L"Sep", L"Oct", L"Nov", L"Dec"};
    std::wstring Y = std::to_wstring(y), M = c.chance(1, 4) ? std::wstring(mon[m - 1]) : two(m, pad), D = two(d, pad);
    std::wstring s = order == 1 ? Y + sep + M + sep + D : order == 2 ? D + sep + M + sep + Y : M + sep + D + sep + Y;
    c.note("date " + narrow(s) + " order " + std::to_string(order));
    c.nontrivial(true);
    LUCENE_GUARD(
        DateTools::setDateOrder((DateTools::DateOrder)order);
        boost::posix_time::ptime p = DateTools::parseDate(s);
        REQUIRE_EQ((int64_t)MiscUtils::getTimeMillis(p), daysFromCivil(y, m, d) * DAY, "date read from " << narrow(s)););
}

static std::string naiveUtf8(const std::wstring& s) {
    std::string r;
    for (wchar_t w : s) {
        uint32_t u = (uint32_t)w;
        if (u < 0x80) r += (char)u;
        else if (u < 0x800) { r += (char)(0xc0 | (u >> 6)); r += (char)(0x80 | (u & 63)); }
        else if (u < 0x10000) { r += (char)(0xe0 | (u >> 12)); r += (char)(0x80 | ((u >> 6) & 63)); r += (char)(0x80 | (u & 63)); }
        else { r += (char)(0xf0 | (u >> 18)); r += (char)(0x80 | ((u >> 12) & 63)); r += (char)(0x80 | ((u >> 6) & 63)); r += (char)(0x80 | (u & 63)); }
    }
    return r;
}
// well-known simple case mappings; elsewhere the character tables
static wchar_t refLower(wchar_t w) {
    if ((w >= L'A' && w <= L'Z') || (w >= 0xc0 && w <= 0xde && w != 0xd7) || (w >= 0x391 && w <= 0x3a9 && w != 0x3a2) || (w >= 0x410 && w <= 0x42f)) return w + 32;
    if (w < 0x100) return w;
    return UnicodeUtil::toLower(w);
}
static wchar_t refUpper(wchar_t w) {
    if ((w >= L'a' && w <= L'z') || (w >= 0xe0 && w <= 0xfe && w != 0xf7) || (w >= 0x3b1 && w <= 0x3c9 && w != 0x3c2) || (w >= 0x430 && w <= 0x44f)) return w - 32;
    if (w < 0x100 && w != 0xb5 && w != 0xff) return w;
    return UnicodeUtil::toUpper(w);
}
VF_SUB(text, 12000*5, 500000) {
    std::wstring s = c.unicode(c.chance(1, 20) ? 3000 : 40);
    std::string want = naiveUtf8(s);
    c.note("string of " + std::to_string(s.size()) + ": " + narrow(s));
    c.nontrivial(want.size() > s.size() && s.size() > 1);
    LUCENE_GUARD(
        SingleString got = StringUtils::toUTF8(s);
        REQUIRE(got == want, "UTF-8 form of \"" << narrow(s) << "\" is " << hex(got) << ", expected " << hex(want));
        String back = StringUtils::toUnicode(want);
        REQUIRE(back == s, "string back from UTF-8 is \"" << narrow(back) << "\", expected \"" << narrow(s) << "\"");
        // reused result buffers
        UTF8ResultPtr u = newLucene<UTF8Result>();
        UnicodeResultPtr x = newLucene<UnicodeResult>();
        for (int i = 0; i < 2; ++i) {
            std::wstring t = i ? s.substr(0, s.size() / 2) : s;
            std::string tw = naiveUtf8(t);
            StringUtils::toUTF8(t.c_str(), (int32_t)t.size(), u);
            REQUIRE(std::string((char*)u->result.get(), (size_t)u->length) == tw, "UTF-8 form in a reused buffer");
            StringUtils::toUnicode((const uint8_t*)tw.data(), (int32_t)tw.size(), x);
            REQUIRE(std::wstring(x->result.get(), (size_t)x->length) == t, "string in a reused buffer");
        }
        // streaming, in chunks
        {
            UTF8EncoderStream es(newLucene<StringReader>(s));
            std::string all;
            uint8_t buf[64];
            int chunk = c.range(4, 32);
            while (true) {
                int32_t n = es.encode(buf, chunk);
                if (n <= 0) { REQUIRE(n == -1, "encoding stops before the end"); break; }
                REQUIRE(n < chunk + 4, "more bytes than asked for");
                all.append((char*)buf, (size_t)n);
                REQUIRE(all.size() <= want.size(), "too many bytes");
            }
            REQUIRE(all == want, "encoding by chunks of " << chunk << " gives " << hex(all) << ", expected " << hex(want));
        }
        {
            std::wstring lat(want.begin(), want.end());
            for (auto& ch : lat) ch = (wchar_t)(uint8_t)ch;
            UTF8DecoderStream ds(newLucene<StringReader>(lat));
            std::wstring all;
            wchar_t buf[64];
            int chunk = c.range(1, 32);
            while (true) {
                int32_t n = ds.decode(buf, chunk);
                if (n <= 0) { REQUIRE(n == -1, "decoding stops before the end"); break; }
                REQUIRE(n <= chunk, "more characters than asked for");
                all.append(buf, (size_t)n);
                REQUIRE(all.size() <= s.size(), "too many characters");
            }
            REQUIRE(all == s, "decoding by chunks of " << chunk << " gives \"" << narrow(all) << "\"");
        }
        // UTF-16
        {
            std::vector<uint16_t> v;
            for (wchar_t w : s) {
                uint32_t q = (uint32_t)w;
                if (q < 0x10000) v.push_back((uint16_t)q);
                else { q -= 0x10000; v.push_back((uint16_t)(0xd800 + (q >> 10))); v.push_back((uint16_t)(0xdc00 + (q & 0x3ff))); }
            }
            std::vector<wchar_t> o(v.size() + 1);
            UTF16Decoder d16(v.data(), v.data() + v.size());
            int32_t n = d16.decode(o.data(), (int32_t)o.size());
            if (s.empty()) REQUIRE(n <= 0, "decoding an empty UTF-16 string");
            else REQUIRE(n == (int)s.size() && std::wstring(o.data(), (size_t)n) == s, "string back from UTF-16");
        }
        // compression of text
        if (s.size() < 200 || c.chance(1, 4)) {
            ByteArray z = c.chance(1, 2) ? CompressionTools::compressString(s) : CompressionTools::compressString(s, c.range(0, 9));
            REQUIRE(CompressionTools::decompressString(z) == s, "text back from its compressed form");
        }
        // hash as documented, case folding
        uint32_t h = 0;
        for (wchar_t w : s) h = h * 31u + (uint32_t)w;
        REQUIRE_EQ((int32_t)StringUtils::hashCode(s), (int32_t)h, "hash of a string");
        String lo(s), up(s);
        StringUtils::toLower(lo);
        StringUtils::toUpper(up);
        REQUIRE_EQ((int)lo.size(), (int)s.size(), "length of lower case");
        for (size_t i = 0; i < s.size(); ++i) {
            REQUIRE_EQ((uint32_t)lo[i], (uint32_t)refLower(s[i]), "lower case of U+" << std::hex << (uint32_t)s[i]);
            REQUIRE_EQ((uint32_t)up[i], (uint32_t)refUpper(s[i]), "upper case of U+" << std::hex << (uint32_t)s[i]);
        }
        REQUIRE(StringUtils::compareCase(s, s), "a string differs from its own lower case ignoring case"););
}

// malformed UTF-8: never more than the input, nothing past the buffer, no crash; valid prefixes decode as themselves
VF_SUB(badText, 12000*5, 500000) {
    std::string s = naiveUtf8(c.unicode(8));
    int n = c.range(1, 3);
    for (int i = 0; i < n; ++i) {
        size_t at = (size_t)c.draw(s.size() + 1);
        switch (c.draw(3)) {
            case 0: s.insert(at, 1, (char)(0x80 + c.draw(0x80))); break;
            case 1: if (!s.empty()) s.erase(at ? at - 1 : 0, 1); break;
            default: if (!s.empty()) s[at ? at - 1 : 0] = (char)c.draw(256); break;
        }
    }
    c.note("bytes " + hex(s));
    // an independent strict decoder
    std::wstring want;
    bool valid = true;
    for (size_t i = 0; i < s.size() && valid;) {
        unsigned char b = (unsigned char)s[i];
        int len = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
        if (!len || i + (size_t)len > s.size()) { valid = false; break; }
        uint32_t u = len == 1 ? b : b & (0xff >> (len + 1));
        for (int k = 1; k < len; ++k) {
            if (((unsigned char)s[i + (size_t)k] >> 6) != 2) { valid = false; break; }
            u = (u << 6) | ((unsigned char)s[i + (size_t)k] & 63);
        }
        static const uint32_t least[] = {0, 0, 0x80, 0x800, 0x10000};
        if (!valid || u < least[len] || u > 0x10ffff || (u >= 0xd800 && u < 0xe000)) { valid = false; break; }
        want += (wchar_t)u;
        i += (size_t)len;
    }
    c.nontrivial(!valid);
    try {
        std::vector<uint8_t> exact(s.begin(), s.end());      // so that reading past the end is seen
        String got = s.empty() ? String() : StringUtils::toUnicode(exact.data(), (int32_t)exact.size());
        if (valid) REQUIRE(got == want, "valid UTF-8 " << hex(s) << " decoded as \"" << narrow(got) << "\"");
        else {
            REQUIRE(got.size() <= s.size(), "longer than the input");
            for (wchar_t w : got) REQUIRE((uint32_t)w <= 0x10ffff && !((uint32_t)w >= 0xd800 && (uint32_t)w < 0xe000), "malformed UTF-8 decoded to a non-character");
        }
    } catch (LuceneException&) {
        REQUIRE(!valid, "valid UTF-8 " << hex(s) << " is rejected");
    }
}

static std::string refBase64(const std::string& s) {
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (size_t i = 0; i < s.size(); i += 3) {
        uint32_t v = 0;
        for (size_t k = 0; k < 3; ++k) v = (v << 8) | (i + k < s.size() ? (unsigned char)s[i + k] : 0);
        for (size_t k = 0; k < 4; ++k) r += i + k <= s.size() || k < 2 ? A[(v >> (18 - 6 * k)) & 63] : '=';
        size_t have = std::min<size_t>(3, s.size() - i);
        for (size_t k = have + 1; k < 4; ++k) r[r.size() - 4 + k] = '=';
    }
    return r;
}
VF_SUB(bytes, 8000*5, 400000) {
    std::string s = c.bytes(c.chance(1, 10) ? 9000 : 50);
    if (c.chance(1, 4)) s = std::string((size_t)c.draw(20000), (char)c.draw(256)) + s;   // compresses well
    c.note("bytes " + std::to_string(s.size()) + " " + hex(s.substr(0, 100)));
    c.nontrivial(s.size() > 2);
    LUCENE_GUARD(
        ByteArray b = toBytes(s);
        ByteArray z;
        int off = 0;
        if (c.chance(1, 2)) {
            off = c.range(0, 5);
            ByteArray padded = toBytes(std::string((size_t)off, 'x') + s + "yy");
            z = c.chance(1, 2) ? CompressionTools::compress(padded.get(), off, (int32_t)s.size()) : CompressionTools::compress(padded.get(), off, (int32_t)s.size(), c.range(0, 9));
        } else z = CompressionTools::compress(b);
        ByteArray back = CompressionTools::decompress(z);
        REQUIRE(fromBytes(back, 0, back.size()) == s, "bytes back from their compressed form (" << back.size() << " of " << s.size() << ")");
        // damaged compressed data is rejected or gives something, but does not crash or hang
        if (z.size()) {
            std::string q = fromBytes(z, 0, z.size());
            if (c.chance(1, 2)) q.resize((size_t)c.draw(q.size())); else q[(size_t)c.draw(q.size())] ^= (char)(1 + c.draw(255));
            try {
                ByteArray w = CompressionTools::decompress(toBytes(q));
                (void)w;
            } catch (CompressionException&) {
                c.label("damage rejected");
            }
        }
        if (s.size() < 300) {
            std::string want = refBase64(s);
            String e = Base64::encode(b);
            REQUIRE(e == W(want), "base 64 of " << hex(s) << " is " << narrow(e) << ", expected " << want);
            ByteArray d = Base64::decode(e);
            REQUIRE(fromBytes(d, 0, d.size()) == s, "bytes back from base 64 " << narrow(e));
            // malformed: cut, with foreign characters
            String m = e;
            int k = c.range(0, 2);
            if (k == 0) m = m.substr(0, (size_t)c.draw(m.size() + 1));
            else if (!m.empty()) m[(size_t)c.draw(m.size())] = k == 1 ? (wchar_t)c.draw(128) : (wchar_t)(0xa0 + c.draw(0x500));
            try {
                ByteArray r = Base64::decode(m);
                REQUIRE(r.size() <= (int)m.size(), "more bytes than characters");
                // complete leading groups of valid characters decode as before
                size_t same = 0;
                while (same < m.size() && same < e.size() && m[same] == e[same]) ++same;
                size_t whole = std::min(same / 4 * 3, s.size());
                if (m.size() <= same) REQUIRE(r.size() >= (int)std::min(whole, s.size()) && fromBytes(r, 0, (int)whole) == s.substr(0, whole), "the valid groups of " << narrow(m) << " are not decoded");
            } catch (LuceneException&) {
                c.label("base 64 rejected");
            }
        });
}

// malformed numbers and dates
VF_SUB(badNumbers, 8000*5, 400000) {
    String s;
    int k = c.range(0, 5);
    if (k == 0) s = NumberTools::longToString((int64_t)c.bits64());
    else if (k == 1) s = NumericUtils::longToPrefixCoded((int64_t)c.bits64(), c.range(0, 63));
    else if (k == 2) s = NumericUtils::intToPrefixCoded((int32_t)c.bits64(), c.range(0, 31));
    else if (k == 3) s = DateTools::timeToString(genTime(c), (DateTools::Resolution)c.range(1, 7));
    else s = std::to_wstring((int64_t)c.bits64());
    int e = c.range(0, 3);
    for (int i = 0; i < e; ++i) {
        size_t at = (size_t)c.draw(s.size() + 1);
        switch (c.draw(3)) {
            case 0: s.insert(at, 1, (wchar_t)c.draw(300)); break;
            case 1: if (!s.empty()) s.erase(at ? at - 1 : 0, 1); break;
            default: if (!s.empty()) s[at ? at - 1 : 0] = (wchar_t)c.draw(300); break;
        }
    }
    if (c.chance(1, 8)) s = c.unicode(6);
    c.note("text \"" + narrow(s) + "\"");
    c.nontrivial(e > 0);
    auto tryit = [&](const char* what, const std::function<void()>& f) {
        try { f(); } catch (LuceneException&) { c.label(std::string(what) + " rejected"); }
    };
    tryit("NumberTools", [&] { NumberTools::stringToLong(s); REQUIRE_EQ((int)s.size(), (int)NumberTools::STR_SIZE(), "text of the wrong length is accepted as a number"); REQUIRE(s[0] == L'0' || s[0] == L'-', "text " << narrow(s) << " with a wrong prefix is accepted"); });
    tryit("prefix long", [&] {
        NumericUtils::prefixCodedToLong(s);
        int sh = (int)s[0] - 0x20;
        REQUIRE(sh >= 0 && sh <= 63, "prefix-coded long with shift " << sh << " is accepted");
        for (size_t i = 1; i < s.size(); ++i) REQUIRE(s[i] <= 0x7f, "prefix-coded long with character " << (int)s[i] << " is accepted");
    });
    tryit("prefix int", [&] {
        NumericUtils::prefixCodedToInt(s);
        int sh = (int)s[0] - 0x60;
        REQUIRE(sh >= 0 && sh <= 31, "prefix-coded int with shift " << sh << " is accepted");
        for (size_t i = 1; i < s.size(); ++i) REQUIRE(s[i] <= 0x7f, "prefix-coded int with character " << (int)s[i] << " is accepted");
    });
    tryit("date", [&] { DateTools::stringToTime(s); });
    tryit("old date", [&] { DateField::stringToTime(s); });
    tryit("human date", [&] { DateTools::parseDate(s); });
    tryit("int", [&] { StringUtils::toInt(s); REQUIRE(!s.empty() && (s[0] == L'-' || UnicodeUtil::isDigit(s[0])), "\"" << narrow(s) << "\" is accepted as an int"); });
    tryit("long", [&] { StringUtils::toLong(s); REQUIRE(!s.empty() && (s[0] == L'-' || UnicodeUtil::isDigit(s[0])), "\"" << narrow(s) << "\" is accepted as a long"); });
    tryit("double", [&] { StringUtils::toDouble(s); REQUIRE(!s.empty() && (s[0] == L'-' || s[0] == L'.' || UnicodeUtil::isDigit(s[0])), "\"" << narrow(s) << "\" is accepted as a double"); });
}
