#include "ref.h"
#include <algorithm>
#include <cfloat>

namespace odv {

// ---- MD5 (RFC 1321) -------------------------------------------------------------------------------------------
std::string md5hex(const void* data, size_t n) {
    static const uint32_t S[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9,  14, 20, 5, 9,  14, 20, 5, 9,  14, 20, 5, 9,  14, 20,
                                   4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
    static uint32_t K[64];
    static bool init = false;
    if (!init) {
        for (int i = 0; i < 64; i++) K[i] = uint32_t(std::floor(std::fabs(std::sin(double(i + 1))) * 4294967296.0));
        init = true;
    }
    Bytes m(static_cast<const unsigned char*>(data), static_cast<const unsigned char*>(data) + n);
    m.push_back(0x80);
    while (m.size() % 64 != 56) m.push_back(0);
    uint64_t bits = uint64_t(n) * 8;
    for (int i = 0; i < 8; i++) m.push_back((unsigned char)(bits >> (8 * i)));
    uint32_t a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476;
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t M[16];
        for (int i = 0; i < 16; i++)
            M[i] = uint32_t(m[o + 4 * i]) | uint32_t(m[o + 4 * i + 1]) << 8 | uint32_t(m[o + 4 * i + 2]) << 16 | uint32_t(m[o + 4 * i + 3]) << 24;
        uint32_t A = a0, B = b0, C = c0, D = d0;
        for (uint32_t i = 0; i < 64; i++) {
            uint32_t F, g;
            if (i < 16) {
                F = (B & C) | (~B & D);
                g = i;
            }
            else if (i < 32) {
                F = (D & B) | (~D & C);
                g = (5 * i + 1) % 16;
            }
            else if (i < 48) {
                F = B ^ C ^ D;
                g = (3 * i + 5) % 16;
            }
            else {
                F = C ^ (B | ~D);
                g = (7 * i) % 16;
            }
            F = F + A + K[i] + M[g];
            A = D;
            D = C;
            C = B;
            B = B + ((F << S[i]) | (F >> (32 - S[i])));
        }
        a0 += A;
        b0 += B;
        c0 += C;
        d0 += D;
    }
    std::string s;
    for (uint32_t v : {a0, b0, c0, d0})
        for (int i = 0; i < 4; i++) {
            char t[3];
            snprintf(t, 3, "%02x", (v >> (8 * i)) & 0xff);
            s += t;
        }
    return s;
}

// ---- reader ---------------------------------------------------------------------------------------------------
struct Cur {
    const unsigned char* p;
    size_t n, i;
    bool swap;
    void need(size_t k) {
        if (n - i < k) throw RefErr("content runs past its end at byte " + std::to_string(i));
    }
    void num(void* o, size_t k) {
        need(k);
        unsigned char t[8];
        memcpy(t, p + i, k);
        if (swap) std::reverse(t, t + k);
        memcpy(o, t, k);
        i += k;
    }
    int32_t i32() {
        int32_t v;
        num(&v, 4);
        return v;
    }
    int64_t i64() {
        int64_t v;
        num(&v, 8);
        return v;
    }
    double f64() {
        double v;
        num(&v, 8);
        return v;
    }
    double f64raw() {
        double v;
        need(8);
        memcpy(&v, p + i, 8);
        i += 8;
        return v;
    }
    std::string str() {
        int32_t l = i32();
        if (l < 0) throw RefErr("negative string length");
        need(size_t(l));
        std::string s(reinterpret_cast<const char*>(p + i), size_t(l));
        i += size_t(l);
        return s;
    }
};

static bool numericCodec(const std::string& c) {
    static const std::set<std::string> s{"constant",   "constant_or_missing", "real_constant_or_missing", "long_real",   "short_real",  "short_real2",
                                         "int8",       "int16",               "int32",                    "int8_missing", "int16_missing"};
    return s.count(c) != 0;
}

RefFrame refParseFrame(const unsigned char* p, size_t n, size_t off, bool strict) {
    RefFrame f;
    f.off = off;
    Cur c{p, n, off, false};
    c.need(5);
    if (memcmp(p + off, "\xff\xffODA", 5)) throw RefErr("bad magic at offset " + std::to_string(off));
    c.i += 5;
    int32_t bo = c.i32();
    if (bo == 1)
        c.swap = false;
    else if (bo == 0x01000000)
        c.swap = true;
    else
        throw RefErr("bad byte order indicator");
    f.swapped = c.swap;
    f.major   = c.i32();
    f.minor   = c.i32();
    if (f.major != 0 || f.minor < 4 || f.minor > 5) throw RefErr("version " + std::to_string(f.major) + "." + std::to_string(f.minor));
    std::string dig = c.str();
    if (dig.size() != 32) throw RefErr("digest length");
    int32_t hl = c.i32();
    if (hl < 0) throw RefErr("negative header length");
    c.need(size_t(hl));
    if (md5hex(p + c.i, size_t(hl)) != dig) throw RefErr("header digest does not match the header");
    Cur h{p, c.i + size_t(hl), c.i, c.swap};
    int64_t ds = h.i64();
    if (ds < 0) throw RefErr("negative data size");
    if (h.i64() != 0) throw RefErr("previous frame offset not zero");
    f.nrows = h.i64();
    if (f.nrows < 0) throw RefErr("negative row count");
    int32_t nf = h.i32();
    if (nf < 0) throw RefErr("negative flag count");
    for (int i = 0; i < nf; i++) f.flags.push_back(h.f64());
    int32_t np = h.i32();
    if (np < 0) throw RefErr("negative property count");
    for (int i = 0; i < np; i++) {
        std::string k = h.str(), v = h.str();
        if (strict && f.props.count(k)) throw RefErr("duplicate property");
        f.props.emplace(k, v);
    }
    int32_t nc = h.i32();
    if (nc < 0) throw RefErr("negative column count");
    for (int i = 0; i < nc; i++) {
        RefCol k;
        k.name = h.str();
        k.type = h.i32();
        if (k.type < 1 || k.type > 5) throw RefErr("column type " + std::to_string(k.type));
        if (k.type == BITFIELD) {
            int32_t a = h.i32();
            if (a < 0) throw RefErr("negative bitfield count");
            std::vector<std::string> nm;
            for (int j = 0; j < a; j++) nm.push_back(h.str());
            int32_t b = h.i32();
            if (a != b) throw RefErr("bitfield names and sizes differ in number");
            for (int j = 0; j < b; j++) k.bits.push_back({nm[size_t(j)], h.i32()});
        }
        k.codec     = h.str();
        int32_t hm  = h.i32();
        if (hm != 0 && hm != 1) throw RefErr("missing flag " + std::to_string(hm));
        k.hasMissing = hm != 0;
        if (k.codec == "constant_string") {
            k.min = h.f64raw();
            k.max = h.f64raw();
        }
        else {
            k.min = h.f64();
            k.max = h.f64();
        }
        k.mdi = h.f64();
        if (k.codec == "chars") {
            if (h.i32() != 0) throw RefErr("chars with a string table");
        }
        else if (k.codec == "int8_string" || k.codec == "int16_string") {
            int32_t ns = h.i32();
            if (ns < 0) throw RefErr("negative string table size");
            if (strict && ns > (k.codec == "int8_string" ? 256 : 65536)) throw RefErr("string table too large for " + k.codec);
            k.table.resize(size_t(ns));
            std::vector<char> seen(size_t(ns), 0);
            for (int j = 0; j < ns; j++) {
                std::string s = h.str();
                h.i32();
                int32_t ix = h.i32();
                if (ix < 0 || ix >= ns) throw RefErr("string table index out of range");
                if (strict && seen[size_t(ix)]) throw RefErr("string table index used twice");
                seen[size_t(ix)] = 1;
                k.table[size_t(ix)] = s;
                if (!s.empty()) k.width = std::max(k.width, (s.size() + 7) / 8 * 8);
            }
        }
        else if (k.codec == "long_constant_string") {
            k.longConst = h.str();
            if (!k.longConst.empty()) k.width = (k.longConst.size() + 7) / 8 * 8;
        }
        bool isStr = k.type == STRING;
        if (isStr) {
            if (k.codec != "constant_string" && k.codec != "chars" && k.codec != "int8_string" && k.codec != "int16_string" &&
                k.codec != "long_constant_string")
                throw RefErr("string column stored as " + k.codec);
        }
        else if (!numericCodec(k.codec))
            throw RefErr("numeric column stored as '" + k.codec + "'");
        f.cols.push_back(k);
    }
    if (h.i != c.i + size_t(hl)) throw RefErr("header length " + std::to_string(hl) + " but content ends after " + std::to_string(h.i - c.i));
    f.headerLen = h.i - off;
    f.dataLen   = size_t(ds);
    if (n - h.i < size_t(ds)) throw RefErr("data size exceeds the file");
    f.len = f.headerLen + f.dataLen;

    // row data
    Cur d{p, h.i + size_t(ds), h.i, c.swap};
    f.tab.n     = size_t(f.nrows);
    f.tab.props = f.props;
    for (auto& k : f.cols) {
        Col q;
        q.name  = k.name;
        q.type  = k.type;
        q.bits  = k.bits;
        q.width = k.width;
        q.style = k.codec;
        f.tab.c.push_back(q);
    }
    std::vector<double> last(f.cols.size());
    std::vector<std::string> lastS(f.cols.size());
    for (size_t i = 0; i < f.cols.size(); i++) last[i] = f.cols[i].mdi;
    for (int64_t r = 0; r < f.nrows; r++) {
        d.need(2);
        size_t sc = size_t(p[d.i]) * 256 + p[d.i + 1];
        d.i += 2;
        if (sc > f.cols.size()) throw RefErr("row marker beyond the last column");
        f.startCols.push_back(int(sc));
        for (size_t i = sc; i < f.cols.size(); i++) {
            const RefCol& k = f.cols[i];
            if (k.type == STRING) {
                std::string s;
                if (k.codec == "constant_string") {
                    char b[8];
                    memcpy(b, &k.min, 8);
                    s = std::string(b, strnlen(b, 8));
                }
                else if (k.codec == "chars") {
                    d.need(8);
                    const char* q = reinterpret_cast<const char*>(p + d.i);
                    s             = std::string(q, strnlen(q, 8));
                    d.i += 8;
                }
                else if (k.codec == "long_constant_string")
                    s = k.longConst;
                else {
                    size_t ix;
                    if (k.codec == "int8_string") {
                        d.need(1);
                        ix = p[d.i++];
                    }
                    else {
                        uint16_t v;
                        d.num(&v, 2);
                        ix = v;
                    }
                    if (ix >= k.table.size()) throw RefErr("string index " + std::to_string(ix) + " outside the table");
                    s = k.table[ix];
                }
                s        = s.substr(0, strnlen(s.c_str(), s.size()));
                lastS[i] = s;
            }
            else {
                double v;
                if (k.codec == "constant")
                    v = k.min;
                else if (k.codec == "constant_or_missing" || k.codec == "real_constant_or_missing") {
                    d.need(1);
                    unsigned b = p[d.i++];
                    if (strict && b != 0 && b != 255) throw RefErr("constant_or_missing byte " + std::to_string(b));
                    v = b == 255 ? k.mdi : k.min + b;
                }
                else if (k.codec == "long_real")
                    v = d.f64();
                else if (k.codec == "short_real" || k.codec == "short_real2") {
                    uint32_t w;
                    d.num(&w, 4);
                    if (w == (k.codec == "short_real" ? 0x00800000u : 0xff7fffffu))
                        v = k.mdi;
                    else {
                        float q;
                        memcpy(&q, &w, 4);
                        v = q;
                    }
                }
                else if (k.codec == "int8" || k.codec == "int8_missing") {
                    d.need(1);
                    unsigned b = p[d.i++];
                    v          = (k.codec == "int8_missing" && b == 255) ? k.mdi : k.min + b;
                }
                else if (k.codec == "int16" || k.codec == "int16_missing") {
                    uint16_t b;
                    d.num(&b, 2);
                    v = (k.codec == "int16_missing" && b == 65535) ? k.mdi : k.min + b;
                }
                else
                    v = d.i32();
                if (strict && v == k.mdi && !k.hasMissing) throw RefErr("missing cell in column " + k.name.substr(0, 40) + " whose missing flag is not set");
                if (strict && v != k.mdi && v == v && k.codec != "constant" && (v < k.min || v > k.max)) {
                    // REAL ranges are recorded before rounding to single precision
                    double lo = k.min, hi = k.max;
                    if (k.type == REAL) {
                        lo = std::min(lo, double(float(lo)));
                        hi = std::max(hi, double(float(hi)));
                    }
                    if (v < lo || v > hi) throw RefErr("cell outside the recorded range of column " + k.name.substr(0, 40));
                }
                last[i] = v;
            }
        }
        for (size_t i = 0; i < f.cols.size(); i++) {
            Col& q = f.tab.c[i];
            if (q.isStr()) {
                q.s.push_back(lastS[i]);
                q.miss.push_back(0);
            }
            else {
                q.d.push_back(last[i]);
                q.miss.push_back(last[i] == f.cols[i].mdi);
            }
        }
    }
    if (d.i != h.i + size_t(ds)) throw RefErr("data size " + std::to_string(ds) + " but the rows take " + std::to_string(d.i - h.i) + " bytes");
    return f;
}

std::vector<RefFrame> refParse(const Bytes& b, bool strict) {
    std::vector<RefFrame> v;
    size_t off = 0;
    while (off < b.size()) {
        v.push_back(refParseFrame(b.data(), b.size(), off, strict));
        off += v.back().len;
    }
    return v;
}
Tab refConcat(const std::vector<RefFrame>& v) {
    Tab t;
    for (auto& f : v) t.append(f.tab);
    return t;
}

// ---- writer ---------------------------------------------------------------------------------------------------
static double mdiOf(const Col& c, const RefWrite& w, size_t idx) {
    if (idx < w.mdi.size()) return w.mdi[idx];
    return c.isInt() ? w.intMissing : w.realMissing;
}

std::vector<std::string> refCodecsFor(const Col& c, const RefWrite& w, size_t idx) {
    std::vector<std::string> v;
    if (c.isStr()) {
        std::set<std::string> dist(c.s.begin(), c.s.end());
        size_t ml = 0;
        for (auto& s : dist) ml = std::max(ml, s.size());
        if (dist.size() <= 1 && ml <= 8) v.push_back("constant_string");
        if (dist.size() <= 1 && ml >= 1) v.push_back("long_constant_string");
        if (ml <= 8) v.push_back("chars");
        if (dist.size() <= 256) v.push_back("int8_string");
        if (dist.size() <= 65536) v.push_back("int16_string");
        return v;
    }
    double mdi = mdiOf(c, w, idx);
    bool anyMiss = false, anyVal = false, allInt = true, fits32 = true, fitsFloat = true, hasF1 = false, hasF2 = false;
    double mn = 0, mx = 0;
    for (size_t i = 0; i < c.d.size(); i++) {
        if (c.miss[i]) {
            anyMiss = true;
            continue;
        }
        double x = c.d[i];
        if (!anyVal) mn = mx = x;
        anyVal = true;
        mn     = std::min(mn, x);
        mx     = std::max(mx, x);
        if (!(x == std::floor(x)) || std::fabs(x) > 9e15) allInt = false;
        if (!(x >= -2147483648.0 && x <= 2147483647.0)) fits32 = false;
        if (double(float(x)) != x) fitsFloat = false;
        if (float(x) == FLT_MIN) hasF1 = true;
        if (float(x) == -FLT_MAX) hasF2 = true;
    }
    bool constant = !anyVal || mn == mx;
    if (c.isInt()) {
        if (constant && !(anyMiss && anyVal)) v.push_back("constant");
        if (constant) v.push_back("constant_or_missing");
        if (allInt && fits32 && (!anyMiss || (mdi >= -2147483648.0 && mdi <= 2147483647.0))) v.push_back("int32");
        if (allInt && mx - mn < 256 && !anyMiss) v.push_back("int8");
        if (allInt && mx - mn < 65536 && !anyMiss) v.push_back("int16");
        if (allInt && mx - mn < 255) v.push_back("int8_missing");
        if (allInt && mx - mn < 65535) v.push_back("int16_missing");
    }
    else {
        if (constant && !(anyMiss && anyVal)) v.push_back("constant");
        if (constant) v.push_back("real_constant_or_missing");
        v.push_back("long_real");
        if (fitsFloat && !hasF1) v.push_back("short_real");
        if (fitsFloat && !hasF2) v.push_back("short_real2");
    }
    return v;
}

Bytes refAssemble(bool big, int minor, const Bytes& varHeader, const Bytes& data) {
    RawBuf o(big);
    o.raw("\xff\xffODA", 5);
    o.i32(1);
    o.i32(0);
    o.i32(minor);
    o.str(md5hex(varHeader.data(), varHeader.size()));
    o.i32(int32_t(varHeader.size()));
    o.raw(varHeader.data(), varHeader.size());
    o.raw(data.data(), data.size());
    return o.b;
}

Bytes refWriteFrame(Rng& r, const Tab& t, RefWrite& w, Tab* expected) {
    size_t nc = t.c.size();
    w.chosen.clear();
    struct Plan {
        std::string codec;
        double mdi = 0, base = 0, mn = 0, mx = 0;
        bool hm = false;
        std::vector<std::string> table;
        std::map<std::string, size_t> ix;
    };
    std::vector<Plan> P(nc);
    for (size_t i = 0; i < nc; i++) {
        const Col& c = t.c[i];
        Plan& p      = P[i];
        p.codec      = i < w.codecs.size() && !w.codecs[i].empty() ? w.codecs[i] : r.pick(refCodecsFor(c, w, i));
        w.chosen.push_back(p.codec);
        if (c.isStr()) {
            p.mdi = r.chance(1, 2) ? 2147483647.0 : 0.0;
            std::set<std::string> dist(c.s.begin(), c.s.end());
            p.table.assign(dist.begin(), dist.end());
            if (w.extraTable && p.table.size() < 200) {
                for (size_t k = r.below(3); k > 0; k--) {
                    std::string s = "unused" + std::to_string(k);
                    if (!dist.count(s)) p.table.push_back(s);
                }
            }
            if (w.shuffleTables)
                for (size_t k = p.table.size(); k > 1; k--) std::swap(p.table[k - 1], p.table[r.below(k)]);
            for (size_t k = 0; k < p.table.size(); k++) p.ix[p.table[k]] = k;
            continue;
        }
        p.mdi = mdiOf(c, w, i);
        bool any = false;
        for (size_t k = 0; k < t.n; k++) {
            if (c.miss[k]) {
                p.hm = true;
                continue;
            }
            if (!any) p.mn = p.mx = c.d[k];
            any  = true;
            p.mn = std::min(p.mn, c.d[k]);
            p.mx = std::max(p.mx, c.d[k]);
        }
        if (!any) p.mn = p.mx = p.mdi;
        p.base = p.mn;
        // storage with an offset may use any base that keeps the codes in range
        double room = 0;
        if (p.codec == "int8") room = 255 - (p.mx - p.mn);
        if (p.codec == "int16") room = 65535 - (p.mx - p.mn);
        if (p.codec == "int8_missing") room = 254 - (p.mx - p.mn);
        if (p.codec == "int16_missing") room = 65534 - (p.mx - p.mn);
        if (any && w.randomMinMax && room > 0 && r.chance(1, 2)) {
            p.base -= double(r.range(0, int64_t(std::min(room, 1000.0))));
            p.mx += double(r.range(0, 3));
        }
        else if (any && w.randomMinMax && (p.codec == "int32" || p.codec == "long_real") && r.chance(1, 2)) {
            p.base -= 1;
            p.mx += 1;
        }
        if (w.randomMinMax && r.chance(1, 4)) p.hm = true;
    }
    RawBuf data(w.big);
    for (size_t k = 0; k < t.n; k++) {
        size_t first = 0;
        auto same = [&](size_t i) {
            const Col& c = t.c[i];
            if (k == 0) return !c.isStr() && c.miss[0] && w.skipLeading;
            if (c.isStr()) return c.s[k] == c.s[k - 1];
            if (c.miss[k] || c.miss[k - 1]) return bool(c.miss[k]) == bool(c.miss[k - 1]);
            return memcmp(&c.d[k], &c.d[k - 1], 8) == 0;
        };
        while (first < nc && same(first)) first++;
        size_t start = first;
        if (w.markers == 1) start = 0;
        if (w.markers == 2) start = r.below(first + 1);
        data.b.push_back((unsigned char)(start / 256));
        data.b.push_back((unsigned char)(start % 256));
        for (size_t i = start; i < nc; i++) {
            const Col& c  = t.c[i];
            const Plan& p = P[i];
            if (c.isStr()) {
                if (p.codec == "chars") {
                    char b[8] = {0, 0, 0, 0, 0, 0, 0, 0};
                    memcpy(b, c.s[k].data(), std::min<size_t>(8, c.s[k].size()));
                    data.raw(b, 8);
                }
                else if (p.codec == "int8_string")
                    data.b.push_back((unsigned char)(p.ix.at(c.s[k])));
                else if (p.codec == "int16_string")
                    data.i16(int32_t(p.ix.at(c.s[k])));
                continue;
            }
            double v = c.miss[k] ? p.mdi : c.d[k];
            if (p.codec == "constant")
                ;
            else if (p.codec == "constant_or_missing" || p.codec == "real_constant_or_missing")
                data.b.push_back(c.miss[k] ? 255 : 0);
            else if (p.codec == "long_real")
                data.f64(v);
            else if (p.codec == "short_real" || p.codec == "short_real2") {
                if (c.miss[k]) {
                    uint32_t m = p.codec == "short_real" ? 0x00800000u : 0xff7fffffu;
                    data.num(&m, 4);
                }
                else
                    data.f32(float(v));
            }
            else if (p.codec == "int32")
                data.i32(int32_t(v));
            else if (p.codec == "int8" || p.codec == "int8_missing")
                data.b.push_back(c.miss[k] ? 255 : (unsigned char)(v - p.base));
            else if (p.codec == "int16" || p.codec == "int16_missing")
                data.i16(c.miss[k] ? 65535 : int32_t(v - p.base));
            else
                throw std::runtime_error("refWriteFrame: codec " + p.codec);
        }
    }
    RawBuf h(w.big);
    h.i64(int64_t(data.b.size()));
    h.i64(0);
    h.i64(int64_t(t.n));
    h.i32(w.nflags);
    for (int i = 0; i < w.nflags; i++) h.f64(i ? r.unit() : 0.0);
    h.i32(int32_t(t.props.size()));
    for (auto& kv : t.props) {
        h.str(kv.first);
        h.str(kv.second);
    }
    h.i32(int32_t(nc));
    for (size_t i = 0; i < nc; i++) {
        const Col& c  = t.c[i];
        const Plan& p = P[i];
        h.str(c.name);
        h.i32(c.type);
        if (c.type == BITFIELD) {
            h.i32(int32_t(c.bits.size()));
            for (auto& b : c.bits) h.str(b.first);
            h.i32(int32_t(c.bits.size()));
            for (auto& b : c.bits) h.i32(b.second);
        }
        h.str(p.codec);
        h.i32(p.hm ? 1 : 0);
        if (c.isStr()) {
            char b[8] = {0, 0, 0, 0, 0, 0, 0, 0};
            if (p.codec == "constant_string" && t.n) memcpy(b, c.s[0].data(), std::min<size_t>(8, c.s[0].size()));
            if (p.codec == "constant_string") {
                h.raw(b, 8);
                h.raw(b, 8);
            }
            else {
                h.f64(p.mdi);
                h.f64(p.mdi);
            }
            h.f64(p.mdi);
            if (p.codec == "chars")
                h.i32(0);
            else if (p.codec == "long_constant_string")
                h.str(t.n ? c.s[0] : "x");
            else if (p.codec != "constant_string") {
                h.i32(int32_t(p.table.size()));
                std::vector<size_t> ord;
                for (size_t k = 0; k < p.table.size(); k++) ord.push_back(k);
                if (w.shuffleTables)
                    for (size_t k = ord.size(); k > 1; k--) std::swap(ord[k - 1], ord[r.below(k)]);
                for (size_t k : ord) {
                    h.str(p.table[k]);
                    h.i32(int32_t(r.below(5)));
                    h.i32(int32_t(k));
                }
            }
        }
        else {
            h.f64(p.codec == "constant" || p.codec == "constant_or_missing" || p.codec == "real_constant_or_missing" ? p.mn : p.base);
            h.f64(p.codec == "constant" || p.codec == "constant_or_missing" || p.codec == "real_constant_or_missing" ? p.mn : p.mx);
            h.f64(p.mdi);
        }
    }
    if (expected) {
        *expected = t;
        for (size_t i = 0; i < nc; i++) {
            Col& c  = expected->c[i];
            c.style = P[i].codec;
            if (c.isStr()) {
                c.width = 8;
                if (P[i].codec == "int8_string" || P[i].codec == "int16_string")
                    for (auto& s : P[i].table) c.width = std::max(c.width, (s.size() + 7) / 8 * 8);
                if (P[i].codec == "long_constant_string" && t.n) c.width = std::max<size_t>(8, (c.s[0].size() + 7) / 8 * 8);
            }
        }
    }
    return refAssemble(w.big, w.minor, h.b, data.b);
}

}  // namespace odv
