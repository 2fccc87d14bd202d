#include "odv.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cfloat>
#include <chrono>

namespace odv {

// ---- random -------------------------------------------------------------------------------------------------
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
Rng::Rng(uint64_t a, uint64_t b, uint64_t c) {
    uint64_t x = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x1234567) * 0xc2b2ae3d27d4eb4fULL ^ (c * 0x165667b19e3779f9ULL);
    s[0] = splitmix(x);
    s[1] = splitmix(x);
    if (!s[0] && !s[1]) s[0] = 1;
}
uint64_t Rng::next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
}
int64_t Rng::range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    uint64_t span = uint64_t(hi) - uint64_t(lo) + 1;
    return lo + int64_t(span ? next() % span : next());
}
uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

// ---- model --------------------------------------------------------------------------------------------------
void Col::resize(size_t n) {
    if (isStr())
        s.resize(n);
    else
        d.resize(n, 0.0);
    miss.resize(n, 0);
}
void Col::push(const Col& o, size_t r) {
    if (isStr())
        s.push_back(o.s[r]);
    else
        d.push_back(o.d[r]);
    miss.push_back(o.miss[r]);
}
int Tab::find(const std::string& nm) const {
    for (size_t i = 0; i < c.size(); i++)
        if (c[i].name == nm) return int(i);
    return -1;
}
Tab Tab::slice(size_t from, size_t count) const {
    std::vector<size_t> v;
    for (size_t i = 0; i < count; i++) v.push_back(from + i);
    return rows(v);
}
Tab Tab::rows(const std::vector<size_t>& idx) const {
    Tab t;
    t.n     = idx.size();
    t.props = props;
    for (auto& col : c) {
        Col k;
        k.name  = col.name;
        k.type  = col.type;
        k.bits  = col.bits;
        k.width = col.width;
        k.style = col.style;
        for (size_t r : idx) k.push(col, r);
        t.c.push_back(k);
    }
    return t;
}
void Tab::append(const Tab& o) {
    if (c.empty() && n == 0) {
        *this = o;
        return;
    }
    for (auto& col : c) {
        int k = o.find(col.name);
        if (k < 0) throw std::runtime_error("append: no column " + col.name);
        for (size_t r = 0; r < o.n; r++) col.push(o.c[k], r);
        col.width = std::max(col.width, o.c[k].width);
    }
    n += o.n;
}
Tab concat(const std::vector<Tab>& v) {
    Tab t;
    for (auto& x : v) t.append(x);
    return t;
}

size_t rowClass(size_t n) {
    if (n < 4) return n;
    size_t k = 4;
    while (n > 8) {
        n >>= 1;
        k++;
    }
    return k;
}

std::string hex(const void* p, size_t n, size_t max) {
    std::string s;
    char b[4];
    const unsigned char* u = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n && i < max; i++) {
        snprintf(b, sizeof b, "%02x", u[i]);
        s += b;
    }
    if (n > max) s += "...";
    return s;
}
std::string show(const std::string& s, size_t max) {
    std::string o = "'";
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char ch = s[i];
        if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", ch);
            o += b;
        }
        else
            o += char(ch);
    }
    if (s.size() > max) o += "...(" + std::to_string(s.size()) + ")";
    return o + "'";
}

// ---- generators ---------------------------------------------------------------------------------------------
std::string genString(Rng& r, size_t minLen, size_t maxLen, bool simple) {
    size_t len = size_t(r.range(int64_t(minLen), int64_t(maxLen)));
    std::string s;
    int kind = int(r.below(4));
    for (size_t i = 0; i < len; i++) {
        if (simple)
            s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[r.below(63)];
        else if (kind == 0)
            s += char(r.range(1, 255));
        else if (kind == 1)
            s += "ab"[r.below(2)];
        else
            s += char(r.range(33, 126));
    }
    return s;
}

std::string uniqueName(Rng& r, std::set<std::string>& used, const GenOpts& o) {
    for (;;) {
        std::string n;
        int k = o.weirdNames ? int(r.below(12)) : 0;
        if (k <= 6)
            n = genString(r, 1, 10, true);
        else if (k == 7)
            n = genString(r, 30, 70, true);
        else if (k == 8)
            n = genString(r, 1, 3, true) + "." + genString(r, 1, 3, true);
        else if (k == 9)
            n = genString(r, 1, 4, true) + " " + genString(r, 1, 4, true);
        else if (k == 10)
            n = genString(r, 200, 300, true);
        else
            n = genString(r, 1, 2, true);
        if (!o.weirdNames && !isalpha(n[0])) n = "c" + n;
        std::string low = n;
        for (auto& ch : low) ch = char(tolower(ch));
        if (used.count(low)) continue;
        used.insert(low);
        if (!o.suffix.empty())
            n += o.suffix;
        else if (o.weirdNames && r.chance(1, 2))
            n += r.chance(1, 2) ? "@hdr" : "@body";
        return n;
    }
}

static const int64_t SPANS[] = {0,   1,   2,     3,     126,   127,   128,   252,     253,      254,       255,        256,
                                257, 300, 32766, 32767, 32768, 65532, 65533, 65534, 65535,    65536,     65537,      100000,
                                1LL << 24, (1LL << 31) - 1, 1LL << 31, (1LL << 32) - 3};

static void placeMissing(Rng& r, Col& c, size_t n) {
    if (!n) return;
    switch (r.below(7)) {
        case 0: {  // leading
            size_t k = r.below(n) + 1;
            for (size_t i = 0; i < k; i++) c.miss[i] = 1;
            break;
        }
        case 1: {  // trailing
            size_t k = r.below(n) + 1;
            for (size_t i = 0; i < k; i++) c.miss[n - 1 - i] = 1;
            break;
        }
        case 2:
            for (size_t i = 0; i < n; i += 2) c.miss[i] = 1;
            break;
        case 3:
            c.miss[r.below(n)] = 1;
            break;
        case 4:
            for (size_t i = 0; i < n; i++) c.miss[i] = r.chance(1, 20);
            break;
        case 5:
            for (size_t i = 0; i < n; i++) c.miss[i] = r.chance(9, 10);
            break;
        default: {  // a block
            size_t a = r.below(n), b = r.below(n);
            for (size_t i = std::min(a, b); i <= std::max(a, b); i++) c.miss[i] = 1;
        }
    }
}

static void hold(Rng& r, Col& c, size_t n) {
    if (!r.chance(1, 3)) return;
    int den = r.pick(std::vector<int>{2, 5, 30, 1000});
    for (size_t i = 1; i < n; i++)
        if (!r.chance(1, den)) {
            if (c.isStr())
                c.s[i] = c.s[i - 1];
            else
                c.d[i] = c.d[i - 1];
            c.miss[i] = c.miss[i - 1];
        }
}

// no present value equals the missing marker of its kind (in REAL columns: nor is stored as the same float)
void avoidMarkers(Col& c, double im, double rm) {
    if (c.isStr()) return;
    for (size_t i = 0; i < c.d.size(); i++) {
        double& v = c.d[i];
        auto bad  = [&](double x) { return c.isInt() ? x == im : (x == rm || (c.type == REAL && float(x) == float(rm))); };
        if (!bad(v)) continue;
        if (c.isInt() && c.type == INTEGER && !bad(im - 1) && im > -2147483648.0)
            v = im - 1;
        else
            for (double x : {3.0, 5.0})
                if (!bad(x)) {
                    v = x;
                    break;
                }
    }
}

void genCells(Rng& r, Col& c, size_t n, const GenOpts& o) {
    c.d.clear();
    c.s.clear();
    c.miss.clear();
    c.resize(n);
    if (c.isInt()) {
        const int64_t LO = (c.type == BITFIELD && !o.negBitfields) ? 0 : -2147483648LL;
        const int64_t HI = 2147483646LL;
        int st           = int(r.below(10));
        int64_t base = 0, span = 0;
        if (st == 0)
            c.style = "iconst";
        else if (st <= 5) {
            span    = SPANS[r.below(sizeof(SPANS) / sizeof(SPANS[0]))];
            c.style = "ispan" + std::to_string(span);
        }
        else if (st == 6)
            c.style = "iextreme";
        else if (st == 7) {
            span    = r.range(1, 20);
            c.style = "ismall";
        }
        else if (st == 8)
            c.style = "isorted";
        else
            c.style = "inear";
        span = std::min(span, HI - LO);
        switch (r.below(5)) {
            case 0:
                base = LO;
                break;
            case 1:
                base = HI - span;
                break;
            case 2:
                base = std::max(LO, -span / 2);
                break;
            case 3:
                base = 0;
                break;
            default:
                base = r.range(LO, HI - span);
        }
        base = std::max(LO, std::min(base, HI - span));
        static const int64_t NEAR[] = {2147483646, 2147483645, -2147483647, -2147483648LL, 0, 255, 254, 65535, 65534, -1, 1};
        int64_t cur                 = r.range(std::max<int64_t>(LO, -1000000), 1000000);
        for (size_t i = 0; i < n; i++) {
            int64_t v;
            if (c.style == "iextreme")
                v = r.chance(1, 2) ? (r.chance(1, 2) ? LO : HI) : r.range(LO, HI);
            else if (c.style == "isorted")
                v = cur = std::min(HI, cur + r.range(0, 3));
            else if (c.style == "inear")
                v = NEAR[r.below(11)];
            else
                v = base + r.range(0, span);
            v      = std::max(LO, std::min(HI, v));
            c.d[i] = double(v);
        }
        if (st >= 1 && st <= 5 && n >= 2) {  // both ends of the range really occur
            size_t a = r.below(n), b = r.below(n);
            if (a == b) b = (a + 1) % n;
            c.d[a] = double(base);
            c.d[b] = double(base + span);
            if (o.missing && r.chance(1, 2)) {
                placeMissing(r, c, n);
                if (n > 2) c.miss[a] = c.miss[b] = 0;
                c.style += "m";
            }
            if (n > 2) {
                if (c.miss[a] == 0 && r.chance(1, 3)) {
                    std::vector<double> d0 = c.d;
                    hold(r, c, n);
                    c.d[a] = double(base);
                    c.d[b] = double(base + span);
                    c.miss[a] = c.miss[b] = 0;
                }
            }
        }
        else {
            if (o.missing && r.chance(1, 3)) {
                placeMissing(r, c, n);
                c.style += "m";
            }
            hold(r, c, n);
        }
        if (o.missing && r.chance(1, 25)) {
            std::fill(c.miss.begin(), c.miss.end(), 1);
            c.style = "iallmiss";
        }
        avoidMarkers(c, o.intMissing, o.realMissing);
        return;
    }
    if (!c.isStr()) {
        bool real = c.type == REAL;
        static const double SP[]  = {0.0, -0.0, 1.0, -1.0, 0.1, 1e-300, -1e300, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, 2147483647.0,
                                    -2147483646.0, -2147483648.0, 3.4028234663852886e38, 1.1754943508222875e-38, 1e10, -273.15};
        static const double SPF[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1e-30, -1e30, 3.4e38, -3.4e38, 1.2e-38, 1e-40, 2147483000.0, -2147483000.0,
                                     1e10, -273.15, 3.4028232635611926e38, 2.3509887016445750e-38};
        int st = int(r.below(8));
        double base = real ? double(float((r.unit() - 0.5) * 1e4)) : (r.unit() - 0.5) * 1e4;
        double k = r.chance(1, 2) ? (real ? SPF[r.below(17)] : SP[r.below(18)]) : base;
        bool dm = r.chance(1, 3);
        for (size_t i = 0; i < n; i++) {
            double v;
            switch (st) {
                case 0:
                    v       = k;
                    c.style = "rconst";
                    break;
                case 1:
                    v       = real ? SPF[r.below(17)] : SP[r.below(18)];
                    c.style = "rspecial";
                    break;
                case 2: {
                    c.style = "rbits";
                    for (;;) {
                        uint64_t b = r.next();
                        memcpy(&v, &b, 8);
                        if (real) {
                            uint32_t w = uint32_t(b);
                            float f;
                            memcpy(&f, &w, 4);
                            v = f;
                        }
                        if (std::isfinite(v)) break;
                    }
                    break;
                }
                case 3:
                    v       = double(r.range(-1000, 1000));
                    c.style = "rint";
                    break;
                case 4:
                    v       = base + double(i) * 0.25;
                    c.style = "rramp";
                    break;
                case 5:
                    v       = k + (r.chance(1, 2) ? 0 : 1);
                    c.style = "rtwo";
                    break;
                default:
                    v       = (r.unit() - 0.5) * std::pow(10.0, double(r.range(-20, 20)));
                    c.style = "rrand";
            }
            if (real && dm) v = double(float(v));
            c.d[i] = v;
        }
        if (o.missing && r.chance(1, 3)) {
            placeMissing(r, c, n);
            c.style += "m";
        }
        hold(r, c, n);
        if (o.missing && r.chance(1, 25)) {
            std::fill(c.miss.begin(), c.miss.end(), 1);
            c.style = "rallmiss";
        }
        for (size_t i = 0; i < n; i++) {
            if (real) {
                // the two single precision values reserved by the storage cannot be represented next to each other
                // (encoding reports an error): kept for the dedicated probes
                float f = float(c.d[i]);
                if (f == -FLT_MAX || f == FLT_MAX || f == FLT_MIN || !std::isfinite(f)) c.d[i] = 1.5;
            }
        }
        avoidMarkers(c, o.intMissing, o.realMissing);
        return;
    }
    // strings
    {
        std::vector<size_t> LENS{0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 64};
        size_t maxLen = o.wide ? LENS[r.below(LENS.size())] : r.below(9);
        if (o.wide && r.chance(1, 40)) maxLen = size_t(r.range(200, 1200));
        if (o.simpleStrings && maxLen == 0) maxLen = 3;
        size_t minLen = o.nonEmptyStrings ? 1 : 0;
        maxLen        = std::max(maxLen, minLen);
        bool simple   = o.simpleStrings;
        int st        = int(r.below(8));
        size_t ndist;
        if (st <= 1) {
            ndist   = 1;
            c.style = "sconst";
        }
        else if (st <= 3) {
            ndist   = size_t(r.range(2, 6));
            c.style = "sfew";
        }
        else if (st == 4) {
            ndist   = n ? n : 1;
            c.style = "suniq";
        }
        else if (st == 5 && o.bigDict) {
            ndist   = r.pick(std::vector<size_t>{254, 255, 256, 257, 300, 600});
            c.style = "sdict" + std::to_string(ndist);
        }
        else if (st == 6) {
            ndist   = size_t(r.range(2, 5));
            c.style = "sprefix";
        }
        else {
            ndist   = size_t(r.range(2, 30));
            c.style = "smany";
        }
        std::vector<std::string> dict;
        std::string pre = genString(r, 8, 8, simple);
        std::set<std::string> seen;
        size_t tries = 0;
        while (dict.size() < ndist && tries++ < ndist * 4 + 50) {
            std::string s;
            if (c.style == "sprefix")
                s = pre + genString(r, 0, 12, simple);
            else if (c.style.compare(0, 5, "sdict") == 0 || c.style == "suniq") {
                s = std::to_string(dict.size());
                if (maxLen > s.size() && r.chance(1, 2)) s += genString(r, 0, maxLen - s.size(), simple);
            }
            else
                s = genString(r, r.chance(1, 2) ? maxLen : minLen, maxLen, simple);
            if (s.empty() && o.nonEmptyStrings) continue;
            if (seen.insert(s).second) dict.push_back(s);
        }
        if (dict.empty()) dict.push_back(o.nonEmptyStrings ? "x" : "");
        for (size_t i = 0; i < n; i++) {
            if (c.style == "suniq" || c.style.compare(0, 5, "sdict") == 0)
                c.s[i] = dict[i % dict.size()];
            else
                c.s[i] = dict[r.below(dict.size())];
        }
        if (c.style.compare(0, 5, "sdict") != 0 && c.style != "suniq") hold(r, c, n);
        size_t w = 1;
        for (auto& s : c.s) w = std::max(w, s.size());
        c.width = ((w + 7) / 8) * 8;
        if (o.wide && r.chance(1, 4)) c.width += 8 * r.range(1, 3);
        if (c.width > 8) c.style += "W";
        if (w == c.width) c.style += "F";
        std::fill(c.miss.begin(), c.miss.end(), 0);
    }
}

void genProps(Rng& r, Tab& t) {
    if (r.chance(1, 2)) return;
    size_t n = r.chance(1, 20) ? size_t(r.range(20, 200)) : r.below(5);
    for (size_t i = 0; i < n; i++) {
        std::string k = genString(r, 0, 12), v = genString(r, 0, r.chance(1, 10) ? 5000 : 20);
        if (k == "encoder") continue;
        t.props[k] = v;
    }
}

Tab genTable(Rng& r, const GenOpts& o) {
    Tab t;
    t.n = size_t(r.range(int64_t(o.minRows), int64_t(o.maxRows)));
    if (o.minRows <= 1 && r.chance(1, 12)) t.n = o.minRows;
    if (o.maxRows >= 2 && r.chance(1, 12)) t.n = std::max<size_t>(o.minRows, 2);
    size_t nc = size_t(r.range(int64_t(o.minCols), int64_t(o.maxCols)));
    size_t still = 0;  // columns which rarely change
    uint64_t change = 200;
    if (o.manyCols && r.chance(1, o.manyCols)) {
        nc    = size_t(r.range(257, 620));
        still = size_t(r.range(r.chance(1, 2) ? 250 : 200, int64_t(nc)));
        change = r.chance(1, 2) ? 200 : 5000;
        if (r.chance(1, 3)) {  // around the bytes of the row markers
            still = std::min(nc - 1, size_t(256 * r.range(1, 2) - r.range(0, 2)));
            change = 100000;
        }
        t.n   = std::min(t.n, std::max<size_t>(o.minRows, 12));
    }
    std::set<std::string> used;
    for (size_t i = 0; i < nc; i++) {
        Col c;
        for (;;) {
            c.type = int(r.range(1, 5));
            if (c.type == STRING && !o.strings) continue;
            if (c.type == BITFIELD && !o.bitfields) continue;
            if ((c.type == REAL || c.type == DOUBLE) && !o.reals) continue;
            break;
        }
        c.name = uniqueName(r, used, o);
        if (c.type == BITFIELD && r.chance(4, 5)) {
            int total = 0;
            std::set<std::string> bu;
            int nb = int(r.range(1, r.chance(1, 10) ? 32 : 6));
            for (int b = 0; b < nb && total < 31; b++) {
                int sz = nb > 8 ? 1 : int(r.range(1, std::min(8, 31 - total)));
                GenOpts bo;
                bo.weirdNames = false;
                c.bits.push_back({uniqueName(r, bu, bo), sz});
                total += sz;
            }
        }
        genCells(r, c, t.n, o);
        if (still && i >= still && i < still + 3 && change == 100000 && c.type != BITFIELD)
            for (size_t k = 0; k < t.n; k++)
                if (c.isStr()) c.s[k] = k % 2 ? "a" : "b";
                else c.d[k] = double(k + 10), c.miss[k] = 0;
        if (c.type == BITFIELD && !c.bits.empty() && r.chance(1, 2)) {
            int total = 0;
            for (auto& b : c.bits) total += b.second;
            if (total < 31)
                for (size_t k = 0; k < t.n; k++)
                    if (c.d[k] > 0) c.d[k] = double(int64_t(c.d[k]) & ((1LL << total) - 1));
            avoidMarkers(c, o.intMissing, o.realMissing);
        }
        if (i < still && !r.chance(1, change))
            for (size_t k = 1; k < t.n; k++) {
                if (c.isStr()) c.s[k] = c.s[0];
                else c.d[k] = c.d[0], c.miss[k] = c.miss[0];
            }
        t.c.push_back(c);
    }
    genProps(r, t);
    return t;
}

// ---- comparison ---------------------------------------------------------------------------------------------
std::string cellStr(const Col& c, size_t r) {
    if (c.isStr()) return show(c.s[r]);
    if (c.miss[r]) return "<missing>";
    char b[64];
    snprintf(b, sizeof b, "%.17g", c.d[r]);
    return b;
}
bool cellEq(const Col& e, size_t r, const Col& g, size_t q, bool realRounds) {
    if (e.isStr() != g.isStr()) return false;
    if (e.isStr()) return e.s[r] == g.s[q];
    if (bool(e.miss[r]) != bool(g.miss[q])) return false;
    if (e.miss[r]) return true;
    double a = e.d[r], b = g.d[q];
    if (a == b) return true;
    if (a != a && b != b) return true;
    if (e.type == REAL && realRounds) return double(float(a)) == b;
    return false;
}
std::string diffCells(const Tab& e, const Tab& g, bool rr, bool byName) {
    std::ostringstream o;
    if (e.n != g.n) {
        o << "row count " << g.n << " instead of " << e.n;
        return o.str();
    }
    if (e.c.size() != g.c.size()) {
        o << "column count " << g.c.size() << " instead of " << e.c.size();
        return o.str();
    }
    for (size_t i = 0; i < e.c.size(); i++) {
        int k = byName ? g.find(e.c[i].name) : int(i);
        if (k < 0) {
            o << "column " << show(e.c[i].name) << " absent";
            return o.str();
        }
        const Col &a = e.c[i], &b = g.c[k];
        for (size_t r = 0; r < e.n; r++)
            if (!cellEq(a, r, b, r, rr)) {
                o << "column " << i << " " << show(a.name, 30) << " type " << a.type << " style " << a.style << " row " << r << " of " << e.n
                  << ": " << cellStr(b, r) << " instead of " << cellStr(a, r);
                return o.str();
            }
    }
    return "";
}
std::string diffMeta(const Tab& e, const Tab& g, bool sizes) {
    std::ostringstream o;
    if (e.c.size() != g.c.size()) {
        o << "column count " << g.c.size() << " instead of " << e.c.size();
        return o.str();
    }
    for (size_t i = 0; i < e.c.size(); i++) {
        const Col &a = e.c[i], &b = g.c[i];
        if (a.name != b.name) {
            o << "column " << i << " name " << show(b.name) << " instead of " << show(a.name);
            return o.str();
        }
        if (a.type != b.type) {
            o << "column " << show(a.name) << " type " << b.type << " instead of " << a.type;
            return o.str();
        }
        if (a.type == BITFIELD && a.bits != b.bits) {
            o << "column " << show(a.name) << " bitfield members differ: " << b.bits.size() << " vs " << a.bits.size();
            for (size_t k = 0; k < a.bits.size() && k < b.bits.size(); k++)
                if (a.bits[k] != b.bits[k]) {
                    o << " member " << k << " " << b.bits[k].first << ":" << b.bits[k].second << " instead of " << a.bits[k].first << ":"
                      << a.bits[k].second;
                    break;
                }
            return o.str();
        }
        if (sizes && a.width != b.width) {
            o << "column " << show(a.name) << " element size " << b.width << " instead of " << a.width;
            return o.str();
        }
    }
    return "";
}
std::string diffProps(const Tab& e, const Tab& g) {
    auto strip = [](std::map<std::string, std::string> m) {
        m.erase("encoder");
        return m;
    };
    auto a = strip(e.props), b = strip(g.props);
    for (auto& kv : a) {
        auto it = b.find(kv.first);
        if (it == b.end()) return "property " + show(kv.first) + " lost";
        if (it->second != kv.second) return "property " + show(kv.first) + " is " + show(it->second) + " instead of " + show(kv.second);
    }
    for (auto& kv : b)
        if (!a.count(kv.first)) return "property " + show(kv.first) + " invented";
    return "";
}
uint64_t hashTab(const Tab& t) {
    uint64_t h = mix(7, t.n);
    for (auto& c : t.c) {
        h = mix(h, hashStr(c.name));
        h = mix(h, uint64_t(c.type));
        size_t n = std::min(t.n, c.isStr() ? c.s.size() : std::min(c.d.size(), c.miss.size()));
        for (size_t r = 0; r < n; r++) {
            if (c.isStr())
                h = mix(h, hashStr(c.s[r]));
            else {
                uint64_t b = 1;
                if (!c.miss[r]) {
                    double v = c.d[r] + 0.0;
                    memcpy(&b, &v, 8);
                }
                h = mix(h, b);
            }
        }
    }
    return h;
}
uint64_t shapeSig(const Tab& t) {
    uint64_t h = mix(11, rowClass(t.n));
    for (auto& c : t.c) {
        h = mix(h, uint64_t(c.type));
        h = mix(h, hashStr(c.style));
        h = mix(h, rowClass(c.width));
    }
    return mix(h, t.props.size() ? 1 : 0);
}

std::string describe(const Tab& t) {
    std::ostringstream o;
    o << t.n << " rows, " << t.props.size() << " properties, columns";
    for (size_t i = 0; i < t.c.size() && i < 8; i++)
        o << " " << show(t.c[i].name, 16) << ":" << "?IRSBD"[t.c[i].type] << t.c[i].width << ":" << t.c[i].style;
    if (t.c.size() > 8) o << " ... (" << t.c.size() << ")";
    return o.str();
}

// ---- C API: encoding ----------------------------------------------------------------------------------------
EncOpts genEnc(Rng& r, const Tab& t) {
    EncOpts o;
    o.layout = int(r.below(3));
    o.longs  = r.chance(1, 2);
    o.sink   = int(r.below(3));
    if (r.chance(1, 4)) o.rowsPerFrame = r.pick(std::vector<long>{1, 2, 3, 7, 10, long(t.n), long(t.n) + 1, long(t.n > 1 ? t.n - 1 : 1), 100000});
    if (o.rowsPerFrame > 0 && long(t.n) / o.rowsPerFrame > 60) o.rowsPerFrame = long(t.n) / 60 + 1;
    if (o.layout == 2)
        for (size_t i = 0; i < t.c.size(); i++) o.strides.push_back(r.chance(1, 3) ? 8 * r.below(5) : 0);
    if (r.chance(1, 3)) o.slackWidth = 8 * r.below(4);
    if (r.chance(1, 3)) o.slackRows = r.below(4);
    o.setSizes    = r.chance(1, 2);
    o.setRowCount = o.slackRows || o.layout == 2 || r.chance(1, 2);
    return o;
}
std::string encStr(const EncOpts& o) {
    std::ostringstream s;
    s << "enc{layout=" << o.layout << " longs=" << o.longs << " rpf=" << o.rowsPerFrame << " slackW=" << o.slackWidth << " slackR=" << o.slackRows
      << " sink=" << o.sink << " strides=";
    for (auto x : o.strides) s << x << ",";
    s << "}";
    return s.str();
}

void putCell(unsigned char* p, const Col& c, size_t r, const EncOpts& o) {
    if (c.isStr()) {
        memset(p, 0, c.width);
        memcpy(p, c.s[r].data(), std::min(c.width, c.s[r].size()));
    }
    else if (c.isInt() && o.longs) {
        int64_t v = int64_t(c.miss[r] ? o.intMissing : c.d[r]);
        memcpy(p, &v, 8);
    }
    else {
        double v = c.miss[r] ? (c.isInt() ? o.intMissing : o.realMissing) : c.d[r];
        memcpy(p, &v, 8);
    }
}

void buildImage(const Tab& t, const EncOpts& o, Image& im) {
    auto alloc = [&](size_t n) {
        // exact size and 8-byte aligned
        im.blocks.emplace_back(new unsigned char[n ? n : 1]);
        memset(im.blocks.back().get(), 0xEE, n ? n : 1);
        return im.blocks.back().get();
    };
    size_t W = 0;
    for (auto& c : t.c) W += c.width;
    if (o.layout == 2) {
        for (size_t i = 0; i < t.c.size(); i++) {
            const Col& c  = t.c[i];
            size_t stride = c.width + (i < o.strides.size() ? o.strides[i] : 0);
            size_t bytes  = t.n ? (t.n - 1) * stride + c.width : 0;
            unsigned char* p = alloc(bytes);
            for (size_t r = 0; r < t.n; r++) putCell(p + r * stride, c, r, o);
            im.colPtr.push_back(p);
            im.stride.push_back(stride);
        }
        return;
    }
    size_t H  = t.n + o.slackRows;
    im.height = long(H);
    if (o.layout == 0) {
        im.width      = long(W + o.slackWidth);
        im.arrayBytes = size_t(im.width) * H;
        im.array      = alloc(im.arrayBytes);
        size_t off    = 0;
        for (auto& c : t.c) {
            for (size_t r = 0; r < t.n; r++) putCell(im.array + r * size_t(im.width) + off, c, r, o);
            off += c.width;
        }
    }
    else {
        im.width      = long(W + o.slackWidth);
        im.arrayBytes = size_t(im.width) * H;
        im.array      = alloc(im.arrayBytes);
        size_t off    = 0;  // in 8-byte wide columns of H elements
        for (auto& c : t.c) {
            std::vector<unsigned char> tmp(c.width);
            for (size_t r = 0; r < t.n; r++) {
                putCell(tmp.data(), c, r, o);
                for (size_t w = 0; w < c.width / 8; w++) memcpy(im.array + off + (w * H + r) * 8, tmp.data() + 8 * w, 8);
            }
            off += c.width * H;
        }
    }
}

int setupEncoder(odc_encoder_t* e, const Tab& t, const EncOpts& o, const Image& im) {
    int rc;
    for (auto& kv : t.props)
        if ((rc = odc_encoder_add_property(e, kv.first.c_str(), kv.second.c_str()))) return rc;
    if (o.setRowCount)
        if ((rc = odc_encoder_set_row_count(e, long(t.n)))) return rc;
    if (o.rowsPerFrame)
        if ((rc = odc_encoder_set_rows_per_frame(e, o.rowsPerFrame))) return rc;
    for (size_t i = 0; i < t.c.size(); i++) {
        const Col& c = t.c[i];
        if ((rc = odc_encoder_add_column(e, c.name.c_str(), c.type))) return rc;
        for (auto& b : c.bits)
            if ((rc = odc_encoder_column_add_bitfield(e, int(i), b.first.c_str(), b.second))) return rc;
        if (o.layout == 2) {
            size_t stride = im.stride[i];
            if ((rc = odc_encoder_column_set_data_array(e, int(i), int(c.width), (stride == c.width && !o.setSizes) ? 0 : int(stride),
                                                        im.colPtr[i])))
                return rc;
        }
        else if (c.width != 8 || o.setSizes) {
            if ((rc = odc_encoder_column_set_data_size(e, int(i), int(c.width)))) return rc;
        }
    }
    if (o.layout != 2)
        if ((rc = odc_encoder_set_data_array(e, im.array, im.width, im.height, o.layout == 1 ? 8 : 0))) return rc;
    return 0;
}

static long sinkVec(void* ctx, const void* b, long n) {
    Bytes* v = static_cast<Bytes*>(ctx);
    v->insert(v->end(), static_cast<const unsigned char*>(b), static_cast<const unsigned char*>(b) + n);
    return n;
}

EncResult encodeC(const Tab& t, const EncOpts& o) {
    EncResult R;
    odc_integer_behaviour(o.longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    Image im;
    buildImage(t, o, im);
    odc_encoder_t* e = nullptr;
    R.rc             = odc_new_encoder(&e);
    if (R.rc) return R;
    R.rc = setupEncoder(e, t, o, im);
    if (!R.rc) {
        if (o.sink == 0) {
            R.rc = odc_encode_to_stream(e, &R.bytes, sinkVec, &R.reported);
        }
        else if (o.sink == 1) {
            Bytes probe;
            long rep = -1;
            R.rc     = odc_encode_to_stream(e, &probe, sinkVec, &rep);
            if (!R.rc) {
                odc_free_encoder(e);
                e    = nullptr;
                R.rc = odc_new_encoder(&e);
                if (!R.rc) R.rc = setupEncoder(e, t, o, im);
                R.bytes.resize(probe.size() + 64);
                if (!R.rc) R.rc = odc_encode_to_buffer(e, R.bytes.data(), long(R.bytes.size()), &R.reported);
                if (!R.rc) R.bytes.resize(R.reported >= 0 && size_t(R.reported) <= R.bytes.size() ? size_t(R.reported) : 0);
            }
        }
        else {
            std::string p = (g_ctx ? g_ctx->scratch : std::string("/tmp")) + "/enc.fd";
            int fd        = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            R.rc          = odc_encode_to_file_descriptor(e, fd, &R.reported);
            ::close(fd);
            readFile(p, R.bytes);
            ::unlink(p.c_str());
        }
    }
    if (R.rc) R.err = odc_error_string(R.rc);
    if (e) odc_free_encoder(e);
    return R;
}

// ---- C API: decoding ----------------------------------------------------------------------------------------
DecOpts genDec(Rng& r, size_t ncols) {
    DecOpts o;
    o.layout = int(r.below(5));
    o.longs  = r.chance(1, 2);
    if (o.layout == 4) {
        for (size_t i = 0; i < ncols; i++) o.strides.push_back(r.chance(1, 2) ? 8 * r.below(4) : 0);
    }
    if (o.layout == 2 || o.layout == 3) {
        if (r.chance(1, 2)) o.slackWidth = 8 * r.below(4);
        if (r.chance(1, 2)) o.slackRows = r.below(4);
    }
    else if (o.layout == 4 && r.chance(1, 3))
        o.slackRows = r.below(4);
    o.defaults = r.chance(1, 2);
    return o;
}
std::string decStr(const DecOpts& o) {
    std::ostringstream s;
    s << "dec{layout=" << o.layout << " longs=" << o.longs << " threads=" << o.threads << " slackW=" << o.slackWidth << " slackR=" << o.slackRows
      << " sel=" << o.select.size() << " defaults=" << o.defaults << "}";
    return s.str();
}

int metaC(const odc_frame_t* f, Tab& t, std::string& err) {
    long n = 0;
    int nc = 0, rc;
    if ((rc = odc_frame_row_count(f, &n)) || (rc = odc_frame_column_count(f, &nc))) {
        err = odc_error_string(rc);
        return rc;
    }
    t.n = size_t(n);
    for (int i = 0; i < nc; i++) {
        const char* nm = nullptr;
        int ty = -1, sz = -1, nb = -1;
        if ((rc = odc_frame_column_attributes(f, i, &nm, &ty, &sz, &nb))) {
            err = odc_error_string(rc);
            return rc;
        }
        Col c;
        c.name  = nm ? nm : "(null)";
        c.type  = ty;
        c.width = size_t(sz);
        int expectOff = 0;
        for (int b = 0; b < nb; b++) {
            const char* bn = nullptr;
            int off = -1, bs = -1;
            if ((rc = odc_frame_bitfield_attributes(f, i, b, &bn, &off, &bs))) {
                err = odc_error_string(rc);
                return rc;
            }
            // the offset must be the sum of the preceding sizes; encode a deviation into the size
            c.bits.push_back({bn ? bn : "(null)", off == expectOff ? bs : -1000 - off});
            expectOff += bs;
        }
        t.c.push_back(c);
    }
    int np = 0;
    if ((rc = odc_frame_properties_count(f, &np))) {
        err = odc_error_string(rc);
        return rc;
    }
    for (int i = 0; i < np; i++) {
        const char *k = nullptr, *v = nullptr;
        if ((rc = odc_frame_property_idx(f, i, &k, &v))) {
            err = odc_error_string(rc);
            return rc;
        }
        t.props[k ? k : "(null)"] = v ? v : "(null)";
        const char* v2 = nullptr;
        if ((rc = odc_frame_property(f, k, &v2))) {
            err = odc_error_string(rc);
            return rc;
        }
        if (!v2 || !v || strcmp(v, v2)) t.props[k] = std::string("(lookup by key disagrees) ") + (v2 ? v2 : "(null)");
    }
    return 0;
}

DecResult decodeC(const odc_frame_t* f, const DecOpts& o) {
    DecResult R;
    if (o.setTreatment) odc_integer_behaviour(o.longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    Tab meta;
    if ((R.rc = metaC(f, meta, R.err))) return R;
    std::vector<int> cols;  // indices into meta
    if (o.select.empty())
        for (size_t i = 0; i < meta.c.size(); i++) cols.push_back(int(i));
    else
        for (auto& nm : o.select) {
            int k = meta.find(nm);
            if (k < 0)
                for (size_t i = 0; i < meta.c.size() && k < 0; i++)
                    if (meta.c[i].name.substr(0, meta.c[i].name.find('@')) == nm) k = int(i);
            cols.push_back(k);
        }
    struct Guard {
        odc_decoder_t* d = nullptr;
        ~Guard() {
            if (d) odc_free_decoder(d);
        }
    } g;
    auto fail = [&](int rc) {
        R.rc  = rc;
        R.err = odc_error_string(rc);
        return R;
    };
    int rc;
    if ((rc = odc_new_decoder(&g.d))) return fail(rc);
    if (o.select.empty() && o.defaults) {
        if ((rc = odc_decoder_defaults_from_frame(g.d, f))) return fail(rc);
    }
    else {
        for (size_t i = 0; i < cols.size(); i++) {
            const std::string nm = o.select.empty() ? meta.c[cols[i]].name : o.select[i];
            if ((rc = odc_decoder_add_column(g.d, nm.c_str()))) return fail(rc);
        }
    }
    size_t n = meta.n, H = n + o.slackRows, W = 0;
    std::vector<size_t> width;
    for (int k : cols) {
        size_t w = k >= 0 ? meta.c[k].width : 8;
        if (o.layout == 4 && k >= 0 && meta.c[k].isStr()) w += o.widen;
        width.push_back(w);
        W += w;
    }
    std::vector<std::unique_ptr<unsigned char[]>> blocks;
    std::vector<size_t> bsize;
    auto alloc = [&](size_t bytes) {
        blocks.emplace_back(new unsigned char[bytes ? bytes : 1]);
        bsize.push_back(bytes);
        memset(blocks.back().get(), 0xA5, bytes);
        return blocks.back().get();
    };
    unsigned char* arr = nullptr;
    std::vector<unsigned char*> cp(cols.size());
    std::vector<size_t> cs(cols.size());
    if (o.layout == 1) {
        if ((rc = odc_decoder_set_column_major(g.d, true))) return fail(rc);
    }
    else if (o.layout == 2 || o.layout == 3) {
        size_t w = W + o.slackWidth;
        arr      = alloc(w * H);
        if (H == 0 || w == 0) {
            // nothing can be supplied for an empty table
        }
        else if ((rc = odc_decoder_set_data_array(g.d, arr, long(w), long(H), o.layout == 3)))
            return fail(rc);
    }
    else if (o.layout == 4) {
        for (size_t i = 0; i < cols.size(); i++) {
            size_t st = width[i] + (i < o.strides.size() ? o.strides[i] : 0);
            cp[i]     = alloc(H ? (H - 1) * st + width[i] : 8);
            cs[i]     = st;
            if ((rc = odc_decoder_column_set_data_array(g.d, int(i), int(width[i]), int(st), cp[i]))) return fail(rc);
        }
        if (o.slackRows && (rc = odc_decoder_set_row_count(g.d, long(H)))) return fail(rc);
    }
    if ((o.layout <= 1 || (o.layout == 4 && !o.slackRows)) && !(o.select.empty() && o.defaults))
        if ((rc = odc_decoder_set_row_count(g.d, long(n)))) return fail(rc);
    long got = -1;
    for (int k : cols)
        if (k < 0) {  // a column which does not exist: must fail
            rc = o.threads == 1 ? odc_decode(g.d, f, &got) : odc_decode_threaded(g.d, f, &got, o.threads);
            if (rc) return fail(rc);
            R.guardOk  = false;
            R.guardMsg = "the decode of a column which does not exist succeeded";
            return R;
        }
    rc       = o.threads == 1 ? odc_decode(g.d, f, &got) : odc_decode_threaded(g.d, f, &got, o.threads);
    if (rc) return fail(rc);
    R.t.n = size_t(got);
    R.t.props = meta.props;
    if (size_t(got) != n) {
        R.guardOk  = false;
        R.guardMsg = "rows decoded " + std::to_string(got) + " but the frame reports " + std::to_string(n);
        R.t.n      = std::min(n, size_t(got));
        n          = R.t.n;
    }
    if (n == 0 || cols.empty()) {
        for (int k : cols) R.t.c.push_back(meta.c[k]);
        return R;
    }
    // where the data is
    bool cm   = o.layout == 1 || o.layout == 3;
    size_t ah = H;
    const unsigned char* base = arr;
    size_t aw                 = W + o.slackWidth;
    if (o.layout <= 1) {
        const void* p = nullptr;
        long w = -1, h = -1;
        bool c2 = false;
        if ((rc = odc_decoder_data_array(g.d, &p, &w, &h, &c2))) return fail(rc);
        base = static_cast<const unsigned char*>(p);
        aw   = size_t(w);
        ah   = size_t(h);
        if (aw < W || ah < n || c2 != cm) {
            R.guardOk  = false;
            R.guardMsg = "data array attributes: width " + std::to_string(w) + " height " + std::to_string(h) + " for table of " + std::to_string(W) +
                         " bytes x " + std::to_string(n);
            return R;
        }
    }
    size_t off = 0;
    std::vector<std::vector<bool>> used;
    for (size_t b : bsize) used.emplace_back(b, false);
    auto mark = [&](const unsigned char* p, size_t len) {
        for (size_t b = 0; b < blocks.size(); b++) {
            const unsigned char* s = blocks[b].get();
            if (p >= s && p < s + bsize[b])
                for (size_t k = 0; k < len; k++)
                    if (size_t(p - s) + k < bsize[b]) used[b][size_t(p - s) + k] = true;
        }
    };
    for (size_t i = 0; i < cols.size(); i++) {
        Col c = meta.c[cols[i]];
        c.resize(n);
        const unsigned char* start;
        size_t stride;
        if (o.layout == 4) {
            start  = cp[i];
            stride = cs[i];
        }
        else {
            start  = base + off;
            stride = cm ? 8 : aw;
            off += cm ? width[i] * ah : width[i];
            // the per column attributes must agree
            int es = -1, st = -1;
            const void* dp = nullptr;
            if ((rc = odc_decoder_column_data_array(g.d, int(i), &es, &st, &dp))) return fail(rc);
            if (dp != start || size_t(es) != width[i] || (!cm && size_t(st) != stride)) {
                R.guardOk = false;
                std::ostringstream m;
                m << "column data array " << i << " attributes inconsistent: offset " << (static_cast<const unsigned char*>(dp) - base) << " expected "
                  << (start - base) << " element size " << es << " expected " << width[i] << " stride " << st;
                R.guardMsg = m.str();
                return R;
            }
        }
        std::vector<unsigned char> tmp(width[i]);
        for (size_t r = 0; r < n; r++) {
            if (cm) {
                for (size_t w = 0; w < width[i] / 8; w++) {
                    memcpy(tmp.data() + 8 * w, start + (w * ah + r) * 8, 8);
                    mark(start + (w * ah + r) * 8, 8);
                }
            }
            else {
                memcpy(tmp.data(), start + r * stride, width[i]);
                mark(start + r * stride, width[i]);
            }
            if (c.isStr()) {
                size_t l = strnlen(reinterpret_cast<char*>(tmp.data()), width[i]);
                c.s[r]   = std::string(reinterpret_cast<char*>(tmp.data()), l);
                for (size_t k = l; k < width[i]; k++)
                    if (tmp[k] && R.guardOk) {
                        R.guardOk  = false;
                        R.guardMsg = "string cell not NUL padded, column " + c.name.substr(0, 40) + " row " + std::to_string(r) + ": " + hex(tmp.data(), width[i]);
                    }
            }
            else if (c.isInt() && o.longs) {
                int64_t v;
                memcpy(&v, tmp.data(), 8);
                c.d[r]    = double(v);
                c.miss[r] = c.d[r] == o.intMissing;
            }
            else {
                memcpy(&c.d[r], tmp.data(), 8);
                c.miss[r] = c.d[r] == (c.isInt() ? o.intMissing : o.realMissing);
            }
        }
        R.t.c.push_back(c);
    }
    for (size_t b = 0; b < blocks.size() && R.guardOk; b++)
        for (size_t k = 0; k < bsize[b]; k++)
            if (!used[b][k] && blocks[b][k] != 0xA5) {
                R.guardOk  = false;
                R.guardMsg = "byte " + std::to_string(k) + " of block " + std::to_string(b) + " (" + std::to_string(bsize[b]) +
                             " bytes) outside the cells was overwritten";
                break;
            }
    return R;
}

long StreamSrc::read(void* ctx, void* buf, long len) {
    StreamSrc* s = static_cast<StreamSrc*>(ctx);
    s->calls++;
    if (s->failAt >= 0 && s->calls == s->failAt) return s->failCode;
    size_t left = s->b->size() - s->pos;
    size_t k    = std::min(left, size_t(len < 0 ? 0 : len));
    if (s->rng && k > 1) {
        switch (s->rng->below(4)) {
            case 0:
                k = 1 + s->rng->below(k);
                break;
            case 1:
                k = std::min<size_t>(k, 1 + s->rng->below(7));
                break;
            default:;
        }
    }
    if (k) memcpy(buf, s->b->data() + s->pos, k);
    s->pos += k;
    return long(k);
}

ReadResult readC(const Bytes& b, const ReadOpts& o) {
    ReadResult R;
    odc_integer_behaviour(o.dec.longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    odc_reader_t* rd = nullptr;
    odc_frame_t* fr  = nullptr;
    int fd           = -1;
    StreamSrc src;
    std::unique_ptr<unsigned char[]> exact;
    std::string path;
    int rc = 0;
    switch (o.source) {
        case 0:
            exact.reset(new unsigned char[b.size() ? b.size() : 1]);
            if (!b.empty()) memcpy(exact.get(), b.data(), b.size());
            rc = odc_open_buffer(&rd, exact.get(), long(b.size()));
            break;
        case 3:
            src.b = &b;
            rc    = odc_open_stream(&rd, &src, StreamSrc::read);
            break;
        default:
            path = (g_ctx ? g_ctx->scratch : std::string("/tmp")) + "/read.odb";
            writeFile(path, b);
            if (o.source == 1)
                rc = odc_open_path(&rd, path.c_str());
            else {
                fd = ::open(path.c_str(), O_RDONLY);
                rc = odc_open_file_descriptor(&rd, fd);
                ::close(fd);
            }
    }
    auto done = [&](const char* where) {
        R.rc    = rc;
        R.where = where;
        if (rc) R.err = odc_error_string(rc);
        if (fr) odc_free_frame(fr);
        if (rd) odc_close(rd);
        return R;
    };
    if (rc) return done("open");
    if ((rc = odc_new_frame(&fr, rd))) return done("new_frame");
    for (;;) {
        rc = o.aggregated ? odc_next_frame_aggregated(fr, o.maxRows) : odc_next_frame(fr);
        if (rc == ODC_ITERATION_COMPLETE) {
            rc = 0;
            break;
        }
        if (rc) return done("next_frame");
        DecResult d = decodeC(fr, o.dec);
        if (!d.guardOk && R.guardOk) {
            R.guardOk  = false;
            R.guardMsg = d.guardMsg;
        }
        if (d.rc) {
            rc      = d.rc;
            R.rc    = rc;
            R.where = "decode";
            R.err   = d.err;
            odc_free_frame(fr);
            odc_close(rd);
            return R;
        }
        R.frames.push_back(d.t);
    }
    return done("");
}

// ---- files and processes --------------------------------------------------------------------------------------
void writeFile(const std::string& p, const void* d, size_t n) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) throw std::runtime_error("cannot write " + p);
    if (n && fwrite(d, 1, n, f) != n) {
        fclose(f);
        throw std::runtime_error("short write " + p);
    }
    fclose(f);
}
bool readFile(const std::string& p, Bytes& b) {
    b.clear();
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return false;
    unsigned char buf[65536];
    size_t k;
    while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k);
    fclose(f);
    return true;
}

Proc run(const std::vector<std::string>& argv, const std::string& cwd, const std::map<std::string, std::string>& env, int timeoutS, long fsize) {
    Proc P;
    int po[2], pe[2];
    if (pipe(po) || pipe(pe)) throw std::runtime_error("pipe");
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        if (!cwd.empty() && chdir(cwd.c_str())) _exit(126);
        int nul = open("/dev/null", O_RDONLY);
        dup2(nul, 0);
        dup2(po[1], 1);
        dup2(pe[1], 2);
        for (int i = 3; i < 256; i++) close(i);
        for (auto& kv : env) setenv(kv.first.c_str(), kv.second.c_str(), 1);
        struct rlimit rl {
            RLIM_INFINITY, RLIM_INFINITY
        };
        rl.rlim_cur = rl.rlim_max = fsize >= 0 ? rlim_t(fsize) : 4ULL << 30;
        if (fsize >= 0) signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &rl);
        std::vector<char*> a;
        for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str()));
        a.push_back(nullptr);
        execv(a[0], a.data());
        _exit(127);
    }
    setpgid(pid, pid);
    close(po[1]);
    close(pe[1]);
    auto t0    = std::chrono::steady_clock::now();
    bool o = true, e = true;
    char buf[65536];
    while (o || e) {
        struct pollfd pf[2] = {{o ? po[0] : -1, POLLIN, 0}, {e ? pe[0] : -1, POLLIN, 0}};
        int left = timeoutS * 1000 - int(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count());
        if (left <= 0) {
            P.timeout = true;
            kill(-pid, SIGKILL);
            break;
        }
        int k = poll(pf, 2, left);
        if (k < 0 && errno == EINTR) continue;
        if (pf[0].revents) {
            ssize_t n = read(po[0], buf, sizeof buf);
            if (n <= 0)
                o = false;
            else
                P.out.append(buf, size_t(n));
        }
        if (pf[1].revents) {
            ssize_t n = read(pe[0], buf, sizeof buf);
            if (n <= 0)
                e = false;
            else
                P.err.append(buf, size_t(n));
        }
        if (P.out.size() > (256u << 20) || P.err.size() > (64u << 20)) {
            kill(-pid, SIGKILL);
            P.timeout = true;
            break;
        }
    }
    close(po[0]);
    close(pe[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    P.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    P.sanitizer = P.err.find("AddressSanitizer") != std::string::npos || P.err.find("runtime error:") != std::string::npos ||
                  P.err.find("LeakSanitizer") != std::string::npos;
    return P;
}

}  // namespace odv
