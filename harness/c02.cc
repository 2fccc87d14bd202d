// C02: missing cells stay missing, present cells stay present, for any markers.
#include <cfloat>
#include <algorithm>
#include "ref.h"
#include "rows.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C02"; }
namespace {
const double INTM[] = {2147483647, -2147483647, -2147483648.0, 0, -1, 1, 254, 255, 256, 65534, 65535, 65536, -9999, 1000000, 2147483646, 99};
const double REALM[] = {-2147483647, 2147483647, 0, -1, 1e20, -9999.5, -9999, 1e-30, 1.7e38, DBL_MAX, -DBL_MAX, 0.1, 1e300, 5e-324};

// values adjacent to the marker and to what the storage keeps for itself
Col adversarial(Rng& r, size_t n, double im, double rm, const std::string& name) {
    Col c;
    c.name = name;
    int k  = int(r.below(4));
    c.type = k == 0 ? INTEGER : k == 1 ? BITFIELD : k == 2 ? REAL : DOUBLE;
    c.resize(n);
    c.style = "adv";
    if (c.isInt()) {
        int span    = int(r.pick(std::vector<int>{1, 2, 253, 254, 255, 256, 65533, 65534, 65535, 65536, 70000}));
        double base = r.chance(1, 2) ? im - double(r.range(0, span)) : double(r.range(-100000, 100000));
        base        = std::max(-2147483648.0, std::min(base, 2147483646.0 - span));
        if (c.type == BITFIELD) base = std::max(0.0, base);
        for (size_t i = 0; i < n; i++) {
            c.d[i] = base + double(r.chance(1, 2) ? r.range(0, span) : (r.chance(1, 2) ? span : r.range(0, 1)));
            c.miss[i] = r.chance(1, 3);
        }
        c.style = "adv-int" + std::to_string(span);
    }
    else {
        std::vector<double> near{rm + 1, rm - 1, std::nextafter(rm, INFINITY), std::nextafter(rm, -INFINITY), 0, 1, FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN,
                                 double(std::nextafterf(FLT_MAX, 0)), double(std::nextafterf(-FLT_MAX, 0)), double(std::nextafterf(FLT_MIN, 1)), FLT_MIN * 0.5};
        int kinds = int(r.range(1, 4));
        std::vector<double> v;
        for (int i = 0; i < kinds; i++) v.push_back(r.pick(near));
        for (size_t i = 0; i < n; i++) {
            c.d[i] = r.pick(v);
            if (!std::isfinite(c.d[i]) || (c.type == REAL && !std::isfinite(float(c.d[i])))) c.d[i] = 3;
            c.miss[i] = r.chance(1, 3);
        }
        c.style = "adv-real";
    }
    avoidMarkers(c, im, rm);
    return c;
}
}  // namespace
uint64_t odvProbes() { return 0; }
void odvInit() {}
void odvCase(Ctx& c) {
    Rng& r    = c.rng;
    double im = r.chance(1, 2) ? INTM[r.below(16)] : 2147483647;
    double rm = r.chance(1, 2) ? REALM[r.below(14)] : -2147483647;
    GenOpts g;
    g.maxRows     = r.chance(1, 8) ? 600 : 60;
    g.strings     = r.chance(1, 2);
    g.intMissing  = im;
    g.realMissing = rm;
    Tab t         = genTable(r, g);
    std::set<std::string> used;
    for (auto& k : t.c) used.insert(k.name);
    size_t na = r.below(4);
    for (size_t i = 0; i < na; i++) {
        std::string nm = "adv" + std::to_string(i);
        if (used.count(nm)) continue;
        t.c.push_back(adversarial(r, t.n, im, rm, nm));
    }
    // whole leading / trailing columns missing
    if (r.chance(1, 5)) {
        size_t k = r.below(t.c.size()) + 1;
        bool lead = r.chance(1, 2);
        for (size_t i = 0; i < k; i++) {
            Col& q = t.c[lead ? i : t.c.size() - 1 - i];
            if (!q.isStr()) std::fill(q.miss.begin(), q.miss.end(), 1);
        }
        c.stat("tables with entirely missing leading or trailing columns");
    }
    EncOpts eo      = genEnc(r, t);
    eo.intMissing   = im;
    eo.realMissing  = rm;
    std::string how = " [" + describe(t) + " " + encStr(eo) + " markers " + std::to_string(im) + " " + std::to_string(rm) + "]";
    odc_set_missing_integer(long(im));
    odc_set_missing_double(rm);
    long gi   = 0;
    double gd = 0;
    odc_missing_integer(&gi);
    odc_missing_double(&gd);
    if (gi != long(im) || gd != rm) ODV_FAIL(c, "getter", "markers read back as " << gi << " " << gd << how);
    EncResult e = encodeC(t, eo);
    bool keepMarkers = r.chance(1, 2);
    if (!keepMarkers) {
        odc_set_missing_integer(2147483647);
        odc_set_missing_double(-2147483647);
    }
    auto restore = [] {
        odc_set_missing_integer(2147483647);
        odc_set_missing_double(-2147483647);
    };
    if (e.rc) {
        restore();
        ODV_FAIL(c, "encode-error", e.err << how);
        return;
    }
    ReadOpts ro;
    ro.source          = int(r.below(3));
    ro.aggregated      = r.chance(1, 3);
    ro.dec             = genDec(r, t.c.size());
    ro.dec.intMissing  = im;
    ro.dec.realMissing = rm;
    ReadResult R       = readC(e.bytes, ro);
    if (R.rc)
        ODV_FAIL(c, "read-error", R.err << how);
    else {
        std::string d = diffCells(t, concat(R.frames));
        if (!d.empty()) c.viol("cells", d + how + decStr(ro.dec));
    }
    // through the row interface: the advertised marker and the isMissing answer
    std::string path = c.scratch + "/m.odb";
    writeFile(path, e.bytes);
    bool longs = r.chance(1, 2);
    RowRead W  = readRows(path, longs);
    restore();
    if (!W.err.empty())
        ODV_FAIL(c, "row-read-error", W.err << how);
    else {
        if (!W.anomaly.empty()) c.viol("row-anomaly", W.anomaly + how);
        std::string d = diffCells(t, concat(W.segs));
        if (!d.empty()) c.viol("row-cells", d + how + (longs ? " longs" : ""));
        for (size_t s = 0; s < W.segs.size(); s++)
            for (size_t i = 0; i < W.segs[s].c.size(); i++) {
                const Col& k = W.segs[s].c[i];
                if (k.isStr()) continue;
                double adv = W.mdi[s][i];
                if (k.isInt() && longs) {
                    int64_t x;
                    memcpy(&x, &adv, 8);
                    adv = double(x);
                }
                for (size_t q = 0; q < k.miss.size(); q++)
                    if (k.miss[q] != (k.d[q] == adv)) {
                        ODV_FAIL(c, "row-marker", "column " << k.name.substr(0, 20) << " row " << q << " value " << k.d[q] << " advertised marker " << adv
                                                            << " reported missing " << int(k.miss[q]) << how);
                        break;
                    }
            }
    }
    // and by the independent parser
    try {
        std::string d = diffCells(t, refConcat(refParse(e.bytes)));
        if (!d.empty()) c.viol("file-cells", d + how);
    }
    catch (std::exception& x) {
        c.viol("file-parse", x.what() + how);
    }
    uint64_t m = 0, tot = 0;
    for (auto& k : t.c)
        for (char f : k.miss) {
            m += f ? 1 : 0;
            tot += k.isStr() ? 0 : 1;
        }
    c.stat("missing cells", m);
    c.stat("numeric cells", tot);
    if (im != 2147483647 || rm != -2147483647) c.stat("tables with custom markers");
    if (m) c.sig(mix(mix(shapeSig(t), uint64_t(int64_t(im))), hashStr(std::to_string(rm))));
    c.sample(how);
}
}  // namespace odv
