// C01: encode -> decode is the identity.
#include "ref.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C01"; }
namespace {
struct Probe {
    const char* name;
    std::function<Tab(Rng&)> make;
    bool mayRefuse;  // the values have no representation: an error is a legitimate answer, altered data is not
};
Col mk(const std::string& n, int type) {
    Col c;
    c.name = n;
    c.type = type;
    return c;
}
Tab numeric(int type, const std::vector<double>& v) {
    Tab t;
    t.n   = v.size();
    Col c = mk("x@t", type);
    c.resize(v.size());
    c.d     = v;
    c.style = "probe";
    t.c.push_back(c);
    return t;
}
Tab wide(Rng& r, size_t nc, size_t nr) {
    GenOpts g;
    g.minCols = g.maxCols = nc;
    g.minRows = g.maxRows = nr;
    g.weirdNames          = false;
    return genTable(r, g);
}
Tab dict(size_t k, size_t rows, size_t width = 8) {
    Tab t;
    t.n       = rows;
    Col c     = mk("s@t", STRING);
    c.width   = width;
    c.resize(rows);
    for (size_t i = 0; i < rows; i++) c.s[i] = std::to_string((i * 7919) % k);
    c.style = "sdict";
    t.c.push_back(c);
    Col d = mk("i@t", INTEGER);
    d.resize(rows);
    for (size_t i = 0; i < rows; i++) d.d[i] = double(i / 3);
    t.c.push_back(d);
    return t;
}
double bits(uint64_t b) {
    double d;
    memcpy(&d, &b, 8);
    return d;
}
std::vector<Probe>& probes() {
    static std::vector<Probe> P;
    if (!P.empty()) return P;
    for (size_t nc : {127, 128, 255, 256, 257, 600, 1500})
        P.push_back({"wide", [nc](Rng& r) { return wide(r, nc, 5); }, false});
    for (size_t nr : {4999, 5000, 9999, 10000, 10001, 20000, 20001})
        P.push_back({"long", [nr](Rng& r) { return wide(r, 2, nr); }, false});
    for (size_t k : {254, 255, 256, 257, 258, 511, 512, 513, 65535, 65536, 65537, 70000})
        P.push_back({"dict", [k](Rng&) { return dict(k, std::max<size_t>(k, k < 9000 ? 9000 : k) + 10); }, false});
    P.push_back({"dictwide", [](Rng&) { return dict(400, 3000, 40); }, false});
    P.push_back({"nan-double", [](Rng&) { return numeric(DOUBLE, {1, bits(0x7ff8000000000000ull), 3, bits(0xfff8000000000001ull), 5}); }, false});
    P.push_back({"nan-first", [](Rng&) { return numeric(DOUBLE, {bits(0x7ff8000000000000ull), 3, 3, 4}); }, false});
    P.push_back({"nan-const", [](Rng&) { return numeric(DOUBLE, {bits(0x7ff8000000000000ull), bits(0x7ff8000000000000ull)}); }, false});
    P.push_back({"nan-then-const", [](Rng&) { return numeric(DOUBLE, {2, 2, bits(0x7ff8000000000000ull), 2}); }, false});
    P.push_back({"inf-double", [](Rng&) { return numeric(DOUBLE, {1, INFINITY, -INFINITY, 5}); }, false});
    P.push_back({"nan-real", [](Rng&) { return numeric(REAL, {1, NAN, 3, 4}); }, false});
    P.push_back({"inf-real", [](Rng&) { return numeric(REAL, {1, INFINITY, -INFINITY, 5}); }, false});
    P.push_back({"real-flt-max", [](Rng&) { return numeric(REAL, {1, 3.4028234663852886e38, 2}); }, false});
    P.push_back({"real-minus-flt-max", [](Rng&) { return numeric(REAL, {1, -3.4028234663852886e38, 2}); }, false});
    P.push_back({"real-flt-min", [](Rng&) { return numeric(REAL, {1, 1.1754943508222875e-38, 2}); }, false});
    P.push_back({"real-both-reserved", [](Rng&) { return numeric(REAL, {1, 1.1754943508222875e-38, -3.4028234663852886e38, 3.4028234663852886e38}); }, false});
    P.push_back({"real-too-large", [](Rng&) { return numeric(REAL, {1, 1e300, 2}); }, true});
    P.push_back({"int-above-32bit", [](Rng&) { return numeric(INTEGER, {1, 4294967297.0, 5}); }, true});
    P.push_back({"int-below-32bit", [](Rng&) { return numeric(INTEGER, {1, -4294967297.0, 5}); }, true});
    P.push_back({"int-2e31", [](Rng&) { return numeric(INTEGER, {-2147483648.0, 2147483648.0, 5}); }, true});
    P.push_back({"int-const-64bit", [](Rng&) { return numeric(INTEGER, {4294967297.0, 4294967297.0}); }, true});
    P.push_back({"int-offset-64bit", [](Rng&) { return numeric(INTEGER, {4294967297.0, 4294967300.0}); }, true});
    P.push_back({"bitfield-above-32bit", [](Rng&) { return numeric(BITFIELD, {1, 4294967297.0, 5}); }, true});
    P.push_back({"bitfield-bit-31", [](Rng&) { return numeric(BITFIELD, {1, 2147483648.0, 5}); }, true});
    P.push_back({"int-above-2e53", [](Rng&) {
                     Tab t = numeric(INTEGER, {9007199254740993.0, 9007199254740993.0});
                     return t;
                 },
                 true});
    P.push_back({"real-minus-flt-max-missing", [](Rng&) {
                     Tab t          = numeric(REAL, {1, -3.4028234663852886e38, 2, 1.1754943508222875e-38, 7});
                     t.c[0].miss[2] = 1;
                     return t;
                 },
                 false});
    P.push_back({"bitfield-high-bit", [](Rng&) { return numeric(BITFIELD, {1, -2147483648.0, 5}); }, false});
    P.push_back({"string-nul-inside", [](Rng&) {
                     Tab t;
                     t.n     = 4;
                     Col c   = mk("s@t", STRING);
                     c.width = 16;
                     c.resize(4);
                     c.s = {"", "aaaaaaaabbbbbbbb", "", "a"};
                     t.c.push_back(c);
                     return t;
                 },
                 false});
    P.push_back({"string-like-nan", [](Rng&) {
                     Tab t;
                     t.n   = 3;
                     Col c = mk("s@t", STRING);
                     c.resize(3);
                     c.s = {"\xff\xff\xff\xff\xff\xff\xff\x7f", "\xff\xff\xff\xff\xff\xff\xff\x7f", "\xff\xff\xff\xff\xff\xff\xff\x7f"};
                     t.c.push_back(c);
                     return t;
                 },
                 false});
    P.push_back({"string-missing-pattern", [](Rng&) {  // eight bytes that read as the missing marker of doubles
                     Tab t;
                     t.n        = 3;
                     Col c      = mk("s@t", STRING);
                     double mdi = -2147483647;
                     c.resize(3);
                     std::string m(reinterpret_cast<char*>(&mdi), 8);
                     c.s = {"abc", std::string(m.c_str()), "abd"};
                     t.c.push_back(c);
                     return t;
                 },
                 false});
    for (size_t nprop : {1000})
        P.push_back({"many-properties", [nprop](Rng& r) {
                         Tab t = wide(r, 2, 3);
                         for (size_t i = 0; i < nprop; i++) t.props["key" + std::to_string(i)] = std::string(i, 'v');
                         return t;
                     },
                     false});
    P.push_back({"long-strings", [](Rng& r) {
                     Tab t;
                     t.n     = 50;
                     Col c   = mk("s@t", STRING);
                     c.width = 100000;
                     c.resize(50);
                     for (auto& s : c.s) s = genString(r, 99000, 100000, true);
                     t.c.push_back(c);
                     return t;
                 },
                 false});
    return P;
}

void check(Ctx& c, const Tab& t, const EncOpts& eo, const std::string& pre, bool mayRefuse) {
    Rng& r      = c.rng;
    EncResult e = encodeC(t, eo);
    std::string how = " [" + describe(t) + " " + encStr(eo) + "]";
    if (e.rc) {
        if (mayRefuse)
            c.stat("refused with an error");
        else
            ODV_FAIL(c, pre + "encode-error", e.err << how);
        return;
    }
    c.stat("encoded bytes", e.bytes.size());
    ReadOpts ro;
    ro.source    = int(r.below(3));
    ro.dec       = genDec(r, t.c.size());
    ReadResult R = readC(e.bytes, ro);
    how += decStr(ro.dec);
    if (R.rc) {
        ODV_FAIL(c, pre + "read-error", R.where << " " << R.err << how);
        return;
    }
    Tab got = concat(R.frames);
    bool rr = true;
    std::string d = diffCells(t, got, rr);
    if (!d.empty()) c.viol(pre + "cells", d + how);
    d = diffMeta(t, got);
    if (!d.empty()) c.viol(pre + "meta", d + how);
    d = diffProps(t, got);
    if (!d.empty()) c.viol(pre + "props", d + how);
    if (!R.guardOk) c.viol(pre + "layout", R.guardMsg + how);
    c.stat("cells compared", t.n * t.c.size());
    c.stat("frames read", R.frames.size());
    for (auto& col : t.c) c.stat(std::string("columns of type ") + "?IRSBD"[col.type]);
    c.sig(mix(shapeSig(t), uint64_t(eo.layout * 10 + ro.dec.layout)));
    c.sample(describe(t) + " " + encStr(eo) + " " + decStr(ro.dec));
}

// an encoder used again with a second table of the same columns must not remember the first
void reuse(Ctx& c) {
    Rng& r = c.rng;
    GenOpts g;
    g.maxRows = 40;
    g.maxCols = 4;
    Tab a     = genTable(r, g);
    Tab b     = a;
    b.n       = size_t(r.range(1, 40));
    for (auto& col : b.c) {
        size_t w = col.width;
        genCells(r, col, b.n, g);
        col.width = std::max<size_t>(col.width, 8);
        (void)w;
    }
    EncOpts eo;
    eo.layout = 2;
    eo.longs  = r.chance(1, 2);
    eo.rowsPerFrame = r.chance(1, 2) ? 7 : 0;
    odc_integer_behaviour(eo.longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    Image ia, ib;
    buildImage(a, eo, ia);
    buildImage(b, eo, ib);
    odc_encoder_t* e = nullptr;
    odc_new_encoder(&e);
    auto sink = [](void* ctx, const void* p, long n) -> long {
        Bytes* v = static_cast<Bytes*>(ctx);
        v->insert(v->end(), static_cast<const unsigned char*>(p), static_cast<const unsigned char*>(p) + n);
        return n;
    };
    Bytes A, B;
    long n1 = -1, n2 = -1;
    int rc = setupEncoder(e, a, eo, ia);
    if (!rc) rc = odc_encode_to_stream(e, &A, sink, &n1);
    if (!rc) rc = odc_encoder_set_row_count(e, long(b.n));
    for (size_t i = 0; i < b.c.size() && !rc; i++)
        rc = odc_encoder_column_set_data_array(e, int(i), int(b.c[i].width), int(ib.stride[i]), ib.colPtr[i]);
    if (!rc) rc = odc_encode_to_stream(e, &B, sink, &n2);
    std::string how = " [" + describe(a) + " then " + describe(b) + "]";
    if (rc) ODV_FAIL(c, "reuse:error", odc_error_string(rc) << how);
    odc_free_encoder(e);
    if (rc) return;
    for (int k = 0; k < 2; k++) {
        ReadResult R = readC(k ? B : A);
        if (R.rc) {
            ODV_FAIL(c, "reuse:read-error", R.err << how);
            continue;
        }
        std::string d = diffCells(k ? b : a, concat(R.frames));
        if (!d.empty()) c.viol("reuse:cells", (k ? "second table: " : "first table: ") + d + how);
    }
    c.stat("encoders used twice");
    c.sig(mix(shapeSig(a), shapeSig(b)));
}
}  // namespace
uint64_t odvProbes() { return probes().size() * 2; }
void odvInit() {}
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    if (c.probe) {
        Probe& p = probes()[c.idx / 2];
        Tab t    = p.make(r);
        EncOpts eo;
        eo.longs = (c.idx % 2) && std::string(p.name).find("nan") == std::string::npos;
        if (eo.longs)
            for (auto& col : t.c)
                for (auto& v : col.d)
                    if (col.isInt() && v != v) return;
        check(c, t, eo, std::string("probe:") + p.name + ":", p.mayRefuse);
        c.stat("probes");
        return;
    }
    if (r.chance(1, 20)) return reuse(c);
    GenOpts g;
    g.maxRows = 300;
    g.bigDict = true;
    int k     = int(r.below(100));
    if (k < 4) {
        g.minCols = 60;
        g.maxCols = 300;
        g.maxRows = 6;
    }
    else if (k < 8) {
        g.minRows = 3000;
        g.maxRows = 21000;
        g.maxCols = 2;
    }
    else if (k < 16) {
        g.minRows = 300;
        g.maxRows = 1500;
        g.maxCols = 3;
    }
    if (r.chance(1, 4)) g.negBitfields = true;
    g.manyCols = 400;
    Tab t      = genTable(r, g);
    EncOpts eo = genEnc(r, t);
    bool longCodec = r.chance(1, 10);
    if (longCodec) setenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC", "1", 1);
    check(c, t, eo, longCodec ? "longcodec:" : "", false);
    if (longCodec) unsetenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC");
}
}  // namespace odv
