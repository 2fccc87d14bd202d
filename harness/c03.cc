// C03: layouts never change the data, nothing outside the cells is written, small targets are refused.
#include <algorithm>
#include "ref.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C03"; }
namespace {
long sinkVec(void* ctx, const void* b, long n) {
    Bytes* v = static_cast<Bytes*>(ctx);
    v->insert(v->end(), static_cast<const unsigned char*>(b), static_cast<const unsigned char*>(b) + n);
    return n;
}
Tab gen(Rng& r, size_t maxRows = 60) {
    GenOpts g;
    g.maxRows = r.chance(1, 12) ? 400 : maxRows;
    g.maxCols = r.chance(1, 10) ? 12 : 5;
    g.manyCols = 500;
    return genTable(r, g);
}

// ---- encoding -------------------------------------------------------------------------------------------------
void encodeLayouts(Ctx& c) {
    Rng& r = c.rng;
    Tab t  = gen(r);
    for (int layout = 0; layout < 3; layout++) {
        EncOpts o = genEnc(r, t);
        o.layout  = layout;
        o.strides.clear();
        if (layout == 2)
            for (size_t i = 0; i < t.c.size(); i++) o.strides.push_back(r.chance(1, 2) ? 8 * r.below(6) : 0);
        o.setRowCount = o.slackRows || layout == 2 || r.chance(1, 2);
        EncResult e   = encodeC(t, o);
        std::string how = " [" + describe(t) + " " + encStr(o) + "]";
        if (e.rc) {
            ODV_FAIL(c, "encode-error", e.err << how);
            continue;
        }
        ReadResult R = readC(e.bytes);
        if (R.rc) {
            ODV_FAIL(c, "read-error", R.err << how);
            continue;
        }
        std::string d = diffCells(t, concat(R.frames));
        if (!d.empty()) c.viol("encode-layout", d + how);
        c.stat("layouts encoded");
    }
    c.sig(mix(1, shapeSig(t)));
}

// arrays which are too small, or sizes which make no sense, must be refused
void encodeRefused(Ctx& c) {
    Rng& r = c.rng;
    Tab t  = gen(r, 20);
    size_t W = 0;
    for (auto& col : t.c) W += col.width;
    odc_encoder_t* e = nullptr;
    odc_new_encoder(&e);
    odc_integer_behaviour(r.chance(1, 2) ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    int mode = int(r.below(5));
    long w = long(W), h = long(t.n), nrows = long(t.n);
    bool cm = r.chance(1, 2);
    int rc  = 0;
    std::string what;
    switch (mode) {
        case 0:
            w -= 8 * long(r.range(1, long(W / 8)));
            what = "narrow array";
            break;
        case 1:
            nrows += r.range(1, 3);
            what = "more rows announced than the array holds";
            break;
        case 2:
            what = "element size not a multiple of 8";
            break;
        case 3:
            what = "no data for a column";
            break;
        case 4:
            what = "no rows";
            nrows = h = 0;
            break;
    }
    std::unique_ptr<unsigned char[]> block(new unsigned char[size_t(w > 0 ? w : 1) * size_t(h > 0 ? h : 1)]());
    bool refused = false;
    auto call    = [&](int code) {
        if (code) refused = true;
        return code == 0;
    };
    for (size_t i = 0; i < t.c.size() && !refused; i++) {
        call(odc_encoder_add_column(e, t.c[i].name.c_str(), t.c[i].type));
        int es = int(t.c[i].width);
        if (mode == 2 && i == 0) es += int(r.range(1, 7));
        call(odc_encoder_column_set_data_size(e, int(i), es));
        if (mode == 3 && i > 0) call(odc_encoder_column_set_data_array(e, int(i), es, 0, block.get()));
    }
    if (!refused && mode != 3) call(odc_encoder_set_data_array(e, block.get(), w, h, cm ? 8 : 0));
    if (!refused) call(odc_encoder_set_row_count(e, nrows));
    Bytes out;
    long n = -1;
    if (!refused) call(odc_encode_to_stream(e, &out, sinkVec, &n));
    if (!refused) ODV_FAIL(c, "encode-accepted", what << " was accepted, " << n << " bytes written [" << describe(t) << "]");
    odc_free_encoder(e);
    (void)rc;
    c.stat("unusable encode layouts refused", refused);
    c.sig(mix(2, mix(shapeSig(t), uint64_t(mode * 2 + cm))));
}

// one encoder, several arrays one after the other
void encodeAgain(Ctx& c) {
    Rng& r = c.rng;
    Tab t  = gen(r, 20);
    odc_encoder_t* e = nullptr;
    odc_new_encoder(&e);
    bool longs = r.chance(1, 2);
    odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    for (size_t i = 0; i < t.c.size(); i++) {
        odc_encoder_add_column(e, t.c[i].name.c_str(), t.c[i].type);
        for (auto& b : t.c[i].bits) odc_encoder_column_add_bitfield(e, int(i), b.first.c_str(), b.second);
        odc_encoder_column_set_data_size(e, int(i), int(t.c[i].width));
    }
    int rounds = int(r.range(2, 4));
    for (int k = 0; k < rounds; k++) {
        Tab u = t;
        size_t n = size_t(r.range(1, 25));
        u.n      = n;
        GenOpts g;
        for (auto& col : u.c) {
            size_t w = col.width;
            std::vector<size_t> idx;
            Col src = col;
            if (src.isStr()) {
                col.resize(n);
                for (auto& s : col.s) s = genString(r, 0, w);
            }
            else {
                Col z = col;
                z.resize(0);
                for (size_t i = 0; i < n; i++) z.push(src, r.below(src.size()));
                col = z;
            }
            col.width = w;
        }
        EncOpts o;
        o.layout     = int(r.below(2));
        o.longs      = longs;
        o.slackRows  = r.below(3);
        o.slackWidth = 8 * r.below(3);
        Image im;
        buildImage(u, o, im);
        odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        int rc = odc_encoder_set_data_array(e, im.array, im.width, im.height, o.layout == 1 ? 8 : 0);
        if (!rc && (o.slackRows || r.chance(1, 2) || k > 0)) rc = odc_encoder_set_row_count(e, long(n));
        Bytes out;
        long nb = -1;
        if (!rc) rc = odc_encode_to_stream(e, &out, sinkVec, &nb);
        std::string how = " [round " + std::to_string(k) + " of one encoder, " + describe(u) + " " + encStr(o) + "]";
        if (rc) {
            ODV_FAIL(c, "encode-again-error", odc_error_string(rc) << how);
            break;
        }
        ReadResult R  = readC(out);
        std::string d = R.rc ? R.err : diffCells(u, concat(R.frames));
        if (!d.empty()) {
            c.viol("encode-again", d + how);
            break;
        }
        c.stat("encodings by reused encoders");
    }
    odc_free_encoder(e);
    c.sig(mix(3, shapeSig(t)));
}

// ---- decoding: one decoder object, random reconfiguration, several frames -----------------------------------------
struct ColCfg {
    size_t es = 0, stride = 0;       // explicit element size (0 automatic)
    std::unique_ptr<unsigned char[]> blk;
    size_t bytes = 0;
};
struct Cfg {
    bool external = false, cm = false;
    long nrows = -1;   // explicit row count
    size_t w = 0, h = 0;
    std::unique_ptr<unsigned char[]> arr;
    std::vector<ColCfg> col;
};

void decodeSequence(Ctx& c) {
    Rng& r     = c.rng;
    Tab base   = gen(r, 30);
    size_t F   = size_t(r.range(1, 4));
    bool longs = r.chance(1, 2);
    std::vector<Tab> tabs;
    Bytes file;
    size_t maxRows = 0;
    for (size_t f = 0; f < F; f++) {
        Tab t = base;
        size_t n = size_t(r.range(1, 30));
        t.n      = n;
        for (auto& col : t.c) {
            Col src = col;
            if (src.isStr()) {
                col.width = 8 * size_t(r.range(1, 4));
                col.resize(n);
                size_t L = col.width;
                for (auto& s : col.s) s = genString(r, 0, L);
            }
            else {
                Col z = col;
                z.resize(0);
                for (size_t i = 0; i < n; i++) z.push(src, r.below(src.size()));
                col = z;
            }
        }
        if (F > 1 && r.chance(1, 2)) std::reverse(t.c.begin(), t.c.end());
        EncResult e = encodeC(t);
        if (e.rc) {
            ODV_FAIL(c, "encode-error", e.err << " " << describe(t));
            return;
        }
        file.insert(file.end(), e.bytes.begin(), e.bytes.end());
        tabs.push_back(t);
        maxRows = std::max(maxRows, n);
    }
    odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    odc_reader_t* rd = nullptr;
    std::vector<odc_frame_t*> frames;
    odc_frame_t* fr = nullptr;
    if (odc_open_buffer(&rd, file.data(), long(file.size())) || odc_new_frame(&fr, rd)) {
        c.viol("open", odc_error_string(1));
        return;
    }
    std::vector<Tab> meta;
    while (odc_next_frame(fr) == 0) {
        odc_frame_t* cp = nullptr;
        odc_copy_frame(fr, &cp);
        frames.push_back(cp);
        Tab m;
        std::string err;
        metaC(cp, m, err);
        meta.push_back(m);
    }
    if (frames.size() != F) {
        ODV_FAIL(c, "frames", frames.size() << " frames instead of " << F);
        return;
    }
    // columns decoded: a random non-empty selection in random order
    std::vector<std::string> names;
    for (auto& col : base.c) names.push_back(col.name);
    for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[r.below(i)]);
    names.resize(size_t(r.range(1, long(names.size()))));
    size_t NC = names.size();

    odc_decoder_t* d = nullptr;
    odc_new_decoder(&d);
    bool named = false;
    if (r.chance(1, 4) && NC == base.c.size()) {
        odc_decoder_defaults_from_frame(d, frames[0]);
        names.clear();
        for (auto& col : tabs[0].c) names.push_back(col.name);
        named = true;
    }
    if (!named)
        for (auto& nm : names) odc_decoder_add_column(d, nm.c_str());

    Cfg cfg;
    cfg.col.resize(NC);
    std::vector<size_t> lastSize(NC, 0);
    bool first = true, everExternal = false;
    int steps  = int(r.range(2, 7));
    std::vector<std::string> log;
    for (int s = 0; s < steps; s++) {
        size_t f        = r.below(F);
        const Tab& exp  = tabs[f];
        size_t n        = exp.n;
        bool tooSmall   = false;
        std::string why;
        std::vector<size_t> need(NC);
        for (size_t i = 0; i < NC; i++) need[i] = meta[f].c[size_t(meta[f].find(names[i]))].width;
        bool reconf = first || r.chance(2, 3);
        std::ostringstream L;
        int rc = 0;
        if (reconf) {
            // explicit sizes and per column arrays
            int small = r.chance(1, 5) ? int(r.below(4)) : -1;  // which way to be too small
            for (size_t i = 0; i < NC; i++) {
                ColCfg& k = cfg.col[i];
                bool str  = meta[f].c[size_t(meta[f].find(names[i]))].isStr();
                size_t es = r.chance(1, 3) ? need[i] + 8 * r.below(3) : 0;
                if (small == 0 && str && need[i] > 8 && r.chance(1, 2)) {
                    es       = need[i] - 8;
                    tooSmall = true;
                    why      = "element smaller than the string";
                }
                bool own = r.chance(1, 4);
                k.blk.reset();
                k.bytes = 0;
                if (own) {
                    if (es == 0) es = need[i];
                    k.es     = es;
                    k.stride = es + (r.chance(1, 2) ? 8 * r.below(4) : 0);
                    size_t H = std::max(n, maxRows);
                    k.bytes  = (H - 1) * k.stride + es;
                    k.blk.reset(new unsigned char[k.bytes]);
                    if (!rc) rc = odc_decoder_column_set_data_array(d, int(i), int(es), (k.stride == es && r.chance(1, 2)) ? 0 : int(k.stride), k.blk.get());
                }
                else {
                    k.es     = es;
                    k.stride = 0;
                    if (!rc) rc = odc_decoder_column_set_data_array(d, int(i), int(es), 0, nullptr);
                    if (!rc && r.chance(1, 3)) rc = odc_decoder_column_set_data_size(d, int(i), int(es));
                }
            }
            size_t W = 0;
            for (size_t i = 0; i < NC; i++)
                if (!cfg.col[i].blk) W += cfg.col[i].es ? cfg.col[i].es : need[i];
            cfg.external = everExternal || r.chance(1, 2);
            if (W == 0 && !everExternal) cfg.external = false;
            if (cfg.external) {
                everExternal = true;
                cfg.cm       = r.chance(1, 2);
                cfg.w        = W + 8 * r.below(3);
                cfg.h        = n + r.below(4);
                if (small == 1 && n > 1) {
                    cfg.h    = size_t(r.range(1, long(n) - 1));
                    tooSmall = true;
                    why      = "array with fewer rows than the frame";
                }
                if (small == 2 && W >= 16) {
                    cfg.w    = W - 8;
                    tooSmall = true;
                    why      = "array narrower than the columns";
                }
                if (cfg.w == 0) cfg.w = 8;
                cfg.arr.reset(new unsigned char[cfg.w * cfg.h]);
                if (!rc) rc = odc_decoder_set_data_array(d, cfg.arr.get(), long(cfg.w), long(cfg.h), cfg.cm);
                cfg.nrows = long(cfg.h);
                if (r.chance(1, 3) && !tooSmall) {
                    cfg.nrows = r.range(long(n), long(cfg.h));
                    if (!rc) rc = odc_decoder_set_row_count(d, cfg.nrows);
                }
            }
            else {
                cfg.arr.reset();
                cfg.cm = r.chance(1, 2);
                if (!rc) rc = odc_decoder_set_column_major(d, cfg.cm);
                cfg.nrows = long(n) + (r.chance(1, 2) ? r.range(0, 3) : 0);
                if (cfg.nrows > long(std::max(n, maxRows))) cfg.nrows = long(n);
                if (small == 3 && n > 1) {
                    cfg.nrows = long(r.range(1, long(n) - 1));
                    tooSmall  = true;
                    why       = "row count below that of the frame";
                }
                if (!rc) rc = odc_decoder_set_row_count(d, cfg.nrows);
            }
            first = false;
            if (rc) {
                ODV_FAIL(c, "configure-error", odc_error_string(rc) << " " << describe(exp));
                break;
            }
            for (size_t i = 0; i < NC; i++) lastSize[i] = cfg.col[i].es ? cfg.col[i].es : need[i];
        }
        else {
            if (cfg.nrows < long(n)) {
                tooSmall = true;
                why      = "row count below that of the frame (unchanged configuration)";
            }
            for (size_t i = 0; i < NC; i++)
                if (lastSize[i] < need[i]) {
                    tooSmall = true;
                    why      = "element smaller than the string (unchanged configuration)";
                }
        }
        L << (reconf ? "configure " : "again ") << "frame " << f << " (" << n << " rows)" << (cfg.external ? " external" : " owned") << (cfg.cm ? " colmajor" : " rowmajor") << " w="
          << cfg.w << " h=" << cfg.h << " nrows=" << cfg.nrows;
        for (size_t i = 0; i < NC; i++) L << " " << cfg.col[i].es << (cfg.col[i].blk ? "*" : "");
        if (tooSmall) L << " too small: " << why;
        log.push_back(L.str());
        std::string how;
        for (auto& x : log) how += " | " + x;
        how = " [" + describe(exp) + how + "]";

        if (cfg.arr) memset(cfg.arr.get(), 0xA5, cfg.w * cfg.h);
        for (auto& k : cfg.col)
            if (k.blk) memset(k.blk.get(), 0xA5, k.bytes);
        long got = -1;
        rc       = odc_decode(d, frames[f], &got);
        if (tooSmall) {
            c.stat("too small targets");
            if (!rc) ODV_FAIL(c, "small-accepted", why << how);
            // nothing may have been written outside the cells there would have been: all of it must be unchanged
            bool touched = false;
            if (cfg.arr)
                for (size_t i = 0; i < cfg.w * cfg.h; i++) touched |= cfg.arr[i] != 0xA5;
            for (auto& k : cfg.col)
                for (size_t i = 0; i < k.bytes; i++) touched |= k.blk[i] != 0xA5;
            if (rc && touched) c.viol("small-written", "data were written to a target that was refused: " + why + how);
            if (rc) first = true;  // a fresh configuration follows
            continue;
        }
        if (rc) {
            ODV_FAIL(c, "decode-error", odc_error_string(rc) << how);
            break;
        }
        if (size_t(got) != n) ODV_FAIL(c, "rows", got << " rows decoded instead of " << n << how);
        // where the cells are, by the definition of the layout
        const unsigned char* arr = nullptr;
        size_t w = cfg.w, h = cfg.h;
        size_t W = 0;
        for (size_t i = 0; i < NC; i++)
            if (!cfg.col[i].blk) W += lastSize[i];
        if (cfg.external)
            arr = cfg.arr.get();
        else if (W) {
            const void* p = nullptr;
            long lw = -1, lh = -1;
            bool cm2 = !cfg.cm;
            rc = odc_decoder_data_array(d, &p, &lw, &lh, &cm2);
            if (rc || size_t(lw) != W || lh < long(n) || cm2 != cfg.cm) {
                ODV_FAIL(c, "array-attributes", "rc " << rc << " width " << lw << " for " << W << " height " << lh << " column major " << cm2 << how);
                break;
            }
            arr = static_cast<const unsigned char*>(p);
            w = size_t(lw), h = size_t(lh);
        }
        std::vector<char> used(cfg.external ? cfg.w * cfg.h : 0, 0);
        size_t off = 0;
        std::string bad;
        for (size_t i = 0; i < NC && bad.empty(); i++) {
            const Col& e = exp.c[size_t(exp.find(names[i]))];
            Col g        = e;
            g.resize(0);
            g.resize(n);
            size_t es = lastSize[i];
            const unsigned char* start;
            size_t stride = 0;
            bool inArr    = !cfg.col[i].blk;
            if (!inArr) {
                start  = cfg.col[i].blk.get();
                stride = cfg.col[i].stride;
            }
            else {
                start = arr + off;
                off += cfg.cm ? es * h : es;
            }
            int res = -1, rst = -1;
            const void* rp = nullptr;
            odc_decoder_column_data_array(d, int(i), &res, &rst, &rp);
            if (rp != start || size_t(res) != es)
                bad = "column " + std::to_string(i) + " is reported at a different address or with element size " + std::to_string(res) + " for " + std::to_string(es);
            std::vector<unsigned char> cell(es);
            std::vector<char> ownUsed(inArr ? 0 : cfg.col[i].bytes, 0);
            for (size_t row = 0; row < n && bad.empty(); row++) {
                for (size_t b = 0; b < es; b++) {
                    size_t o;
                    if (!inArr) {
                        o          = row * stride + b;
                        ownUsed[o] = 1;
                    }
                    else {
                        o = cfg.cm ? (b / 8 * h + row) * 8 + b % 8 : row * w + b;
                        if (cfg.external) used[size_t(start - arr) + o] = 1;
                    }
                    cell[b] = start[o];
                }
                if (e.isStr()) {
                    size_t l = strnlen(reinterpret_cast<char*>(cell.data()), es);
                    g.s[row] = std::string(reinterpret_cast<char*>(cell.data()), l);
                    for (size_t b = l; b < es; b++)
                        if (cell[b]) bad = "string not padded with NULs, column " + std::to_string(i) + " row " + std::to_string(row) + ": " + hex(cell.data(), es);
                }
                else if (e.isInt() && longs) {
                    int64_t v;
                    memcpy(&v, cell.data(), 8);
                    g.d[row]    = double(v);
                    g.miss[row] = v == 2147483647;
                }
                else {
                    memcpy(&g.d[row], cell.data(), 8);
                    g.miss[row] = g.d[row] == (e.isInt() ? 2147483647.0 : -2147483647.0);
                }
                if (bad.empty() && !cellEq(e, row, g, row)) bad = "column " + std::to_string(i) + " row " + std::to_string(row) + ": " + cellStr(g, row) + " instead of " + cellStr(e, row);
                c.stat("cells compared");
            }
            for (size_t b = 0; b < ownUsed.size() && bad.empty(); b++)
                if (!ownUsed[b] && cfg.col[i].blk[b] != 0xA5) bad = "byte " + std::to_string(b) + " between the cells of column " + std::to_string(i) + " was overwritten";
        }
        for (size_t b = 0; b < used.size() && bad.empty(); b++)
            if (!used[b] && cfg.arr[b] != 0xA5) bad = "byte " + std::to_string(b) + " of the array, outside every cell, was overwritten";
        if (!bad.empty()) {
            c.viol("decode-layout", bad + how);
            break;
        }
        c.stat("decodes checked");
        c.sig(mix(mix(4, shapeSig(base)), uint64_t(cfg.external * 4 + cfg.cm * 2 + reconf)));
        if (s == 1) c.sample(how);
    }
    odc_free_decoder(d);
    for (auto* f : frames) odc_free_frame(f);
    odc_free_frame(fr);
    odc_close(rd);
}

// aggregated frames into every layout
void aggregated(Ctx& c) {
    Rng& r = c.rng;
    Tab t  = gen(r, 40);
    EncOpts o;
    o.rowsPerFrame = r.range(1, 10);
    if (long(t.n) / o.rowsPerFrame > 60) o.rowsPerFrame = 40;
    EncResult e = encodeC(t, o);
    if (e.rc) {
        ODV_FAIL(c, "encode-error", e.err << " " << describe(t));
        return;
    }
    ReadOpts ro;
    ro.aggregated  = true;
    ro.dec         = genDec(r, t.c.size());
    ro.dec.threads = int(r.range(1, 3));
    if (r.chance(1, 3)) ro.dec.widen = 8 * r.below(3);
    ReadResult R = readC(e.bytes, ro);
    std::string how = " [" + describe(t) + " " + encStr(o) + decStr(ro.dec) + "]";
    if (R.rc) {
        ODV_FAIL(c, "aggregated-error", R.err << how);
        return;
    }
    std::string d = diffCells(t, concat(R.frames));
    if (!d.empty()) c.viol("aggregated-layout", d + how);
    if (!R.guardOk) c.viol("aggregated-guard", R.guardMsg + how);
    c.stat("aggregated decodes checked");
    c.sig(mix(mix(5, shapeSig(t)), uint64_t(ro.dec.layout)));
}
}  // namespace
uint64_t odvProbes() { return 0; }
void odvInit() {}
void odvCase(Ctx& c) {
    switch (c.idx % 8) {
        case 0:
            return encodeLayouts(c);
        case 1:
            return encodeRefused(c);
        case 2:
            return encodeAgain(c);
        case 3:
            return aggregated(c);
        default:
            return decodeSequence(c);
    }
}
}  // namespace odv
