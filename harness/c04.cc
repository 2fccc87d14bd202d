// C04: splitting into frames, aggregating and concatenating never change the rows.
#include <algorithm>
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "ref.h"
#include "rows.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C04"; }
namespace {
// rows with unique content: every row can be told from every other
Tab gen(Rng& r, size_t minRows, size_t maxRows) {
    GenOpts g;
    g.minRows = minRows;
    g.maxRows = maxRows;
    g.maxCols = 4;
    g.manyCols = 1000;
    Tab t     = genTable(r, g);
    Col id;
    id.name = "rowid@x";
    id.type = r.chance(1, 2) ? INTEGER : DOUBLE;
    id.resize(t.n);
    double b = double(r.range(-1000, 100000));
    for (size_t i = 0; i < t.n; i++) id.d[i] = b + double(i);
    id.style = "id";
    t.c.insert(t.c.begin() + long(r.below(t.c.size() + 1)), id);
    return t;
}
bool sameCols(const Tab& a, const Tab& b, bool order) {
    if (a.c.size() != b.c.size()) return false;
    for (size_t i = 0; i < a.c.size(); i++) {
        int k = order ? int(i) : b.find(a.c[i].name);
        if (k < 0 || b.c[size_t(k)].name != a.c[i].name || b.c[size_t(k)].type != a.c[i].type || (order && b.c[size_t(k)].width != a.c[i].width)) return false;
    }
    return true;
}
// the stored frames of a file (from the reference parser), and what any aggregated reading of it must be
struct Stored {
    std::vector<Tab> fr;
};
// walks the frames delivered by a reading against the stored ones
std::string checkDelivered(const std::vector<Tab>& stored, const std::vector<Tab>& got, bool aggregated, const std::vector<long>& limits, bool maximal) {
    size_t s = 0;
    for (size_t g = 0; g < got.size(); g++) {
        std::string at = "frame " + std::to_string(g) + " of the reading: ";
        if (s >= stored.size()) return at + "more frames than stored";
        const Tab& f0 = stored[s];
        size_t parts = 0, rows = 0;
        // zero-row frames make the number of parts ambiguous: take the fewest, then empty ones while the row count still fits
        Tab want = stored[s];
        rows     = want.n;
        parts    = 1;
        long lim = limits.empty() ? -1 : limits[g % limits.size()];
        while (rows < got[g].n && s + parts < stored.size()) {
            if (!aggregated) return at + std::to_string(got[g].n) + " rows, but the stored frame has " + std::to_string(rows);
            const Tab& nx = stored[s + parts];
            if (!sameCols(f0, nx, false)) return at + "frames with different columns were aggregated";
            want.append(nx);
            rows += nx.n;
            parts++;
        }
        if (rows != got[g].n) return at + std::to_string(got[g].n) + " rows do not end at a stored frame";
        if (aggregated && lim >= 0 && long(rows) > lim && parts > 1) return at + std::to_string(rows) + " rows exceed the limit " + std::to_string(lim);
        std::string d = diffCells(want, got[g]);
        if (!d.empty()) return at + d;
        d = diffMeta(f0, got[g], true);
        if (!d.empty()) return at + d;
        s += parts;
        if (maximal && aggregated && s < stored.size() && sameCols(f0, stored[s], true) && (lim < 0 || long(rows + stored[s].n) <= lim))
            return at + "the following frame has the same columns and fits in the limit but was not aggregated";
    }
    if (s != stored.size()) return "only " + std::to_string(s) + " of " + std::to_string(stored.size()) + " stored frames were delivered";
    return "";
}

void readAllWays(Ctx& c, const Bytes& file, const std::vector<Tab>& stored, const std::string& how) {
    Rng& r = c.rng;
    size_t total = 0, maxf = 0;
    for (auto& f : stored) total += f.n, maxf = std::max(maxf, f.n);
    auto limit = [&] {
        return r.pick(std::vector<long>{-1, 0, 1, 2, long(maxf), long(maxf) + 1, long(maxf) - 1, long(total), long(total) - 1, long(total) + 1, r.range(1, long(total) + 1)});
    };
    // C interface
    for (int k = 0; k < 3; k++) {
        ReadOpts ro;
        ro.source     = int(r.below(4));
        ro.aggregated = k > 0;
        ro.maxRows    = k == 1 ? -1 : limit();
        if (ro.maxRows < -1) ro.maxRows = -1;
        ro.dec.layout = int(r.below(5));
        ro.dec.longs  = r.chance(1, 2);
        ReadResult R  = readC(file, ro);
        std::string h = how + " C reading, aggregated " + std::to_string(ro.aggregated) + " limit " + std::to_string(ro.maxRows) + " source " + std::to_string(ro.source);
        if (R.rc) {
            ODV_FAIL(c, "read-error", R.where << " " << R.err << h);
            continue;
        }
        std::string d = checkDelivered(stored, R.frames, ro.aggregated, {ro.maxRows}, true);
        if (!d.empty()) c.viol("frames", d + h);
        c.stat("readings compared");
        c.stat("frames delivered", R.frames.size());
        c.stat("frames stored", stored.size());
    }
    // C interface, every step with its own choice
    {
        odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
        odc_reader_t* rd = nullptr;
        odc_frame_t* fr  = nullptr;
        odc_open_buffer(&rd, file.data(), long(file.size()));
        odc_new_frame(&fr, rd);
        std::vector<Tab> got;
        std::vector<long> lims;
        std::string err, log;
        for (;;) {
            bool agg = r.chance(1, 2);
            long lim = agg ? std::max(-1L, limit()) : 0;
            int rc   = agg ? odc_next_frame_aggregated(fr, lim) : odc_next_frame(fr);
            log += agg ? " a" + std::to_string(lim) : std::string(" n");
            if (rc == ODC_ITERATION_COMPLETE) break;
            if (rc) {
                err = odc_error_string(rc);
                break;
            }
            DecResult d = decodeC(fr);
            if (d.rc) {
                err = d.err;
                break;
            }
            got.push_back(d.t);
            lims.push_back(lim);
        }
        odc_free_frame(fr);
        odc_close(rd);
        std::string d = err.empty() ? checkDelivered(stored, got, true, lims, true) : err;
        if (!d.empty()) c.viol("mixed-calls", d + how + " calls" + log);
        c.stat("readings compared");
    }
    // C++ interface and row iterator
    std::string path = c.scratch + "/f.odb";
    writeFile(path, file);
    CppOpts co;
    co.aggregated = r.chance(1, 2);
    co.rowlimit   = std::max(-1L, limit());
    co.nthreads   = size_t(r.range(0, 3));
    CppRead cr    = readCpp(path, co);
    std::vector<Tab> got;
    for (auto& f : cr.frames) got.push_back(f.tab);
    std::string d = cr.err.empty() ? checkDelivered(stored, got, co.aggregated, {co.rowlimit}, true) : cr.err;
    if (!d.empty()) c.viol("cpp-frames", d + how + " C++ reading, aggregated " + std::to_string(co.aggregated) + " limit " + std::to_string(co.rowlimit) + " threads " + std::to_string(co.nthreads));
    RowRead rr = readRows(path);
    if (!rr.err.empty())
        c.viol("rows-error", rr.err + how);
    else {
        // the same row sequence
        size_t s = 0, o = 0;
        for (auto& seg : rr.segs) {
            for (size_t i = 0; i < seg.n; i++) {
                while (s < stored.size() && o >= stored[s].n) s++, o = 0;
                if (s >= stored.size()) {
                    c.viol("rows", "more rows than stored" + how);
                    return;
                }
                std::string dd;
                if (seg.c.size() != stored[s].c.size()) dd = std::to_string(seg.c.size()) + " columns instead of " + std::to_string(stored[s].c.size());
                for (size_t k = 0; k < stored[s].c.size() && dd.empty(); k++) {
                    int m = seg.find(stored[s].c[k].name);
                    if (m < 0)
                        dd = "no column " + stored[s].c[k].name;
                    else if (!cellEq(stored[s].c[k], o, seg.c[size_t(m)], i))
                        dd = "column " + stored[s].c[k].name + ": " + cellStr(seg.c[size_t(m)], i) + " instead of " + cellStr(stored[s].c[k], o);
                }
                if (!dd.empty()) {
                    c.viol("rows", "row interface, frame " + std::to_string(s) + " row " + std::to_string(o) + ": " + dd + how);
                    return;
                }
                o++;
            }
        }
        while (s < stored.size() && o >= stored[s].n) s++, o = 0;
        if (s < stored.size()) c.viol("rows", "the row interface ended at frame " + std::to_string(s) + " row " + std::to_string(o) + how);
    }
    c.stat("readings compared", 2);
}

void split(Ctx& c) {
    Rng& r    = c.rng;
    bool big  = r.chance(1, 40);
    Tab t     = big ? gen(r, 9990, 20011) : gen(r, 1, 120);
    EncOpts o = genEnc(r, t);
    long n    = long(t.n);
    o.rowsPerFrame = big ? (r.chance(1, 2) ? 0 : r.range(900, 11000)) : r.pick(std::vector<long>{1, 2, 3, 5, 10, n, n + 1, std::max(1L, n - 1), std::max(1L, n / 2), (n + 1) / 2, 1000000});
    long lim       = o.rowsPerFrame ? o.rowsPerFrame : 10000;
    std::string how = " [" + describe(t) + " " + encStr(o) + "]";
    Bytes b;
    if (r.chance(1, 4)) {
        std::string p = c.scratch + "/cpp.odb";
        if (r.chance(1, 4)) {  // frames of no rows can never hold the table: refused at once, or else all of it is written
            eckit::Buffer room(1 << 16);
            eckit::MemoryHandle mh(room, room.size());
            mh.openForWrite(0);
            long at = 0;
            try {
                encodeCpp(t, p, 0, o.longs, &mh);
                at = -1;
            }
            catch (std::exception&) {
                at = long(mh.position());
            }
            if (at > 0) ODV_FAIL(c, "frames-of-no-rows", "frames of at most no rows were asked for and " << at << " bytes written" << how);
            c.stat("frames of no rows refused", at == 0);
        }
        encodeCpp(t, p, size_t(lim), o.longs);
        readFile(p, b);
        how += " C++ encoder";
    }
    else {
        EncResult e = encodeC(t, o);
        if (e.rc) {
            ODV_FAIL(c, "encode-error", e.err << how);
            return;
        }
        b = e.bytes;
    }
    std::vector<RefFrame> rf;
    try {
        rf = refParse(b);
    }
    catch (RefErr& e) {
        ODV_FAIL(c, "format", e.what() << how);
        return;
    }
    std::vector<Tab> stored;
    for (auto& f : rf) {
        if (f.nrows > lim) ODV_FAIL(c, "frame-limit", "a frame of " << f.nrows << " rows was written with the limit " << lim << how);
        if (f.nrows == 0) c.viol("empty-frame", "an empty frame was written" + how);
        Tab ft = f.tab;
        stored.push_back(ft);
    }
    std::string d = diffCells(t, concat(stored));
    if (!d.empty()) c.viol("split", d + how);
    // string widths seen by the interface are those of the stored strings
    readAllWays(c, b, stored, how);
    c.sig(mix(mix(1, shapeSig(t)), rowClass(size_t(lim))));
    c.sample(how);
}

void cat(Ctx& c) {
    Rng& r   = c.rng;
    size_t F = size_t(r.range(2, 7));
    Tab base = gen(r, 1, 30);
    Bytes file;
    std::string how = " [concatenation of";
    Tab cur = base;
    for (size_t f = 0; f < F; f++) {
        // vary what the previous file had
        Tab t = cur;
        switch (f ? int(r.below(9)) : 0) {
            case 1:  // other order
                for (size_t i = t.c.size(); i > 1; i--) std::swap(t.c[i - 1], t.c[r.below(i)]);
                how += " permuted";
                break;
            case 2:  // one column less
                if (t.c.size() > 1) t.c.erase(t.c.begin() + long(r.below(t.c.size())));
                how += " fewer";
                break;
            case 3: {  // one more
                Col k;
                k.name = "extra" + std::to_string(f) + "@y";
                GenOpts g;
                k.type = r.chance(1, 2) ? STRING : REAL;
                genCells(r, k, t.n, g);
                t.c.insert(t.c.begin() + long(r.below(t.c.size() + 1)), k);
                how += " more";
                break;
            }
            case 4: {  // renamed
                t.c[r.below(t.c.size())].name = "renamed" + std::to_string(f);
                how += " renamed";
                break;
            }
            case 5: {  // other type
                Col& k = t.c[r.below(t.c.size())];
                if (k.name != "rowid@x") {
                    k.type = k.type == DOUBLE ? REAL : k.type == REAL ? DOUBLE : k.type == INTEGER ? DOUBLE : INTEGER;
                    k.bits.clear();
                    GenOpts g;
                    k.width = 8;
                    genCells(r, k, t.n, g);
                }
                how += " retyped";
                break;
            }
            case 6: {  // other string widths
                for (auto& k : t.c)
                    if (k.isStr()) {
                        k.width = 8 * size_t(r.range(1, 5));
                        for (auto& s : k.s) s = genString(r, k.width - 8, k.width);
                    }
                how += " widths";
                break;
            }
            default:;
        }
        cur = t;
        // other rows
        size_t n = size_t(r.range(1, 30));
        std::vector<size_t> idx;
        for (size_t i = 0; i < n; i++) idx.push_back(r.below(t.n));
        Tab u = t.rows(idx);
        int k = u.find("rowid@x");
        if (k >= 0)
            for (size_t i = 0; i < n; i++) u.c[size_t(k)].d[i] = double(f * 1000 + i), u.c[size_t(k)].miss[i] = 0;
        EncOpts o = genEnc(r, u);
        o.rowsPerFrame = r.chance(1, 3) ? r.range(1, 10) : 0;
        if (r.chance(1, 6)) {
            RefWrite w;
            w.big     = r.chance(1, 2);
            w.markers = int(r.below(3));
            Bytes b   = refWriteFrame(r, u, w);
            file.insert(file.end(), b.begin(), b.end());
            how += w.big ? " swapped" : " ref";
        }
        else {
            EncResult e = encodeC(u, o);
            if (e.rc) {
                ODV_FAIL(c, "encode-error", e.err << how);
                return;
            }
            file.insert(file.end(), e.bytes.begin(), e.bytes.end());
        }
        how += ",";
    }
    how += " base " + describe(base) + "]";
    std::vector<Tab> stored;
    try {
        for (auto& f : refParse(file, false)) stored.push_back(f.tab);
    }
    catch (RefErr& e) {
        ODV_FAIL(c, "format", e.what() << how);
        return;
    }
    readAllWays(c, file, stored, how);
    c.stat("concatenations");
    c.sig(mix(mix(2, shapeSig(base)), hashStr(how.substr(0, how.find(" base ")))));
    c.sample(how);
}
}  // namespace
uint64_t odvProbes() { return 0; }
void odvInit() {}
void odvCase(Ctx& c) { return c.idx % 2 ? split(c) : cat(c); }
}  // namespace odv
