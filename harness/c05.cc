// C05: threaded decoding of aggregated frames equals serial decoding. Built with ThreadSanitizer.
#include <unistd.h>
#include <algorithm>
#include "ref.h"
#include "rows.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C05"; }
namespace {
// a source which delivers slowly, irregularly, and may fail from a given call on
struct Slow {
    const Bytes* b;
    size_t pos = 0;
    uint64_t noise;
    long failAt = -1, calls = 0;
    bool failed = false;
    static long read(void* ctx, void* buf, long len) {
        Slow* s = static_cast<Slow*>(ctx);
        s->calls++;
        s->noise = mix(s->noise, 1);
        if (s->noise % 5 == 0) usleep(useconds_t(s->noise / 8 % 60));
        if (s->failAt >= 0 && s->calls >= s->failAt) {
            s->failed = true;
            return -1;
        }
        size_t k = std::min(s->b->size() - s->pos, size_t(len));
        memcpy(buf, s->b->data() + s->pos, k);
        s->pos += k;
        return long(k);
    }
};
Tab gen(Rng& r, size_t maxRows) {
    GenOpts g;
    g.maxRows = maxRows;
    g.maxCols = 5;
    g.manyCols = 300;
    return genTable(r, g);
}
Bytes build(Ctx& c, Tab& all, size_t& frames) {
    Rng& r = c.rng;
    Tab t  = gen(r, r.chance(1, 10) ? 2000 : 200);
    Bytes file;
    size_t at = 0;
    frames    = 0;
    all       = t;
    while (at < t.n) {
        size_t k = std::min<size_t>(t.n - at, size_t(r.range(1, r.chance(1, 2) ? 4 : 60)));
        if (frames > 80) k = t.n - at;
        Tab s = t.slice(at, k);
        at += k;
        // the same columns everywhere, in different orders, storage chosen from the content of each part
        if (r.chance(1, 3))
            for (size_t i = s.c.size(); i > 1; i--) std::swap(s.c[i - 1], s.c[r.below(i)]);
        RefWrite w;
        w.big     = r.chance(1, 4);
        w.markers = int(r.below(3));
        bool numeric = true;
        for (auto& col : s.c) numeric &= !col.isStr();
        if (numeric && r.chance(1, 3)) {
            Bytes b = refWriteFrame(r, s, w);
            file.insert(file.end(), b.begin(), b.end());
        }
        else {
            EncResult e = encodeC(s);
            if (e.rc) {
                ODV_FAIL(c, "encode-error", e.err << describe(s));
                return file;
            }
            file.insert(file.end(), e.bytes.begin(), e.bytes.end());
        }
        frames++;
    }
    return file;
}
}  // namespace
uint64_t odvProbes() { return 0; }
void odvInit() {}
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    Tab all;
    size_t nf  = 0;
    Bytes file = build(c, all, nf);
    bool longs = r.chance(1, 2);
    DecOpts serial = genDec(r, all.c.size());
    serial.longs   = longs;
    if (r.chance(1, 4) && all.c.size() > 1) {
        for (auto& col : all.c)
            if (r.chance(1, 2)) serial.select.push_back(col.name);
        std::reverse(serial.select.begin(), serial.select.end());
    }
    std::string how = " [" + describe(all) + " in " + std::to_string(nf) + " frames " + decStr(serial) + "]";
    int mode        = int(c.idx % 4);
    if (mode < 3) {
        // the frame, read through some source, decoded by several numbers of threads
        std::string path = c.scratch + "/f.odb";
        writeFile(path, file);
        odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        odc_reader_t* rd = nullptr;
        odc_frame_t* fr  = nullptr;
        Slow src{&file, 0, c.seed * 77 + c.idx, -1, 0, false};
        int source = int(r.below(4));
        int rc     = 0;
        int fd     = -1;
        if (source == 0)
            rc = odc_open_path(&rd, path.c_str());
        else if (source == 1)
            rc = odc_open_buffer(&rd, file.data(), long(file.size()));
        else if (source == 2) {
            FILE* f = fopen(path.c_str(), "rb");
            fd      = dup(fileno(f));
            fclose(f);
            rc = odc_open_file_descriptor(&rd, fd);
            close(fd);
        }
        else
            rc = odc_open_stream(&rd, &src, Slow::read);
        if (!rc) rc = odc_new_frame(&fr, rd);
        long limit = r.chance(1, 2) ? -1 : r.range(1, long(all.n) + 5);
        size_t at  = 0;
        while (!rc) {
            rc = odc_next_frame_aggregated(fr, limit);
            if (rc) break;
            DecResult one = decodeC(fr, serial);
            if (one.rc) {
                ODV_FAIL(c, "serial-error", one.err << how);
                break;
            }
            Tab exp = all.slice(at, one.t.n);
            if (!serial.select.empty()) {
                Tab e2;
                e2.n = exp.n;
                for (auto& nm : serial.select) e2.c.push_back(exp.c[size_t(exp.find(nm))]);
                exp = e2;
            }
            at += one.t.n;
            int rounds = 3;
            for (int k = 0; k < rounds; k++) {
                DecOpts o     = serial;
                o.threads     = int(r.pick(std::vector<long>{2, 2, 3, 4, 8, 16}));
                DecResult par = decodeC(fr, o);
                std::string h = how + " threads " + std::to_string(o.threads) + " source " + std::to_string(source) + " limit " + std::to_string(limit);
                if (par.rc) {
                    ODV_FAIL(c, "threaded-error", par.err << h);
                    continue;
                }
                std::string d = diffCells(one.t, par.t, false);
                if (!d.empty()) c.viol("threaded", d + h);
                d = diffCells(exp, par.t, true, true);
                if (!d.empty()) c.viol("threaded-vs-encoded", d + h);
                if (!par.guardOk) c.viol("threaded-guard", par.guardMsg + h);
                c.stat("threaded decodes compared");
                c.stat("cells compared", par.t.n * par.t.c.size());
                c.stat("threads started", uint64_t(o.threads));
            }
        }
        if (rc && rc != ODC_ITERATION_COMPLETE) ODV_FAIL(c, "read-error", odc_error_string(rc) << how);
        if (at != all.n) ODV_FAIL(c, "rows", at << " rows of " << all.n << " delivered" << how);
        if (fr) odc_free_frame(fr);
        if (rd) odc_close(rd);
        // C++ interface
        CppOpts co;
        co.aggregated = true;
        co.nthreads   = size_t(r.range(2, 6));
        co.source     = int(r.below(2));
        CppRead cr    = readCpp(path, co);
        std::vector<Tab> v;
        for (auto& f : cr.frames) v.push_back(f.tab);
        std::string d = cr.err.empty() ? diffCells(all, concat(v), true, true) : cr.err;
        if (!d.empty()) c.viol("cpp-threaded", d + how);
        c.stat("threaded decodes compared");
        c.sig(mix(mix(shapeSig(all), rowClass(nf)), uint64_t(source)));
        c.sample(how);
    }
    else {
        // one part of the frame cannot be decoded: the call must report it, for any number of threads
        std::vector<RefFrame> rf = refParse(file, false);
        Bytes bad                = file;
        size_t k                 = r.below(rf.size());
        const RefFrame& f        = rf[k];
        int how2                 = int(r.below(3));
        Slow src{&bad, 0, c.seed * 78 + c.idx, -1, 0, false};
        size_t at = f.off + f.headerLen;
        // the start column of some row is impossible (rows are found by the reference: use the first row)
        if (how2 == 0)
            bad[at] = 0x7f, bad[at + 1] = 0xff;
        else if (how2 == 1) {
            // anywhere inside the rows of some part
            const RefFrame& g = rf[rf.size() - 1 - r.below(std::min<size_t>(3, rf.size()))];
            bad.resize(g.off + g.headerLen + r.below(g.dataLen));
        }
        odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        odc_reader_t* rd = nullptr;
        odc_frame_t* fr  = nullptr;
        int rc = how2 == 2 || r.chance(1, 2) ? odc_open_stream(&rd, &src, Slow::read) : odc_open_buffer(&rd, bad.data(), long(bad.size()));
        if (!rc) rc = odc_new_frame(&fr, rd);
        // every aggregated frame up to the first error, which must come
        bool reported = rc != 0, first = true;
        int threads   = int(r.range(2, 8));
        size_t rows   = 0;
        while (!reported) {
            rc = odc_next_frame_aggregated(fr, -1);
            if (rc == ODC_ITERATION_COMPLETE) break;
            if (rc) {
                reported = true;
                break;
            }
            if (how2 == 2 && first) {
                // the source fails while it is being decoded
                src.failAt = src.calls + long(nf == 1 ? 1 : r.range(1, long(nf)));
                first      = false;
            }
            DecOpts o     = serial;
            o.threads     = threads;
            DecResult par = decodeC(fr, o);
            rows += par.rc ? 0 : par.t.n;
            reported = par.rc != 0;
        }
        bool must = how2 < 2 || src.failed;
        if (must && !reported)
            ODV_FAIL(c, "lost-error", "part " << k << " cannot be decoded (" << (how2 == 0 ? "impossible row marker" : how2 == 1 ? "cut file" : "failing source") << ") but decoding with " << threads
                                              << " threads reported success for " << rows << " rows" << how);
        c.stat("failing parts", must);
        if (fr) odc_free_frame(fr);
        if (rd) odc_close(rd);
        c.sig(mix(mix(shapeSig(all), rowClass(nf)), 100 + uint64_t(how2)));
    }
}
}  // namespace odv
