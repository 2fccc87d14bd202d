// C06: threads with their own objects behave as if alone. Built with ThreadSanitizer.
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "ref.h"
#include "rows.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C06"; }
namespace {
struct Barrier {
    std::mutex m;
    std::condition_variable cv;
    int n = 0;
    int total;
    explicit Barrier(int t) : total(t) {}
    void wait() {
        std::unique_lock<std::mutex> l(m);
        if (++n == total)
            cv.notify_all();
        else
            cv.wait(l, [&] { return n >= total; });
    }
};
struct Work {
    Rng r{1};
    int id = 0;
    std::string err;
    std::string scratch;
    uint64_t ops = 0, cells = 0;
    void fail(const std::string& k, const std::string& m) {
        if (err.empty()) err = k + "|thread " + std::to_string(id) + ": " + m;
    }
};
void jitter(Rng& r) {
    if (r.chance(1, 6)) usleep(useconds_t(r.below(30)));
}
long sinkVec(void* ctx, const void* b, long n) {
    Bytes* v = static_cast<Bytes*>(ctx);
    v->insert(v->end(), static_cast<const unsigned char*>(b), static_cast<const unsigned char*>(b) + n);
    return n;
}
// encodeC without any shared file
bool enc(Work& w, const Tab& t, bool longs, Bytes& out) {
    odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    EncOpts o;
    o.longs        = longs;
    o.layout       = int(w.r.below(3));
    o.rowsPerFrame = w.r.chance(1, 2) ? w.r.range(1, 20) : 0;
    Image im;
    buildImage(t, o, im);
    odc_encoder_t* e = nullptr;
    odc_new_encoder(&e);
    int rc = setupEncoder(e, t, o, im);
    long n = -1;
    jitter(w.r);
    if (!rc) rc = odc_encode_to_stream(e, &out, sinkVec, &n);
    if (rc) w.fail("encode", odc_error_string(rc));
    odc_free_encoder(e);
    return rc == 0;
}
void readBack(Work& w, const Bytes& b, const std::string& path, const Tab& exp, bool longs) {
    odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    odc_reader_t* rd = nullptr;
    odc_frame_t* fr  = nullptr;
    StreamSrc src;
    src.b  = &b;
    int rc = 0;
    switch (path.empty() ? w.r.below(2) : w.r.below(4)) {
        case 0:
            rc = odc_open_buffer(&rd, b.data(), long(b.size()));
            break;
        case 1:
            rc = odc_open_stream(&rd, &src, StreamSrc::read);
            break;
        case 2:
            rc = odc_open_path(&rd, path.c_str());
            break;
        default: {
            int fd = open(path.c_str(), O_RDONLY);
            rc     = odc_open_file_descriptor(&rd, fd);
            close(fd);
        }
    }
    if (!rc) rc = odc_new_frame(&fr, rd);
    std::vector<Tab> got;
    bool agg = w.r.chance(1, 2);
    while (!rc) {
        rc = agg ? odc_next_frame_aggregated(fr, -1) : odc_next_frame(fr);
        if (rc) break;
        DecOpts o;
        o.layout  = int(w.r.below(4));
        o.longs   = longs;
        o.threads = w.r.chance(1, 4) ? 2 : 1;
        DecResult d = decodeC(fr, o);
        rc          = d.rc;
        if (rc) break;
        got.push_back(d.t);
        jitter(w.r);
    }
    if (rc != ODC_ITERATION_COMPLETE)
        w.fail("read", odc_error_string(rc));
    else {
        std::string d = diffCells(exp, concat(got));
        if (!d.empty()) w.fail("read-cells", d);
        w.cells += exp.n * exp.c.size();
    }
    if (fr) odc_free_frame(fr);
    if (rd) odc_close(rd);
}
// an error whose message belongs to this thread only
void ownError(Work& w) {
    std::string missing = w.scratch + "/no-such-file-" + std::to_string(w.id) + "-" + std::to_string(w.r.below(100000)) + ".";
    odc_reader_t* rd    = nullptr;
    int rc              = odc_open_path(&rd, missing.c_str());
    odc_frame_t* fr     = nullptr;
    if (rc == 0) rc = odc_new_frame(&fr, rd);
    if (rc == 0) rc = odc_next_frame(fr);
    jitter(w.r);
    std::string m = odc_error_string(rc);
    if (rc == 0)
        w.fail("missing-file", "no error");
    else if (m.find(missing) == std::string::npos)
        w.fail("error-message", "the message of another call is returned: '" + m + "' for " + missing);
    if (fr) odc_free_frame(fr);
    if (rd) odc_close(rd);
}
}  // namespace
uint64_t odvProbes() { return 0; }
void odvInit() {}
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    int T  = int(r.pick(std::vector<long>{2, 3, 4, 6, 8}));
    GenOpts g;
    g.maxRows = 80;
    g.maxCols = 4;
    g.weirdNames = false;
    // tables and the file are made by a thread as well, so that the very first use of everything is concurrent in the first case of a process
    std::vector<Tab> tabs;
    for (int k = 0; k <= T; k++) tabs.push_back(genTable(r, g));
    std::vector<std::unique_ptr<Work>> ws;
    for (int k = 0; k < T; k++) {
        ws.emplace_back(new Work);
        ws.back()->r       = Rng(c.seed, c.idx, uint64_t(k) + 1000);
        ws.back()->id      = k;
        ws.back()->scratch = c.scratch;
    }
    int mode = int(c.idx / 8 % 3);
    if (mode == 0 || mode == 1) {
        Bytes shared;
        std::string path;
        if (mode == 1) {
            EncOpts eo;
            eo.rowsPerFrame = r.range(1, 30);
            EncResult e     = encodeC(tabs[size_t(T)], eo);
            shared          = e.bytes;
            path            = c.scratch + "/shared.odb";
            writeFile(path, shared);
        }
        Barrier bar(T);
        std::vector<std::thread> th;
        for (int k = 0; k < T; k++)
            th.emplace_back([&, k] {
                Work& w = *ws[size_t(k)];
                bar.wait();
                int rounds = int(w.r.range(1, 4));
                for (int q = 0; q < rounds && w.err.empty(); q++) {
                    bool longs = w.r.chance(1, 2);
                    Bytes own;
                    if (mode == 0 || w.r.chance(1, 2)) {
                        if (enc(w, tabs[size_t(k)], longs, own)) readBack(w, own, "", tabs[size_t(k)], w.r.chance(1, 2));
                    }
                    else
                        readBack(w, shared, path, tabs[size_t(T)], longs);
                    if (w.r.chance(1, 2)) ownError(w);
                    if (w.r.chance(1, 4)) {
                        RowRead rr;
                        std::string p = w.scratch + "/t" + std::to_string(w.id) + ".odb";
                        WriteOpts wo;
                        writeRows(p, {tabs[size_t(k)]}, wo);
                        rr = readRows(p);
                        if (!rr.err.empty())
                            w.fail("rows", rr.err);
                        else {
                            std::string d = diffCells(tabs[size_t(k)], concat(rr.segs));
                            if (!d.empty()) w.fail("rows-cells", d);
                        }
                        w.ops++;
                    }
                    if (w.r.chance(1, 4)) {
                        // selection, only numeric columns to keep the query simple
                        std::string p = w.scratch + "/q" + std::to_string(w.id) + ".odb";
                        Bytes b;
                        if (enc(w, tabs[size_t(k)], false, b)) {
                            writeFile(p, b);
                            RowRead s = selectRows("select * from \"" + p + "\"");
                            if (!s.err.empty())
                                w.fail("select", s.err);
                            else if (s.rows() != tabs[size_t(k)].n)
                                w.fail("select-rows", std::to_string(s.rows()) + " rows instead of " + std::to_string(tabs[size_t(k)].n));
                        }
                        w.ops++;
                    }
                    w.ops++;
                }
            });
        for (auto& t : th) t.join();
    }
    else {
        // frames of one shared reader, collected first, decoded by many threads at once, with different integer treatments
        Tab& t = tabs[size_t(T)];
        EncOpts eo;
        eo.rowsPerFrame = r.range(1, std::max<long>(1, long(t.n) / T));
        EncResult e     = encodeC(t, eo);
        std::string path = c.scratch + "/shared.odb";
        writeFile(path, e.bytes);
        odc_reader_t* rd = nullptr;
        StreamSrc src;
        src.b = &e.bytes;
        switch (r.below(3)) {
            case 0:
                odc_open_path(&rd, path.c_str());
                break;
            case 1:
                odc_open_buffer(&rd, e.bytes.data(), long(e.bytes.size()));
                break;
            default:
                odc_open_stream(&rd, &src, StreamSrc::read);
        }
        odc_frame_t* fr = nullptr;
        odc_new_frame(&fr, rd);
        bool longs = r.chance(1, 2);
        odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        std::vector<odc_frame_t*> fs;
        while (odc_next_frame(fr) == 0) {
            odc_frame_t* cp = nullptr;
            odc_copy_frame(fr, &cp);
            fs.push_back(cp);
        }
        std::vector<Tab> got(fs.size());
        std::atomic<size_t> next{0};
        std::vector<std::thread> th;
        Barrier bar(T);
        for (int k = 0; k < T; k++)
            th.emplace_back([&, k] {
                Work& w = *ws[size_t(k)];
                bar.wait();
                for (;;) {
                    size_t i = next++;
                    if (i >= fs.size()) break;
                    DecOpts o;
                    o.layout = int(w.r.below(4));
                    o.longs  = longs;  // the treatment was decided when the frame was read
                    DecResult d = decodeC(fs[i], o);
                    if (d.rc)
                        w.fail("shared-reader", d.err);
                    else
                        got[i] = d.t;
                    jitter(w.r);
                    w.ops++;
                    w.cells += d.t.n * d.t.c.size();
                }
            });
        for (auto& x : th) x.join();
        std::string d = diffCells(t, concat(got));
        bool anyErr   = false;
        for (auto& w : ws) anyErr |= !w->err.empty();
        if (!d.empty() && !anyErr) c.viol("shared-reader-cells", d + " [" + describe(t) + "]");
        for (auto* f : fs) odc_free_frame(f);
        if (fr) odc_free_frame(fr);
        if (rd) odc_close(rd);
    }
    for (auto& w : ws) {
        if (!w->err.empty()) {
            size_t k = w->err.find('|');
            c.viol(w->err.substr(0, k), w->err.substr(k + 1) + " [" + std::to_string(T) + " threads, mode " + std::to_string(mode) + "]");
        }
        c.stat("operations by concurrent threads", w->ops);
        c.stat("cells compared", w->cells);
    }
    c.stat("threads", uint64_t(T));
    c.sig(mix(mix(uint64_t(mode), uint64_t(T)), shapeSig(tabs[0])));
    c.sample(std::to_string(T) + " threads, mode " + std::to_string(mode) + " " + describe(tabs[0]));
}
}  // namespace odv
