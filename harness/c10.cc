// C10: cut or altered files never yield wrong rows silently.
#include <sys/stat.h>
#include <algorithm>
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "iface.h"
#include "odc/api/Odb.h"
#include "odc/api/odc.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C10"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
namespace {
struct Out {
    std::vector<Tab> got;  // what was delivered, in order
    bool error = false;
    std::string err;
    bool rowsOnly = false;  // delivered row by row or aggregated
    std::string name;
    bool crashed = false;
};
// a reading of the bytes through one interface
Out readSome(Ctx& c, const Bytes& b, int k) {
    Rng& r = c.rng;
    Out o;
    std::string path = c.scratch + "/cut.odb";
    if (k <= 5) {
        ReadOpts ro;
        ro.source     = k % 4;
        ro.scratch    = c.scratch;
        ro.aggregated = k >= 4;
        ro.dec        = genDec(r, 4);
        if (ro.aggregated) ro.dec.threads = int(r.range(1, 3));
        ReadResult R = readC(b, ro);
        o.got        = R.frames;
        o.error      = R.rc != 0;
        o.err        = R.err;
        o.rowsOnly   = ro.aggregated;
        o.name       = "C source " + std::to_string(ro.source) + (ro.aggregated ? " aggregated" : "");
        if (!R.guardOk) c.viol("guard", R.guardMsg);
    }
    else if (k <= 8) {
        writeFile(path, b);
        CppOpts co;
        co.aggregated = k == 8;
        co.source     = k == 7;
        co.longs      = r.chance(1, 2);
        CppRead R     = readCpp(path, co);
        for (auto& f : R.frames) o.got.push_back(f.tab);
        o.error    = !R.err.empty();
        o.err      = R.err;
        o.rowsOnly = co.aggregated;
        o.name     = "C++ frames source " + std::to_string(co.source) + (co.aggregated ? " aggregated" : "");
    }
    else {
        writeFile(path, b);
        RowRead R  = readRows(path, r.chance(1, 2));
        o.got      = R.segs;
        o.error    = !R.err.empty();
        o.err      = R.err;
        o.rowsOnly = true;
        o.name     = "rows";
    }
    return o;
}
// does not know its size, as streams do
struct Unsized : eckit::MemoryHandle {
    using eckit::MemoryHandle::MemoryHandle;
    eckit::Length estimate() override { return 0; }
    eckit::Length size() override { return 0; }
};
// a frame which is not complete is not announced (where the size of the input is known), and its bytes are not passed on
void announce(Ctx& c, const Bytes& b, const std::vector<RefFrame>& fs, size_t complete, bool boundary, const std::string& h) {
    Rng& r = c.rng;
    odc_reader_t* rd = nullptr;
    bool file = r.chance(1, 2);
    if (file) writeFile(c.scratch + "/cut.odb", b);
    int rc = file ? odc_open_path(&rd, (c.scratch + "/cut.odb").c_str()) : odc_open_buffer(&rd, b.data(), long(b.size()));
    if (!rc) {
        odc_frame_t* f = nullptr;
        odc_new_frame(&f, rd);
        size_t n = 0;
        bool agg = r.chance(1, 4);
        long rows = 0, want = 0, k = 0;
        while (!(rc = agg ? odc_next_frame_aggregated(f, -1) : odc_next_frame(f)) && n <= fs.size()) {
            odc_frame_row_count(f, &k);
            rows += k;
            n++;
        }
        for (size_t i = 0; i < complete; i++) want += long(fs[i].nrows);
        bool ok = agg ? rows <= want : n == complete && rows == want;
        if (!ok) c.viol("cut-announced", std::to_string(n) + " frames of " + std::to_string(rows) + " rows are announced, but " + std::to_string(complete) + " of " + std::to_string(want) + " rows are complete" + h);
        if ((rc == ODC_ITERATION_COMPLETE) != boundary) c.viol("cut-end", "code " + std::to_string(rc) + " at the end" + h);
        odc_free_frame(f);
        odc_close(rd);
        c.stat("announcements");
    }
    else if (boundary && complete)
        c.viol("cut-open", "code " + std::to_string(rc) + h);
    try {
        std::unique_ptr<Unsized> m(new Unsized(b.data(), b.size()));
        odc::api::Reader rr(m.release(), r.chance(1, 3));
        bool filter = r.chance(1, 3);
        size_t at   = 0;
        while (odc::api::Frame f = rr.next()) {
            size_t end = size_t(f.offset()) + size_t(f.length());
            try {
                if (filter) {
                    odc::api::Frame g = f.filter("select *");
                    if (end > b.size()) {
                        ODV_FAIL(c, "cut-filtered", "a frame of which only " << b.size() << " of " << end << " bytes are there is filtered to " << (g ? g.rowCount() : 0) << " rows" << h);
                        break;
                    }
                }
                else {
                    eckit::Buffer d = f.encodedData();
                    if (end > b.size() || d.size() != size_t(f.length()) || memcmp(d.data(), b.data() + size_t(f.offset()), d.size())) {
                        ODV_FAIL(c, "cut-encoded-data", "the encoded data of a frame (bytes " << f.offset() << " to " << end << " of " << b.size() << ") are not those of the input" << h);
                        break;
                    }
                }
            }
            catch (std::exception&) {
                if (end <= b.size() && !filter) throw;
                c.stat("cut frames refused by streams");
                break;
            }
            at = end;
        }
    }
    catch (std::exception& e) {
        if (boundary && complete) c.viol("cut-stream", e.what() + h);
    }
    c.stat("streams");
}
}  // namespace
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    GenOpts g;
    g.maxRows = r.chance(1, 10) ? 300 : 30;
    g.maxCols = 5;
    Tab t     = genTable(r, g);
    // a file of several frames; sometimes with a change of columns, sometimes of the other byte order
    std::vector<Tab> parts{t};
    if (r.chance(1, 3)) parts.push_back(genTable(r, g));
    Bytes file;
    for (auto& p : parts) {
        if (r.chance(1, 3)) {
            size_t at = 0;
            while (at < p.n) {
                size_t k = std::min<size_t>(p.n - at, size_t(r.range(1, long(p.n))));
                RefWrite w;
                w.big     = r.chance(1, 3);
                w.markers = int(r.below(3));
                Tab s     = p.slice(at, k);
                Bytes x   = refWriteFrame(r, s, w);
                file.insert(file.end(), x.begin(), x.end());
                at += k;
            }
        }
        else {
            EncOpts eo;
            eo.rowsPerFrame = r.range(1, long(p.n) + 2);
            EncResult e     = encodeC(p, eo);
            if (e.rc) {
                ODV_FAIL(c, "encode-error", e.err << describe(p));
                return;
            }
            file.insert(file.end(), e.bytes.begin(), e.bytes.end());
        }
    }
    std::vector<RefFrame> fs;
    try {
        fs = refParse(file, false);
    }
    catch (std::exception& e) {
        c.viol("parse", e.what() + describe(t));
        return;
    }
    if (fs.size() > 40) fs.resize(40), file.resize(fs.back().off + fs.back().len);
    std::string how = " [" + describe(t) + " in " + std::to_string(fs.size()) + " frames]";
    bool cutting    = c.idx % 2 == 0;
    auto prefixOk = [&](const Out& o, size_t complete, size_t& rowsGot) -> std::string {
        rowsGot = 0;
        if (!o.rowsOnly) {
            if (o.got.size() > complete) return std::to_string(o.got.size()) + " frames delivered but only " + std::to_string(complete) + " are complete";
            for (size_t i = 0; i < o.got.size(); i++) {
                std::string d = diffMeta(fs[i].tab, o.got[i]);
                if (d.empty()) d = diffCells(flattened(fs[i]), flattened(o.got[i]), false);
                if (!d.empty()) return "frame " + std::to_string(i) + ": " + d;
                rowsGot += o.got[i].n;
            }
            return "";
        }
        // rows in order, whatever their grouping
        size_t fi = 0, at = 0;
        for (auto& g0 : o.got) {
            Tab q = flattened(g0);
            for (auto& k : q.c) std::fill(k.miss.begin(), k.miss.end(), 0);
            size_t gi = 0;
            while (gi < q.n) {
                while (fi < complete && at == size_t(fs[fi].nrows)) fi++, at = 0;
                if (fi >= complete) return "a row beyond the complete frames";
                size_t take   = std::min(q.n - gi, size_t(fs[fi].nrows) - at);
                std::string d = diffCells(flattened(fs[fi]).slice(at, take), q.slice(gi, take), false, true);
                if (!d.empty()) return "frame " + std::to_string(fi) + ": " + d;
                gi += take;
                at += take;
                rowsGot += take;
            }
        }
        return "";
    };
    size_t total = 0;
    for (auto& f : fs) total += size_t(f.nrows);
    if (cutting) {
        std::vector<size_t> cuts;
        const RefFrame& f = fs[r.below(fs.size())];
        for (long d : {0L, 1L, 2L, 4L, 5L, 6L, 9L, 13L, 17L, 21L, 53L, 56L, 57L, 58L}) cuts.push_back(f.off + size_t(d));
        cuts.push_back(f.off + f.headerLen - 1);
        cuts.push_back(f.off + f.headerLen);
        cuts.push_back(f.off + f.headerLen + 1);
        cuts.push_back(f.off + f.len - 1);
        cuts.push_back(f.off + f.len);
        std::vector<size_t> sel;
        for (int i = 0; i < 8; i++) sel.push_back(r.chance(1, 2) ? r.pick(cuts) : r.below(file.size() + 1));
        for (size_t cut : sel) {
            if (cut > file.size()) cut = file.size();
            size_t complete = 0;
            bool boundary   = cut == 0;
            for (auto& q : fs) {
                if (q.off + q.len <= cut) complete++;
                if (q.off + q.len == cut) boundary = true;
            }
            Bytes b(file.begin(), file.begin() + long(cut));
            int k         = int(r.below(10));
            Out o         = readSome(c, b, k);
            std::string h = how + " cut at " + std::to_string(cut) + " of " + std::to_string(file.size()) + ", " + std::to_string(complete) + " frames complete, read by " + o.name;
            size_t rows   = 0, want = 0;
            for (size_t i = 0; i < complete; i++) want += size_t(fs[i].nrows);
            std::string d = prefixOk(o, complete, rows);
            if (!d.empty()) c.viol("cut-wrong-rows", d + h);
            if (!boundary && !o.error) c.viol("cut-clean-end", "no error" + h);
            if (boundary && cut > 0 && o.error) c.viol("cut-boundary-error", o.err + h);
            if (cut == 0 && o.error && o.name.compare(0, 4, "rows") != 0) c.stat("empty inputs refused");
            if (d.empty() && rows != want && (boundary ? cut > 0 : (!o.rowsOnly || o.name == "rows"))) c.viol("cut-rows-lost", std::to_string(rows) + " rows instead of " + std::to_string(want) + " delivered, " + o.err + h);
            c.stat("cuts read");
            if (r.chance(1, 2)) announce(c, b, fs, complete, boundary, how + " cut at " + std::to_string(cut) + " of " + std::to_string(file.size()));
            if (!boundary) c.stat("cuts inside a frame");
            c.sig(mix(mix(uint64_t(k), boundary ? 1 : cut < f.off + f.headerLen ? 2 : 3), shapeSig(t)));
        }
        if (c.idx % 16 == 0) {
            size_t cut    = r.pick(cuts);
            if (cut > file.size()) cut = file.size();
            bool boundary = false;
            for (auto& q : fs) boundary |= q.off + q.len == cut;
            Bytes b(file.begin(), file.begin() + long(cut));
            if (cut > 0 && !boundary) {
                writeFile(c.scratch + "/cut.odb", b);
                for (auto& cmd : std::vector<std::vector<std::string>>{{"count", "cut.odb"}, {"ls", "cut.odb"}, {"sql", "select *", "-i", "cut.odb"}, {"compact", "cut.odb", "o.odb"}, {"header", "cut.odb"}, {"fixrowsize", "cut.odb", "p.odb"}, {"index", "cut.odb", "i.idx"}}) {
                    Proc p = odcTool(c, cmd, c.scratch);
                    std::string h = how + " cut at " + std::to_string(cut) + " of " + std::to_string(file.size());
                    if (p.sanitizer) c.viol("tool-sanitizer:" + cmd[0], p.err.substr(0, 2000) + h);
                    if (p.rc == 0) c.viol("tool-clean-end:" + cmd[0], "exit 0, output " + p.out.substr(0, 200) + h);
                    c.stat("tools on cut files");
                }
            }
        }
    }
    else {
        // one byte of a header changed
        for (int q = 0; q < 8; q++) {
            const RefFrame& f = fs[r.below(fs.size())];
            size_t at         = f.off + (r.chance(1, 2) ? r.below(std::min<size_t>(f.headerLen, 62)) : r.below(f.headerLen));
            Bytes b           = file;
            unsigned char old = b[at];
            b[at]             = (unsigned char)(r.chance(1, 2) ? old ^ (1u << r.below(8)) : r.below(256));
            if (b[at] == old) b[at] = (unsigned char)(old + 1);
            int k         = int(r.below(10));
            Out o         = readSome(c, b, k);
            std::string h = how + " header byte " + std::to_string(at - f.off) + " of frame at " + std::to_string(f.off) + " changed from " + std::to_string(old) + " to " + std::to_string(b[at]) + ", read by " + o.name;
            size_t rows   = 0;
            std::string d = prefixOk(o, fs.size(), rows);
            if (!d.empty()) c.viol("altered-wrong-rows", d + h);
            // an alteration without effect on the content (the version's minor number) may be accepted
            if (!o.error && (rows != total || !d.empty())) c.viol("altered-clean-end", std::to_string(rows) + " of " + std::to_string(total) + " rows and no error" + h);
            if (!o.error && d.empty() && rows == total) {
                bool minor = at - f.off >= 13 && at - f.off < 17;
                if (!minor) c.viol("altered-accepted", "the altered header was accepted" + h);
                c.stat("alterations of the minor version accepted", minor);
            }
            c.stat("altered headers read");
            c.sig(mix(mix(uint64_t(k), std::min<size_t>(at - f.off, 70)), shapeSig(t)));
        }
    }
    c.sample(how);
}
}  // namespace odv
