// C18: frame offsets and lengths tile the file, and each piece stands alone.
#include <algorithm>
#include "eckit/io/Buffer.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "iface.h"
#include "odc/api/Odb.h"
#include "odc/odccapi.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C18"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
namespace {
typedef std::vector<std::pair<long, long>> Tiles;  // offset, length
std::string text(const Tiles& t) {
    std::string s;
    for (size_t i = 0; i < t.size() && i < 8; i++) s += " " + std::to_string(t[i].first) + "+" + std::to_string(t[i].second);
    return s + (t.size() > 8 ? " ..." : "");
}
struct Held {
    odc::api::Frame f;
    size_t a, z;
};
void checkBytes(Ctx& c, odc::api::Frame& f, const Bytes& b, size_t from, size_t to, const std::string& how) {
    try {
        eckit::Buffer e = f.encodedData();
        if (e.size() != to - from || memcmp(e.data(), b.data() + from, to - from))
            ODV_FAIL(c, "encoded", "the encoded bytes of the frame at " << from << " are not those stored: " << e.size() << " bytes instead of " << to - from << how);
        c.stat("encoded bytes of frames compared");
    }
    catch (std::exception& x) {
        c.viol("encoded-error", std::string(x.what()) + how);
    }
}
}  // namespace
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    FileOpts fo;
    if (r.chance(1, 3)) fo.empty = 4;
    fo.g.maxCols = r.chance(1, 8) ? 20 : 5;
    fo.g.maxRows = r.chance(1, 15) ? 3000 : 30;
    fo.maxFrames = r.chance(1, 6) ? 20 : 6;
    fo.schema = fo.types = r.chance(1, 2);
    std::vector<RefFrame> fs;
    std::string how;
    Bytes b = genFile(c, fo, fs, how);
    std::vector<Tab> stored;
    Tiles want;
    for (auto& f : fs) stored.push_back(flattened(f)), want.push_back({long(f.off), long(f.len)});
    c.sig(mix(shapeSig(stored[0]), mix(fs.size(), rowClass(b.size()))));
    std::string path = c.scratch + "/f.odb";
    writeFile(path, b);

    // ---- the numbers
    if (r.chance(1, 2)) {
        size_t n   = 0;
        off_t* o   = nullptr;
        size_t* sz = nullptr;
        Tiles t;
        try {
            if (get_blocks_offsets(path.c_str(), &n, &o, &sz)) c.viol("legacy", "get_blocks_offsets failed" + how);
            for (size_t i = 0; i < n; i++) t.push_back({long(o[i]), long(sz[i])});
            release_blocks_offsets(&o);
            release_blocks_sizes(&sz);
        }
        catch (std::exception& x) {
            c.viol("legacy", std::string(x.what()) + how);
        }
        if (t != want) c.viol("legacy-offsets", "get_blocks_offsets gives" + text(t) + " instead of" + text(want) + how);
        c.stat("legacy offset lists");
    }
    if (r.chance(1, 25)) {
        Proc p = odcTool(c, {"header", "-offsets", "f.odb"}, c.scratch);
        std::istringstream in(p.out);
        Tiles t;
        long o, l, n, k;
        size_t i = 0;
        bool ok  = p.rc == 0;
        while (in >> o >> l >> n >> k) {
            t.push_back({o, l});
            ok &= i < fs.size() && n == fs[i].nrows && k == long(fs[i].cols.size());
            i++;
        }
        if (!ok || t != want) c.viol("tool-offsets", "odc header -offsets (exit " + std::to_string(p.rc) + ") prints" + text(t) + " instead of" + text(want) + how);
        c.stat("offset lists of the tool");
    }
    // ---- frames: numbers and bytes, in random order, some after the reader is gone
    for (int agg = 0; agg < 2; agg++) {
        std::vector<Held> held;
        std::string h = how + (agg ? " [aggregated]" : "");
        {
            std::unique_ptr<eckit::DataHandle> own;
            std::unique_ptr<odc::api::Reader> rd;
            long limit = agg && r.chance(1, 3) ? r.range(1, 100) : -1;
            switch (r.below(4)) {
                case 0: rd.reset(new odc::api::Reader(path, agg == 1, limit)); break;
                case 1: rd.reset(new odc::api::Reader(new eckit::MemoryHandle(b.data(), b.size()), agg == 1, limit)); break;
                case 2: rd.reset(new odc::api::Reader(new eckit::FileHandle(path), agg == 1, limit)); break;
                default:
                    own.reset(new eckit::FileHandle(path));
                    own->openForRead();
                    rd.reset(new odc::api::Reader(*own, agg == 1, limit));
            }
            size_t pos = 0;
            while (odc::api::Frame f = rd->next()) {
                size_t a = pos, rows = 0;
                long end = long(static_cast<long long>(f.offset())) + long(static_cast<long long>(f.length()));
                // frames of no rows count as parts as far as the frame says it reaches
                while (pos < fs.size() && (pos == a || (agg && (rows < f.rowCount() || (!stored[pos].n && long(fs[pos].off) < end))))) {
                    if (!stored[pos].n) c.stat("frames of no rows met");
                    rows += stored[pos++].n;
                }
                if (rows != f.rowCount() || a == pos) return c.viol("rows", "a frame of " + std::to_string(f.rowCount()) + " rows at stored frame " + std::to_string(a) + h);
                if (agg && pos - a > 1) c.stat("joined frames");
                long off = long(static_cast<long long>(f.offset())), len = long(static_cast<long long>(f.length()));
                long eo = want[a].first, el = want[pos - 1].first + want[pos - 1].second - eo;
                if (off != eo || len != el) ODV_FAIL(c, "frame-offsets", "a frame reports " << off << "+" << len << " instead of " << eo << "+" << el << h);
                if (r.chance(1, 3)) checkBytes(c, f, b, size_t(eo), size_t(eo + el), h);
                if (r.chance(1, 2)) held.push_back({f, a, pos});
                c.stat("frames with offset and length");
            }
            if (pos != fs.size()) c.viol("frames", "frames are absent" + h);
            if (own) {  // the handle is the caller's: frames must be used before it goes
                for (auto& x : held) checkBytes(c, x.f, b, fs[x.a].off, fs[x.z - 1].off + fs[x.z - 1].len, h);
                held.clear();
                rd.reset();
                own->close();
            }
        }
        while (!held.empty()) {
            size_t k = r.below(held.size());
            Held x   = held[k];
            checkBytes(c, x.f, b, fs[x.a].off, fs[x.z - 1].off + fs[x.z - 1].len, h + " [reader gone]");
            if (r.chance(1, 4)) {  // the numbers do not depend on decoding or copying
                odc::api::Frame g = x.f;
                if (long(static_cast<long long>(g.offset())) != want[x.a].first) c.viol("copy-offset", "the copy of a frame reports another offset" + h);
            }
            held.erase(held.begin() + long(k));
        }
    }
    // ---- pieces: single frames, runs and arrangements, cut by the numbers
    std::vector<size_t> order;
    switch (r.below(4)) {
        case 0: order = {r.below(fs.size())}; break;
        case 1: {
            size_t a = r.below(fs.size()), n = 1 + r.below(fs.size() - a);
            for (size_t i = 0; i < n; i++) order.push_back(a + i);
            break;
        }
        case 2:
            for (size_t i = 0; i < fs.size(); i++) order.push_back(i);
            for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
            break;
        default:
            for (int i = int(r.range(2, 8)); i > 0; i--) order.push_back(r.below(fs.size()));
    }
    Bytes piece;
    std::vector<Tab> exp;
    std::string h = how + " [frames";
    for (size_t i : order) {
        piece.insert(piece.end(), b.begin() + long(fs[i].off), b.begin() + long(fs[i].off + fs[i].len));
        exp.push_back(stored[i]);
        h += " " + std::to_string(i);
    }
    h += "]";
    checkAll(c, piece, exp, h, order.size() == 1 || r.chance(1, 3) ? BY_ALL : (1u << r.below(5)), "piece");
    c.stat(order.size() == 1 ? "single frames read alone" : "arrangements of frames read");
    if (r.chance(1, 3)) {  // the same pieces without copying: parts of the file, joined
        eckit::MultiHandle* mh = nullptr;
        eckit::DataHandle* dh;
        if (order.size() == 1 && r.chance(1, 2)) {
            dh = new eckit::PartFileHandle(path, fs[order[0]].off, fs[order[0]].len);
        }
        else {
            dh = mh = new eckit::MultiHandle();
            for (size_t i : order) *mh += new eckit::PartFileHandle(path, fs[i].off, fs[i].len);
        }
        try {
            odc::api::Reader rd(dh, false);
            size_t i = 0, at = 0;
            while (odc::api::Frame f = rd.next()) {
                if (i >= order.size()) break;
                const RefFrame& e = fs[order[i]];
                if (f.rowCount() != size_t(e.nrows) || f.columnCount() != e.cols.size() || size_t(static_cast<long long>(f.offset())) != at || size_t(static_cast<long long>(f.length())) != e.len)
                    ODV_FAIL(c, "part", "frame " << i << " of a joined handle is at " << f.offset() << "+" << f.length() << " instead of " << at << "+" << e.len << h);
                checkBytes(c, f, b, e.off, e.off + e.len, h + " [parts of the file]");
                at += e.len;
                i++;
            }
            if (i != order.size()) ODV_FAIL(c, "part", i << " frames of " << order.size() << h);
            c.stat("joined parts read");
        }
        catch (std::exception& x) {
            c.viol("part-error", std::string(x.what()) + h);
        }
    }
    // ---- a re-encoded aggregated frame is the concatenation as well: writing pieces one after the other with append
    if (r.chance(1, 8)) {
        std::string out = c.scratch + "/out.odb";
        odc::api::Reader rd(path, r.chance(1, 2));
        eckit::FileHandle fh(out);
        fh.openForWrite(0);
        while (odc::api::Frame f = rd.next()) {
            eckit::Buffer e = f.encodedData();
            fh.write(e.data(), long(e.size()));
        }
        fh.close();
        Bytes o;
        readFile(out, o);
        if (o != b) c.viol("copy", "the file made of the encoded bytes of all frames differs" + how);
        c.stat("files rebuilt from encoded bytes");
    }
}
}  // namespace odv
