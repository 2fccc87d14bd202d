// C21: rows written and read one at a time agree with the frame interfaces.
#include <algorithm>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/AutoCloser.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "iface.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/Writer.h"
#include "odc/api/Odb.h"
#include "odc/core/Column.h"
#include "odc/core/MetaData.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C21"; }
void odvInit() {}
uint64_t odvProbes() { return 0; }
namespace {
struct Longs {
    explicit Longs(bool l) { odc::api::Settings::treatIntegersAsDoubles(!l); }
    ~Longs() { odc::api::Settings::treatIntegersAsDoubles(false); }
};
struct Part {
    Tab t;
    std::vector<double> mdi;                    // as written in cells which are missing
    std::map<std::string, std::string> props;   // all set so far
    bool widened = false;                       // differs from the part before in widths only
};
// one reading position: rows and where a new dataset was signalled
struct Cursor {
    std::unique_ptr<odc::Reader::iterator> it;
    size_t row = 0;
};
bool sameSchema(const Tab& a, const Tab& b) { return diffMeta(a, b, false).empty(); }

void write(Ctx& c, const std::string& path, std::vector<Part>& parts, bool longs, std::string& how) {
    Rng& r = c.rng;
    Longs L(longs);
    long buffer = r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(1, 8) : r.range(1, 200);
    int set     = int(r.below(3));
    {  // headers must not take over
        size_t rows = 0, props = 0, cols = 0;
        for (auto& P : parts) {
            rows += P.t.n;
            cols  = std::max(cols, P.t.c.size());
            props = 0;
            for (auto& kv : P.props) props += kv.first.size() + kv.second.size();
        }
        double bytes = double(props) + 300. * double(cols) + 200;
        while (buffer && double(rows) / double(buffer) * bytes > 8e6) buffer *= 2;
    }
    if (buffer && set == 0) setenv("ODB_ROWS_BUFFER_SIZE", std::to_string(buffer).c_str(), 1);
    std::unique_ptr<eckit::DataHandle> dh;
    std::unique_ptr<odc::Writer<>> w;
    int sink = int(r.below(4));
    if (sink == 0) {
        dh.reset(eckit::PathName(path).fileHandle());
        w.reset(new odc::Writer<>(*dh));
    }
    else if (sink == 1)
        w.reset(new odc::Writer<>(eckit::PathName(path).fileHandle(), true, true));
    else if (sink == 2) {
        dh.reset(eckit::PathName(path).fileHandle());
        dh->openForWrite(0);
        w.reset(new odc::Writer<>(*dh, false));
    }
    else
        w.reset(new odc::Writer<>(eckit::PathName(path)));
    unsetenv("ODB_ROWS_BUFFER_SIZE");
    if (buffer && set == 1) w->rowsBufferSize((unsigned long)buffer);
    how += " [written with buffer " + std::to_string(buffer) + " by " + std::to_string(set) + ", sink " + std::to_string(sink) + (longs ? ", longs" : "") + "]";
    {
        odc::Writer<>::iterator it = w->begin(sink != 2);
        if (buffer && set == 2) (**it).rowsBufferSize(size_t(buffer));
        for (size_t p = 0; p < parts.size(); p++) {
            Part& P      = parts[p];
            const Tab& t = P.t;
            bool reset   = p && P.widened;
            for (auto& kv : P.props) {
                if (p && !reset) break;
                if (!reset) (**it).property(kv.first, kv.second);
            }
            if (reset) {
                std::map<std::string, size_t> w2;
                for (auto& k : t.c)
                    if (k.isStr()) w2[k.name] = k.width / 8;
                it->flushAndResetColumnSizes(w2);
                how += " widened";
            }
            else {
                if (p) {
                    (**it).flush();
                    for (auto& kv : P.props) (**it).property(kv.first, kv.second);
                }
                it->setNumberOfColumns(t.c.size());
                if (p)  // names are unique at all times
                    for (size_t i = 0; i < t.c.size(); i++) it->columns()[i]->name("old" + std::to_string(i));
                for (size_t i = 0; i < t.c.size(); i++) {
                    const Col& k = t.c[i];
                    if (k.type == BITFIELD) {
                        eckit::sql::BitfieldDef b;
                        for (auto& x : k.bits) {
                            b.first.push_back(x.first);
                            b.second.push_back(x.second);
                        }
                        it->setBitfieldColumn(i, k.name, odc::api::ColumnType(k.type), b);
                    }
                    else
                        it->setColumn(i, k.name, odc::api::ColumnType(k.type));
                    if (k.isStr()) it->columns()[i]->dataSizeDoubles(k.width / 8);
                    double def = k.isInt() ? 2147483647. : -2147483647.;
                    if (!k.isStr() && (P.mdi[i] != def || r.chance(1, 4))) it->missingValue(i, P.mdi[i]);
                }
                it->writeHeader();
            }
            int style = int(r.below(3));
            for (size_t row = 0; row < t.n; row++) {
                std::vector<double> buf;
                for (size_t i = 0; i < t.c.size(); i++) {
                    EncOpts eo;
                    eo.longs      = longs;
                    eo.intMissing = eo.realMissing = P.mdi[i];
                    if (style == 1) {
                        size_t at = buf.size();
                        buf.resize(at + t.c[i].width / 8);
                        putCell(reinterpret_cast<unsigned char*>(&buf[at]), t.c[i], row, eo);
                        continue;
                    }
                    // only what changes
                    if (style == 2 && row && !t.c[i].isStr() && t.c[i].miss[row] == t.c[i].miss[row - 1] && (t.c[i].miss[row] || (t.c[i].d[row] == t.c[i].d[row - 1] && std::signbit(t.c[i].d[row]) == std::signbit(t.c[i].d[row - 1])))) {
                        c.stat("cells left as they were");
                        continue;
                    }
                    if (style == 2 && row && t.c[i].isStr() && t.c[i].s[row] == t.c[i].s[row - 1]) {
                        c.stat("cells left as they were");
                        continue;
                    }
                    putCell(reinterpret_cast<unsigned char*>(&it->data(i)), t.c[i], row, eo);
                }
                if (style == 1)
                    (**it).writeRow(buf.data(), t.c.size());
                else
                    ++it;
                if (r.chance(1, 100)) (**it).flush();
            }
        }
        if (sink != 2 && r.chance(1, 2)) it->close();
    }
    w.reset();
    if (dh && sink != 2) dh->close();
    c.stat("files written row by row");
}
}  // namespace

void odvCase(Ctx& c) {
    Rng& r          = c.rng;
    std::string how;
    std::string path = c.scratch + "/f.odb";
    std::vector<Tab> want;          // frames as stored, flattened with wasMiss marks
    std::vector<RefFrame> frames;
    uint64_t sig;
    Bytes b;
    bool wrote = r.chance(1, 2);
    if (wrote) {
        // ---- rows -> file
        GenOpts g;
        g.maxRows = r.chance(1, 50) ? 20100 : r.chance(1, 3) ? 400 : 30;
        g.maxCols = g.maxRows > 1000 ? 2 : r.chance(1, 12) ? 40 : 6;
        g.minRows = 0;
        if (g.maxRows < 1000) g.manyCols = 200;
        g.bigDict = true;
        int n     = int(r.range(1, 4));
        std::vector<Part> parts;
        for (int p = 0; p < n; p++) {
            Part P;
            if (p && r.chance(1, 2)) {
                P.t = parts.back().t;
                int k = int(r.below(3));
                if (k == 0) {  // widths only
                    bool str = false;
                    for (auto& q : P.t.c)
                        if (q.isStr()) {
                            size_t len = 0;
                            for (auto& s : q.s) len = std::max(len, s.size());
                            size_t w = size_t(r.range(1, 12)) * 8;
                            if (w < (len + 7) / 8 * 8) w = std::max<size_t>(8, (len + 7) / 8 * 8);
                            q.width = w;
                            str     = true;
                        }
                    P.widened = str;
                    P.mdi     = parts.back().mdi;
                }
                else if (k == 1) {
                    for (size_t i = P.t.c.size(); i > 1; i--) std::swap(P.t.c[i - 1], P.t.c[r.below(i)]);
                }
                else if (P.t.c.size() > 1)
                    P.t.c.erase(P.t.c.begin() + long(r.below(P.t.c.size())));
                P.t.props.clear();
            }
            else
                P.t = genTable(r, g);
            if (p) P.props = parts.back().props;
            for (auto& kv : P.t.props)
                if (!P.widened) P.props[kv.first] = kv.second;
            P.t.props.clear();
            if (P.mdi.size() != P.t.c.size() || !P.widened) {
                P.mdi.clear();
                for (auto& k : P.t.c) {
                    double m = k.isInt() ? 2147483647. : -2147483647.;
                    if (r.chance(1, 6)) m = k.isInt() ? double(r.range(-1000000, -900000)) : -1e30;
                    for (size_t i = 0; i < P.t.n && !k.isStr(); i++)
                        if (!k.miss[i] && k.d[i] == m) m = k.isInt() ? 2147483647. : -2147483647.;
                    P.mdi.push_back(m);
                }
            }
            parts.push_back(P);
        }
        bool longs = r.chance(1, 2);
        sig        = mix(hashStr("w"), longs);
        for (auto& P : parts) {
            how += " (" + describe(P.t) + ")";
            sig = mix(sig, shapeSig(P.t));
        }
        try {
            write(c, path, parts, longs, how);
        }
        catch (std::exception& e) {
            c.viol("write-error", std::string(e.what()) + how);
            return;
        }
        readFile(path, b);
        try {
            frames = refParse(b);
        }
        catch (RefErr& e) {
            c.viol("format", std::string(e.what()) + how);
            c.keep("f.odb", b);
            return;
        }
        size_t p = 0, at = 0;
        for (size_t i = 0; i < frames.size(); i++) {
            while (p < parts.size() && at == parts[p].t.n) p++, at = 0;
            const Tab& f = frames[i].tab;
            if (!f.n) continue;
            if (p >= parts.size() || at + f.n > parts[p].t.n) {
                ODV_FAIL(c, "written-rows", "frame " << i << " holds more rows than were written with its columns" << how);
                return;
            }
            Tab e         = parts[p].t.slice(at, f.n);
            std::string d = diffMeta(e, f, false);
            if (d.empty()) d = diffCells(e, f);
            Tab ep;
            ep.props = parts[p].props;
            Tab fp;
            fp.props = frames[i].props;
            if (d.empty()) d = diffProps(ep, fp);
            if (!d.empty()) {
                ODV_FAIL(c, "written", "part " << p << " row " << at << ", frame " << i << ": " << d << how);
                return;
            }
            at += f.n;
            c.stat("frames written");
            c.stat("rows written", f.n);
        }
        while (p < parts.size() && at == parts[p].t.n) p++, at = 0;
        if (p < parts.size()) {
            ODV_FAIL(c, "written-rows", "only " << at << " of " << parts[p].t.n << " rows of part " << p << how);
            return;
        }
    }
    else {
        FileOpts fo;
        fo.g.maxRows = r.chance(1, 4) ? 300 : 30;
        fo.g.maxCols = r.chance(1, 12) ? 40 : 6;
        fo.g.bigDict = true;
        fo.maxFrames = 8;
        b            = genFile(c, fo, frames, how);
        writeFile(path, b);
        sig = mix(hashStr("r"), frames.size());
        for (auto& f : frames) sig = mix(sig, shapeSig(f.tab));
    }
    std::vector<size_t> start;
    size_t total = 0;
    std::vector<size_t> frameOf;  // per row
    for (size_t i = 0; i < frames.size(); i++) {
        Tab w = flattened(frames[i]);
        w.props = frames[i].props;
        want.push_back(w);
        start.push_back(total);
        for (size_t k = 0; k < frames[i].tab.n; k++) frameOf.push_back(i);
        total += frames[i].tab.n;
    }
    if (total && r.chance(1, 2)) checkAll(c, b, want, how, r.chance(1, 2) ? BY_ALL : BY_ROWS | BY_C, "read");
    // ---- several positions in one file, moved in turn
    if (r.chance(2, 3)) {
        bool longs = r.chance(1, 2);
        Longs L(longs);
        bool mem = r.chance(1, 3);
        std::unique_ptr<eckit::DataHandle> dh;
        std::unique_ptr<odc::Reader> rd;
        try {
            if (mem) {
                dh.reset(eckit::PathName(path).fileHandle());
                rd.reset(new odc::Reader(*dh));
            }
            else
                rd.reset(new odc::Reader(eckit::PathName(path)));
            std::vector<Cursor> cs(size_t(r.range(1, 3)));
            for (auto& k : cs) k.it.reset(new odc::Reader::iterator(rd->begin()));
            odc::Reader::iterator end = rd->end();
            bool early = r.chance(1, 4);
            size_t steps = 0;
            while (!cs.empty()) {
                size_t which = r.below(cs.size());
                Cursor& k    = cs[which];
                size_t n     = r.chance(1, 3) ? size_t(r.range(1, 200)) : size_t(r.range(1, 5));
                bool over    = false;
                for (size_t s = 0; s < n && !over; s++, steps++) {
                    odc::Reader::iterator& it = *k.it;
                    if (it == end) {
                        if (k.row != total) ODV_FAIL(c, "rows-count", "reader ends after " << k.row << " of " << total << " rows" << how);
                        // it stays at the end
                        ++it;
                        if (it != end) c.viol("rows-after-end", "a row after the last one" + how);
                        over = true;
                        break;
                    }
                    if (k.row >= total) {
                        ODV_FAIL(c, "rows-count", "more than " << total << " rows" << how);
                        over = true;
                        break;
                    }
                    size_t fi    = frameOf[k.row];
                    const Tab& f = want[fi];
                    size_t fr    = k.row - start[fi];
                    bool flagged = it->isNewDataset();
                    if (flagged && fr) ODV_FAIL(c, "signal-early", "row " << fr << " of frame " << fi << " is signalled as a new dataset" << how);
                    if (!flagged && k.row && !fr && !sameSchema(want[frameOf[k.row - 1]], f)) ODV_FAIL(c, "signal-missing", "the columns change with row " << k.row << " but no new dataset is signalled" << how);
                    if (flagged) c.stat("new datasets signalled");
                    bool good = it->columns().size() == f.c.size();
                    size_t doubles = 0;
                    for (size_t i = 0; i < f.c.size() && good; i++) {
                        const odc::core::Column& col = *it->columns()[i];
                        const Col& e                 = f.c[i];
                        good                         = col.name() == e.name && int(col.type()) == e.type;
                        if (!good) break;
                        if (it->dataOffset(i) != doubles) {
                            ODV_FAIL(c, "rows-offset", "column " << i << " is at " << it->dataOffset(i) << " instead of " << doubles << how);
                            good = false;
                            break;
                        }
                        doubles += it->dataSizeDoubles(i);
                        if (e.isStr()) {
                            std::string s = it->string(int(i));
                            if (s != e.s[fr]) ODV_FAIL(c, "rows-cells", "row " << k.row << " column " << i << ": " << show(s) << " instead of " << show(e.s[fr]) << how);
                            continue;
                        }
                        double v = (*it)[i];
                        if (memcmp(&v, &it->data()[it->dataOffset(i)], 8)) ODV_FAIL(c, "rows-data", "data() and data(i) differ" << how);
                        if (e.isInt() && longs) {
                            int64_t x;
                            memcpy(&x, &v, 8);
                            v = double(x);
                        }
                        bool miss = e.wasMiss.size() > fr && e.wasMiss[fr];
                        if (!(v == e.d[fr] || (std::isnan(v) && std::isnan(e.d[fr])))) ODV_FAIL(c, "rows-cells", "row " << k.row << " column " << i << ": " << v << " instead of " << e.d[fr] << how);
                        if (it->isMissing(i) != miss) ODV_FAIL(c, "rows-missing", "row " << k.row << " column " << i << ": isMissing is " << it->isMissing(i) << how);
                    }
                    if (!good) {
                        ODV_FAIL(c, "rows-columns", "row " << k.row << " has other columns than its frame" << how);
                        over = true;
                        break;
                    }
                    c.stat("rows read one at a time");
                    ++it;
                    k.row++;
                }
                if (over || (early && r.chance(1, 10))) cs.erase(cs.begin() + long(which));
            }
        }
        catch (std::exception& e) {
            c.viol("rows-error", std::string(e.what()) + how);
        }
        c.stat("readings with several positions");
    }
    // ---- copies
    if (total && r.chance(2, 3)) {
        long buffer  = r.chance(1, 3) ? 0 : r.chance(1, 2) && total < 3000 ? r.range(1, 8) : r.range(1, 200);
        bool longs   = r.chance(1, 2);
        std::string out = c.scratch + "/copy.odb", h = " [copied with buffer " + std::to_string(buffer) + (longs ? ", longs]" : "]") + how;
        try {
            unsigned long n = copyRows(path, out, buffer, longs);
            if (n != total) ODV_FAIL(c, "copy-count", n << " rows reported instead of " << total << h);
            Bytes ob;
            readFile(out, ob);
            auto of    = refParse(ob);
            size_t row = 0;
            bool ok    = true;
            for (size_t i = 0; i < of.size() && ok; i++) {
                const Tab& o = of[i].tab;
                size_t at    = 0;
                while (at < o.n && ok) {
                    if (row >= total) {
                        c.viol("copy-rows", "more rows than the original" + h);
                        ok = false;
                        break;
                    }
                    size_t fi     = frameOf[row];
                    size_t take   = std::min(o.n - at, start[fi] + frames[fi].tab.n - row);
                    Tab e         = frames[fi].tab.slice(row - start[fi], take);
                    std::string d = diffMeta(e, o.slice(at, take), false);
                    if (d.empty()) d = diffCells(e, o.slice(at, take));
                    if (!d.empty()) {
                        ODV_FAIL(c, "copy", "row " << row << ": " << d << h);
                        ok = false;
                    }
                    row += take;
                    at += take;
                    c.stat("rows copied", take);
                }
            }
            if (ok && row != total) ODV_FAIL(c, "copy-rows", row << " rows instead of " << total << h);
            if (ok && r.chance(1, 6)) {
                std::vector<Tab> w2;
                for (auto& f : of) {
                    w2.push_back(flattened(f));
                    w2.back().props = f.props;
                }
                checkAll(c, ob, w2, h, BY_ALL, "copy-read");
            }
        }
        catch (std::exception& e) {
            c.viol("copy-error", std::string(e.what()) + h);
        }
        c.stat("copies by rows");
    }
    c.sig(sig);
    c.sample(how);
}
}  // namespace odv
