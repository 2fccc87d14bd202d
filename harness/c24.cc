// C24: comparison accepts equal files and rejects every difference.
#include <sys/stat.h>
#include <algorithm>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "iface.h"
#include "odc/Comparator.h"
#include "odc/Reader.h"
#include "odc/api/Odb.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C24"; }
void odvInit() {}
uint64_t odvProbes() { return 0; }
namespace {
struct Longs {
    explicit Longs(bool l) { odc::api::Settings::treatIntegersAsDoubles(!l); }
    ~Longs() { odc::api::Settings::treatIntegersAsDoubles(false); }
};
void fit(Tab& t) {
    for (auto& k : t.c)
        if (k.isStr()) {
            size_t w = 8;
            for (auto& s : k.s) w = std::max(w, (s.size() + 7) / 8 * 8);
            k.width = w;
        }
}
// rows of the same columns, framed and stored in any way
void store(Rng& r, const Tab& all, Bytes& out, std::string& how) {
    size_t at = 0;
    while (at < all.n) {
        size_t n = r.chance(1, 3) ? all.n - at : size_t(r.range(1, long(std::min<size_t>(all.n - at, 60))));
        Tab t    = all.slice(at, n);
        t.n      = n;
        at += n;
        fit(t);
        if (r.chance(1, 4))
            for (auto& k : t.c)
                if (k.isStr()) k.width += 8 * size_t(r.range(0, 2));
        t.props.clear();
        if (r.chance(1, 6)) t.props["a"] = "b";
        if (r.chance(1, 3)) {
            RefWrite w;
            w.big     = r.chance(1, 2);
            w.markers = int(r.below(3));
            Bytes b   = refWriteFrame(r, t, w);
            out.insert(out.end(), b.begin(), b.end());
            how += w.big ? " swapped" : " ref";
        }
        else {
            EncOpts e      = genEnc(r, t);
            e.rowsPerFrame = 0;
            EncResult x    = encodeC(t, e);
            if (x.rc) throw std::runtime_error("encode: " + x.err);
            out.insert(out.end(), x.bytes.begin(), x.bytes.end());
            how += ",";
        }
    }
}
bool sameCell(const Col& k, size_t a, size_t b) {
    if (k.isStr()) return k.s[a] == k.s[b];
    if (k.miss[a] || k.miss[b]) return k.miss[a] == k.miss[b];
    return k.d[a] == k.d[b];
}
// clearly another value
bool differ(const Col& k, double a, double b) {
    if (a == b || !std::isfinite(a) || !std::isfinite(b)) return false;
    if (k.isInt()) return true;
    double m = std::max(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) > 1e-8 && std::fabs(a / m - b / m) > (k.type == REAL ? 1e-6 : 2e-9);
}
struct Mut {
    std::string kind;
    std::string column;   // the column which differs, when it is one
    bool type = false;    // and only in its type
};
bool mutate(Rng& r, std::vector<Tab>& runs, Mut& m) {
    size_t f = r.below(runs.size());
    Tab& t   = runs[f];
    size_t i = r.below(t.c.size());
    // first and last rows are as likely as all others
    size_t row = r.chance(1, 4) ? 0 : r.chance(1, 3) ? t.n - 1 : r.below(t.n);
    Col& k     = t.c[i];
    switch (r.below(16)) {
        default: {  // one cell
            m.column = k.name;
            if (k.isStr()) {
                std::string& s = k.s[row];
                std::string o  = s;
                switch (r.below(5)) {
                    case 0: s += "x"; break;
                    case 1:
                        if (s.empty()) return false;
                        s.pop_back();
                        break;
                    case 2:
                        if (s.empty()) return false;
                        s[r.below(s.size())] ^= 1;
                        break;
                    case 3:
                        if (s.empty()) return false;
                        s.back() = s.back() == 'a' ? 'b' : 'a';
                        break;
                    default: s = s.empty() ? "z" : ""; break;
                }
                if (s == o || s.find('\0') != std::string::npos) return false;
                m.kind = "string cell";
                return true;
            }
            if (k.miss[row]) {
                k.miss[row] = 0;
                k.d[row]    = r.chance(1, 2) ? 0 : 5;
                m.kind      = "missing cell filled";
                return true;
            }
            double o = k.d[row], v = o;
            if (k.isInt()) {
                v = o + (r.chance(1, 2) ? 1 : r.chance(1, 2) ? -1 : 256);
                if (std::fabs(v) > 2147483646. || (k.type == BITFIELD && v < 0)) return false;
                m.kind = "integer cell";
            }
            else {
                switch (r.below(5)) {
                    case 0: v = -o; break;
                    case 1: v = o * (k.type == REAL ? 1.00001 : 1.00000001); break;
                    case 2: v = o + 1; break;
                    case 3: v = o * 2; break;
                    default: v = 0; break;
                }
                if (k.type == REAL) v = double(float(v));
                if (!differ(k, o, v)) return false;
                m.kind = "real cell";
            }
            k.d[row] = v;
            return true;
        }
        case 1:
            if (k.isStr() || k.miss[row]) return false;
            k.miss[row] = 1;
            m.column    = k.name;
            m.kind      = "cell made missing";
            return true;
        case 2: {  // row lost
            if (t.n < 2 && runs.size() < 2) return false;
            std::vector<size_t> idx;
            for (size_t x = 0; x < t.n; x++)
                if (x != row) idx.push_back(x);
            // the rows after it must not be the same throughout
            bool all = true;
            for (size_t x = row; x + 1 < t.n; x++)
                for (auto& c : t.c) all &= sameCell(c, x, x + 1);
            (void)all;
            m.kind = row + 1 == t.n ? "last row lost" : "row lost";
            if (idx.empty())
                runs.erase(runs.begin() + long(f));
            else {
                size_t n = idx.size();
                t        = t.rows(idx);
                t.n      = n;
            }
            return true;
        }
        case 3: {  // row added
            std::vector<size_t> idx;
            for (size_t x = 0; x < t.n; x++) {
                idx.push_back(x);
                if (x == row) idx.push_back(r.below(t.n));
            }
            size_t n = idx.size();
            t        = t.rows(idx);
            t.n      = n;
            m.kind   = "row added";
            return true;
        }
        case 4: {  // order
            size_t o   = r.below(t.n);
            bool other = false;
            for (auto& c : t.c) {
                if (sameCell(c, row, o)) continue;
                if (c.isStr() || c.miss[row] != c.miss[o] || differ(c, c.d[row], c.d[o])) other = true;
            }
            if (!other) return false;
            std::vector<size_t> idx;
            for (size_t x = 0; x < t.n; x++) idx.push_back(x == row ? o : x == o ? row : x);
            size_t n = t.n;
            t        = t.rows(idx);
            t.n      = n;
            m.kind   = "rows exchanged";
            return true;
        }
        case 5: {  // n.b. throughout the run, which may be any one of the file
            m.kind = "column renamed";
            std::string o = k.name;
            k.name = r.chance(1, 2) ? k.name + "x" : k.name.size() > 1 ? k.name.substr(1) : "other";
            if (k.name.find('@') != std::string::npos && r.chance(1, 3)) k.name = o.substr(0, o.find('@'));
            if (r.chance(1, 3) && o.find('@') == std::string::npos) k.name = o + "@t";
            for (size_t j = 0; j < t.c.size(); j++)
                if (j != i && t.c[j].name == k.name) return false;
            return k.name != o;
        }
        case 6: {
            m.column = k.name;
            m.type   = true;
            m.kind   = "column type";
            if (k.type == INTEGER)
                k.type = DOUBLE;
            else if (k.type == BITFIELD) {
                k.type = INTEGER;
                k.bits.clear();
            }
            else if (k.type == REAL)
                k.type = DOUBLE;
            else
                return false;
            for (size_t x = 0; x < t.n; x++)
                if (!k.miss[x] && std::fabs(k.d[x]) == 2147483647.) return false;
            return true;
        }
        case 7: {
            size_t j = r.below(t.c.size());
            if (i == j) return false;
            std::swap(t.c[i], t.c[j]);
            m.kind = "columns exchanged";
            return true;
        }
        case 8:
            if (t.c.size() < 2) return false;
            t.c.erase(t.c.begin() + long(i));
            m.kind = "column lost";
            return true;
        case 9: {
            Col n  = k;
            n.name = "added";
            t.c.insert(t.c.begin() + long(r.below(t.c.size() + 1)), n);
            m.kind = "column added";
            return true;
        }
        case 10: {
            if (k.type != BITFIELD || k.bits.empty()) return false;
            size_t b = r.below(k.bits.size());
            m.column = k.name;
            m.type   = true;
            m.kind   = "bitfield members";
            if (r.chance(1, 2))
                k.bits[b].first += "x";
            else if (r.chance(1, 2) && k.bits[b].second > 1)
                k.bits[b].second--;
            else
                k.bits.erase(k.bits.begin() + long(b));
            return true;
        }
    }
}
}  // namespace

void odvCase(Ctx& c) {
    Rng& r = c.rng;
    FileOpts fo;
    fo.g.nan     = false;
    fo.g.maxRows = r.chance(1, 6) ? 600 : 60;
    fo.maxFrames = r.chance(1, 2) ? 5 : 1;
    fo.rowsPerFrame = true;
    std::vector<RefFrame> frames;
    std::string how;
    Bytes A = genFile(c, fo, frames, how);
    std::vector<Tab> runs;
    for (auto& f : frames) {
        Tab t = f.tab;
        t.props.clear();
        t.n = size_t(f.nrows);
        if (!runs.empty() && diffMeta(runs.back(), t, false).empty())
            runs.back().append(t);
        else
            runs.push_back(t);
    }
    // n.b. markers of one file must not be values of the other
    for (auto& t : runs)
        for (auto& k : t.c)
            if (!k.isStr())
                for (size_t x = 0; x < t.n; x++)
                    if (!k.miss[x] && (k.d[x] == 2147483647 || k.d[x] == -2147483647 || std::isnan(k.d[x]))) return;
    Mut m;
    bool equal = r.chance(1, 3);
    if (!equal) {
        for (int tries = 0;; tries++) {
            std::vector<Tab> save = runs;
            m                     = Mut();
            if (mutate(r, runs, m)) break;
            runs = save;
            if (tries > 30) return;
        }
    }
    Bytes B;
    how += " compared with";
    for (auto& t : runs) store(r, t, B, how);
    if (r.chance(1, 20)) {
        bool frameEnd = false;
        size_t n      = r.chance(1, 3) ? 0 : r.below(B.size());
        size_t rows   = 0;
        for (auto& f : refParse(B)) {
            if (f.off + f.len <= n) rows += size_t(f.nrows);
            frameEnd |= f.off + f.len == n;
        }
        size_t all = 0;
        for (auto& t : runs) all += t.n;
        if (!(frameEnd && rows == all)) {
            B.resize(n);
            equal  = false;
            m      = Mut();
            m.kind = n ? "file cut" : "empty file";
        }
    }
    how += equal ? " the same]" : " [" + m.kind + (m.column.empty() ? "" : " of '" + show(m.column) + "'") + "]";
    bool swap = r.chance(1, 2);
    std::string dir = c.scratch + "/d";
    mkdir(dir.c_str(), 0777);
    std::string p1 = dir + "/a.odb", p2 = dir + "/b.odb";
    writeFile(swap ? p2 : p1, A);
    writeFile(swap ? p1 : p2, B);
    // ---- exclusions
    std::vector<std::string> ex, ext;
    bool expect = equal;
    auto safe = [](const std::string& n) { return n.find(',') == std::string::npos && n.find_first_of(" \t\n") == std::string::npos && !n.empty() && n[0] != '-'; };
    // n.b. a column of this name in the other runs as well
    if (r.chance(1, 2)) {
        for (auto& t : runs)
            for (auto& k : t.c)
                if (r.chance(1, 4) && safe(k.name) && k.name != m.column) (r.chance(1, 2) ? ex : ext).push_back(k.name);
        if (!m.column.empty() && safe(m.column) && r.chance(1, 2)) {
            bool t = r.chance(1, 2);
            (t ? ext : ex).push_back(m.column);
            if (!t || m.type) expect = true;
            c.stat("differences excluded");
        }
        // what is left may be the same: other kinds of differences than in columns
        if (!expect && (m.kind == "rows exchanged") && !ex.empty()) ex.clear();
        // n.b. a renamed column is missed by its old name
    }
    bool tool = r.chance(1, 4);
    bool longs = !tool && !m.type && r.chance(1, 2);
    std::string got;
    auto join = [](const std::vector<std::string>& v) {
        std::string s;
        for (auto& x : v) s += (s.empty() ? "" : ",") + x;
        return s;
    };
    if (!ex.empty()) how += " [excluding " + show(join(ex)) + "]";
    if (!ext.empty()) how += " [excluding types of " + show(join(ext)) + "]";
    if (tool) {
        std::vector<std::string> a{"compare"};
        if (!ex.empty()) {
            a.push_back("-excludeColumns");
            a.push_back(join(ex));
        }
        if (!ext.empty()) {
            a.push_back("-excludeColumnsTypes");
            a.push_back(join(ext));
        }
        a.push_back(p1);
        a.push_back(p2);
        Proc p = odcTool(c, a, dir);
        how += " [odc compare]";
        if (p.sanitizer || p.timeout || p.rc > 120) {
            ODV_FAIL(c, p.timeout ? "hang" : "crash", "odc compare: " << p.err.substr(0, 1500) << how);
            return;
        }
        if (p.rc) got = "exit code " + std::to_string(p.rc) + ": " + p.err.substr(0, 900);
        c.stat("comparisons by the tool");
    }
    else {
        Longs L(longs);
        how += longs ? " [library, longs]" : " [library]";
        try {
            odc::Comparator cmp(true);
            if (ex.empty() && ext.empty() && r.chance(1, 2)) {
                if (r.chance(1, 2)) {
                    std::unique_ptr<eckit::DataHandle> l(eckit::PathName(p1).fileHandle()), h(eckit::PathName(p2).fileHandle());
                    eckit::AutoClose cl(*l), ch(*h);
                    cmp.compare(*l, *h);
                }
                else
                    cmp.compare(eckit::PathName(p1), eckit::PathName(p2));
            }
            else
                cmp.compare(eckit::PathName(p1), eckit::PathName(p2), ext, ex);
        }
        catch (std::exception& e) {
            got = e.what();
            if (got.empty()) got = "exception";
        }
        c.stat("comparisons by the library");
    }
    if (expect && !got.empty()) ODV_FAIL(c, "false-difference", got << how);
    if (!expect && got.empty()) ODV_FAIL(c, "missed:" + m.kind, "no difference reported" << how);
    c.stat(equal ? "equal files" : "difference: " + m.kind);
    if (frames.size() > 1 && !equal) c.stat("differences in files of several frames");
    c.sig(mix(mix(uint64_t(equal), hashStr(m.kind)), mix(hashTab(runs.empty() ? Tab() : runs[0]), ex.size() * 3 + ext.size())));
    if (c.idx % 700 == 11) c.sample(how);
}
}  // namespace odv
