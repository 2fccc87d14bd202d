// C23: rewriting tools change exactly what they are asked to change.
#include <sys/stat.h>
#include <algorithm>
#include "iface.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C23"; }
void odvInit() {}
uint64_t odvProbes() { return 0; }
namespace {
bool plainName(const std::string& n) {
    if (n.empty() || n[0] == '-') return false;
    for (char ch : n)
        if (!isalnum((unsigned char)ch) && ch != '_' && ch != '@') return false;
    return true;
}
// column meant by a full or short name; -1 none, -2 several
int columnOf(const Tab& t, const std::string& nm) {
    int j = t.find(nm);
    if (j >= 0) return j;
    for (size_t i = 0; i < t.c.size(); i++)
        if (t.c[i].name.substr(0, t.c[i].name.find('@')) == nm) j = j < 0 ? int(i) : -2;
    return j;
}
struct Input {
    Bytes bytes;
    std::vector<RefFrame> frames;
    std::vector<Tab> src;  // flattened
    std::vector<std::pair<size_t, size_t>> rows;
};
Input input(Ctx& c, const FileOpts& fo, std::string& how) {
    Input in;
    in.bytes = genFile(c, fo, in.frames, how);
    for (auto& f : in.frames) {
        Tab t = flattened(f);
        t.n   = size_t(f.nrows);
        for (size_t i = 0; i < t.n; i++) in.rows.push_back({in.src.size(), i});
        in.src.push_back(t);
    }
    return in;
}
std::string num(Rng& r, double v) {
    char b[64];
    if (v == std::floor(v) && std::fabs(v) < 1e15 && r.chance(1, 2))
        snprintf(b, sizeof b, "%.0f", v);
    else
        snprintf(b, sizeof b, r.chance(1, 2) ? "%.17g" : "%.16e", v);
    return b;
}
bool toolRan(Ctx& c, const Proc& p, const std::string& how) {
    if (p.sanitizer || p.timeout || p.rc > 120) {
        ODV_FAIL(c, p.timeout ? "hang" : "crash", p.err.substr(0, 1800) << how);
        return false;
    }
    return true;
}
double value(Rng& r, int type) {
    if (type == BITFIELD) return double(r.range(0, 100000));
    if (type == INTEGER) return double(r.chance(1, 2) ? r.range(-300, 300) : r.range(-2147483600L, 2147483600L));
    if (type == REAL) return double(float(r.chance(1, 2) ? double(r.range(-1000, 1000)) / 8 : (r.unit() - .5) * 1e9));
    return r.chance(1, 2) ? double(r.range(-1000, 1000)) / 8 : (r.unit() - .5) * 1e9;
}
std::string text(Rng& r, size_t n) {
    static const char* A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _.";
    std::string s;
    while (s.size() < n) s += A[r.below(65)];
    return s;
}
void rewrite(Ctx& c, const std::string& dir) {
    FileOpts fo;
    fo.g.maxRows = c.rng.chance(1, 8) ? 900 : 60;
    std::string how;
    Input in = input(c, fo, how);
    writeFile(dir + "/in.odb", in.bytes);
    bool fix = c.rng.chance(1, 2);
    how += fix ? " [odc fixrowsize]" : " [odc compact]";
    for (auto& t : in.src)
        for (auto& k : t.c)
            for (double d : k.d)
                if (std::isnan(d)) return;
    bool there = c.rng.chance(1, 4);
    if (there) writeFile(dir + "/out.odb", Bytes(c.rng.below(20000), 'z'));
    bool cut = c.rng.chance(1, 12);
    if (cut) {
        Bytes b = in.bytes;
        size_t n = c.rng.below(b.size());
        for (auto& f : in.frames)
            if (f.off == n) n = f.off + 7;
        b.resize(n);
        writeFile(dir + "/in.odb", b);
        how += " [cut to " + std::to_string(n) + "]";
    }
    Proc p = odcTool(c, {fix ? "fixrowsize" : "compact", "in.odb", "out.odb"}, dir);
    if (!toolRan(c, p, how)) return;
    c.stat(cut ? "rewritings which must fail" : fix ? "files through fixrowsize" : "files compacted");
    if (cut) {
        if (p.rc == 0) ODV_FAIL(c, "no-failure", "success for a truncated file" << how);
        return;
    }
    if (p.rc) {
        ODV_FAIL(c, "failure", "exit code " << p.rc << ": " << tail(p.err, 500) << how);
        return;
    }
    Bytes b;
    readFile(dir + "/out.odb", b);
    checkRows(c, "out.odb", b, in.src, in.rows, how);
}
void set(Ctx& c, const std::string& dir) {
    Rng& r = c.rng;
    FileOpts fo;
    fo.g.weirdNames = false;
    fo.schema = r.chance(1, 4);
    std::string how;
    Input in = input(c, fo, how);
    writeFile(dir + "/in.odb", in.bytes);
    Tab& t = in.src[0];
    std::string list, absent;
    std::vector<Tab> want = in.src;
    size_t n = size_t(r.range(1, 3));
    std::set<std::string> done;
    for (size_t a = 0; a < n; a++) {
        const Col& k   = t.c[r.below(t.c.size())];
        std::string nm = k.name;
        if (!plainName(nm) || done.count(nm)) continue;
        if (r.chance(1, 3)) {
            std::string s = nm.substr(0, nm.find('@'));
            bool one      = true;
            for (auto& x : in.src) one &= columnOf(x, s) == columnOf(x, nm);
            if (one) nm = s;
        }
        done.insert(k.name);
        // n.b. types may differ between frames: what all of them can hold
        bool str = false, integer = false, real = false, bits = false, other = false;
        for (auto& x : in.src) {
            int j = columnOf(x, nm);
            if (j < 0) {
                absent = nm;
                continue;
            }
            int ty = x.c[size_t(j)].type;
            str |= ty == STRING;
            integer |= ty == INTEGER || ty == BITFIELD;
            bits |= ty == BITFIELD;
            real |= ty == REAL;
            other |= ty != STRING;
        }
        if (str && other) return;
        std::string lit, s;
        double v = 0;
        if (str) {
            s = text(r, size_t(r.range(1, 8)));
            if (r.chance(1, 4)) {
                char h[8];
                for (char ch : s) {
                    snprintf(h, sizeof h, r.chance(1, 2) ? "%02x" : "%02X", (unsigned char)ch);
                    lit += h;
                }
                lit = "0x" + lit;
            }
            else
            {
                lit = "'" + s + "'";
                s   = std::string(8 - s.size(), ' ') + s;  // text is adjusted to the right
            }
        }
        else {
            v = value(r, bits ? BITFIELD : integer ? INTEGER : real ? REAL : DOUBLE);
            if (r.chance(1, 6)) {
                unsigned char b[8];
                memcpy(b, &v, 8);
                char h[8];
                for (unsigned char ch : b) {
                    snprintf(h, sizeof h, "%02x", ch);
                    lit += h;
                }
                lit = "0x" + lit;
            }
            else
                lit = num(r, v);
        }
        list += (list.empty() ? "" : ",") + nm + "=" + lit;
        for (size_t f = 0; f < want.size(); f++) {
            int j = columnOf(want[f], nm);
            if (j < 0) continue;
            Col& w = want[f].c[size_t(j)];
            if (!w.isStr() && v == in.frames[f].cols[size_t(j)].mdi) return;
            for (size_t i = 0; i < want[f].n; i++) {
                if (w.isStr())
                    w.s[i] = s;
                else {
                    w.d[i]       = v;
                    w.miss[i]    = 0;
                    w.wasMiss[i] = 0;
                }
            }
        }
    }
    if (list.empty()) return;
    if (r.chance(1, 15)) {
        list += ",nosuchcolumn=1";
        absent = "nosuchcolumn";
    }
    how += " [odc set " + show(list, 200) + "]";
    Proc p = odcTool(c, {"set", list, "in.odb", "out.odb"}, dir);
    if (!toolRan(c, p, how)) return;
    c.stat(absent.empty() ? "files with columns set" : "sets which must fail");
    if (!absent.empty()) {
        if (p.rc == 0) ODV_FAIL(c, "no-failure", "success although a frame has no column '" << absent << "'" << how);
        return;
    }
    if (p.rc) {
        ODV_FAIL(c, "failure", "exit code " << p.rc << ": " << tail(p.err, 500) << how);
        return;
    }
    Bytes b;
    readFile(dir + "/out.odb", b);
    checkRows(c, "out.odb", b, want, in.rows, how);
}
void mdset(Ctx& c, const std::string& dir) {
    Rng& r = c.rng;
    FileOpts fo;
    fo.g.weirdNames = false;
    fo.schema = fo.types = r.chance(1, 5);
    // more constants
    fo.maxFrames = 4;
    Tab base = genTable(r, fo.g);
    for (auto& k : base.c)
        if (r.chance(1, 2))
            for (size_t i = 0; i < base.n; i++) {
                if (k.isStr())
                    k.s[i] = k.s[0];
                else if (!k.miss[i])
                    k.d[i] = k.miss[0] ? 3 : k.d[0];
            }
    fo.base = &base;
    std::string how;
    Input in = input(c, fo, how);
    writeFile(dir + "/in.odb", in.bytes);
    std::vector<RefFrame> want = in.frames;
    std::string list, absent;
    std::set<std::string> done;
    size_t n = size_t(r.range(1, 3));
    for (size_t a = 0; a < n; a++) {
        const Col& k = in.src[0].c[r.below(in.src[0].c.size())];
        if (!plainName(k.name) || done.count(k.name)) continue;
        done.insert(k.name);
        std::string item = k.name;
        int type         = 0;
        bool str = k.isStr();
        bool all = true, cst = true, sameType = true;
        for (size_t f = 0; f < want.size(); f++) {
            int j = want[f].tab.find(k.name);
            if (j < 0) {
                all = false;
                continue;
            }
            cst &= want[f].cols[size_t(j)].codec.find("constant") != std::string::npos;
            sameType &= want[f].cols[size_t(j)].type == k.type;
        }
        if (!sameType) return;
        bool constant = r.chance(cst ? 5 : 1, 8);
        std::vector<std::pair<std::string, int>> bits;
        if (!str && r.chance(1, 2)) {
            static const char* NAMES[] = {"", "integer", "real", "string", "", "double"};
            if (k.type == BITFIELD || k.type == INTEGER) {
                if (k.type == BITFIELD && r.chance(1, 2)) {
                    int m = int(r.range(1, 5));
                    item += ":[";
                    for (int i = 0; i < m; i++) {
                        bits.push_back({"m" + std::to_string(i), int(r.range(1, 6))});
                        item += (i ? ";" : "") + bits.back().first + ":" + std::to_string(bits.back().second);
                    }
                    item += "]";
                }
                else if (k.type == INTEGER)
                    type = r.chance(1, 2) ? DOUBLE : REAL;
            }
            else
                type = k.type == REAL ? DOUBLE : REAL;
            if (type) {
                item += std::string(":") + (r.chance(1, 2) ? NAMES[type] : type == DOUBLE ? "DOUBLE" : "REAL");
            }
        }
        std::string lit, s;
        double v = 0;
        if (constant) {
            if (str) {
                s   = text(r, size_t(r.range(1, 8)));
                lit = "'" + s + "'";
                s   = std::string(8 - s.size(), ' ') + s;
            }
            else {
                v   = value(r, k.type);
                lit = num(r, v);
            }
            item += "=" + lit;
        }
        if (!constant && !type && bits.empty()) continue;
        list += (list.empty() ? "" : ",") + item;
        if (!all) absent = "column " + k.name;
        if (constant && !cst) absent = "a constant " + k.name;
        for (auto& f : want) {
            int j = f.tab.find(k.name);
            if (j < 0) continue;
            RefCol& w = f.cols[size_t(j)];
            Col& tc   = f.tab.c[size_t(j)];
            if (type) w.type = tc.type = type;
            if (!bits.empty()) w.bits = tc.bits = bits;
            if (!constant) continue;
            if (!str && v == w.mdi) return;
            for (size_t i = 0; i < size_t(f.nrows); i++) {
                if (str)
                    tc.s[i] = s;
                else if (w.codec == "constant" || !tc.miss[i]) {
                    tc.d[i]    = v;
                    tc.miss[i] = 0;
                }
            }
        }
    }
    if (list.empty()) return;
    if (r.chance(1, 20)) {
        list += ",nosuchcolumn=1";
        absent = "column nosuchcolumn";
    }
    how += " [odc mdset " + show(list, 300) + "]";
    Proc p = odcTool(c, {"mdset", list, "in.odb", "out.odb"}, dir);
    if (!toolRan(c, p, how)) return;
    c.stat(absent.empty() ? "files with definitions changed" : "changes of definitions which must fail");
    if (!absent.empty()) {
        if (p.rc == 0) ODV_FAIL(c, "no-failure", "success although a frame has not " << absent << how);
        return;
    }
    if (p.rc) {
        ODV_FAIL(c, "failure", "exit code " << p.rc << ": " << tail(p.err, 500) << how);
        return;
    }
    Bytes b;
    readFile(dir + "/out.odb", b);
    bool text = false;
    for (size_t f = 0; f < want.size(); f++)
        for (size_t j = 0; j < want[f].cols.size(); j++)
            text |= want[f].cols[j].codec == "long_constant_string" && want[f].tab.c[j].s != in.frames[f].tab.c[j].s;
    if (text) c.stat("constant texts changed");
    std::vector<RefFrame> got;
    try {
        got = refParse(b, false);
    }
    catch (std::exception& e) {
        ODV_FAIL(c, "unreadable", e.what() << how);
        return;
    }
    if (got.size() != want.size()) {
        ODV_FAIL(c, "frames", got.size() << " frames instead of " << want.size() << how);
        return;
    }
    for (size_t f = 0; f < got.size(); f++) {
        std::string d = diffMeta(want[f].tab, got[f].tab, false);
        if (d.empty()) d = diffProps(want[f].tab, got[f].tab);
        if (d.empty() && want[f].nrows != got[f].nrows) d = "other number of rows";
        if (d.empty()) d = diffCells(want[f].tab, got[f].tab, true);
        if (d.empty() && got[f].dataLen != want[f].dataLen) d = "other size of data";
        if (d.empty() && got[f].swapped != want[f].swapped) d = "other byte order";
        if (!d.empty()) {
            ODV_FAIL(c, "definition", "frame " << f << (want[f].swapped ? " (swapped)" : "") << ": " << d << how);
            return;
        }
        c.stat("frames compared");
        if (want[f].swapped) c.stat("frames of opposite byte order");
    }
}
void merge(Ctx& c, const std::string& dir) {
    Rng& r = c.rng;
    size_t K = size_t(r.range(2, 4));
    std::vector<Input> in;
    std::string how;
    std::vector<std::string> args{"merge"};
    bool sql = r.chance(1, 4), late = r.chance(1, 2);
    if (sql) args.push_back("-S");
    if (!late) {
        args.push_back("-o");
        args.push_back("out.odb");
    }
    bool dup = r.chance(1, 12), changes = false, after = false;  // after: beyond the last row merged
    size_t rows = size_t(-1);
    std::string dupName;
    std::vector<std::vector<std::string>> selected(K);
    for (size_t i = 0; i < K; i++) {
        FileOpts fo;
        fo.g.weirdNames = false;
        fo.g.special    = !sql;
        fo.g.maxCols    = 4;
        fo.schema = fo.types = fo.permute = r.chance(1, 8);
        fo.maxFrames = r.chance(1, 2) ? 4 : 1;
        Tab base = genTable(r, fo.g);
        for (auto& k : base.c) {
            if (sql)  // such names are not seen as given
                for (auto& ch : k.name) ch = char(tolower(ch));
            size_t at = k.name.find('@');
            k.name    = "f" + std::to_string(i) + (at == std::string::npos ? k.name : k.name.substr(0, at)) + (at == std::string::npos ? "" : k.name.substr(at));
        }
        if (dup && i == 0) dupName = base.c[0].name;
        if (dup && i == K - 1) base.c.back().name = dupName;
        fo.base = &base;
        in.push_back(input(c, fo, how));
        std::string f = "in" + std::to_string(i) + ".odb";
        writeFile(dir + "/" + f, in[i].bytes);
        rows = std::min(rows, in[i].rows.size());
        args.push_back(f);
        if (sql) {
            std::string q = "select ";
            for (auto& k : in[i].src[0].c) {
                if (!plainName(k.name)) return;
                if (dup || r.chance(3, 4) || selected[i].empty()) selected[i].push_back(k.name);
            }
            for (auto& s : selected[i]) q += (s == selected[i][0] ? "" : ", ") + s;
            q += r.chance(1, 2) ? " from \"" + f + "\"" : "";
            args.push_back(q);
            if (fo.schema) return;
        }
        else
            for (auto& k : in[i].src[0].c) selected[i].push_back(k.name);
    }
    if (late) {
        args.push_back("-o");
        args.push_back("out.odb");
    }
    // ---- expectation
    Tab want;
    for (size_t i = 0; i < K; i++) {
        const Tab& first = in[i].src[0];
        for (auto& nm : selected[i]) {
            Col k   = first.c[size_t(first.find(nm))];
            Col out = k;
            out.resize(0);
            out.d.clear();
            out.s.clear();
            out.miss.clear();
            out.wasMiss.clear();
            for (size_t x = 0; x < in[i].rows.size(); x++) {
                auto& at = in[i].rows[x];
                const Tab& t = in[i].src[at.first];
                int j = t.find(nm);
                if (j < 0 || t.c[size_t(j)].type != k.type || t.c[size_t(j)].bits != k.bits || (!sql && (t.c.size() != first.c.size() || t.c[size_t(first.find(nm))].name != nm))) {
                    (x < rows ? changes : after) = true;
                    break;
                }
                if (x >= rows) continue;
                const Col& w = in[i].frames[at.first].tab.c[size_t(j)];
                if (k.isStr())
                    out.s.push_back(w.s[at.second]);
                else
                    out.d.push_back(w.d[at.second]);
                out.miss.push_back(k.isStr() ? char(0) : w.miss[at.second]);
            }
            want.c.push_back(out);
        }
    }
    want.n = rows;
    // a value must not be the marker under which the column's missing cells are kept
    std::string line;
    for (auto& a : args) line += " " + show(a, 100);
    how += " [odc" + line + "]";
    {
        size_t x = 0;
        for (size_t i = 0; i < K; i++)
            for (auto& nm : selected[i]) {
                double mdi = in[i].frames[0].cols[size_t(in[i].src[0].find(nm))].mdi;
                if (!changes && !want.c[x].isStr())
                    for (size_t q = 0; q < rows; q++)
                        if (!want.c[x].miss[q] && (want.c[x].d[q] == mdi || (sql && std::fabs(want.c[x].d[q]) == 2147483647))) return;
                x++;
            }
    }
    bool there = r.chance(1, 4);
    if (there) writeFile(dir + "/out.odb", Bytes(r.below(3000), 'z'));
    Proc p = odcTool(c, args, dir);
    if (!toolRan(c, p, how)) return;
    if (dup || changes) {
        c.stat(dup ? "merges of equal names refused" : "merges of changing columns refused");
        if (p.rc == 0) ODV_FAIL(c, "no-failure", (dup ? "a name occurs twice" : "the columns change") << how);
        return;
    }
    if (p.rc && after) return;
    c.stat(sql ? "merges of selections" : "merges");
    if (p.rc) {
        ODV_FAIL(c, "failure", "exit code " << p.rc << ": " << tail(p.err, 500) << how);
        return;
    }
    Bytes b;
    readFile(dir + "/out.odb", b);
    std::vector<RefFrame> got;
    try {
        got = refParse(b, true);
    }
    catch (std::exception& e) {
        ODV_FAIL(c, "unreadable", e.what() << how);
        return;
    }
    std::vector<Tab> parts;
    for (auto& f : got) {
        parts.push_back(f.tab);
        parts.back().n = size_t(f.nrows);
    }
    Tab all = concat(parts);
    std::string d;
    if (sql)  // n.b. a selection may turn REAL into DOUBLE columns, of values rounded to floats
        for (size_t i = 0; i < all.c.size() && i < want.c.size(); i++)
            if (want.c[i].type == REAL && all.c[i].type == DOUBLE) all.c[i].type = REAL;
    d = all.n != want.n ? std::to_string(all.n) + " rows instead of " + std::to_string(want.n) : "";
    for (size_t i = 0; i < parts.size() && d.empty() && !sql; i++) d = diffMeta(want, parts[i], false);
    if (sql && d.empty()) d = diffMeta(want, all, false);
    if (d.empty()) d = diffCells(want, all, true);
    if (!d.empty()) ODV_FAIL(c, "merge", d << how);
    c.stat("rows merged", want.n);
    if (in[0].rows.size() != rows || in[1].rows.size() != rows) c.stat("merges of files of different length");
}
}  // namespace

void odvCase(Ctx& c) {
    std::string dir = c.scratch + "/d";
    run({"/bin/rm", "-rf", dir}, c.scratch);
    mkdir(dir.c_str(), 0777);
    int w = int(c.rng.below(7));
    if (w == 0)
        rewrite(c, dir);
    else if (w <= 2)
        set(c, dir);
    else if (w <= 4)
        mdset(c, dir);
    else
        merge(c, dir);
    Bytes in;
    readFile(dir + (w > 4 ? "/out.odb" : "/in.odb"), in);
    c.sig(mix(uint64_t(w), hashStr(std::string(in.begin(), in.end()))));
}
}  // namespace odv
