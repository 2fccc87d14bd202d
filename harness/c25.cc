// C25: inspection tools report what the file contains.
#include <sys/stat.h>
#include <algorithm>
#include <map>
#include "iface.h"
#include "odc/odccapi.h"
#include "odc/RowsCounter.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C25"; }
void odvInit() {}
uint64_t odvProbes() { return 0; }
namespace {
std::string fixed6(double d) {
    char b[512];
    snprintf(b, sizeof b, "%f", d);
    return b;
}
const char* typeName(int t) {
    static const char* N[] = {"IGNORE", "INTEGER", "REAL", "STRING", "BITFIELD", "DOUBLE"};
    return N[t];
}
struct File {
    std::string name, how;
    Bytes bytes;
    std::vector<RefFrame> frames;
    size_t rows = 0;
};
bool plain(const std::string& s) {
    for (char ch : s)
        if (ch == '\t' || ch == '\n' || ch == '\0') return false;
    return true;
}
bool toolRan(Ctx& c, const Proc& p, const std::string& what, const std::string& how) {
    if (p.sanitizer || p.timeout || p.rc > 120) {
        ODV_FAIL(c, p.timeout ? "hang" : "crash", what << ": " << p.err.substr(0, 1800) << how);
        return false;
    }
    return true;
}
bool ok(Ctx& c, const Proc& p, const std::string& what, const std::string& how) {
    if (!toolRan(c, p, what, how)) return false;
    if (p.rc) ODV_FAIL(c, "failure", what << ": exit code " << p.rc << ": " << tail(p.err, 500) << how);
    return !p.rc;
}
std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find('\n', i);
        if (e == std::string::npos) e = s.size();
        v.push_back(s.substr(i, e - i));
        i = e + 1;
    }
    return v;
}
std::string defOf(const RefFrame& f, bool bits) {
    std::string s;
    for (auto& k : f.cols) {
        s += k.name + "\t" + std::to_string(k.type);
        if (bits)
            for (auto& b : k.bits) s += ";" + b.first + ":" + std::to_string(b.second);
        s += "\n";
    }
    return s;
}
void count(Ctx& c, const std::vector<File>& fs, const std::string& dir) {
    std::vector<std::string> a{"count"};
    std::string how;
    size_t n = 0;
    for (auto& f : fs) {
        a.push_back(f.name);
        n += f.rows;
        how += f.how;
    }
    Proc p = odcTool(c, a, dir);
    if (!ok(c, p, "odc count", how)) return;
    if (p.out != std::to_string(n) + "\n") ODV_FAIL(c, "count", "odc count prints " << show(p.out, 60) << " instead of " << n << how);
    c.stat(fs.size() > 1 ? "counts of several files" : "counts of a file");
}
void offsets(Ctx& c, const File& f, const std::string& dir) {
    std::vector<std::string> a{"header", f.name};
    a.insert(a.begin() + c.rng.range(1, 2), "-offsets");
    Proc p = odcTool(c, a, dir);
    if (!ok(c, p, "odc header -offsets", f.how)) return;
    std::string want;
    for (auto& x : f.frames) want += std::to_string(x.off) + " " + std::to_string(x.len) + " " + std::to_string(x.nrows) + " " + std::to_string(x.cols.size()) + "\n";
    if (p.out != want) ODV_FAIL(c, "offsets", "odc header -offsets prints " << show(p.out, 300) << " instead of " << show(want, 300) << f.how);
    c.stat("lists of offsets");
}
// what is told about the storage; empty: not modelled
std::string storage(const RefFrame& f, size_t j) {
    const RefCol& k = f.cols[j];
    std::string miss = std::string(", hasMissing=") + (k.hasMissing ? "true" : "false") + (k.hasMissing ? ", missingValue=" + fixed6(k.mdi) : "");
    if (k.codec == "constant") return ", value=" + fixed6(k.min) + miss;
    if (k.codec == "constant_or_missing" || k.codec == "real_constant_or_missing") return ", value=" + (k.min == k.mdi ? std::string("NULL") : fixed6(k.min)) + miss;
    if (k.codec == "constant_string") return f.nrows ? ", value='" + f.tab.c[j].s[0] + "'" : "";
    if (k.codec == "long_constant_string") return ", width=" + std::to_string(k.width) + ", #words=1";
    if (k.codec == "int8_string" || k.codec == "int16_string") return ", width=" + std::to_string(k.width) + ", #words=" + std::to_string(k.table.size());
    if (k.type == STRING) return "";
    return ", range=<" + fixed6(k.min) + "," + fixed6(k.max) + ">" + miss;
}
void header(Ctx& c, const File& f, const std::string& dir) {
    for (auto& x : f.frames)
        for (size_t j = 0; j < x.cols.size(); j++)
            if (x.cols[j].codec == "constant_string" && x.nrows && !plain(x.tab.c[j].s[0])) return;
    Proc p = odcTool(c, {"header", f.name}, dir);
    if (!ok(c, p, "odc header", f.how)) return;
    std::vector<std::string> l = lines(p.out);
    size_t at = 0;
    auto bad = [&](const std::string& want) {
        ODV_FAIL(c, "header", "odc header prints line " << at << " as " << show(at < l.size() ? l[at] : "(nothing)", 300) << " instead of " << show(want, 300) << f.how);
    };
    for (size_t i = 0; i < f.frames.size(); i++) {
        const RefFrame& x = f.frames[i];
        std::string want  = "Header " + std::to_string(i + 1) + ". Begin offset: " + std::to_string(x.off) + ", end offset: " + std::to_string(x.off + x.len) + ", number of rows in block: " +
                           std::to_string(x.nrows) + ", byteOrder: " + (x.swapped ? "other" : "same");
        if (at >= l.size() || l[at] != "") return bad("");
        at++;
        if (at >= l.size() || l[at] != want) return bad(want);
        at++;
        for (size_t j = 0; j < x.cols.size(); j++, at++) {
            const RefCol& k = x.cols[j];
            want            = std::to_string(j) + ". name: " + k.name + ", type: " + typeName(k.type);
            if (k.type == BITFIELD) {
                want += " [";
                for (size_t b = 0; b < k.bits.size(); b++) want += (b ? ";" : "") + k.bits[b].first + ":" + std::to_string(k.bits[b].second);
                want += "] ";
            }
            want += ", codec: " + k.codec;
            std::string s = storage(x, j);
            if (at >= l.size() || (s.empty() ? l[at].substr(0, want.size()) != want : l[at] != want + s)) return bad(want + s);
            c.stat("columns described");
        }
    }
    if (at != l.size()) return bad("(nothing)");
    c.stat("headers of files");
}
void ddl(Ctx& c, const File& f, const std::string& dir) {
    std::vector<std::string> a{"header", f.name};
    a.insert(a.begin() + c.rng.range(1, 2), "-ddl");
    std::string table = "foo";
    if (c.rng.chance(1, 2)) {
        table = c.rng.chance(1, 2) ? "hdr" : "t" + std::to_string(c.rng.below(100));
        if (c.rng.chance(1, 2))  // that of a column
            for (auto& k : f.frames[0].cols)
                if (k.name.find('@') != std::string::npos) table = k.name.substr(k.name.rfind('@') + 1);
        if (table.empty() || table[0] == '-') table = "hdr";
        size_t at = size_t(c.rng.range(1, long(a.size())));
        a.insert(a.begin() + at, table);
        a.insert(a.begin() + at, "-table");
    }
    Proc p = odcTool(c, a, dir);
    if (!ok(c, p, "odc header -ddl", f.how)) return;
    std::vector<std::string> want;
    std::string suffix = "@" + table;
    for (auto& x : f.frames) {
        std::string types, cols = "CREATE TABLE " + table + " AS (\n";
        for (auto& k : x.cols) {
            std::string n = k.name;
            if (n.size() >= suffix.size() && n.substr(n.size() - suffix.size()) == suffix) n = n.substr(0, n.size() - suffix.size());
            std::string ty = k.type == BITFIELD ? n + "_at_" + table + "_t" : typeName(k.type);
            if (k.type == BITFIELD) {
                types += "CREATE TYPE " + ty + " AS (";
                for (size_t b = 0; b < k.bits.size(); b++) types += (b ? ", " : "") + k.bits[b].first + " bit" + std::to_string(k.bits[b].second);
                types += ");\n";
            }
            cols += "  " + n + " " + ty + ",\n";
        }
        std::string t = types + cols + ") ON '" + f.name + "';\n";
        if (want.empty() || want.back() != t) want.push_back(t);
    }
    // n.b. the same definition may be repeated
    size_t at = 0, i = 0;
    for (; i < want.size(); i++) {
        if (p.out.compare(at, want[i].size(), want[i])) break;
        at += want[i].size();
        while (at < p.out.size() && p.out.compare(at, want[i].size(), want[i]) == 0) at += want[i].size();
    }
    if (i < want.size() || at != p.out.size())
        ODV_FAIL(c, "ddl", "odc header -ddl prints " << show(p.out.substr(std::min(at, p.out.size())), 400) << " instead of " << show(i < want.size() ? want[i] : "(nothing)", 400) << f.how);
    c.stat(want.size() > 1 ? "definitions of several tables" : "definitions of a table");
}
void ls(Ctx& c, const File& f, const std::string& dir) {
    for (auto& x : f.frames) {
        for (auto& k : x.cols)
            if (!plain(k.name)) return;
        for (auto& k : x.tab.c)
            for (auto& s : k.s)
                if (!plain(s)) return;
    }
    std::vector<std::string> a{"ls", f.name};
    bool o = c.rng.chance(1, 3);
    if (o) {
        if (c.rng.chance(1, 2)) writeFile(dir + "/ls.txt", Bytes(c.rng.below(3000), 'z'));
        a.insert(a.begin() + c.rng.range(1, 2), "ls.txt");
        a.insert(std::find(a.begin(), a.end(), "ls.txt"), "-o");
    }
    Proc p = odcTool(c, a, dir);
    if (!ok(c, p, "odc ls", f.how)) return;
    std::string text = p.out;
    if (o) {
        if (!p.out.empty()) ODV_FAIL(c, "ls", "output although it was to be written to a file: " << show(p.out, 100) << f.how);
        Bytes b;
        readFile(dir + "/ls.txt", b);
        text.assign(b.begin(), b.end());
    }
    std::vector<std::string> l = lines(text);
    size_t at = 0, rows = 0;
    std::string last;
    for (auto& x : f.frames) {
        Tab t = flattened(x);
        std::string names;
        for (size_t j = 0; j < x.cols.size(); j++) names += (j ? "\t" : "") + x.cols[j].name;
        if (!x.nrows) continue;
        bool again = at < l.size() && l[at] == names;
        if (again)
            at++;
        else if (last != names) {
            ODV_FAIL(c, "ls", "odc ls prints line " << at << " as " << show(at < l.size() ? l[at] : "(nothing)", 300) << " instead of the names " << show(names, 300) << f.how);
            return;
        }
        last = names;
        for (size_t i = 0; i < size_t(x.nrows); i++, at++, rows++) {
            std::string want, alt;
            for (size_t j = 0; j < t.c.size(); j++) {
                const Col& k = t.c[j];
                std::string s, r;
                if (k.isStr())
                    s = "'" + k.s[i] + "'";
                else if (k.wasMiss[i])
                    s = ".";
                else if (k.isInt())
                    s = std::to_string(int64_t(k.d[i]));
                else {
                    s = fixed6(k.d[i]);
                    r = fixed6(double(float(k.d[i])));
                }
                want += (j ? "\t" : "") + s;
                alt += (j ? "\t" : "") + (k.type == REAL && !r.empty() ? r : s);
            }
            if (at >= l.size() || (l[at] != want && l[at] != alt)) {
                ODV_FAIL(c, "ls", "odc ls prints row " << rows << " as " << show(at < l.size() ? l[at] : "(nothing)", 300) << " instead of " << show(want, 300) << f.how);
                return;
            }
        }
    }
    if (at != l.size()) ODV_FAIL(c, "ls", "odc ls prints more lines than rows: " << show(l[at], 200) << f.how);
    c.stat("rows listed", rows);
    c.stat(o ? "listings to a file" : "listings");
}
void index(Ctx& c, const File& f, const std::string& dir) {
    bool all = true;
    for (auto& x : f.frames) {
        int j = x.tab.find("seqno");
        if (j < 0)
            all = false;
        else if (x.cols[size_t(j)].type != INTEGER)
            return;
    }
    std::string out = f.name + ".idx";
    std::vector<std::string> a{"index", f.name};
    if (c.rng.chance(1, 2)) a.push_back(out = "other.idx");
    if (c.rng.chance(1, 4)) writeFile(dir + "/" + out, Bytes(c.rng.below(3000), 'z'));
    Proc p = odcTool(c, a, dir);
    if (!all) {
        if (!toolRan(c, p, "odc index", f.how)) return;
        if (p.rc == 0) ODV_FAIL(c, "no-failure", "odc index of a frame without column seqno" << f.how);
        c.stat("indices refused");
        return;
    }
    if (!ok(c, p, "odc index", f.how)) return;
    Bytes b;
    readFile(dir + "/" + out, b);
    std::vector<RefFrame> got;
    try {
        got = refParse(b, true);
    }
    catch (std::exception& e) {
        ODV_FAIL(c, "index", "the index cannot be read: " << e.what() << f.how);
        return;
    }
    std::map<std::pair<size_t, long>, long> want, have;
    for (auto& x : f.frames) {
        size_t j = size_t(x.tab.find("seqno"));
        Tab t    = flattened(x);
        for (size_t i = 0; i < size_t(x.nrows); i++) want[{x.off, long(t.c[j].d[i])}]++;
    }
    size_t prev = 0;
    for (auto& g : got) {
        static const char* N[] = {"block_begin", "block_length", "seqno", "n_rows"};
        Tab t = flattened(g);
        std::string d;
        if (t.c.size() != 4) d = "other columns";
        for (size_t i = 0; i < 4 && d.empty(); i++)
            if (t.c[i].name != N[i] || t.c[i].type != INTEGER) d = "other columns";
        for (size_t i = 0; i < size_t(g.nrows) && d.empty(); i++) {
            size_t off = size_t(t.c[0].d[i]);
            if (off < prev) d = "blocks out of order";
            prev     = off;
            bool any = false;
            for (auto& x : f.frames) any |= x.off == off && double(x.len) == t.c[1].d[i];
            if (!any) d = "an entry for a block at " + std::to_string(off) + " of length " + std::to_string(long(t.c[1].d[i]));
            have[{off, long(t.c[2].d[i])}] += long(t.c[3].d[i]);
            if (t.c[3].d[i] <= 0) d = "an entry of no rows";
        }
        if (!d.empty()) {
            ODV_FAIL(c, "index", d << f.how);
            return;
        }
    }
    if (want != have) {
        std::string d;
        for (auto& w : want)
            if (!have.count(w.first) || have[w.first] != w.second)
                d = "block at " + std::to_string(w.first.first) + " seqno " + std::to_string(w.first.second) + ": " + std::to_string(have.count(w.first) ? have[w.first] : 0) + " rows instead of " +
                    std::to_string(w.second);
        ODV_FAIL(c, "index", (d.empty() ? "entries for values which do not occur" : d) << f.how);
    }
    c.stat("indices");
    c.stat("index entries compared", want.size());
}
void calls(Ctx& c, const File& f, const std::string& dir) {
    std::string path = dir + "/" + f.name;
    double n         = odb_count(path.c_str());
    if (n != double(f.rows)) ODV_FAIL(c, "odb_count", n << " instead of " << f.rows << f.how);
    unsigned long long m = odc::RowsCounter::fastRowCount(path);
    if (m != f.rows) ODV_FAIL(c, "fastRowCount", m << " instead of " << f.rows << f.how);
    size_t k     = 77;
    off_t* offs  = nullptr;
    size_t* lens = nullptr;
    int rc       = get_blocks_offsets(path.c_str(), &k, &offs, &lens);
    if (rc) {
        ODV_FAIL(c, "get_blocks_offsets", "result " << rc << f.how);
        return;
    }
    if (k != f.frames.size()) ODV_FAIL(c, "get_blocks_offsets", k << " blocks instead of " << f.frames.size() << f.how);
    for (size_t i = 0; i < k && i < f.frames.size(); i++)
        if (size_t(offs[i]) != f.frames[i].off || lens[i] != f.frames[i].len) {
            ODV_FAIL(c, "get_blocks_offsets", "block " << i << " at " << offs[i] << " of " << lens[i] << " instead of " << f.frames[i].off << " and " << f.frames[i].len << f.how);
            break;
        }
    if (release_blocks_offsets(&offs) || release_blocks_sizes(&lens) || offs || lens) ODV_FAIL(c, "release_blocks", "not released" << f.how);
    c.stat("legacy calls");
}
void broken(Ctx& c, const File& f, const std::string& dir) {
    Rng& r = c.rng;
    std::string how = f.how;
    Bytes b = f.bytes;
    int w   = int(r.below(3));
    if (w == 0) {
        size_t n = r.below(b.size());
        for (auto& x : f.frames)
            if (x.off == n) n = x.off + 7;
        b.resize(n);
        how += " [cut to " + std::to_string(n) + "]";
    }
    else if (w == 1) {
        size_t x = f.frames[r.below(f.frames.size())].off;
        size_t k = r.below(5);  // magic
        b[x + k] ^= char(1 + r.below(255));
        how += " [magic damaged at " + std::to_string(x + k) + "]";
    }
    else
        how += " [no file]";
    if (w < 2)
        writeFile(dir + "/broken.odb", b);
    else
        run({"/bin/rm", "-f", dir + "/broken.odb"}, dir);
    std::vector<std::vector<std::string>> cmds{{"count", "broken.odb"}, {"count", f.name, "broken.odb"}, {"header", "broken.odb"}, {"header", "-offsets", "broken.odb"}, {"header", "-ddl", "broken.odb"}, {"ls", "broken.odb"}};
    if (f.frames[0].tab.find("seqno") >= 0) cmds.push_back({"index", "broken.odb"});
    auto& a = cmds[r.below(cmds.size())];
    Proc p  = odcTool(c, a, dir);
    if (!toolRan(c, p, a[0], how)) return;
    if (p.rc == 0) ODV_FAIL(c, "no-failure", "odc " << a[0] << " of an unreadable file succeeds: " << show(p.out, 200) << how);
    c.stat("unreadable files");
}
}  // namespace

void odvCase(Ctx& c) {
    std::string dir = c.scratch + "/d";
    run({"/bin/rm", "-rf", dir}, c.scratch);
    mkdir(dir.c_str(), 0777);
    Rng& r = c.rng;
    std::vector<File> fs(r.chance(1, 6) ? size_t(r.range(2, 4)) : 1);
    for (size_t i = 0; i < fs.size(); i++) {
        File& f = fs[i];
        f.name  = "f" + std::to_string(i) + (r.chance(1, 2) ? ".odb" : "");
        FileOpts fo;
        fo.g.weirdNames = false;
        fo.bits         = true;
        fo.g.maxRows    = r.chance(1, 12) ? 3000 : 60;
        fo.maxFrames    = r.chance(1, 10) ? 25 : 5;
        Tab base;
        if (r.chance(1, 2)) {
            base = genTable(r, fo.g);
            size_t j = r.below(base.c.size());
            if (base.find("seqno") < 0 && base.find("seqno@hdr") < 0) {
                Col k;
                k.name = "seqno";
                k.type = INTEGER;
                k.resize(base.n);
                long span = r.chance(1, 4) ? 100000 : 4, v = r.range(-1, span);
                for (size_t q = 0; q < base.n; q++) {
                    k.d[q]    = double(v);
                    k.miss[q] = r.chance(1, 15);
                    if (r.chance(1, 3)) v = r.chance(1, 3) ? r.range(-2, span) : v + 1;
                }
                base.c[j] = k;
            }
            fo.base = &base;
        }
        f.bytes = genFile(c, fo, f.frames, f.how);
        writeFile(dir + "/" + f.name, f.bytes);
        for (auto& x : f.frames) f.rows += size_t(x.nrows);
        f.how += " [" + f.name + "]";
        c.sig(hashStr(std::string(f.bytes.begin(), f.bytes.end())));
    }
    const File& f = fs[0];
    if (fs.size() > 1) {
        count(c, fs, dir);
        return;
    }
    calls(c, f, dir);
    switch (r.below(7)) {
        case 0: count(c, fs, dir); break;
        case 1: offsets(c, f, dir); break;
        case 2: header(c, f, dir); break;
        case 3: ddl(c, f, dir); break;
        case 4: ls(c, f, dir); break;
        case 5: f.frames[0].tab.find("seqno") >= 0 ? index(c, f, dir) : header(c, f, dir); break;
        default: broken(c, f, dir);
    }
}
}  // namespace odv
