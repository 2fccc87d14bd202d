// C22: split and the dispatching writer send every row to exactly one right file, in order.
#include <dirent.h>
#include <sys/stat.h>
#include <algorithm>
#include "eckit/filesystem/PathName.h"
#include "iface.h"
#include "odc/DispatchingWriter.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/api/Odb.h"
#include "odc/core/Column.h"
#include "odc/core/MetaData.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C22"; }
void odvInit() {}
uint64_t odvProbes() { return 0; }
namespace {
struct Longs {
    explicit Longs(bool l) { odc::api::Settings::treatIntegersAsDoubles(!l); }
    ~Longs() { odc::api::Settings::treatIntegersAsDoubles(false); }
};
// the template: literal text and column names in turn
struct Piece {
    std::string text;
    std::string column;
};
typedef std::vector<Piece> Template;
std::string str(const Template& t) {
    std::string s;
    for (auto& p : t) s += p.column.empty() ? p.text : "{" + p.column + "}";
    return s;
}
int columnOf(const Tab& t, const std::string& nm) {
    int j = t.find(nm);
    if (j >= 0) return j;
    for (size_t i = 0; i < t.c.size(); i++)
        if (t.c[i].name.substr(0, t.c[i].name.find('@')) == nm) return int(i);
    return -1;
}
struct NoName : std::runtime_error {
    using std::runtime_error::runtime_error;
};
// flattened table: name of the file a row belongs to
std::string nameOf(const Template& tp, const Tab& t, size_t row) {
    std::string s;
    for (auto& p : tp) {
        if (p.column.empty()) {
            s += p.text;
            continue;
        }
        int j = columnOf(t, p.column);
        if (j < 0) throw NoName("no column " + p.column);
        const Col& k = t.c[size_t(j)];
        if (!k.isStr()) {
            s += std::to_string((long long)k.d[row]);
            continue;
        }
        std::string v = k.s[row];
        size_t n      = 0;
        while (n < v.size() && isprint((unsigned char)v[n])) n++;
        v.resize(n);
        while (!v.empty() && isspace((unsigned char)v.back())) v.pop_back();
        while (!v.empty() && isspace((unsigned char)v[0])) v.erase(0, 1);
        for (char ch : v) s += ch == '/' ? std::string("__SLASH__") : std::string(1, ch);
    }
    return s;
}
void keyCells(Rng& r, Col& k, size_t n, size_t card) {
    GenOpts g;
    k.resize(n);
    k.d.clear();
    k.s.clear();
    std::vector<std::string> pool;
    std::vector<double> nums;
    if (k.isStr()) {
        static const char* SP[] = {"", " ", "a", "A", " a", "a ", "a/b", "/", "ab", "a\tb", "a\x01z", "a\x01y", "longer than eight", "longer than eight2", "%d", "$x", "..", "a{b}c", "__SLASH__", "0", "1"};
        for (size_t i = 0; i < card; i++) pool.push_back(r.chance(1, 2) ? SP[r.below(sizeof SP / sizeof *SP)] : "s" + std::to_string(i));
        for (auto& s : pool)
            if (s.size() > k.width) s.resize(k.width);
    }
    else {
        long base = r.chance(1, 3) ? 0 : r.range(-1000, 100000);
        if (k.type == BITFIELD) base = std::labs(base);
        for (size_t i = 0; i < card; i++) {
            double v = double(base + long(i));
            if (k.type == INTEGER && r.chance(1, 8)) v = -v;
            if ((k.type == REAL || k.type == DOUBLE) && r.chance(1, 3)) v += r.chance(1, 2) ? 0.5 : 0.25;
            if ((k.type == REAL || k.type == DOUBLE) && r.chance(1, 12)) v = r.chance(1, 2) ? -0.0 : -0.5;
            nums.push_back(v);
        }
    }
    int order = int(r.below(4));  // random, in turn, in blocks, sorted
    for (size_t i = 0; i < n; i++) {
        size_t x = order == 0 ? r.below(card) : order == 1 ? i % card : order == 2 ? (i / 4) % card : i * card / n;
        if (k.isStr())
            k.s.push_back(pool[x]);
        else
            k.d.push_back(nums[x]);
        k.miss[i] = !k.isStr() && r.chance(1, 25);
    }
}
void list(const std::string& dir, const std::string& rel, std::set<std::string>& out) {
    DIR* d = opendir((dir + "/" + rel).c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (lstat((dir + "/" + p).c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            list(dir, p, out);
        else
            out.insert(p);
    }
    closedir(d);
}
}  // namespace

void odvCase(Ctx& c) {
    Rng& r = c.rng;
    std::string dir = c.scratch + "/d";
    run({"/bin/rm", "-rf", dir}, c.scratch);
    mkdir(dir.c_str(), 0777);

    // 0-2: odc split, 3: sorted, 4,5: library from a reader, 6,7: rows one at a time, 8: SQL into a template
    int way   = int(r.below(9));
    bool sort = way == 3, sql = way == 8, manual = way == 6 || way == 7;
    // ---- keys and template
    FileOpts fo;
    fo.g.maxCols    = 5;
    fo.g.maxRows    = r.chance(1, 4) ? 400 : 60;
    fo.g.weirdNames = !sort && !sql;
    fo.g.special    = !sort && !sql;
    fo.minFrames    = 1;
    fo.maxFrames    = r.chance(1, 2) ? 5 : 1;
    if (sort || sql) fo.schema = fo.types = false;
    if (sort || sql) fo.permute = sort;
    Tab base  = genTable(r, fo.g);
    if (base.n < 40 && r.chance(3, 4)) {
        std::vector<size_t> idx;
        size_t n = size_t(r.range(40, fo.g.maxRows + 1));
        for (size_t i = 0; i < n; i++) idx.push_back(r.below(base.n));
        base = base.rows(idx);
        base.n = n;
    }
    size_t nk = size_t(r.range(1, 3)), card = r.chance(1, 4) ? size_t(r.range(20, 320)) : size_t(r.range(1, 12));
    std::vector<std::string> keys;
    for (size_t i = 0; i < nk; i++) {
        Col k;
        k.name = std::string("zkey") + char(0x61 + i) + (i == 0 && r.chance(1, 3) ? "" : "@hdr");
        static const int T[] = {INTEGER, INTEGER, BITFIELD, STRING, STRING, REAL, DOUBLE};
        k.type = T[r.below(sort || sql ? 5 : 7)];
        if (k.type == BITFIELD) k.bits = {{"x", 5}, {"y", 20}};
        if (k.isStr()) k.width = 8 * size_t(r.range(1, 3));
        keyCells(r, k, base.n, i ? size_t(r.range(1, 4)) : card);
        base.c.insert(base.c.begin() + long(r.below(base.c.size() + 1)), k);
        keys.push_back(k.name);
    }
    Template tp;
    {
        std::string text = "f";
        if (r.chance(1, 4)) text = r.chance(1, 2) ? "sub/x" : "sub/deep/";
        if (r.chance(1, 6)) text = dir + "/" + text;
        tp.push_back({text, ""});
        std::vector<std::string> use = keys;
        if (r.chance(1, 5)) use.push_back(r.pick(keys));
        for (size_t i = 0; i < use.size(); i++) {
            std::string nm = use[i];
            if (r.chance(1, 3)) nm = nm.substr(0, nm.find('@'));
            if (i && r.chance(3, 4)) tp.push_back({r.chance(1, 6) ? "/e" : r.chance(1, 2) ? "_" : ".", ""});
            tp.push_back({"", nm});
        }
        if (r.chance(5, 6)) tp.push_back({".odb", ""});
    }
    std::string how = " [" + str(tp) + "]";
    // ---- input
    fo.base = &base;
    std::vector<RefFrame> frames;
    Bytes file;
    std::vector<Tab> src;
    std::vector<std::vector<double>> mdis;
    int maxopen = r.chance(1, 3) ? 1 : r.chance(1, 2) ? int(r.range(2, 6)) : r.chance(1, 2) ? int(r.range(7, 260)) : 0;
    bool append = !sql && (way == 4 || manual) && r.chance(1, 4);
    bool longs  = manual ? r.chance(1, 2) : way == 4 || way == 5 ? r.chance(1, 2) : false;
    std::map<size_t, bool> widened;
    if (!manual) {
        for (int tries = 0;; tries++) {
            std::string h2;
            frames.clear();
            file = genFile(c, fo, frames, h2);
            bool ok = true;
            for (auto& f : frames) {
                Tab t = flattened(f);
                for (auto& p : tp) {
                    int j = p.column.empty() ? -1 : columnOf(t, p.column);
                    if (j >= 0 && !t.c[size_t(j)].isStr())
                        for (double d : t.c[size_t(j)].d) ok &= std::isfinite(d) && std::fabs(d) < 4e18;
                }
            }
            if (ok) {
                how += h2;
                break;
            }
            if (tries > 5) return;
            fo.types = false;
        }
        for (auto& f : frames) src.push_back(flattened(f));
    }
    else {
        size_t P = r.chance(1, 2) ? 1 : size_t(r.range(2, 4));
        Tab cur  = base;
        for (size_t p = 0; p < P; p++) {
            if (p) {
                switch (r.below(4)) {
                    case 3: {  // the same words stand for other keys
                        int j = columnOf(cur, keys[r.below(keys.size())]);
                        Col& k = cur.c[size_t(j)];
                        bool st = k.isStr();
                        k.type  = st ? (longs ? INTEGER : DOUBLE) : STRING;
                        k.width = 8;
                        k.bits.clear();
                        std::vector<double> d = k.d;
                        std::vector<std::string> sv = k.s;
                        k.d.clear();
                        k.s.clear();
                        for (size_t x = 0; x < cur.n; x++) {
                            if (st)
                                k.d.push_back(sv[x].empty() || !longs ? 0 : double((unsigned char)sv[x][0]));
                            else
                                k.s.push_back(longs && d[x] > 47 && d[x] < 127 ? std::string(1, char(d[x])) : std::string());
                            k.miss[x] = 0;
                        }
                        c.stat("keys which changed their type");
                        break;
                    }
                    case 0:
                        for (size_t i = cur.c.size(); i > 1; i--) std::swap(cur.c[i - 1], cur.c[r.below(i)]);
                        break;
                    case 1:
                        for (auto& k : cur.c)
                            if (k.isStr()) {
                                widened[p] = true;
                                k.width += 8 * size_t(r.range(0, 2));
                                for (auto& s : k.s)
                                    if (k.name.compare(0, 4, "zkey") && r.chance(1, 2)) s = genString(r, k.width - 7, k.width);
                            }
                        break;
                    default:
                        // new column
                        {
                            Col k;
                            k.name = "new" + std::to_string(p);
                            k.type = r.chance(1, 2) ? STRING : INTEGER;
                            genCells(r, k, cur.n, fo.g);
                            cur.c.insert(cur.c.begin() + long(r.below(cur.c.size() + 1)), k);
                        }
                }
                std::vector<size_t> idx;
                for (size_t i = 0, n = size_t(r.range(1, 60)); i < n; i++) idx.push_back(r.below(cur.n));
                cur   = cur.rows(idx);
                cur.n = idx.size();
            }
            std::vector<double> m;
            for (auto& k : cur.c) m.push_back(k.isInt() ? 2147483647. : -2147483647.);
            if (!widened[p] && r.chance(1, 4))
                for (size_t i = 0; i < m.size(); i++)
                    if (cur.c[i].type == INTEGER) m[i] = -32768.;
            if (widened[p]) m = mdis.back();
            for (size_t i = 0; i < m.size(); i++)
                if (!cur.c[i].isStr())
                    for (size_t x = 0; x < cur.n; x++)
                        if (!cur.c[i].miss[x] && cur.c[i].d[x] == m[i]) cur.c[i].d[x] = 7;
            // what a column of this type stores
            Tab t = cur;
            for (auto& k : t.c) {
                if (k.type == REAL)
                    for (size_t x = 0; x < t.n; x++) k.d[x] = double(float(k.d[x]));
                if (k.isStr()) continue;
                for (size_t x = 0; x < t.n; x++)
                    if (!k.miss[x] && !std::isfinite(k.d[x])) k.d[x] = 3.5;
            }
            mdis.push_back(m);
            flatten(t, m);
            src.push_back(t);
        }
        how += " [" + std::to_string(P) + " parts of " + describe(base) + "]";
    }
    // ---- expectation
    std::map<std::string, std::vector<std::pair<size_t, size_t>>> want;
    std::string fails;
    size_t inputs = 0;
    std::map<std::string, std::set<std::string>> keyVals;  // name -> different keys
    try {
        for (size_t f = 0; f < src.size(); f++) {
            for (size_t row = 0; row < src[f].n; row++) {
                std::string n = nameOf(tp, src[f], row);
                size_t comp = 0;
                for (char ch : n) {
                    comp = ch == '/' ? 0 : comp + 1;
                    if (comp > 250) return;  // not a file name
                }
                if (n.back() == '/') return;
                // n.b. '.' and '..' components are not the subject
                if (("/" + n + "/").find("/../") != std::string::npos || ("/" + n + "/").find("/./") != std::string::npos || n.find("//") != std::string::npos) return;
                want[n].push_back({f, row});
                inputs++;
                std::string raw;
                for (auto& p : tp)
                    if (!p.column.empty()) {
                        const Col& k = src[f].c[size_t(columnOf(src[f], p.column))];
                        raw += (k.isStr() ? k.s[row] : std::to_string(k.d[row])) + "|";
                    }
                keyVals[n].insert(raw);
            }
        }
    }
    catch (NoName& e) {
        fails = e.what();
    }
    if (sort || sql) {  // one key per name, ordered as the names are
        for (auto& k : keyVals)
            if (k.second.size() > 1) return;
    }
    if (manual && !fails.empty()) return;
    // a name may be a directory on the way to another
    for (auto& a : want)
        for (size_t p = a.first.find('/'); p != std::string::npos; p = a.first.find('/', p + 1))
            if (want.count(a.first.substr(0, p))) return;
    // ---- prior contents
    std::map<std::string, Bytes> before;
    std::map<std::string, bool> unrelated;
    auto at = [&](const std::string& n) { return n[0] == '/' ? n : dir + "/" + n; };
    auto mkdirs = [&](const std::string& n) {
        std::string p = at(n);
        for (size_t s = dir.size() + 1; (s = p.find('/', s)) != std::string::npos; s++) mkdir(p.substr(0, s).c_str(), 0777);
    };
    if (r.chance(1, 2)) {
        Tab old = genTable(r);
        EncResult e = encodeC(old);
        for (auto& w : want)
            if (r.chance(1, 3)) {
                mkdirs(w.first);
                Bytes b = e.bytes;
                if (!append && r.chance(1, 2)) b = Bytes(size_t(r.range(0, 5000)), 'x');
                writeFile(at(w.first), b);
                before[w.first] = b;
            }
        c.stat("outputs which were there before", before.size());
    }
    writeFile(dir + "/zother.odb", std::string("unrelated"));
    if (append)  // directories are the caller's business
        for (auto& w : want) mkdirs(w.first);
    how += " [" + std::to_string(want.size()) + " names, " + std::to_string(maxopen) + " open" + (append ? ", appending" : "") + (longs ? ", longs" : "") + (before.empty() ? "" : ", files before") + "]";
    std::string in = c.scratch + "/in.odb";
    if (!manual) writeFile(in, file);
    std::string T = str(tp), Tabs = T[0] == '/' ? T : dir + "/" + T;
    size_t inLib = 0;
    std::string err;
    if (way <= 3) {
        std::vector<std::string> a{"split"};
        if (sort) a.push_back("-sort");
        if (maxopen && r.chance(4, 5)) {
            a.push_back("-maxopenfiles");
            a.push_back(std::to_string(maxopen));
        }
        if (r.chance(1, 3)) a.push_back("-no_verification");
        a.push_back(in);
        a.push_back(T);
        std::string cmd;
        for (auto& x : a) cmd += " " + x;
        how += " [odc" + cmd + "]";
        Proc p = odcTool(c, a, dir);
        if (p.sanitizer || p.timeout || p.rc > 120) {
            ODV_FAIL(c, p.timeout ? "hang" : "crash", "odc" << cmd << ": " << p.err.substr(0, 1500) << how);
            return;
        }
        if (p.rc) err = "exit code " + std::to_string(p.rc) + ": " + p.err.substr(0, 300);
        if (p.rc == 0 && fails.empty()) {
            // the verification has something to say
            p.out += p.err;
            size_t v = p.out.find("Total number of differences: ");
            if (v != std::string::npos) {
                c.stat("splits verified by the tool");
                if (atoi(p.out.c_str() + v + 29) != 0) ODV_FAIL(c, "false-differences", "verification reports " << p.out.substr(v, 60) << ": " << p.out.substr(0, 800) << how);
                size_t q = p.out.find("Number of rows: ");
                if (q != std::string::npos && size_t(atoll(p.out.c_str() + q + 16)) != inputs) ODV_FAIL(c, "verified-rows", "verification of " << p.out.substr(q, 60) << " instead of " << inputs << how);
            }
        }
    }
    else {
        Longs L(longs);
        try {
            if (sql) {
                // n.b. a name must not hold quotes
                Proc p = odcTool(c, {"sql", "select * into \"" + Tabs + "\" from \"" + in + "\""}, dir);
                how += " [sql]";
                if (p.sanitizer || p.timeout || p.rc > 120) {
                    ODV_FAIL(c, p.timeout ? "hang" : "crash", "odc sql: " << p.err.substr(0, 1500) << how);
                    return;
                }
                if (p.rc) throw std::runtime_error("exit code " + std::to_string(p.rc) + ": " + p.err.substr(0, 300));
            }
            else {
                odc::DispatchingWriter w(Tabs, maxopen, append);
                odc::DispatchingWriter::iterator it = w.begin();
                if (!manual) {
                    odc::Reader rd(in);
                    inLib = it->pass1(rd.begin(), rd.end());
                }
                else {
                    for (size_t p = 0; p < src.size(); p++) {
                        const Tab& t = src[p];
                        if (widened[p]) {
                            std::map<std::string, size_t> w2;
                            for (auto& k : t.c)
                                if (k.isStr()) w2[k.name] = k.width / 8;
                            it->flushAndResetColumnSizes(w2);
                        }
                        else {
                            it->setNumberOfColumns(t.c.size());
                            for (size_t i = 0; i < t.c.size(); i++) {
                                const Col& k = t.c[i];
                                if (k.type == BITFIELD) {
                                    eckit::sql::BitfieldDef b;
                                    for (auto& x : k.bits) {
                                        b.first.push_back(x.first);
                                        b.second.push_back(x.second);
                                    }
                                    it->setBitfieldColumn(i, k.name, odc::api::ColumnType(k.type), b);
                                }
                                else
                                    it->setColumn(i, k.name, odc::api::ColumnType(k.type));
                                if (k.isStr()) it->columns()[i]->dataSizeDoubles(k.width / 8);
                                if (!k.isStr()) it->missingValue(i, mdis[p][i]);
                            }
                            it->writeHeader();
                        }
                        bool block = r.chance(1, 3);
                        for (size_t row = 0; row < t.n; row++) {
                            std::vector<double> buf;
                            for (size_t i = 0; i < t.c.size(); i++) {
                                EncOpts eo;
                                eo.longs = longs;
                                size_t o = buf.size();
                                buf.resize(o + t.c[i].width / 8);
                                putCell(block ? reinterpret_cast<unsigned char*>(&buf[o]) : reinterpret_cast<unsigned char*>(&it->data(i)), t.c[i], row, eo);
                            }
                            if (block)
                                (**it).writeRow(buf.data(), t.c.size());
                            else
                                ++it;
                            inLib++;
                        }
                    }
                }
                std::vector<std::string> got;
                for (auto& p : (**it).outputFiles()) got.push_back(p.asString());
                std::set<std::string> g(got.begin(), got.end()), e;
                for (auto& x : want) e.insert(eckit::PathName(at(x.first)).asString());
                if (fails.empty() && g != e) ODV_FAIL(c, "output-files", g.size() << " output files reported instead of " << e.size() << how);
                if (r.chance(1, 2)) it->close();
            }
        }
        catch (std::exception& e) {
            err = e.what();
        }
    }
    c.stat(sort ? "sorted splits" : sql ? "selections into a template" : manual ? "row by row dispatches" : way <= 2 ? "splits by the tool" : "splits by the library");
    if (!fails.empty()) {
        if (err.empty()) ODV_FAIL(c, "no-failure", "success although a frame has " << fails << how);
        c.stat("frames without the template column refused");
        return;
    }
    if (!err.empty()) {
        ODV_FAIL(c, "failure", err << how);
        return;
    }
    if (!sql && way > 3 && inLib != inputs) ODV_FAIL(c, "count", inLib << " rows reported instead of " << inputs << how);
    std::set<std::string> there, expect{"zother.odb"};
    list(dir, "", there);
    for (auto& w : want) expect.insert(w.first[0] == '/' ? w.first.substr(dir.size() + 1) : w.first);
    for (auto& x : there)
        if (!expect.count(x)) ODV_FAIL(c, "extra-file", "unexpected file '" << show(x) << "'" << how);
    for (auto& x : expect)
        if (!there.count(x)) ODV_FAIL(c, "lost-file", "no file '" << show(x) << "'" << how);
    Bytes z;
    if (!readFile(dir + "/zother.odb", z) || std::string(z.begin(), z.end()) != "unrelated") ODV_FAIL(c, "unrelated", "another file was changed" << how);
    for (auto& w : want) {
        Bytes b;
        if (!readFile(at(w.first), b)) continue;
        if (append && before.count(w.first)) {
            Bytes& o = before[w.first];
            if (b.size() < o.size() || !std::equal(o.begin(), o.end(), b.begin())) {
                ODV_FAIL(c, "append", "the content of '" << w.first << "' was not kept" << how);
                continue;
            }
            b.erase(b.begin(), b.begin() + long(o.size()));
            c.stat("files appended to");
        }
        checkRows(c, w.first, b, src, w.second, how, sort || sql, !(sort || sql));
    }
    c.stat("files written", want.size());
    c.stat("rows dispatched", inputs);
    size_t open = maxopen ? size_t(maxopen) : 200;
    if (sort) open = 1;
    if (want.size() > open) c.stat("splits into more files than may be open");
    c.sig(mix(mix(mix(uint64_t(way), want.size()), size_t(maxopen)), mix(hashStr(str(tp)), hashTab(src[0]))));
    if (c.idx % 500 == 7) c.sample(how);
}
}  // namespace odv
