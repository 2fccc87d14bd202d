// C19: SQL selection returns exactly the rows and values the query denotes.
#include <algorithm>
#include "eckit/io/MemoryHandle.h"
#include "iface.h"
#include "odc/api/Odb.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C19"; }
void odvInit() {}
namespace {
std::string prefix(const std::string& s) { return s.substr(0, s.find('@')); }
std::string table(const std::string& s) { return s.find('@') == std::string::npos ? "" : s.substr(s.find('@')); }
std::string lit(double v) {
    char b[64];
    snprintf(b, sizeof b, v == std::floor(v) && std::fabs(v) < 1e15 ? "%.0f" : "%.17g", v);
    return b;
}
std::string rstrip(std::string s) {
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s;
}
bool writable(double v) { return std::isfinite(v) && lit(v).find('e') == std::string::npos; }
// a value computed for one row
struct Val {
    bool str = false, miss = false;
    double d = 0;
    std::string s;
};
struct Item {
    std::string sql, name, col;  // name: expected title, empty when it is left open
    int type = -1;          // -1: left open
    std::vector<std::pair<std::string, int>> bits;
    std::function<Val(const Tab&, size_t)> f;
    int agg = 0;  // 1 count(*) 2 count 3 min 4 max 5 sum 6 avg
};
enum Tri { F, T, M };
struct Cond {
    std::string sql;
    std::function<Tri(const Tab&, size_t)> f;
};
Val cell(const Tab& t, const std::string& full, size_t r) {
    int j = t.find(full);
    if (j < 0) throw std::logic_error("no column " + full);
    const Col& k = t.c[size_t(j)];
    Val v;
    if (k.isStr()) {
        v.str = true;
        v.s   = k.s[r];
    }
    else {
        v.miss = k.miss[r];
        v.d    = k.d[r];
    }
    return v;
}
struct Gen {
    Rng& r;
    const Tab& first;             // schema
    const std::vector<Tab>& fs;   // all rows
    std::string ref(size_t i) {   // some way to name column i
        const std::string& n = first.c[i].name;
        size_t same          = 0;
        for (auto& k : first.c) same += prefix(k.name) == prefix(n);
        return same == 1 && r.chance(1, 2) ? prefix(n) : n;
    }
    size_t pickCol(int kind) {  // 0 any 1 numeric 2 string 3 bitfield with members
        std::vector<size_t> v;
        for (size_t i = 0; i < first.c.size(); i++) {
            const Col& k = first.c[i];
            if (kind == 0 || (kind == 1 && !k.isStr()) || (kind == 2 && k.isStr()) || (kind == 3 && k.type == BITFIELD && !k.bits.empty())) v.push_back(i);
        }
        return v.empty() ? size_t(-1) : r.pick(v);
    }
    Val sampleValue(size_t i) {
        const Tab& t = r.pick(fs);
        return cell(t, first.c[i].name, r.below(t.n));
    }
    std::string member(size_t i, size_t j) { return prefix(first.c[i].name) + "." + first.c[i].bits[j].first + table(first.c[i].name); }
    std::function<Val(const Tab&, size_t)> memberF(size_t i, size_t j) {
        int off = 0;
        for (size_t k = 0; k < j; k++) off += first.c[i].bits[k].second;
        int w         = first.c[i].bits[j].second;
        std::string n = first.c[i].name;
        return [=](const Tab& t, size_t row) {
            Val v = cell(t, n, row);
            if (!v.miss) v.d = double((uint64_t(int64_t(v.d)) >> off) & ((uint64_t(1) << w) - 1));
            return v;
        };
    }
    Cond leaf() {
        for (;;) {
            size_t i;
            switch (r.below(9)) {
                case 0:
                case 1:
                case 2: {  // number against a literal
                    if ((i = pickCol(1)) == size_t(-1)) break;
                    Val v         = sampleValue(i);
                    double x      = v.miss || r.chance(1, 5) ? double(r.range(-5, 20)) : v.d;
                    std::string n = first.c[i].name;
                    if (!writable(x)) break;
                    int op = int(r.below(6));
                    static const char* ops[] = {"=", "<>", "<", ">", "<=", ">="};
                    bool swap = r.chance(1, 6);
                    return {swap ? lit(x) + " " + ops[op] + " " + ref(i) : ref(i) + ops[op] + lit(x), [=](const Tab& t, size_t row) {
                                Val v = cell(t, n, row);
                                if (v.miss) return M;
                                double a = swap ? x : v.d, b = swap ? v.d : x;
                                return (op == 0 ? a == b : op == 1 ? a != b : op == 2 ? a < b : op == 3 ? a > b : op == 4 ? a <= b : a >= b) ? T : F;
                            }};
                }
                case 3: {  // two columns
                    if ((i = pickCol(1)) == size_t(-1)) break;
                    size_t j      = pickCol(1);
                    std::string n = first.c[i].name, m = first.c[j].name;
                    int op = int(r.below(3));
                    if (i == j) break;
                    static const char* ops[] = {"=", "<", ">="};
                    return {ref(i) + " " + ops[op] + " " + ref(j), [=](const Tab& t, size_t row) {
                                Val a = cell(t, n, row), b = cell(t, m, row);
                                if (a.miss || b.miss) return M;
                                return (op == 0 ? a.d == b.d : op == 1 ? a.d < b.d : a.d >= b.d) ? T : F;
                            }};
                }
                case 4: {
                    if ((i = pickCol(1)) == size_t(-1)) break;
                    std::string n = first.c[i].name;
                    bool no       = r.chance(1, 2);
                    return {ref(i) + (no ? " is not null" : " is null"), [=](const Tab& t, size_t row) { return cell(t, n, row).miss != no ? T : F; }};
                }
                case 5: {  // between / in
                    if ((i = pickCol(1)) == size_t(-1)) break;
                    std::string n = first.c[i].name;
                    std::vector<double> xs;
                    for (int k = int(r.range(2, 4)); k > 0; k--) {
                        Val v = sampleValue(i);
                        xs.push_back(v.miss || !writable(v.d) ? double(r.range(0, 9)) : v.d);
                    }
                    bool no = r.chance(1, 3);
                    if (r.chance(1, 2)) {
                        std::string s = ref(i) + (no ? " not in (" : " in (");
                        for (size_t k = 0; k < xs.size(); k++) s += (k ? "," : "") + lit(xs[k]);
                        return {s + ")", [=](const Tab& t, size_t row) {
                                    Val v = cell(t, n, row);
                                    if (v.miss) return M;
                                    return (std::find(xs.begin(), xs.end(), v.d) != xs.end()) != no ? T : F;
                                }};
                    }
                    double lo = std::min(xs[0], xs[1]), hi = std::max(xs[0], xs[1]);
                    return {ref(i) + (no ? " not between " : " between ") + lit(lo) + " and " + lit(hi), [=](const Tab& t, size_t row) {
                                Val v = cell(t, n, row);
                                if (v.miss) return M;
                                return (v.d >= lo && v.d <= hi) != no ? T : F;
                            }};
                }
                case 6: {
                    if ((i = pickCol(2)) == size_t(-1)) break;
                    std::string n = first.c[i].name;
                    std::string x = r.chance(1, 6) ? "zz" : sampleValue(i).s;
                    if (x.find('\'') != std::string::npos) break;
                    int op = int(r.below(4));
                    std::string q = r.chance(1, 4) ? "\"" : "'";
                    if (x.find('"') != std::string::npos) q = "'";
                    if (op < 2)
                        return {ref(i) + (op ? "<>" : " = ") + q + x + q, [=](const Tab& t, size_t row) { return (rstrip(cell(t, n, row).s) == rstrip(x)) != (op == 1) ? T : F; }};
                    std::string y = sampleValue(i).s;
                    if (y.find('\'') != std::string::npos) break;
                    return {ref(i) + (op == 2 ? " in " : " not in ") + "('" + x + "','" + y + "')", [=](const Tab& t, size_t row) {
                                std::string s = rstrip(cell(t, n, row).s);
                                return (s == rstrip(x) || s == rstrip(y)) == (op == 2) ? T : F;
                            }};
                }
                case 7: {  // substring
                    if ((i = pickCol(2)) == size_t(-1)) break;
                    std::string n = first.c[i].name, x = sampleValue(i).s;
                    if (x.empty()) break;
                    x        = x.substr(0, 8);  // eckit looks at the first eight characters
                    size_t a = r.below(x.size());
                    x        = x.substr(a, 1 + r.below(4));
                    if (x.empty() || !std::all_of(x.begin(), x.end(), [](char ch) { return isalnum(static_cast<unsigned char>(ch)); })) break;
                    return {ref(i) + " like '" + x + "'", [=](const Tab& t, size_t row) { return cell(t, n, row).s.substr(0, 8).find(x) != std::string::npos ? T : F; }};
                }
                default: {
                    if ((i = pickCol(3)) == size_t(-1)) break;
                    size_t j = r.below(first.c[i].bits.size());
                    auto f   = memberF(i, j);
                    double x = f(r.pick(fs), 0).d;
                    if (r.chance(1, 3)) x = 1;
                    if (r.chance(1, 3)) return {member(i, j), [=](const Tab& t, size_t row) { Val v = f(t, row); return v.miss ? M : v.d ? T : F; }};
                    bool ne = r.chance(1, 3);
                    return {member(i, j) + (ne ? "<>" : "=") + lit(x), [=](const Tab& t, size_t row) { Val v = f(t, row); return v.miss ? M : (v.d == x) != ne ? T : F; }};
                }
            }
        }
    }
    Cond cond(int depth) {
        int k = depth ? int(r.below(6)) : 5;
        if (k < 2) {
            Cond a = cond(depth - 1), b = cond(depth - 1);
            return {"(" + a.sql + ") and (" + b.sql + ")", [=](const Tab& t, size_t row) { Tri x = a.f(t, row); return x != T ? x : b.f(t, row); }};
        }
        if (k < 4) {  // the first operand decides unless it is false
            Cond a = cond(depth - 1), b = cond(depth - 1);
            return {"(" + a.sql + ") or (" + b.sql + ")", [=](const Tab& t, size_t row) { Tri x = a.f(t, row); return x != F ? x : b.f(t, row); }};
        }
        if (k == 4) {
            Cond a = cond(depth - 1);
            return {"not (" + a.sql + ")", [=](const Tab& t, size_t row) { Tri x = a.f(t, row); return x == M ? M : x == T ? F : T; }};
        }
        return leaf();
    }
    Item item() {
        Item it;
        size_t i = pickCol(3);
        if (i != size_t(-1) && r.chance(1, 5)) {
            size_t j = r.below(first.c[i].bits.size());
            it.sql   = member(i, j);
            it.f     = memberF(i, j);
        }
        else if (r.chance(1, 10) && (i = pickCol(1)) != size_t(-1)) {
            double x      = double(r.range(1, 9));  // x * 0 is simplified to 0
            std::string n = first.c[i].name;
            int op        = int(r.below(3));
            it.sql        = ref(i) + (op == 0 ? "+" : op == 1 ? "*" : " - ") + lit(x);
            it.f          = [=](const Tab& t, size_t row) {
                Val v = cell(t, n, row);
                v.d   = op == 0 ? v.d + x : op == 1 ? v.d * x : v.d - x;
                return v;
            };
        }
        else {
            i             = pickCol(0);
            std::string n = first.c[i].name;
            it.sql        = ref(i);
            it.name = it.col = n;
            it.type       = first.c[i].type;
            it.bits       = first.c[i].bits;
            it.f          = [=](const Tab& t, size_t row) { return cell(t, n, row); };
        }
        if (r.chance(1, 6)) {
            it.name = "alias" + std::to_string(r.below(1000));
            it.sql += " as " + it.name;
        }
        return it;
    }
};
typedef std::vector<Val> Row;
std::string rowStr(const Row& x) {
    std::string s;
    for (auto& v : x) s += (s.empty() ? "" : ", ") + (v.str ? show(v.s, 40) : v.miss ? "NULL" : lit(v.d));
    return s;
}
bool valEq(const Val& e, const Val& g, int how) {  // how: 0 exact, 1 may have been rounded to float, 2 printed with six decimals, 3 with seventeen, 4 accumulated
    if (e.str != g.str) return false;
    if (e.miss != g.miss) return !e.str && g.miss && (e.d == 2147483647. || e.d == -2147483647.);  // what marks a missing value in results
    if (e.str) return e.s == g.s;
    if (e.miss || e.d == g.d) return true;
    switch (how) {
        case 1: return double(float(e.d)) == g.d || (std::fabs(e.d) < 1e-37 && std::fabs(g.d) < 1e-37);
        case 2: return std::fabs(e.d - g.d) <= 5.1e-7 + 1e-15 * std::fabs(e.d);
        case 3: return std::fabs(e.d - g.d) <= 1e-17 + 1e-15 * std::fabs(e.d);
        default: return false;
    }
}
bool valClose(const Val& e, const Val& g, double scale) { return valEq(e, g, 2) || (g.miss && std::fabs(e.d) == std::numeric_limits<double>::max()) || (!e.str && !e.miss && !g.miss && std::fabs(e.d - g.d) <= 1e-6 * scale + 1e-6 * std::fabs(e.d)); }
std::vector<Row> rowsOf(const std::vector<Tab>& v) {
    std::vector<Row> out;
    for (auto& t : v)
        for (size_t r = 0; r < t.n; r++) {
            Row x;
            for (auto& k : t.c) {
                Val w;
                w.str = k.isStr();
                if (w.str)
                    w.s = k.s[r];
                else
                    w.miss = k.miss[r], w.d = k.d[r];
                x.push_back(w);
            }
            out.push_back(x);
        }
    return out;
}
}  // namespace
uint64_t odvProbes() { return 3; }
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    if (c.probe && c.idx == 2) {
        // a column which changes between string and number cannot be selected
        for (int flip = 0; flip < 4; flip++) {
            Tab a, b;
            Col k;
            k.name = "x";
            k.type = STRING;
            k.resize(3);
            k.width = flip & 2 ? 40 : 8;
            k.s     = {"abc", "d", "e"};
            a.n = b.n = 3;
            a.c.push_back(k);
            Col m;
            m.name = "x";
            m.type = DOUBLE;
            m.resize(3);
            m.d = {1, 2.5, 3};
            b.c.push_back(m);
            Bytes f = encodeC(flip & 1 ? b : a).bytes, g = encodeC(flip & 1 ? a : b).bytes;
            f.insert(f.end(), g.begin(), g.end());
            std::string p = c.scratch + "/p.odb";
            writeFile(p, f);
            for (auto q : {"select x", "select x order by x", "select distinct x", "select x, count(*)"}) {
                RowRead R = selectRows(q, p);
                if (R.err.empty()) c.viol("probe:string-then-number", std::string(q) + " succeeds although x is a string in one frame and a number in the other");
                c.stat("selections refused");
            }
        }
        return;
    }
    if (c.probe && c.idx == 1) {
        // a member of a bitfield which is defined differently in another file
        std::string q = c.scratch + "/q.odb";
        for (int shift : {0, 4}) {
            Tab a;
            Col k;
            k.name = "b";
            k.type = BITFIELD;
            k.resize(1);
            k.d[0] = 0x21;
            a.n    = 1;
            if (shift) k.bits = {{"lo", 4}, {"m", 4}};
            else k.bits = {{"m", 4}, {"hi", 4}};
            a.c.push_back(k);
            std::string p = c.scratch + "/p" + std::to_string(shift) + ".odb";
            writeFile(p, encodeC(a).bytes);
            filterCpp("select b.m", p, q);
            CppRead R = readCpp(q);
            double want = shift ? 2 : 1;
            if (R.frames.size() != 1 || R.frames[0].tab.c[0].d[0] != want) c.viol("probe:member-redefined", "b.m of 0x21 is " + lit(R.frames[0].tab.c[0].d[0]) + " instead of " + lit(want) + " after a member of this name has been selected from another file, where it has other bits");
        }
        return;
    }
    if (c.probe) {
        // a column of integers which continues as a column of reals
        Tab a, b;
        Col k;
        k.name = "x";
        k.type = INTEGER;
        k.resize(1);
        k.d[0] = 1;
        a.n    = 1;
        a.c.push_back(k);
        b           = a;
        b.c[0].type = DOUBLE;
        b.c[0].d[0] = 2.25;
        Bytes f     = encodeC(a).bytes, g = encodeC(b).bytes;
        f.insert(f.end(), g.begin(), g.end());
        std::string p = c.scratch + "/p.odb", q = c.scratch + "/q.odb";
        writeFile(p, f);
        try {
            filterCpp("select x", p, q);
            CppRead R = readCpp(q);
            std::vector<Row> v;
            std::vector<Tab> tabs;
            for (auto& x : R.frames) tabs.push_back(x.tab);
            v = rowsOf(tabs);
            if (v.size() != 2 || v[1][0].d != 2.25) c.viol("probe:integer-then-real", "2.25, which follows a frame with an INTEGER column of the same name, is selected as " + (v.size() == 2 ? lit(v[1][0].d) : std::string("nothing")));
        }
        catch (std::exception& x) {
        }
        return;
    }
    FileOpts fo;
    fo.g.maxCols       = r.chance(1, 8) ? 12 : 6;
    fo.g.maxRows       = r.chance(1, 20) ? 400 : 25;
    fo.g.weirdNames    = false;
    fo.g.simpleStrings = true;
    fo.maxFrames       = r.chance(1, 8) ? 15 : 5;
    fo.schema          = r.chance(1, 2);
    fo.types           = false;
    bool big           = r.chance(1, 300);
    if (big) fo.g.maxRows = 20000, fo.g.minRows = 5000, fo.g.maxCols = 3, fo.maxFrames = 2;
    Tab base           = genTable(r, fo.g);
    static const char* tbl[] = {"", "@hdr", "@body"};
    std::set<std::string> used;
    int style = int(r.below(3));
    for (auto& k : base.c) {
        std::string n;
        do {
            n = std::string(1, "vwxyz"[r.below(5)]) + std::string(r.below(3), 'q') + std::to_string(r.below(style == 2 ? 4 : 20));
            n += tbl[style == 0 ? 0 : r.below(3)];
        } while (!used.insert(n).second);
        k.name = n;
        std::set<std::string> mu;
        for (auto& b : k.bits) {
            do n = std::string(1, "stu"[r.below(3)]) + std::to_string(r.below(40)) + "c" + std::to_string(c.idx);  // eckit never forgets a member
            while (!mu.insert(n).second);
            b.first = n;
        }
        if (r.chance(1, 2)) {  // few distinct values
            size_t m = size_t(r.range(1, 4));
            for (size_t i = m; i < base.n; i++) {
                size_t j = r.below(m);
                if (k.isStr()) k.s[i] = k.s[j];
                else k.d[i] = k.d[j], k.miss[i] = k.miss[j];
            }
        }
    }
    fo.base = &base;
    std::vector<RefFrame> rfs;
    std::string how;
    Bytes b = genFile(c, fo, rfs, how);
    std::vector<Tab> fs;
    for (auto& f : rfs) fs.push_back(f.tab);
    Tab schema = fs[0];
    {  // columns of the first frame which are in all of them
        Tab s = schema;
        std::vector<Col> keep;
        for (auto& k : s.c) {
            bool all = true;
            for (auto& t : fs) all &= t.find(k.name) >= 0;
            if (all) keep.push_back(k);
        }
        if (keep.empty()) {
            c.stat("files without common columns");
            return;
        }
        s.c    = keep;
        schema = s;
    }
    std::string path = c.scratch + "/in.odb";
    writeFile(path, b);
    Gen g{r, schema, fs};
    // names ambiguous in the whole first frame may look unique in the common part
    bool full = schema.c.size() == fs[0].c.size();
    if (!full) {
        Tab s = schema;
        for (auto& k : fs[0].c)
            if (s.find(k.name) < 0) {
                for (auto& q : schema.c)
                    if (prefix(q.name) == prefix(k.name)) return c.stat("files with ambiguous columns");
            }
    }
    // ---- the query
    std::vector<Item> items;
    bool star = full && r.chance(1, 4), distinct = false, agg = false;
    if (star) {
        for (size_t i = 0; i < schema.c.size(); i++) {
            Item it;
            std::string n = schema.c[i].name;
            it.sql        = n;
            it.name = it.col = n;
            it.type       = schema.c[i].type;
            it.bits       = schema.c[i].bits;
            it.f          = [=](const Tab& t, size_t row) { return cell(t, n, row); };
            items.push_back(it);
        }
    }
    else
        for (int k = int(r.range(1, 5)); k > 0; k--) items.push_back(g.item());
    bool members = false;
    if (!star && r.chance(1, 6)) {
        size_t i = g.pickCol(3);
        if (i != size_t(-1)) {  // all members of a bitfield
            items.clear();
            members = true;
            for (size_t j = 0; j < schema.c[i].bits.size(); j++) {
                Item it;
                it.sql = g.member(i, j);
                it.f   = g.memberF(i, j);
                items.push_back(it);
            }
            items[0].sql = prefix(schema.c[i].name) + ".*" + table(schema.c[i].name);
            for (size_t j = 1; j < items.size(); j++) items[j].sql = "";
        }
    }
    if (!star && !big && r.chance(1, 6)) {
        agg        = true;
        members    = false;
        bool group = r.chance(1, 2);
        if (!group) items.clear();
        else items.resize(std::min<size_t>(items.size(), 2));
        for (auto& it : items) {  // grouping by plain columns
            size_t i      = g.pickCol(0);
            std::string n = schema.c[i].name;
            it            = Item();
            it.sql = it.name = it.col = n;
            it.type = schema.c[i].type;
            it.bits = schema.c[i].bits;
            it.f    = [=](const Tab& t, size_t row) { return cell(t, n, row); };
        }
        for (int k = int(r.range(1, 4)); k > 0; k--) {
            Item it;
            it.agg   = int(r.range(1, 6));
            size_t i = g.pickCol(1);
            if (i == size_t(-1)) it.agg = 1;
            static const char* fn[] = {"", "count", "count", "min", "max", "sum", "avg"};
            if (it.agg == 1) {
                it.sql = "count(*)";
                it.f   = [](const Tab&, size_t) { return Val(); };
            }
            else {
                std::string n = schema.c[i].name;
                it.sql        = std::string(fn[it.agg]) + "(" + g.ref(i) + ")";
                it.f          = [=](const Tab& t, size_t row) { return cell(t, n, row); };
            }
            items.insert(items.begin() + long(r.below(items.size() + 1)), it);
        }
    }
    else
        distinct = !big && r.chance(1, 5);
    for (auto& it : items) {  // eckit compares the memory of the row, which depends on the width and hides what is missing
        if (it.col.empty())
            for (auto& t : fs)
                for (size_t row = 0; distinct && row < t.n; row++) distinct = !it.f(t, row).miss;
        if (it.type == STRING)
            for (auto& t : fs) distinct &= t.c[size_t(t.find(it.col))].width == fs[0].c[size_t(fs[0].find(it.col))].width;
    }
    if (!members) {  // a file cannot have two columns of the same name
        std::set<std::string> nm;
        for (size_t k = items.size(); k > 0; k--)
            if (!nm.insert(items[k - 1].name.empty() ? items[k - 1].sql : items[k - 1].name).second) items.erase(items.begin() + long(k - 1));
    }
    Cond where;
    bool hasWhere = r.chance(2, 3);
    if (hasWhere) where = g.cond(int(r.below(4)));
    std::vector<std::pair<size_t, bool>> order;  // item, ascending
    std::string osql;
    if (!agg && r.chance(1, 4)) {
        for (int k = int(r.range(1, 3)); k > 0; k--) {
            std::vector<size_t> v;
            for (size_t i = 0; i < items.size(); i++)
                if (items[i].type >= 0 && items[i].type != STRING && items[i].sql.find(" as ") == std::string::npos) v.push_back(i);
            if (v.empty()) break;
            size_t i = r.pick(v);
            bool asc = r.chance(1, 2);
            bool dup = false;
            for (auto& p : order) dup |= items[p.first].name == items[i].name;
            if (dup) continue;
            order.push_back({i, asc});
            osql += (osql.empty() ? " order by " : ", ") + items[i].name + (asc ? r.chance(1, 2) ? " asc" : "" : " desc");
        }
    }
    std::string list;
    if (star)
        list = "*";
    else
        for (auto& it : items)
            if (!it.sql.empty()) list += (list.empty() ? "" : r.chance(1, 2) ? "," : ", ") + it.sql;
    std::string head = std::string(r.chance(1, 5) ? "SELECT " : "select ") + (distinct ? "distinct " : "") + list;
    std::string tail = (hasWhere ? std::string(" where ") + where.sql : "") + osql;
    std::string sql  = head + tail;
    how = " [" + sql + "]" + how;
    c.sample(sql);
    c.sig(mix(hashStr(sql), shapeSig(base)));

    // ---- what it denotes, per frame
    std::vector<std::vector<Row>> perFrame;
    std::vector<Row> raw;
    size_t seen = 0;
    for (auto& t : fs) {
        perFrame.emplace_back();
        for (size_t row = 0; row < t.n; row++) {
            seen++;
            if (hasWhere && where.f(t, row) != T) continue;
            Row x;
            for (auto& it : items) x.push_back(it.f(t, row));
            perFrame.back().push_back(x);
        }
        raw.insert(raw.end(), perFrame.back().begin(), perFrame.back().end());
    }
    auto less = [&](const Val& a, const Val& b) {
        if (a.str) return a.s < b.s;
        if (a.miss != b.miss) return a.miss;
        return !a.miss && a.d < b.d;
    };
    auto same = [&](const Val& a, const Val& b) { return a.str ? a.s == b.s : a.miss == b.miss && (a.miss || a.d == b.d); };
    std::vector<double> scale(items.size(), 0);
    auto finish = [&](std::vector<Row> v) {
        if (distinct) {
            std::vector<Row> u;
            for (auto& x : v) {
                bool dup = false;
                for (auto& y : u) {
                    bool eq = true;
                    for (size_t i = 0; i < x.size() && eq; i++) eq = same(x[i], y[i]) && std::signbit(x[i].d) == std::signbit(y[i].d);
                    if (eq) {
                        dup = true;
                        break;
                    }
                }
                if (!dup) u.push_back(x);
            }
            v = u;
        }
        if (!order.empty())
            std::stable_sort(v.begin(), v.end(), [&](const Row& a, const Row& b) {
                for (auto& o : order) {
                    if (same(a[o.first], b[o.first])) continue;
                    return less(a[o.first], b[o.first]) == o.second;
                }
                return false;
            });
        if (agg) {
            std::vector<std::vector<Row>> groups;
            for (auto& x : v) {
                size_t i = 0;
                for (; i < groups.size(); i++) {
                    bool eq = true;
                    for (size_t k = 0; k < items.size() && eq; k++) eq = items[k].agg || same(x[k], groups[i][0][k]);
                    if (eq) break;
                }
                if (i == groups.size()) groups.emplace_back();
                groups[i].push_back(x);
            }
            v.clear();
            for (auto& gr : groups) {
                Row x = gr[0];
                for (size_t k = 0; k < items.size(); k++) {
                    if (!items[k].agg) continue;
                    Val a;
                    double n = 0, sum = 0, mn = 0, mx = 0;
                    for (auto& y : gr) {
                        if (y[k].miss) continue;
                        if (!n || y[k].d < mn) mn = y[k].d;
                        if (!n || y[k].d > mx) mx = y[k].d;
                        n++;
                        sum += y[k].d;
                        scale[k] = std::max(scale[k], std::fabs(sum) + std::fabs(y[k].d));
                    }
                    switch (items[k].agg) {
                        case 1:
                        case 2: a.d = items[k].agg == 1 ? double(gr.size()) : n; break;
                        case 3: a.d = mn, a.miss = n == 0; break;
                        case 4: a.d = mx, a.miss = n == 0; break;
                        case 5: a.d = sum, a.miss = n == 0; break;
                        default: a.d = n ? sum / n : 0, a.miss = n == 0;
                    }
                    x[k] = a;
                }
                v.push_back(x);
            }
        }
        return v;
    };
    std::vector<Row> want = finish(raw);
    c.stat("rows examined", seen);
    c.stat("rows selected", want.size());
    auto checkRows = [&](const std::vector<Row>& e, std::vector<Row> got, int prec, const std::string& key, const std::string& h) {
        if (got.size() != e.size()) {
            ODV_FAIL(c, key + "-rows", got.size() << " rows instead of " << e.size() << h << how);
            return false;
        }
        std::vector<bool> taken(e.size());
        for (size_t i = 0; i < e.size(); i++) {
            if (got[i].size() != items.size()) {
                ODV_FAIL(c, key + "-columns", got[i].size() << " columns instead of " << items.size() << h << how);
                return false;
            }
            auto eq = [&](const Row& a, const Row& x) {
                for (size_t k = 0; k < items.size(); k++) {
                    if (items[k].agg ? !valClose(a[k], x[k], scale[k]) : !valEq(a[k], x[k], prec == 1 && items[k].type >= 0 && items[k].type != REAL ? 0 : prec)) return false;
                }
                return true;
            };
            if (agg) {  // groups come in an order of their own
                bool found = false;
                for (size_t j = 0; j < e.size() && !found; j++) {
                    bool exact = !taken[j];
                    for (size_t k = 0; k < items.size() && exact; k++) exact = same(e[j][k], got[i][k]);
                    if (exact) found = taken[j] = true;
                }
                for (size_t j = 0; j < e.size() && !found; j++)
                    if (!taken[j] && eq(e[j], got[i])) found = taken[j] = true;
                if (!found) {
                    ODV_FAIL(c, key + "-cells", "group " << i << ": (" << rowStr(got[i]) << ") is not expected; first expected (" << rowStr(e[0]) << ")" << h << how);
                    return false;
                }
            }
            else if (!eq(e[i], got[i])) {
                ODV_FAIL(c, key + "-cells", "row " << i << ": (" << rowStr(got[i]) << ") instead of (" << rowStr(e[i]) << ")" << h << how);
                return false;
            }
        }
        c.stat("rows compared", e.size());
        return true;
    };
    auto checkMeta = [&](const Tab& t, const std::string& key, const std::string& h) {
        if (t.c.size() != items.size()) {
            ODV_FAIL(c, key + "-columns", t.c.size() << " columns instead of " << items.size() << h << how);
            return;
        }
        for (size_t i = 0; i < items.size(); i++) {
            if (!items[i].name.empty() && t.c[i].name != items[i].name) ODV_FAIL(c, key + "-names", "column " << i << " is named " << show(t.c[i].name) << " instead of " << items[i].name << h << how);
            if (items[i].type >= 0 && t.c[i].type != items[i].type) ODV_FAIL(c, key + "-types", "column " << i << " is of type " << t.c[i].type << " instead of " << items[i].type << h << how);
            if (items[i].type == BITFIELD && t.c[i].bits != items[i].bits) ODV_FAIL(c, key + "-bits", "column " << i << " has other bitfield members" << h << how);
        }
    };
    // ---- the select iterator
    if (r.chance(2, 3)) {
        bool from = r.chance(1, 2);
        RowRead R = from ? selectRows(head + " from \"" + path + "\"" + tail) : selectRows(sql, path);
        std::string h = from ? " [select iterator, from]" : " [select iterator]";
        if (!R.err.empty())
            c.viol("iterator-error", R.err + h + how);
        else {
            checkRows(want, rowsOf(R.segs), 0, "iterator", h);
            for (auto& t : R.segs)
                if (t.n) checkMeta(t, "iterator", h);
        }
        c.stat("selections by iterator");
    }
    // ---- file filter
    if (r.chance(2, 3)) {
        std::string out = c.scratch + "/out.odb";
        writeFile(out, std::string());
        try {
            size_t n = filterCpp(sql, path, out);
            if (n != want.size()) ODV_FAIL(c, "filter-count", "filter returns " << n << " instead of " << want.size() << how);
            CppRead R = readCpp(out);
            if (!R.err.empty()) c.viol("filter-read", R.err + how);
            std::vector<Tab> v;
            for (auto& f : R.frames) {
                v.push_back(f.tab);
                if (f.tab.n) checkMeta(f.tab, "filter", " [file filter]");
            }
            checkRows(want, rowsOf(v), 1, "filter", " [file filter]");
        }
        catch (std::exception& x) {
            c.viol("filter-error", std::string(x.what()) + how);
        }
        c.stat("selections by file filter");
    }
    // ---- frame filter: of single and joined frames
    if (r.chance(1, 2)) {
        CppOpts o;
        o.aggregated = r.chance(1, 2);
        o.source     = int(r.below(2));
        o.rowlimit   = o.aggregated && r.chance(1, 4) ? r.range(10, 60) : -1;
        CppRead plain = readCpp(path, o);
        CppRead R     = frameFilterCpp(path, o, sql);
        std::string h = o.aggregated ? " [frame filter, aggregated]" : " [frame filter]";
        bool ambiguous = false;  // short names may be unambiguous in some frames only
        if (!R.err.empty()) {
            for (auto& t : fs) {
                for (auto& k : t.c)
                    for (auto& q : t.c) ambiguous |= &k != &q && prefix(k.name) == prefix(q.name);
                ambiguous |= star;
            }
            if (!ambiguous) c.viol("frame-error", R.err + h + how);
            else c.stat("frame filters which may fail");
        }
        else {
            size_t at = 0;
            for (size_t i = 0; i < R.frames.size() && i < plain.frames.size(); i++) {
                std::vector<Row> part;
                size_t rows = 0;
                while (at < fs.size() && rows < plain.frames[i].tab.n) {
                    part.insert(part.end(), perFrame[at].begin(), perFrame[at].end());
                    rows += fs[at++].n;
                }
                if (star) {
                    // the columns are those of that frame
                    bool sameCols = plain.frames[i].tab.c.size() == schema.c.size();
                    for (size_t k = 0; sameCols && k < schema.c.size(); k++) sameCols = plain.frames[i].tab.c[k].name == schema.c[k].name;
                    if (!sameCols) continue;
                }
                std::vector<Tab> v{R.frames[i].tab};
                if (!checkRows(finish(part), rowsOf(v), 1, "frame", h + " frame " + std::to_string(i))) break;
                if (R.frames[i].tab.n) checkMeta(R.frames[i].tab, "frame", h);
                c.stat("frames filtered");
            }
            if (R.frames.size() != plain.frames.size()) c.viol("frame-count", "frames are absent" + h + how);
        }
    }
    // ---- the tool, binary
    if (r.chance(1, 12)) {
        bool from = r.chance(1, 2);
        std::vector<std::string> a{"sql"};
        if (from && r.chance(1, 2))
            a.push_back(head + " into \"out2.odb\" from \"in.odb\"" + tail);
        else if (from) {
            a.push_back(head + " from \"in.odb\"" + tail);
            for (auto s : {"-f", "odb", "-o", "out2.odb"}) a.push_back(s);
        }
        else {
            a.push_back(sql);
            for (auto s : {"-i", "in.odb", "-f", "odb", "-o", "out2.odb"}) a.push_back(s);
        }
        Proc p = odcTool(c, a, c.scratch);
        if (p.rc || p.sanitizer)
            c.viol("tool-error", "exit " + std::to_string(p.rc) + " " + p.err.substr(0, 600) + how);
        else {
            CppRead R = readCpp(c.scratch + "/out2.odb");
            if (!R.err.empty()) c.viol("tool-read", R.err + how);
            std::vector<Tab> v;
            for (auto& f : R.frames) {
                v.push_back(f.tab);
                if (f.tab.n) checkMeta(f.tab, "tool", " [odc sql -f odb]");
            }
            checkRows(want, rowsOf(v), 1, "tool", " [odc sql -f odb]");
        }
        c.stat("selections by tool, binary");
    }
    // ---- the tool, text
    if (r.chance(1, 12)) {
        bool fullp = r.chance(1, 2), align = r.chance(1, 2), names = r.chance(3, 4), file = r.chance(1, 3), bin = !agg && r.chance(1, 4);
        std::string delim = r.pick(std::vector<std::string>{"\t", ",", ";", "|"});
        bool part = r.chance(1, 4) && rfs.size() > 1;
        std::vector<std::string> a{"sql", sql, "-i", "in.odb"};
        if (fullp) a.push_back(r.chance(1, 2) ? "--full_precision" : "--full-precision");
        if (!align) a.push_back("--no_alignment");
        if (!names) a.push_back("-T");
        if (bin) a.push_back("--bin");
        if (delim != "\t") a.push_back("-delimiter"), a.push_back(delim);
        if (file)
            for (auto x : {"-f", "ascii", "-o", "out.txt"}) a.push_back(x);
        std::vector<Row> e = want;
        size_t fi          = 0;
        if (part) {  // only one frame, by offset and length
            fi = 1 + r.below(rfs.size() - 1);
            a.push_back("-offset"), a.push_back(std::to_string(rfs[fi].off));
            a.push_back("-length"), a.push_back(std::to_string(rfs[fi].len));
            e = finish(perFrame[fi]);
        }
        Proc p = odcTool(c, a, c.scratch);
        std::string h = " [odc sql text" + std::string(fullp ? " full precision" : "") + (align ? "" : " no alignment") + (bin ? " binary" : "") + " delimiter " + show(delim) + "]";
        std::string text = p.out;
        if (file) {
            Bytes t;
            readFile(c.scratch + "/out.txt", t);
            text.assign(t.begin(), t.end());
        }
        bool skip = part;  // columns of other frames may differ
        if (skip) {
            skip = star;
            for (auto& k : fs[fi].c)
                for (auto& q : fs[fi].c) skip |= &k != &q && prefix(k.name) == prefix(q.name);
        }
        if (skip)
            ;
        else if (p.rc || p.sanitizer)
            c.viol("text-error", "exit " + std::to_string(p.rc) + " " + p.err.substr(0, 600) + h + how);
        else {
            std::vector<Row> got;
            std::istringstream in(text);
            std::string line;
            bool first = names, bad = false;
            while (std::getline(in, line)) {
                if (line.compare(0, 8, "SIMPLIFY") == 0) continue;  // a message of eckit
                if (first) {
                    first = false;
                    for (auto& it : items)
                        if (!it.name.empty() && line.find(it.name) == std::string::npos) c.viol("text-header", "the header " + show(line) + " does not name " + it.name + h + how);
                    continue;
                }
                Row x;
                size_t pos = 0;
                for (size_t k = 0; k < items.size() && !bad; k++) {
                    Val v;
                    while (pos < line.size() && line[pos] == ' ') pos++;
                    if (pos < line.size() && line[pos] == '\'') {
                        v.str = true;
                        // the end is known from what is expected; strings may hold anything
                        size_t q = line.find('\'', pos + 1);
                        while (q != std::string::npos) {
                            size_t z = q + 1;
                            while (z < line.size() && line[z] == ' ') z++;
                            if (k + 1 == items.size() ? z == line.size() : line.compare(z, delim.size(), delim) == 0) break;
                            q = line.find('\'', q + 1);
                        }
                        if (q == std::string::npos) {
                            bad = true;
                            break;
                        }
                        v.s = line.substr(pos + 1, q - pos - 1);
                        pos = q + 1;
                        while (pos < line.size() && line[pos] == ' ') pos++;
                    }
                    else {
                        size_t q      = k + 1 == items.size() ? line.size() : line.find(delim, pos);
                        if (q == std::string::npos) {
                            bad = true;
                            break;
                        }
                        std::string s = rstrip(line.substr(pos, q - pos));
                        if (s == "NULL")
                            v.miss = true;
                        else {
                            char* end = nullptr;
                            v.d       = bin && items[k].type == BITFIELD ? double(strtoul(s.c_str(), &end, 2)) : strtod(s.c_str(), &end);
                            if (s.empty() || *end) bad = true;
                        }
                        pos = q;
                    }
                    if (k + 1 < items.size()) {
                        if (line.compare(pos, delim.size(), delim)) bad = true;
                        pos += delim.size();
                    }
                    else if (pos != line.size())
                        bad = true;
                    x.push_back(v);
                }
                if (bad) {
                    c.viol("text-line", "cannot read the line " + show(line, 300) + h + how);
                    break;
                }
                got.push_back(x);
            }
            if (!bad) checkRows(e, got, fullp ? 3 : 2, "text", h);
        }
        c.stat("selections by tool, text");
    }
    if (distinct) c.stat("queries: distinct");
    if (!order.empty()) c.stat("queries: order by");
    if (agg) c.stat("queries: aggregates");
    if (hasWhere) c.stat("queries: where");
    if (rfs.size() > 1) c.stat("files of several frames");
}
}  // namespace odv
