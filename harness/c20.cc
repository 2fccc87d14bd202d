// C20: importing delimited text gives exactly the table the text describes, or an error.
#include <algorithm>
#include <cfloat>
#include <unistd.h>
#include "iface.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C20"; }
void odvInit() {}
uint64_t odvProbes() { return 0; }
namespace {
const char* TYPES[] = {"", "INTEGER", "REAL", "STRING", "BITFIELD", "DOUBLE"};
std::string anyCase(Rng& r, std::string s) {
    int k = int(r.below(3));
    for (auto& ch : s) ch = k == 0 ? ch : k == 1 ? char(tolower(ch)) : r.chance(1, 2) ? char(tolower(ch)) : ch;
    return s;
}
std::string number(Rng& r, double v, int type) {
    char b[400];
    bool whole = v == std::floor(v) && std::fabs(v) < 1e15;
    switch (r.below(6)) {
        case 0:
            if (whole) {
                snprintf(b, sizeof b, "%.1f", v);
                break;
            }
        case 1:
            snprintf(b, sizeof b, "%.17e", v);
            break;
        case 2:
            snprintf(b, sizeof b, "%.17G", v);
            break;
        case 3:
            if (whole) {
                snprintf(b, sizeof b, "%s%03.0f", std::signbit(v) ? "-" : "", std::fabs(v));
                break;
            }
        default:
            snprintf(b, sizeof b, type == INTEGER || type == BITFIELD ? "%.0f" : "%.17g", v);
    }
    return b;
}
struct Text {
    std::string delim;
    std::vector<std::string> names, types;          // header
    std::vector<std::vector<std::string>> fields;   // rows
    std::vector<std::string> gaps;                  // what precedes each row (blank lines)
    std::string eol = "\n";
    bool lastNewline = true;
    std::string str() const {
        std::string s;
        for (size_t i = 0; i < names.size(); i++) s += (i ? delim : "") + names[i] + (types[i].empty() ? "" : ":" + types[i]);
        s += "\n";
        for (size_t i = 0; i < fields.size(); i++) {
            if (i < gaps.size()) s += gaps[i];
            for (size_t j = 0; j < fields[i].size(); j++) s += (j ? delim : "") + fields[i][j];
            if (i + 1 < fields.size() || lastNewline) s += eol;
        }
        return s;
    }
};
Proc importTool(Ctx& c, const std::string& text, const std::string& delim, const std::string& sql, const std::string& out) {
    writeFile(c.scratch + "/in.csv", text);
    std::vector<std::string> a{"import"};
    Rng& r = c.rng;
    if (delim == "\t") {
        a.push_back("-d");
        a.push_back(anyCase(r, "TAB"));
    }
    else if (delim == " ") {
        a.push_back("-d");
        a.push_back(anyCase(r, "SPACE"));
    }
    else if (delim != "," || r.chance(1, 2)) {
        a.push_back("-d");
        a.push_back(delim);
    }
    if (!sql.empty()) {
        a.push_back("-sql");
        a.push_back(sql);
    }
    a.push_back("in.csv");
    a.push_back(out);
    return odcTool(c, a, c.scratch);
}
}  // namespace

void odvCase(Ctx& c) {
    Rng& r = c.rng;
    GenOpts g;
    g.weirdNames    = false;
    g.simpleStrings = true;
    g.special       = true;
    g.nan           = false;
    g.suffix        = r.chance(1, 3) ? "@hdr" : "";
    g.minRows       = r.chance(1, 12) ? 0 : 1;
    g.maxRows       = r.chance(1, 15) ? 12000 : r.chance(1, 4) ? 400 : 40;
    g.maxCols       = r.chance(1, 10) ? 30 : 6;
    if (g.maxRows > 1000) g.maxCols = 3;
    g.bigDict = true;
    Tab t     = genTable(r, g);
    t.props.clear();
    bool lower = r.chance(1, 2);  // only such names can be used in SQL
    if (lower) {
        std::set<std::string> used;
        for (auto& k : t.c) {
            for (auto& ch : k.name) ch = char(tolower(ch));
            if (k.name.find("@") == std::string::npos ? k.name.size() < 9 : k.name.size() < 12) k.name = "q_" + k.name;  // not a word of SQL
            while (!used.insert(k.name).second) k.name = "q" + k.name;
        }
    }
    Text x;
    static const char* delims[] = {",", ",", ";", "\t", " ", "|", "#", ":"};
    x.delim                     = delims[r.below(7)];
    for (auto& k : t.c)
        if (k.type == BITFIELD && x.delim == ";") x.delim = ",";  // taken by the members
    bool space                  = x.delim == " ";
    // what text can express
    for (auto& k : t.c) {
        for (size_t i = 0; i < t.n; i++) {
            if (k.isStr()) {
                std::string& s = k.s[i];
                if (r.chance(1, 8)) s += genString(r, 1, r.chance(1, 8) ? 200 : 20, true);  // wider ones appear later
                for (auto& ch : s)
                    if (ch == x.delim[0] || ch == '\'' || ch == '"' || ch == '\n' || ch == '\r') ch = '_';
                k.miss[i] = r.chance(1, 12);
                if (k.miss[i]) s.clear();
            }
            else {
                double& v = k.d[i];
                if (!std::isfinite(v)) v = 0.5;
                if (k.isInt()) v = double(int64_t(v));
                if (v != 0 && std::fabs(v) < 1e-300) v = 1e-300;
                if (k.type == REAL) {
                    if (std::fabs(v) > 3e38) v = 3e38;
                    if (v != 0 && std::fabs(v) < 1.2e-38) v = 1.2e-38;
                    // half way between two floats: the digits decide
                    float f  = float(v);
                    double m = (double(f) + double(std::nextafterf(f, v > double(f) ? INFINITY : -INFINITY))) / 2;
                    if (std::fabs(v - m) <= 1e-12 * std::fabs(v)) v = double(f);
                }
                if (v == 2147483647 || v == -2147483647) v = 7;
                if (k.miss[i]) v = k.isInt() ? 2147483647 : -2147483647;
            }
        }
        if (k.isStr()) {
            size_t w = 8;
            for (auto& s : k.s) w = std::max(w, (s.size() + 7) / 8 * 8);
            k.width = w;
        }
    }
    // ---- the text
    bool pad = !space && r.chance(1, 3);
    auto padded = [&](const std::string& s) {
        if (!pad || !r.chance(1, 3)) return s;
        std::string p(r.below(3), ' '), q(r.below(3), ' ');
        return p + s + q;
    };
    for (auto& k : t.c) {
        x.names.push_back(padded(k.name));
        std::string ty = anyCase(r, TYPES[k.type]);
        if (k.type == BITFIELD) {
            if (k.bits.empty()) k.bits.push_back({"all", 31});
            ty += "[";
            for (size_t j = 0; j < k.bits.size(); j++) ty += (j ? ";" : "") + k.bits[j].first + ":" + std::to_string(k.bits[j].second);
            ty += "]";
        }
        x.types.push_back(ty);
    }
    bool blanks = r.chance(1, 5);
    for (size_t i = 0; i < t.n; i++) {
        std::vector<std::string> f;
        for (auto& k : t.c) {
            std::string s;
            if (k.miss[i])
                s = anyCase(r, "NULL");
            else if (!k.isStr())
                s = number(r, k.d[i], k.type);
            else {
                std::string up = k.s[i];
                for (auto& ch : up) ch = char(toupper(ch));
                bool bare = r.chance(1, 3) && up != "NULL" && (k.s[i].empty() ? !space && t.c.size() > 1 : !isspace((unsigned char)(k.s[i][0])) && !isspace((unsigned char)(k.s[i].back())));
                const char* q = r.chance(1, 3) ? "\"" : "'";
                s = bare ? k.s[i] : q + k.s[i] + q;
            }
            f.push_back(padded(s));
        }
        bool empty = true;
        for (auto& s : f)
            for (auto ch : s) empty &= bool(isspace((unsigned char)ch));
        if (empty)
            if (x.delim == "\t" || f.size() == 1) f[0] = "''";
        x.fields.push_back(f);
        x.gaps.push_back(blanks && r.chance(1, 3) ? std::string(r.chance(1, 2) ? "\n" : "  \n\n") : "");
    }
    x.lastNewline = !r.chance(1, 4);
    std::string good = x.str();
    if (x.lastNewline && r.chance(1, 6)) good += r.chance(1, 2) ? "\n" : " \n\n";
    std::string how = " [text of " + describe(t) + ", delimiter '" + (x.delim == "\t" ? "TAB" : x.delim) + "']";
    uint64_t sig    = mix(shapeSig(t), hashStr(x.delim));
    std::string out = c.scratch + "/out.odb";
    // ---- a defect in the text
    if (r.chance(1, 3)) {
        Text y = x;
        std::string what;
        size_t row = t.n ? r.below(t.n) : 0, col = r.below(t.c.size());
        for (int tries = 0; what.empty() && tries < 50; tries++) switch (r.below(12)) {
            case 0:
                if (!t.n || t.c.size() < 2) break;
                y.fields[row].erase(y.fields[row].begin() + long(col));
                {
                    bool blank = true;
                    for (auto& s : y.fields[row])
                        for (auto ch : s) blank &= bool(isspace((unsigned char)ch));
                    if (blank) y.fields[row][0] = "7";
                }
                what = "a row with a field less";
                break;
            case 1:
                if (!t.n) break;
                y.fields[row].insert(y.fields[row].begin() + long(col), r.chance(1, 2) && !space ? "" : "7");
                if (y.fields[row].size() == 2 && x.delim == "\t") y.fields[row] = {"7", "7"};
                {
                    bool blank = true;
                    for (auto& s : y.fields[row])
                        for (auto ch : s) blank &= bool(isspace((unsigned char)ch));
                    if (blank) y.fields[row][0] = "7";
                }
                what = "a row with a field more";
                break;
            case 2:
            case 3: {
                if (!t.n || t.c[col].isStr()) break;
                static const char* bad[] = {"abc", "1x", "x1", "--1", "1e", "'1'", "1.2.3", "-", ".", "NUL", "NULLx", "1_0"};
                y.fields[row][col]       = bad[r.below(12)];
                what                     = "'" + y.fields[row][col] + "' as a number";
                break;
            }
            case 4:
                if (!t.n || !t.c[col].isInt()) break;
                y.fields[row][col] = r.chance(1, 2) ? "1.5" : r.chance(1, 2) ? "-0.25" : "1e30";
                what               = "'" + y.fields[row][col] + "' as an integer";
                break;
            case 5:
                if (!t.n || t.c[col].isStr() || space || t.c.size() < 2) break;
                y.fields[row][col] = "";
                {
                    bool blank = true;
                    for (auto& s : y.fields[row])
                        for (auto ch : s) blank &= bool(isspace((unsigned char)ch));
                    if (blank) break;
                }
                what = "an empty number";
                break;
            case 6:
                y.types[col] = "";
                what         = "a column without type";
                break;
            case 7: {
                static const char* bad[] = {"INT", "FLOAT", "INTEGERS", "X", "REAL8", "9"};
                y.types[col]             = bad[r.below(6)];
                what                     = "the type " + y.types[col];
                break;
            }
            case 8:
                if (t.c.size() < 2) break;
                y.names[col] = y.names[(col + 1) % t.c.size()];
                what         = "two columns of the same name";
                break;
            case 9: {
                static const char* bad[] = {"BITFIELD", "BITFIELD[", "BITFIELD[a:1", "BITFIELD[a]", "BITFIELD[a:0]", "BITFIELD[a:-1]", "BITFIELD[a:1;a:2]", "BITFIELD[a:32]", "BITFIELD[a:16;b:15;c:1]", "BITFIELD[a:1:2]", "BITFIELD[a:x]"};
                y.types[col]             = bad[r.below(11)];
                if (x.delim == ";" || x.delim == ":") break;
                what = "the type " + y.types[col];
                break;
            }
            case 10:
                y.names[col] = "";
                what         = "a column without name";
                break;
            default:
                if (space) break;
                y.names.insert(y.names.begin() + long(col), "");
                y.types.insert(y.types.begin() + long(col), "");
                what = "an empty column in the header";
        }
        if (!what.empty()) {
            std::string text = y.str();
            writeFile(out, std::string());
            bool failed    = false;
            std::string by = "odbFromCSV";
            if (r.chance(1, 6)) {
                std::string sql = r.chance(1, 2) ? "" : "select *";
                Proc p          = importTool(c, text, x.delim, sql, "out.odb");
                by              = "odc import";
                if (p.sanitizer || p.timeout || p.rc >= 128) ODV_FAIL(c, "tool-crash", "odc import ends with " << p.rc << " for " << what << ": " << show(p.err, 300) << how);
                failed = p.rc != 0;
            }
            else {
                try {
                    importCpp(text, out, x.delim, int(r.below(3)));
                }
                catch (std::exception&) {
                    failed = true;
                }
            }
            if (!failed) ODV_FAIL(c, "malformed", by << " accepts " << what << " (row " << row << ", column " << col << ")" << how);
            // nothing may have been imported wrongly
            Bytes b;
            if (readFile(out, b) && !b.empty()) {
                try {
                    Tab got = refConcat(refParse(b));
                    if (got.n > t.n) ODV_FAIL(c, "malformed-rows", got.n << " rows from " << t.n << how);
                    else if (got.c.size() == t.c.size()) {
                        std::string d = diffCells(flattened(t).slice(0, got.n), flattened(got));
                        if (!d.empty()) ODV_FAIL(c, "malformed-cells", what << ": the rows imported before the error differ: " << d << how);
                        c.stat("rows imported before an error", got.n);
                    }
                }
                catch (RefErr&) {
                    c.stat("incomplete output after an error");
                }
            }
            c.stat("malformed texts");
            c.stat("malformed: " + what.substr(0, what.find('\'') == 0 ? 0 : std::min<size_t>(what.size(), 12)) + (what[0] == '\'' ? "not a number" : ""));
            c.sig(mix(sig, hashStr(what)));
            return;
        }
    }
    // ---- the table
    struct Way {
        int how;
        std::string sql;
    };
    std::vector<Way> ways;
    for (int i = 0; i < 3; i++)
        if (r.chance(1, 2)) ways.push_back({i, ""});
    if (ways.empty() || r.chance(1, 8)) ways.push_back({3, ""});
    if (lower && r.chance(1, 4)) ways.push_back({4, ""});
    for (auto& w : ways) {
        Tab want = t;
        std::string by;
        writeFile(out, std::string(r.chance(1, 2) ? 0 : 3000, 'x'));  // whatever was there is replaced
        size_t n = t.n;
        bool counted = false;
        if (w.how <= 2) {
            static const char* names[] = {"string", "stream", "handle"};
            by                         = std::string(" [imported from a ") + names[w.how] + "]";
            try {
                n       = importCpp(good, out, x.delim, w.how);
                counted = true;
            }
            catch (std::exception& e) {
                c.viol("import-error", std::string(e.what()) + by + how);
                continue;
            }
        }
        else {
            std::string sql;
            if (w.how == 4) {
                sql = "select *";
                std::vector<size_t> num, keep;
                for (size_t i = 0; i < t.c.size(); i++)
                    if (!t.c[i].isStr()) num.push_back(i);
                if (!num.empty() && t.n && r.chance(2, 3)) {
                    size_t i  = r.pick(num);
                    double v  = t.c[i].d[r.below(t.n)];
                    v         = std::floor(std::min(1e8, std::max(-1e8, v)));
                    bool over = r.chance(1, 2);
                    sql += " where " + t.c[i].name + (over ? ">" : "<=") + std::to_string(long(v));
                    for (size_t k = 0; k < t.n; k++)
                        if (!t.c[i].miss[k] && (over ? t.c[i].d[k] > v : t.c[i].d[k] <= v)) keep.push_back(k);
                    // cells of REAL columns are rounded before they are compared
                    if (t.c[i].type == REAL) {
                        keep.clear();
                        for (size_t k = 0; k < t.n; k++) {
                            double f = double(float(t.c[i].d[k]));
                            if (!t.c[i].miss[k] && (over ? f > v : f <= v)) keep.push_back(k);
                        }
                    }
                    want = t.rows(keep);
                }
                if (r.chance(1, 2)) sql += ";";
                if (sql == "select *;") sql = "select *";
            }
            Proc p = importTool(c, good, x.delim, sql, "out.odb");
            by     = sql.empty() ? " [odc import]" : " [odc import -sql " + sql + "]";
            if (p.sanitizer || p.rc != 0) {
                ODV_FAIL(c, "tool-error", "exit " << p.rc << ": " << show(p.err.size() > 400 ? p.err.substr(p.err.size() - 400) : p.err, 400) << by << how);
                continue;
            }
            c.stat(sql.empty() ? "imports by tool" : "imports by tool with SQL");
        }
        c.stat("imports");
        if (counted && n != t.n) ODV_FAIL(c, "count", n << " rows reported instead of " << t.n << by << how);
        Bytes b;
        readFile(out, b);
        if (!want.n && b.empty()) {
            c.stat("empty imports");
            continue;
        }
        try {
            auto frames = refParse(b);
            std::vector<Tab> fl;
            Tab got;
            for (auto& f : frames) {
                std::string d = diffMeta(want, f.tab);
                if (!d.empty()) ODV_FAIL(c, "metadata", d << by << how);
                if (got.c.empty()) got = f.tab;
                else got.append(f.tab);
                fl.push_back(flattened(f));
            }
            if (frames.empty() && want.n) ODV_FAIL(c, "rows", "nothing imported" << by << how);
            if (frames.empty()) continue;
            if (got.n != want.n) {
                ODV_FAIL(c, "rows", got.n << " rows instead of " << want.n << by << how);
                continue;
            }
            std::string d = diffCells(flattened(want), flattened(got));
            if (!d.empty()) ODV_FAIL(c, "cells", d << by << how);
            c.stat("cells compared", got.n * got.c.size());
            for (size_t i = 0; i < want.c.size(); i++)
                for (size_t k = 0; k < want.n; k++)
                    if (want.c[i].miss[k]) {
                        c.stat("missing cells");
                        if (!want.c[i].isStr() && !got.c[i].miss[k]) {
                            ODV_FAIL(c, "missing", "cell " << k << " of " << want.c[i].name << " should be missing" << by << how);
                            break;
                        }
                    }
            if (frames.size() > 1) c.stat("imports of several frames");
            if (r.chance(1, 4)) checkAll(c, b, fl, by + how, BY_ALL, "read");
        }
        catch (RefErr& e) {
            c.viol("format", std::string(e.what()) + by + how);
            c.keep("out.odb", b);
        }
    }
    if (r.chance(1, 60)) {
        Proc p = odcTool(c, {"import", "absent.csv", "o2.odb"}, c.scratch);
        if (p.rc == 0 || p.sanitizer || p.rc >= 128) ODV_FAIL(c, "absent", "exit " << p.rc << " for an absent input");
        try {
            importCpp("", out, ",", int(r.below(3)));
            c.viol("no-header", "a text without header is imported");
        }
        catch (std::exception&) {
        }
        c.stat("absent or empty inputs");
    }
    c.sig(sig);
    c.sample(good.substr(0, 300) + how);
}
}  // namespace odv
