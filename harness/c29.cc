// C29: the legacy row-oriented C interface reads, writes and selects correctly.
#include <unistd.h>
#include <algorithm>
#include "eckit/exception/Exceptions.h"
#include "iface.h"
#include "odc/odccapi.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C29"; }
uint64_t odvProbes() { return 3; }
void odvInit() {}
namespace {
struct Expect {
    std::vector<Tab> src;                        // flattened frames
    std::vector<std::pair<size_t, size_t>> rows;  // frame, row
    std::vector<std::vector<double>> mdi;        // by frame and column
};
std::string bitsText(const Col& k, bool names) {
    std::string s;
    for (auto& b : k.bits) s += (names ? b.first : std::to_string(b.second)) + ":";
    return s;
}
struct Source {  // a read or a select iterator
    bool select = false;
    void* it    = nullptr;
    int columns(int* n) { return select ? odb_select_iterator_get_no_of_columns(it, n) : odb_read_iterator_get_no_of_columns(it, n); }
    int size(int i, int* n) { return select ? odb_select_iterator_get_column_size_doubles(it, i, n) : odb_read_iterator_get_column_size_doubles(it, i, n); }
    int offset(int i, int* n) { return select ? odb_select_iterator_get_column_offset(it, i, n) : odb_read_iterator_get_column_offset(it, i, n); }
    int type(int i, int* n) { return select ? odb_select_iterator_get_column_type(it, i, n) : odb_read_iterator_get_column_type(it, i, n); }
    int name(int i, char** p, int* n) { return select ? odb_select_iterator_get_column_name(it, i, p, n) : odb_read_iterator_get_column_name(it, i, p, n); }
    int bitfield(int i, char** a, char** b, int* n, int* m) { return select ? odb_select_iterator_get_bitfield(it, i, a, b, n, m) : odb_read_iterator_get_bitfield(it, i, a, b, n, m); }
    int row(int n, double* d, int* nd) { return select ? odb_select_iterator_get_next_row(it, n, d, nd) : odb_read_iterator_get_next_row(it, n, d, nd); }
    int missing(int i, double* d) { return select ? odb_select_iterator_get_missing_value(it, i, d) : odb_read_iterator_get_missing_value(it, i, d); }
    int rowSize(int* n) { return select ? odb_select_iterator_get_row_buffer_size_doubles(it, n) : odb_read_iterator_get_row_buffer_size_doubles(it, n); }
    int destroy() { return select ? odb_select_iterator_destroy(it) : odb_read_iterator_destroy(it); }
};
// metadata as the iterator tells it; offsets must follow from the sizes
struct Meta {
    std::vector<int> off, size;
    int row = 0;
    std::string err;
};
Meta meta(Ctx& c, Source& s, const Tab& want, const std::vector<double>& mdi, bool types, bool longs) {
    Meta m;
    std::ostringstream e;
    int n = -1;
    if (s.columns(&n) || n != int(want.c.size())) e << n << " columns instead of " << want.c.size() << "; ";
    if (s.rowSize(&m.row)) e << "no row size; ";
    int at = 0;
    for (int i = 0; i < n && i < int(want.c.size()); i++) {
        const Col& k = want.c[size_t(i)];
        int sz = -1, off = -1, ty = -1, nn = -1;
        char* nm = nullptr;
        if (s.size(i, &sz) || s.offset(i, &off) || s.type(i, &ty) || s.name(i, &nm, &nn)) e << "column " << i << " not described; ";
        if (size_t(sz) * 8 != (k.isStr() ? k.width : 8)) e << "column " << i << " of " << sz << " doubles instead of " << k.width << " bytes; ";
        if (off != at) e << "column " << i << " at " << off << " instead of " << at << "; ";
        at += sz;
        m.off.push_back(off);
        m.size.push_back(sz);
        bool tok = ty == k.type || (!types && k.type == REAL && ty == DOUBLE);
        if (!tok) e << "column " << i << " of type " << ty << " instead of " << k.type << "; ";
        if (nn < 0 || !nm || std::string(nm, size_t(nn)) != k.name || strlen(nm) != size_t(nn)) e << "column " << i << " named " << (nm ? show(nm) : "(null)") << " length " << nn << " instead of " << show(k.name) << "; ";
        double mv = 0.125;
        bool mvOk = !s.missing(i, &mv);
        if (longs && k.isInt()) {  // as in the cells
            int64_t bits;
            memcpy(&bits, &mv, 8);
            mv = double(bits);
        }
        if (!mvOk || (!k.isStr() && types && mv != mdi[size_t(i)])) e << "column " << i << " missing value " << mv << " instead of " << mdi[size_t(i)] << "; ";
        if (k.type == BITFIELD) {
            char *a = nullptr, *b = nullptr;
            int an = -1, bn = -1;
            if (s.bitfield(i, &a, &b, &an, &bn) || !a || !b || bitsText(k, true) != a || bitsText(k, false) != b || an != int(strlen(a)) || bn != int(strlen(b)))
                e << "column " << i << " members " << (a ? show(a) : "") << " " << (b ? show(b) : "") << " instead of " << show(bitsText(k, true)) << " " << bitsText(k, false) << "; ";
            free(a);
            free(b);
            c.stat("bitfields described");
        }
    }
    if (m.row != at) e << "row of " << m.row << " doubles instead of " << at << "; ";
    c.stat("columns described", size_t(std::max(0, n)));
    m.err = e.str();
    return m;
}
// some string before row 'at' (and after the row before it) is wider than any before: the buffer of a selection is too small
bool grown(const Expect& x, size_t at) {
    size_t known = at ? x.rows[at - 1].first : 0;
    for (size_t k = 0; k < x.src[0].c.size(); k++) {
        size_t a = 0, b = 0;
        for (size_t i = 0; i <= x.rows[at].first; i++) (i <= known ? a : b) = std::max(i <= known ? a : b, x.src[i].c[k].width);
        if (x.src[0].c[k].isStr() && b > a) return true;
    }
    return false;
}
// every row of x through the iterator; flags: new dataset exactly where a frame begins
void drain(Ctx& c, Source& s, const Expect& x, const std::string& how, bool flags, bool types, bool longs) {
    Rng& r = c.rng;
    size_t at = 0, most = 1;
    for (auto& t : x.src) {
        size_t w = 0;
        for (auto& k : t.c) w += k.isStr() ? k.width / 8 : 1;
        most = std::max(most, w);
    }
    std::unique_ptr<double[]> buf(new double[most]);
    size_t stop = r.chance(1, 6) ? r.below(x.rows.size() + 1) : x.rows.size();  // abandoned
    Meta m;
    bool have = false;
    for (; at < stop; at++) {
        const Tab& t  = x.src[x.rows[at].first];
        size_t row    = x.rows[at].second;
        bool begins   = at == 0 || x.rows[at].first != x.rows[at - 1].first;
        if (begins && at == 0 && !s.select) {  // before the first row the columns are known
            m = meta(c, s, t, x.mdi[x.rows[at].first], types, longs);
            if (!m.err.empty()) return c.viol("columns", m.err + how);
        }
        for (size_t i = 0; i < most; i++) buf[i] = -7.25;
        int nd = -5;
        int rc = s.row(int(t.c.size()), buf.get(), &nd);
        if (rc > 1 && s.select && grown(x, at)) return c.stat("wider rows refused");
        if (rc) {
            ODV_FAIL(c, "row-refused", "row " << at << " of " << x.rows.size() << " gives code " << rc << how);
            return;
        }
        // the first row: not marked by read iterators which are already there
        if (nd != 0 && nd != 1) return c.viol("new-dataset", "new dataset flag is " + std::to_string(nd) + how);
        if (flags && at && bool(nd) != begins) {
            ODV_FAIL(c, "new-dataset", "row " << at << (begins ? " begins a frame" : " does not begin a frame") << " and the flag is " << nd << how);
            return;
        }
        if (begins || !have) {
            m = meta(c, s, t, x.mdi[x.rows[at].first], types, longs);
            if (!m.err.empty()) return c.viol("columns", "at row " + std::to_string(at) + ": " + m.err + how);
            have = true;
            c.stat("datasets");
        }
        for (size_t i = 0; i < t.c.size(); i++) {
            const Col& k = t.c[i];
            Col g        = k;
            g.resize(1);
            g.miss[0]    = 0;
            const double* p = buf.get() + m.off[i];
            if (k.isStr()) {
                const char* q = reinterpret_cast<const char*>(p);
                g.s[0]        = std::string(q, strnlen(q, size_t(m.size[i]) * 8));
            }
            else if (k.isInt() && longs) {
                int64_t v;
                memcpy(&v, p, 8);
                g.d[0] = double(v);
            }
            else
                g.d[0] = *p;
            if (!cellEq(k, row, g, 0, true)) {
                ODV_FAIL(c, "cells", "row " << at << " column '" << k.name << "' is " << cellStr(g, 0) << " instead of " << cellStr(k, row) << how);
                return;
            }
        }
        for (size_t i = size_t(m.row); i < most; i++)
            if (buf[i] != -7.25) {
                ODV_FAIL(c, "beyond-row", "row " << at << ": the buffer is written beyond the " << m.row << " doubles of the row" << how);
                return;
            }
        c.stat("cells compared", t.c.size());
    }
    c.stat(s.select ? "rows selected" : "rows read", at);
    if (stop < x.rows.size()) {
        c.stat("iterators abandoned");
        return;
    }
    for (int k = 0; k < 2; k++) {
        int nd = 0;
        int n  = x.src.empty() ? 0 : int(x.src.back().c.size());
        int rc = s.row(n, buf.get(), &nd);
        if (rc != 1) {
            ODV_FAIL(c, "end", "code " << rc << " instead of 1 after the last row" << how);
            return;
        }
    }
    c.stat("iterators exhausted");
}
// C++ exceptions must not reach callers from C
template <class F>
int guarded(Ctx& c, const char* what, const std::string& how, F f) {
    try {
        return f();
    }
    catch (std::exception& e) {
        c.viol(std::string("exception:") + what, std::string("an exception leaves the call: ") + e.what() + how);
        return -99;
    }
}
void read(Ctx& c, const std::string& path, const Expect& x, const std::string& how, bool longs) {
    Rng& r  = c.rng;
    int err = -1;
    void* o = r.chance(1, 2) ? odb_read_create("", &err) : odb_create("", &err);
    if (err || !o) return c.viol("read-create", "code " + std::to_string(err) + how);
    int n = r.chance(1, 5) ? 2 : 1;
    for (int i = 0; i < n; i++) {
        Source s;
        err  = -1;
        s.it = odb_create_read_iterator(o, path.c_str(), &err);
        if (err || !s.it) {
            c.viol("read-iterator", "code " + std::to_string(err) + how);
            break;
        }
        drain(c, s, x, how + " [read]", true, true, longs);
        double d = 0;
        int cols = 0;
        s.columns(&cols);
        int bad = r.chance(1, 2) ? cols : -1, rc = 0;
        try {
            rc = s.missing(bad, &d);
        }
        catch (std::exception&) {
            rc = 1;
        }
        if (!rc) c.viol("missing-range", "the missing value of column " + std::to_string(bad) + " of " + std::to_string(cols) + " is " + std::to_string(d) + how);
        if (s.destroy()) c.viol("destroy", "of a read iterator" + how);
    }
    if (r.chance(1, 2) ? odb_read_destroy(o) : odb_destroy(o)) c.viol("destroy", "of a reader" + how);
}
void select(Ctx& c, const std::string& path, const Expect& x, const std::string& how) {
    // columns and rows at random
    Rng& r         = c.rng;
    const Tab& t   = x.src[0];
    std::vector<size_t> cols;
    size_t k = 1 + r.below(t.c.size());
    for (size_t i = 0; i < k; i++) {
        size_t q = r.below(t.c.size());
        if (std::find(cols.begin(), cols.end(), q) == cols.end()) cols.push_back(q);
    }
    bool all = r.chance(1, 4);
    if (all) {
        cols.clear();
        for (size_t i = 0; i < t.c.size(); i++) cols.push_back(i);
    }
    std::string list, where;
    for (size_t i : cols) list += (list.empty() ? "" : ",") + t.c[i].name;
    Expect y;
    Tab p;
    std::vector<double> m;
    for (size_t i : cols) m.push_back(x.mdi[0][i]);
    for (auto& f : x.src) {
        Tab q;
        q.n = f.n;
        for (size_t i : cols) {
            Col a   = f.c[i];
            a.width = a.isStr() ? std::max(a.width, t.c[i].width) : 8;
            q.c.push_back(a);
        }
        y.src.push_back(q);
        y.mdi.push_back(m);
    }
    int wc      = -1;
    double pick = 0;
    if (r.chance(1, 2))
        for (size_t i = 0; i < t.c.size(); i++)
            if (t.c[i].isInt() && r.chance(1, 2)) wc = int(i);
    if (wc >= 0) {
        pick  = t.c[size_t(wc)].d[r.below(t.n)];
        bool missing = pick == x.mdi[0][size_t(wc)];
        if (missing)
            wc = -1;
        else
            where = " where " + t.c[size_t(wc)].name + "=" + std::to_string(long(pick));
    }
    for (auto& w : x.rows)
        if (wc < 0 || (x.src[w.first].c[size_t(wc)].d[w.second] == pick && !x.src[w.first].c[size_t(wc)].wasMiss[w.second])) y.rows.push_back(w);
    bool fromFile = where.empty() && r.chance(1, 2);
    std::string sql = "select " + (all && r.chance(1, 2) ? std::string("*") : list);
    std::string full = sql + " from \"" + path + "\"" + where;
    if (r.chance(1, 2)) full += ";";
    int err = -1;
    void* o = odb_select_create("", &err);
    if (err || !o) return c.viol("select-create", "code " + std::to_string(err) + how);
    Source s;
    s.select = true;
    std::string h = how + " [" + (fromFile ? sql : full) + "]";
    err           = -1;
    int rc        = guarded(c, "select", h, [&] {
        s.it = fromFile ? odb_create_select_iterator_from_file(o, sql.c_str(), path.c_str(), &err) : odb_create_select_iterator(o, full.c_str(), &err);
        return 0;
    });
    if (rc || err || !s.it)
        c.viol("select-iterator", "code " + std::to_string(err) + h);
    else {
        drain(c, s, y, h, false, false, false);
        if (s.destroy()) c.viol("destroy", "of a select iterator" + h);
        c.stat(wc >= 0 ? "selections of some rows" : "selections of all rows");
    }
    if (odb_select_destroy(o)) c.viol("destroy", "of a selection" + how);
}
void failures(Ctx& c, const std::string& path, const Bytes& b, const Expect& x, const std::string& how) {
    Rng& r  = c.rng;
    int err = 0;
    void* it = nullptr;
    switch (r.below(5)) {
        case 0: {
            void* o       = odb_read_create("", &err);
            std::string p = r.chance(1, 2) ? c.scratch + "/absent" : c.scratch + "/nodir/absent";
            err           = 0;
            guarded(c, "read-absent", how, [&] { return it = odb_create_read_iterator(o, p.c_str(), &err), 0; });
            if (!err || it) c.viol("absent", "reading a file which is not there gives code " + std::to_string(err) + how);
            odb_read_destroy(o);
            c.stat("absent files");
            break;
        }
        case 1: {
            void* o = odb_select_create("", &err);
            static const std::vector<std::string> bad{"select", "select from", "selct a from b", "select nosuchcolumn__ from \"@\"", "select a+ from \"@\"", "", "select * from \"@.absent\""};
            std::string q = r.pick(bad);
            size_t k      = q.find('@');
            if (k != std::string::npos) q.replace(k, 1, path);
            err = 0;
            guarded(c, "select-bad", " query '" + q + "'" + how, [&] { return it = odb_create_select_iterator(o, q.c_str(), &err), 0; });
            if (!err || it) c.viol("bad-query", "the query '" + q + "' gives code " + std::to_string(err) + how);
            err = 0, it = nullptr;
            guarded(c, "select-from-absent", how, [&] { return it = odb_create_select_iterator_from_file(o, "select *", (path + ".absent").c_str(), &err), 0; });
            if (!err || it) c.viol("bad-query", "selecting from a file which is not there gives code " + std::to_string(err) + how);
            err = 0, it = nullptr;
            guarded(c, "select-from-file", how, [&] { return it = odb_create_select_iterator_from_file(o, "select nosuchcolumn__", path.c_str(), &err), 0; });
            if (!err || it) c.viol("bad-query", "a column which does not exist gives code " + std::to_string(err) + how);
            odb_select_destroy(o);
            c.stat("bad queries");
            break;
        }
        case 2: {
            void* o = odb_writer_create("", &err);
            for (int a = 0; a < 2; a++) {
                err = 0;
                it  = nullptr;
                std::string p = path + "/out.odb";  // a file instead of a directory
                guarded(c, "write-nowhere", how, [&] { return it = a ? odb_create_append_iterator(o, p.c_str(), &err) : odb_create_write_iterator(o, p.c_str(), &err), 0; });
                if (!err || it) c.viol("nowhere", "writing where nothing can be written gives code " + std::to_string(err) + how);
            }
            odb_writer_destroy(o);
            c.stat("places which cannot be written");
            break;
        }
        default: {  // cut short: the rows before, then a failure
            std::vector<RefFrame> fs = refParse(b, false);
            size_t cut = 1 + r.below(b.size() - 1), before = 0, rows = 0;
            bool clean = false;
            for (auto& f : fs) {
                clean |= f.off + f.len == cut;
                if (f.off + f.len <= cut) before += size_t(f.nrows);
                rows += size_t(f.nrows);
            }
            std::string p = c.scratch + "/cut.odb";
            writeFile(p, Bytes(b.begin(), b.begin() + long(cut)));
            void* o = odb_read_create("", &err);
            err     = 0;
            std::string h = how + " [cut at " + std::to_string(cut) + " of " + std::to_string(b.size()) + "]";
            guarded(c, "read-cut", h, [&] { return it = odb_create_read_iterator(o, p.c_str(), &err), 0; });
            if (!err && it) {
                size_t n = 0, most = 1;
                for (auto& t : x.src) {
                    size_t w = 0;
                    for (auto& k : t.c) w += k.isStr() ? k.width / 8 : 1;
                    most = std::max(most, w);
                }
                std::vector<double> d(most);
                int nd = 0, rc = 0, cols = 0;
                do {
                    odb_read_iterator_get_no_of_columns(it, &cols);
                    rc = guarded(c, "row-cut", h, [&] { return odb_read_iterator_get_next_row(it, cols, d.data(), &nd); });
                    if (!rc) n++;
                } while (!rc && n <= rows);
                if (n != before) ODV_FAIL(c, "cut-rows", n << " rows instead of " << before << h);
                if (rc == 1 && !clean) c.viol("cut-unnoticed", "a file which was cut ends like a whole one" + h);
                odb_read_iterator_destroy(it);
            }
            else if (clean)
                c.viol("cut-refused", "whole frames are refused with code " + std::to_string(err) + h);
            odb_read_destroy(o);
            c.stat("files cut short");
        }
    }
}
void write(Ctx& c) {
    Rng& r = c.rng;
    GenOpts g;
    g.maxCols = r.chance(1, 12) ? 30 : 6;
    g.maxRows = r.chance(1, 20) ? 12000 : 80;
    bool longs = r.chance(1, 4);
    std::string path = c.scratch + "/w.odb", how;
    Bytes before;
    Expect x;
    int times = int(r.range(1, 3));
    size_t parts = 0;
    for (int i = 0; i < times; i++) {
        Tab t       = genTable(r, g);
        bool append = i && r.chance(2, 3);
        if (!i && r.chance(1, 4)) writeFile(path, std::string("was here"));
        if (!i && r.chance(1, 4)) {  // appending to what is not there
            unlink(path.c_str());
            append = true;
        }
        if (!append) x = Expect(), parts = 0;
        how += append ? " append " : " write ";
        how += describe(t);
        odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        EncOpts eo;
        eo.longs = longs;
        std::vector<double> mdi;
        double im = 2147483647, rm = -2147483647;
        bool setM = r.chance(1, 3);
        if (setM) {
            im = double(r.pick(std::vector<int>{2147483647, -2147483647, 0, -1, 99999}));
            rm = r.pick(std::vector<double>{-2147483647, -1e30, 1.5, 0});
            eo.intMissing = im, eo.realMissing = rm;
            for (auto& k : t.c) avoidMarkers(k, im, rm);
        }
        int err = -1;
        void* o = odb_writer_create("", &err);
        if (err || !o) return c.viol("writer-create", "code " + std::to_string(err) + how);
        err     = -1;
        void* w = nullptr;
        guarded(c, "write-iterator", how, [&] { return w = append ? odb_create_append_iterator(o, path.c_str(), &err) : odb_create_write_iterator(o, path.c_str(), &err), 0; });
        if (err || !w) return c.viol("write-iterator", "code " + std::to_string(err) + how);
        int rc = odb_write_iterator_set_no_of_columns(w, int(t.c.size()));
        for (size_t k = 0; k < t.c.size(); k++) {
            const Col& q = t.c[k];
            if (q.type == BITFIELD)
                rc |= odb_write_iterator_set_bitfield(w, int(k), q.type, q.name.c_str(), bitsText(q, true).c_str(), bitsText(q, false).c_str());
            else
                rc |= odb_write_iterator_set_column(w, int(k), q.type, q.name.c_str());
            if (q.isStr() && (q.width != 8 || r.chance(1, 2))) rc |= odb_write_iterator_set_column_size_doubles(w, int(k), int(q.width / 8));
            mdi.push_back(q.isInt() ? im : rm);
            if (setM && !q.isStr()) rc |= odb_write_iterator_set_missing_value(w, int(k), mdi.back());
        }
        rc |= odb_write_iterator_write_header(w);
        if (rc) return c.viol("write-setup", "code " + std::to_string(rc) + how);
        int size = -1, at = 0;
        odb_write_iterator_get_row_buffer_size_doubles(w, &size);
        std::vector<int> off;
        for (size_t k = 0; k < t.c.size(); k++) {
            int q = -1;
            odb_write_iterator_get_column_offset(w, int(k), &q);
            if (q != at) ODV_FAIL(c, "write-offset", "column " << k << " at " << q << " instead of " << at << how);
            off.push_back(at);
            at += t.c[k].isStr() ? int(t.c[k].width / 8) : 1;
        }
        if (size != at) ODV_FAIL(c, "write-row-size", size << " instead of " << at << how);
        std::unique_ptr<double[]> buf(new double[size_t(at)]);
        size_t n = r.chance(1, 12) ? 0 : t.n;
        for (size_t row = 0; row < n; row++) {
            for (size_t k = 0; k < t.c.size(); k++) putCell(reinterpret_cast<unsigned char*>(buf.get() + off[k]), t.c[k], row, eo);
            int q = odb_write_iterator_set_next_row(w, buf.get(), int(t.c.size()));
            if (q) return c.viol("write-row", "code " + std::to_string(q) + how);
        }
        c.stat("rows written", n);
        if (guarded(c, "write-destroy", how, [&] { return odb_write_iterator_destroy(w); })) c.viol("destroy", "of a write iterator" + how);
        if (odb_writer_destroy(o)) c.viol("destroy", "of a writer" + how);
        Tab f = flattened(t, im, rm);
        x.src.push_back(f);
        x.mdi.push_back(mdi);
        for (size_t row = 0; row < n; row++) x.rows.push_back({x.src.size() - 1, row});
        parts++;
        c.stat(append ? "files appended" : "files written");
        if (c.idx % 1000 == 5 && !i) c.sample(how);
        c.sig(mix(shapeSig(t), mix(append, longs)));
    }
    Bytes b;
    readFile(path, b);
    odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES);
    std::vector<RefFrame> fs;
    try {
        fs = refParse(b, true);
    }
    catch (std::exception& e) {
        return c.viol("unreadable", std::string(e.what()) + how);
    }
    checkRows(c, "written", b, x.src, x.rows, how);
    // markers as announced
    size_t at = 0;
    for (auto& f : fs) {
        for (size_t k = 0; k < f.cols.size() && at < x.rows.size(); k++)
            if (f.cols[k].type != STRING && f.cols[k].mdi != x.mdi[x.rows[at].first][k]) {
                ODV_FAIL(c, "marker", "column " << k << " is stored with missing value " << f.cols[k].mdi << " instead of " << x.mdi[x.rows[at].first][k] << how);
                break;
            }
        at += size_t(f.nrows);
    }
    if (odb_count(path.c_str()) != double(x.rows.size())) c.viol("count", "odb_count does not give " + std::to_string(x.rows.size()) + how);
}
// a dataset with other columns: its first row must not be lost; one with wider rows must not be written beyond the buffer
void probe(Ctx& c) {
    Tab a, b;
    a.n = b.n = 3;
    Col k;
    k.type = INTEGER;
    k.name = "a";
    k.resize(3);
    for (int i = 0; i < 3; i++) k.d[size_t(i)] = i + 1, k.miss[size_t(i)] = 0;
    a.c.push_back(k);
    b.c.push_back(k);
    Col s;
    s.type  = STRING;
    s.name  = "s";
    s.width = 8;
    s.resize(3);
    for (auto& q : s.s) q = "x";
    if (c.idx == 0) {
        s.name = "b";
        b.c.push_back(s);
    }
    else {
        a.c.push_back(s);
        s.width = 24;
        for (auto& q : s.s) q = "a long string of bytes";
        b.c.push_back(s);
    }
    std::string path = c.scratch + "/p.odb";
    Bytes f          = encodeC(a).bytes, g = encodeC(b).bytes;
    f.insert(f.end(), g.begin(), g.end());
    writeFile(path, f);
    int err = 0, rows = 0, size = 0, cols = 0, nd = 0, rc;
    void* o  = odb_read_create("", &err);
    void* it = odb_create_read_iterator(o, path.c_str(), &err);
    odb_read_iterator_get_row_buffer_size_doubles(it, &size);
    odb_read_iterator_get_no_of_columns(it, &cols);
    double d[64];
    bool beyond = false;
    for (int i = 0; i < 20; i++) {
        for (auto& v : d) v = -7.25;
        rc = odb_read_iterator_get_next_row(it, cols, d, &nd);
        if (rc == 1) break;
        if (rc == 0) {
            rows++;
            for (int q = size; q < 64; q++) beyond |= d[q] != -7.25;
        }
        // what a careful caller does
        odb_read_iterator_get_row_buffer_size_doubles(it, &size);
        odb_read_iterator_get_no_of_columns(it, &cols);
    }
    odb_read_iterator_destroy(it);
    odb_read_destroy(o);
    c.sig(c.idx);
    if (c.idx == 2) {
        int n = 0;
        o     = odb_select_create("", &err);
        it    = odb_create_select_iterator_from_file(o, "select *", path.c_str(), &err);
        while (n < 10 && !odb_select_iterator_get_next_row(it, 2, d, &nd)) n++;
        odb_select_iterator_destroy(it);
        odb_select_destroy(o);
        if (n != 6) c.viol("probe:select-wider:row-refused", "selecting 2 datasets of 3 rows of which the second has wider strings ends with a failure after " + std::to_string(n) + " rows");
    }
    if (c.idx == 0 && rows != 6) c.viol("probe:other-columns:row-lost", "of two datasets of 3 rows with 1 and 2 columns " + std::to_string(rows) + " rows are delivered");
    if (c.idx == 1 && beyond) c.viol("probe:wider-rows:overflow", "the first row of a dataset with wider strings is written beyond the row size known before");
}
}  // namespace
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    if (c.probe) return probe(c);
    if (r.chance(1, 3)) return write(c);
    FileOpts fo;
    fo.g.weirdNames = false;
    fo.g.maxCols    = r.chance(1, 10) ? 20 : 5;
    fo.g.maxRows    = r.chance(1, 12) ? 600 : 30;
    fo.schema       = false;
    bool sel        = r.chance(1, 2);
    Tab base;
    if (sel) {
        fo.permute = fo.types = fo.widths = fo.swapped = false;
        base       = genTable(r, fo.g);  // SQL knows names in lower case
        std::set<std::string> used;
        for (auto& k : base.c) {
            std::string n;
            do n = std::string(1, "vwxyz"[r.below(5)]) + std::string(r.below(3), 'q') + std::to_string(r.below(40)) + (r.chance(1, 4) ? "@hdr" : "");
            while (!used.insert(n.substr(0, n.find('@'))).second);
            k.name = n;
        }
        fo.base = &base;
    }
    fo.bits = !sel;
    std::vector<RefFrame> fs;
    std::string how;
    Bytes b = genFile(c, fo, fs, how);
    Expect x;
    for (auto& f : fs) {
        x.src.push_back(flattened(f));
        std::vector<double> m;
        for (auto& k : f.cols) m.push_back(k.mdi);
        x.mdi.push_back(m);
        for (size_t i = 0; i < size_t(f.nrows); i++) x.rows.push_back({x.src.size() - 1, i});
    }
    std::string path = c.scratch + "/f.odb";
    writeFile(path, b);
    c.sig(mix(shapeSig(x.src[0]), mix(fs.size(), rowClass(x.rows.size()))));
    if (r.chance(1, 6)) return failures(c, path, b, x, how);
    odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES);
    if (sel)
        select(c, path, x, how);
    else {
        bool longs = r.chance(1, 4);
        odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        read(c, path, x, how, longs);
        odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES);
    }
    if (c.idx % 1000 == 6) c.sample(how);
}
}  // namespace odv
