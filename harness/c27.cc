// C27: integer treatment (per thread) and missing markers (per process) change representation only.
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <condition_variable>
#include <exception>
#include <mutex>
#include <thread>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/MemoryHandle.h"
#include "iface.h"
#include "odc/api/Odb.h"
namespace odv {
const char* odvName() { return "C27"; }
uint64_t odvProbes() { return 0; }
namespace {
using odc::api::Frame;
using odc::api::Settings;
// a thread which lives as long as the process and does one thing at a time
struct Worker {
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    std::exception_ptr err;
    bool busy = false;
    std::thread t;
    void start() {
        t = std::thread([this] {
            for (;;) {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l, [this] { return busy; });
                try {
                    job();
                }
                catch (...) {
                    err = std::current_exception();
                }
                busy = false;
                cv.notify_all();
            }
        });
        t.detach();
    }
    void run(const std::function<void()>& f) {
        std::unique_lock<std::mutex> l(m);
        job  = f;
        err  = nullptr;
        busy = true;
        cv.notify_all();
        cv.wait(l, [this] { return !busy; });
        if (err) std::rethrow_exception(err);
    }
};
const size_t NTHREADS = 4;
Worker* g_worker[NTHREADS];
// 0: the main thread
void on(size_t t, const std::function<void()>& f) { t ? g_worker[t]->run(f) : f(); }
struct Stored {
    Tab t;
    double im, rm;
};
struct File {
    Bytes bytes;
    std::vector<Stored> frames;
    std::string path;
    bool oneMarker = true;
};
struct Rd {
    odc_reader_t* r = nullptr;
    std::unique_ptr<odc::api::Reader> cpp;
    File* f    = nullptr;
    size_t pos = 0;
    StreamSrc stream;
};
struct Fr {
    odc_frame_t* f = nullptr;
    Frame cpp;
    Tab want;
    double im, rm;
    bool longs = false;  // representation of integers
    size_t sort = 0;     // thread which read it
};
struct En {
    odc_encoder_t* e = nullptr;
    Tab t;
    EncOpts o;
    Image im;
};
const double IM[] = {2147483647, -2147483647, 0, -1, 99, 32767, -2147483646};
const double RM[] = {-2147483647, 2147483647, 0, -1.5, 1e30, -32768};
struct World {
    Ctx& c;
    Rng& r;
    bool bad = false;
    bool longs[NTHREADS];
    double im = 2147483647, rm = -2147483647;
    std::vector<std::unique_ptr<File>> file;
    std::vector<std::unique_ptr<Rd>> rd;
    std::vector<std::unique_ptr<Fr>> fr;
    std::vector<std::unique_ptr<En>> en;
    std::vector<std::string> log;
    std::string how;
    size_t nfile = 0;
    World(Ctx& c) : c(c), r(c.rng) {}
    void fail(const std::string& key, const std::string& m) {
        if (bad) return;
        bad = true;
        std::string h;
        for (size_t i = log.size() > 30 ? log.size() - 30 : 0; i < log.size(); i++) h += log[i] + "; ";
        ODV_FAIL(c, key, m << " after: " << h << how);
    }
    void did(size_t t, const std::string& s) { log.push_back("[" + std::to_string(t) + "] " + s); }
    size_t thread() { return r.below(NTHREADS); }
    void set(size_t t, bool l) {
        int rc = 0;
        if (r.chance(1, 2))
            on(t, [&] { rc = odc_integer_behaviour(l ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES); });
        else
            on(t, [&] { Settings::treatIntegersAsDoubles(!l); });
        if (rc) fail("setting", "the treatment cannot be set");
        longs[t] = l;
        did(t, l ? "longs" : "doubles");
        c.stat("changes of the treatment");
    }
    void markers(double i, double d) {
        size_t t = thread();
        int rc   = 0;
        bool cpp = r.chance(1, 2);
        on(t, [&] {
            if (cpp) {
                Settings::setIntegerMissingValue(long(i));
                Settings::setDoubleMissingValue(d);
            }
            else
                rc = odc_set_missing_integer(long(i)) | odc_set_missing_double(d);
        });
        im = i;
        rm = d;
        did(t, "markers " + std::to_string(i) + " " + std::to_string(d));
        if (rc) fail("setting", "the markers cannot be set");
        for (size_t k = 0; k < NTHREADS; k++) {
            long a = 0, a2 = 0;
            double b = 0, b2 = 0;
            on(k, [&] {
                rc = odc_missing_integer(&a) | odc_missing_double(&b);
                a2 = Settings::integerMissingValue();
                b2 = Settings::doubleMissingValue();
            });
            if (rc || a != long(i) || a2 != long(i) || b != d || b2 != d) fail("setting", "a thread sees other markers");
        }
        c.stat("changes of the markers");
    }
    Tab table() {
        GenOpts g;
        g.maxRows    = 25;
        g.maxCols    = 5;
        g.weirdNames = false;
        Tab t        = genTable(r, g);
        genProps(r, t);
        if (t.props.size() > 10) t.props.clear();
        for (size_t j = 0; j < t.c.size(); j++) {
            Col& k = t.c[j];
            k.name = "col" + std::to_string(j);
            if (k.isStr()) continue;
            auto bad = [&](double v) {
                for (double x : IM)
                    if (v == x || float(v) == float(x)) return true;
                for (double x : RM)
                    if (v == x || float(v) == float(x)) return true;
                return false;
            };
            // constants are stored as doubles, however large
            if (k.type == INTEGER && r.chance(1, 10)) {
                double v = double(r.range(1LL << 31, 1LL << int(r.range(32, 52)))) * (r.chance(1, 2) ? 1 : -1);
                for (size_t i = 0; i < t.n; i++) k.d[i] = bad(v) ? 5e9 : v, k.miss[i] = 0;
                if (t.n) c.stat("constants beyond 32 bits");
                continue;
            }
            for (size_t i = 0; i < t.n; i++) {
                if (k.miss[i]) continue;
                if (bad(k.d[i])) k.d[i] = 3;
                // values whose two representations look alike
                if (k.isInt() && r.chance(1, 40)) k.d[i] = k.type == BITFIELD ? double(r.below(2) + 1) : double(r.range(-70000, 70000)) + 100000;
                if (k.type == BITFIELD) {
                    int w = 0;
                    for (auto& b : k.bits) w += b.second;
                    if (k.d[i] >= std::ldexp(1.0, w)) k.d[i] = 1;
                }
            }
        }
        return t;
    }
    File* keep(const Bytes& b, const Stored& s, bool join) {
        if (join && !file.empty() && r.chance(1, 2)) {
            File& f = *file[r.below(file.size())];
            // n.b. it may be open
            bool used = false;
            for (auto& x : rd) used |= x->f == &f;
            if (!used) {
                f.bytes.insert(f.bytes.end(), b.begin(), b.end());
                f.frames.push_back(s);
                f.oneMarker &= s.im == f.frames[0].im && s.rm == f.frames[0].rm;
                writeFile(f.path, f.bytes);
                return &f;
            }
        }
        std::unique_ptr<File> f(new File);
        f->bytes = b;
        f->frames.push_back(s);
        f->path = c.scratch + "/f" + std::to_string(nfile++) + ".odb";
        writeFile(f->path, b);
        file.push_back(std::move(f));
        return file.back().get();
    }
    // what is stored, regardless of the library
    bool stored(const Bytes& b, const Stored& s, const std::string& what, bool types = true) {
        std::vector<Tab> v;
        try {
            for (auto& f : refParse(b, false)) {
                v.push_back(f.tab);
                v.back().n = size_t(f.nrows);
                for (auto& k : f.cols) {
                    bool isInt = k.type == INTEGER || k.type == BITFIELD;
                    if (types && (isInt || k.type == REAL || k.type == DOUBLE) && k.mdi != (isInt ? s.im : s.rm)) {
                        fail("marker", what + ": the missing value of column " + k.name + " is " + std::to_string(k.mdi));
                        return false;
                    }
                }
            }
        }
        catch (std::exception& e) {
            fail("stored", what + ": " + e.what());
            return false;
        }
        Tab got = flattened(concat(v));
        got.n   = 0;
        for (auto& q : v) got.n += q.n;
        Tab want = flattened(s.t);
        if (got.n != want.n) {
            fail("stored", what + ": " + std::to_string(got.n) + " rows instead of " + std::to_string(want.n));
            return false;
        }
        if (!types)
            for (size_t j = 0; j < std::min(got.c.size(), want.c.size()); j++) got.c[j].type = want.c[j].isStr() == got.c[j].isStr() ? want.c[j].type : got.c[j].type;
        std::string x = diffCells(want, got, true);
        if (!x.empty()) {
            fail("stored", what + " stores other content: " + x);
            return false;
        }
        return true;
    }
    static long sink(void* ctx, const void* p, long n) {
        auto* v = static_cast<Bytes*>(ctx);
        v->insert(v->end(), static_cast<const unsigned char*>(p), static_cast<const unsigned char*>(p) + n);
        return n;
    }
    void newEncoder() {
        std::unique_ptr<En> e(new En);
        size_t t  = thread();
        e->t      = table();
        e->o      = genEnc(r, e->t);
        e->o.layout       = 2;
        e->o.rowsPerFrame = 0;
        e->o.setRowCount  = true;
        e->o.longs        = longs[t];
        e->o.intMissing   = im;
        e->o.realMissing  = rm;
        buildImage(e->t, e->o, e->im);
        int rc = 0;
        on(t, [&] {
            rc = odc_new_encoder(&e->e);
            if (!rc) rc = setupEncoder(e->e, e->t, e->o, e->im);
        });
        did(t, "new encoder");
        if (rc) return fail("encoder", "cannot be set up");
        en.push_back(std::move(e));
    }
    void encode() {
        if (en.empty() || r.chance(1, 3)) newEncoder();
        if (en.empty()) return;
        En& e    = *en[r.below(en.size())];
        size_t t = thread();
        // the data as they have to be represented now
        if (e.o.longs != longs[t]) c.stat("encoders used under another treatment");
        e.o.longs       = longs[t];
        e.o.intMissing  = im;
        e.o.realMissing = rm;
        for (size_t j = 0; j < e.t.c.size(); j++)
            for (size_t i = 0; i < e.t.n; i++) putCell(e.im.colPtr[j] + i * e.im.stride[j], e.t.c[j], i, e.o);
        Bytes b;
        long n = 0;
        int rc = 0;
        on(t, [&] { rc = odc_encode_to_stream(e.e, &b, sink, &n); });
        did(t, "encode");
        if (rc) return fail("encode", odc_error_string(rc));
        Stored s{e.t, im, rm};
        if (!stored(b, s, "an encoder")) return;
        keep(b, s, true);
        c.stat(longs[t] ? "encoded as longs" : "encoded as doubles");
    }
    void open() {
        if (file.empty()) return encode();
        std::unique_ptr<Rd> x(new Rd);
        x->f     = file[r.below(file.size())].get();
        size_t t = thread();
        int k    = int(r.below(5)), rc = 0;
        on(t, [&] {
            switch (k) {
                case 0: rc = odc_open_path(&x->r, x->f->path.c_str()); break;
                case 1: rc = odc_open_buffer(&x->r, x->f->bytes.data(), long(x->f->bytes.size())); break;
                case 2:
                    x->stream.b = &x->f->bytes;
                    rc          = odc_open_stream(&x->r, &x->stream, StreamSrc::read);
                    break;
                default: x->cpp.reset(new odc::api::Reader(x->f->path, r.chance(1, 2), -1));
            }
        });
        did(t, "open " + std::to_string(k));
        if (rc) return fail("open", odc_error_string(rc));
        rd.push_back(std::move(x));
    }
    void next() {
        if (rd.empty()) return open();
        size_t i = r.below(rd.size());
        Rd& x    = *rd[i];
        size_t t = thread();
        // the parts of an aggregated frame are only compared if they have the same markers
        bool agg = x.f->oneMarker && r.chance(1, 2);
        std::unique_ptr<Fr> f(new Fr);
        int rc = 0;
        bool end = false;
        try {
            on(t, [&] {
                if (x.cpp) {
                    f->cpp = x.cpp->next(agg, -1);
                    end    = !f->cpp;
                }
                else {
                    rc = odc_new_frame(&f->f, x.r);
                    if (!rc) rc = agg ? odc_next_frame_aggregated(f->f, -1) : odc_next_frame(f->f);
                    end = rc == ODC_ITERATION_COMPLETE;
                }
            });
        }
        catch (std::exception& e) {
            return fail("next", e.what());
        }
        did(t, std::string("next") + (agg ? " aggregated" : ""));
        if (end) {
            if (x.pos != x.f->frames.size()) fail("next", "the end too early");
            if (f->f) odc_free_frame(f->f);
            closeReader(i);
            return;
        }
        if (rc) return fail("next", odc_error_string(rc));
        size_t n = 0;
        if (f->f) {
            long m = 0;
            odc_frame_row_count(f->f, &m);
            n = size_t(m);
        }
        else
            n = f->cpp.rowCount();
        if (x.pos >= x.f->frames.size()) return fail("next", "a frame after the last");
        f->want = flattened(x.f->frames[x.pos].t);
        f->im   = x.f->frames[x.pos].im;
        f->rm   = x.f->frames[x.pos].rm;
        size_t parts = 1;
        x.pos++;
        while (agg && f->want.n < n && x.pos < x.f->frames.size()) {
            Tab part = flattened(x.f->frames[x.pos].t);
            f->want.append(part);
            for (auto& k : f->want.c) {
                auto& w = part.c[size_t(part.find(k.name))].wasMiss;
                k.wasMiss.insert(k.wasMiss.end(), w.begin(), w.end());
            }
            x.pos++;
            parts++;
        }
        if (parts > 1) c.stat("frames of several parts");
        if (n != f->want.n) return fail("next", "a frame of " + std::to_string(n) + " rows");
        f->longs = longs[t];
        f->sort  = t;
        if (f->f) owners[f->f] = &x;
        fr.push_back(std::move(f));
        c.stat("frames read");
    }
    // frames of a C reader may only be used while it is open
    void closeReader(size_t i) {
        if (rd[i]->r) {
            // its frames go with it
            for (size_t k = fr.size(); k-- > 0;)
                if (owner(*fr[k]) == rd[i].get()) {
                    odc_free_frame(fr[k]->f);
                    fr.erase(fr.begin() + long(k));
                }
            odc_close(rd[i]->r);
        }
        rd.erase(rd.begin() + long(i));
    }
    std::map<odc_frame_t*, Rd*> owners;
    Rd* owner(const Fr& f) {
        auto it = owners.find(f.f);
        return it == owners.end() ? nullptr : it->second;
    }
    std::string decodeCpp(Frame& f, bool lg, double fim, double frm, Tab& got, size_t nthreads) {
        auto& info = f.columnInfo();
        std::vector<std::string> names;
        std::vector<std::unique_ptr<unsigned char[]>> mem;
        std::vector<odc::api::StridedData> sd;
        size_t n = f.rowCount();
        for (auto& i : info) {
            names.push_back(i.name);
            mem.emplace_back(new unsigned char[std::max<size_t>(1, n * i.decodedSize)]);
            sd.emplace_back(mem.back().get(), n, i.decodedSize, i.decodedSize);
        }
        try {
            odc::api::Decoder d(names, sd);
            d.decode(f, nthreads);
        }
        catch (std::exception& e) {
            return e.what();
        }
        got   = Tab();
        got.n = n;
        for (size_t j = 0; j < info.size(); j++) {
            Col k;
            k.name  = info[j].name;
            k.type  = int(info[j].type);
            k.width = info[j].decodedSize;
            k.resize(n);
            for (size_t i = 0; i < n; i++) {
                const unsigned char* p = mem[j].get() + i * k.width;
                if (k.isStr()) {
                    k.s[i] = std::string(reinterpret_cast<const char*>(p), strnlen(reinterpret_cast<const char*>(p), k.width));
                    continue;
                }
                double v;
                int64_t l;
                memcpy(&v, p, 8);
                memcpy(&l, p, 8);
                if (k.isInt() && lg) v = double(l);
                k.d[i]    = v;
                k.miss[i] = v == (k.isInt() ? fim : frm);
            }
            got.c.push_back(k);
        }
        return "";
    }
    void check(Fr& f, size_t t) {
        Tab got;
        std::string e;
        if (f.f) {
            DecOpts o     = genDec(r, 1);
            o.setTreatment = false;
            o.longs       = f.longs;
            o.intMissing  = f.im;
            o.realMissing = f.rm;
            o.strides.clear();
            DecResult d;
            on(t, [&] { d = decodeC(f.f, o); });
            if (d.rc) e = d.err;
            got = d.t;
        }
        else {
            size_t nt = size_t(r.range(1, 3));
            on(t, [&] { e = decodeCpp(f.cpp, f.longs, f.im, f.rm, got, nt); });
        }
        did(t, "decode");
        if (!e.empty()) return fail("decode", e);
        std::string x = diffCells(f.want, flattened(got), true);
        if (!x.empty()) return fail("content", std::string("a frame read as ") + (f.longs ? "longs" : "doubles") + ": " + x);
        if (t != f.sort) c.stat("frames decoded by another thread");
        if (longs[t] != f.longs) c.stat("frames decoded after a change of the treatment");
        c.stat(f.longs ? "decoded as longs" : "decoded as doubles");
    }
    void copy(Fr& f) {
        size_t t = thread();
        std::unique_ptr<Fr> g(new Fr);
        g->want  = f.want;
        g->im    = f.im;
        g->rm    = f.rm;
        g->longs = f.longs;
        g->sort  = f.sort;
        int rc   = 0;
        on(t, [&] {
            if (f.f)
                rc = odc_copy_frame(f.f, &g->f);
            else
                g->cpp = f.cpp;
        });
        did(t, "copy");
        if (rc) return fail("copy", odc_error_string(rc));
        if (g->f) owners[g->f] = owners[f.f];
        fr.push_back(std::move(g));
        c.stat("frames copied");
    }
    bool plainStrings(const Tab& t) {
        for (auto& k : t.c)
            for (auto& s : k.s)
                for (unsigned char ch : s)
                    if (ch < 32 || ch > 126) return false;
        return true;
    }
    void span(Fr& f) {
        if (f.f) return;
        size_t t = thread();
        for (auto& k : f.want.c) {
            if (!k.isInt()) continue;
            std::set<long> want;
            for (size_t i = 0; i < f.want.n; i++) want.insert(long(k.miss[i] || (i < k.wasMiss.size() && k.wasMiss[i]) ? f.im : k.d[i]));
            std::set<long> got;
            std::string e;
            on(t, [&] {
                try {
                    odc::api::Span s = f.cpp.span({k.name}, false);
                    got              = s.getIntegerValues(k.name);
                }
                catch (std::exception& x) {
                    e = x.what();
                }
            });
            if (!e.empty()) return fail("span", e);
            if (got != want) {
                std::string x;
                for (long v : got)
                    if (!want.count(v)) x += " " + std::to_string(v) + " is not there";
                for (long v : want)
                    if (!got.count(v)) x += " " + std::to_string(v) + " is missing";
                return fail("span", "other values in the summary of " + k.name + ":" + x);
            }
            c.stat("columns summarised");
        }
        did(t, "span");
    }
    void filter(Fr& f) {
        if (f.f || f.im != 2147483647 || f.rm != -2147483647 || im != 2147483647 || rm != -2147483647) return;
        size_t t = thread(), j = r.below(f.want.c.size());
        Tab want;
        std::string sql = "select ", where;
        std::vector<size_t> rows;
        for (auto& k : f.want.c) sql += (&k == &f.want.c[0] ? "" : ",") + k.name;
        for (size_t i = 0; i < f.want.n; i++) rows.push_back(i);
        Col& w = f.want.c[j];
        if (w.isInt() && f.want.n) {
            size_t q = r.below(f.want.n);
            if (!w.miss[q] && std::fabs(w.d[q]) < 1e9) {
                char b[100];
                snprintf(b, sizeof b, " where %s = %.0f", w.name.c_str(), w.d[q]);
                where = b;
                rows.clear();
                for (size_t i = 0; i < f.want.n; i++)
                    if (!w.miss[i] && w.d[i] == w.d[q]) rows.push_back(i);
            }
        }
        want = f.want.rows(rows);
        Frame g;
        std::string e;
        on(t, [&] {
            try {
                g = f.cpp.filter(sql + where);
            }
            catch (std::exception& x) {
                e = x.what();
            }
        });
        did(t, "filter" + where);
        if (!e.empty()) return fail("filter", e);
        if (!g) {
            if (want.n) fail("filter", "nothing selected");
            return;
        }
        Tab got;
        bool lg = longs[t];
        e       = decodeCpp(g, lg, 2147483647, -2147483647, got, 1);
        if (!e.empty()) return fail("filter", e);
        for (size_t k = 0; k < std::min(got.c.size(), want.c.size()); k++)
            if (!got.c[k].isInt() && !got.c[k].isStr()) got.c[k].type = want.c[k].type;
        if (got.n != want.n) return fail("filter", std::to_string(got.n) + " rows selected instead of " + std::to_string(want.n));
        std::string x = diffCells(flattened(want), flattened(got), true);
        if (!x.empty()) return fail("filter", "other content selected: " + x);
        c.stat(lg ? "frames filtered with integers as longs" : "frames filtered with integers as doubles");
    }
    // SQL over a file and text import
    void whole() {
        if (im != 2147483647 || rm != -2147483647) return;
        size_t t = thread();
        Stored s{table(), im, rm};
        if (s.t.n == 0) return;
        std::string p = c.scratch + "/in.odb", e;
        Bytes out;
        eckit::MemoryHandle mh(size_t(1 << 20), true);
        if (r.chance(1, 2)) {
            EncOpts o = genEnc(r, s.t);
            o.rowsPerFrame = 0;
            bool was  = longs[0];
            o.longs = r.chance(1, 2);
            EncResult R = encodeC(s.t, o);
            odc_integer_behaviour(was ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
            if (R.rc) return fail("encode", R.err);
            writeFile(p, R.bytes);
            std::string sql = "select ";
            for (auto& k : s.t.c) sql += (&k == &s.t.c[0] ? "" : ",") + k.name;
            std::string to = c.scratch + "/out.odb";
            on(t, [&] {
                try {
                    std::unique_ptr<eckit::DataHandle> a(eckit::PathName(p).fileHandle()), b(eckit::PathName(to).fileHandle());
                    odc::api::filter(sql, *a, *b);
                    a->close();
                    b->close();
                }
                catch (std::exception& x) {
                    e = x.what();
                }
            });
            did(t, "api::filter");
            readFile(to, out);
            unlink(p.c_str());
            unlink(to.c_str());
            if (!e.empty()) return fail("api-filter", e);
            stored(out, s, "api::filter", false);
            c.stat(longs[t] ? "files filtered with integers as longs" : "files filtered with integers as doubles");
        }
        else {
            Tab q;
            q.n = s.t.n;
            for (auto& k : s.t.c)
                if (k.isInt()) q.c.push_back(k);
            if (q.c.empty()) return;
            s.t            = q;
            std::string tx = csv(q), to = c.scratch + "/out.odb";
            on(t, [&] {
                try {
                    std::unique_ptr<eckit::DataHandle> b(eckit::PathName(to).fileHandle());
                    odc::api::odbFromCSV(tx, *b, ",");
                    b->close();
                }
                catch (std::exception& x) {
                    e = x.what();
                }
            });
            did(t, "odbFromCSV");
            readFile(to, out);
            unlink(to.c_str());
            if (!e.empty()) return fail("import", e);
            stored(out, s, "odbFromCSV", false);
            c.stat(longs[t] ? "texts imported with integers as longs" : "texts imported with integers as doubles");
        }
        // the treatment is still what was chosen
        confirm(t);
    }
    // the treatment of thread t is what was last chosen there
    void confirm(size_t t) {
        Tab q;
        q.n = 2;
        Col k;
        k.name = "x";
        k.type = INTEGER;
        k.resize(2);
        k.d = {12345, 678};
        q.c.push_back(k);
        RefWrite w;
        Bytes b = refWriteFrame(r, q, w);
        int64_t v[2] = {0, 0};
        int rc       = 0;
        on(t, [&] {
            odc_reader_t* x = nullptr;
            odc_frame_t* f  = nullptr;
            odc_decoder_t* d = nullptr;
            rc              = odc_open_buffer(&x, b.data(), long(b.size()));
            rc |= odc_new_frame(&f, x);
            rc |= odc_next_frame(f);
            rc |= odc_new_decoder(&d);
            rc |= odc_decoder_set_row_count(d, 2);
            rc |= odc_decoder_add_column(d, "x");
            rc |= odc_decoder_column_set_data_array(d, 0, 8, 8, v);
            long n = 0;
            rc |= odc_decode(d, f, &n);
            odc_free_decoder(d);
            odc_free_frame(f);
            odc_close(x);
        });
        double dv;
        memcpy(&dv, v, 8);
        if (rc) return fail("confirm", "cannot be read");
        if (longs[t] ? v[0] != 12345 || v[1] != 678 : dv != 12345) return fail("treatment", "thread " + std::to_string(t) + " does not have the treatment it has chosen");
        c.stat("treatments confirmed");
    }
    void fresh() {
        // a thread starts with integers as doubles
        EncResult R;
        Stored s{table(), im, rm};
        std::string e, x;
        Bytes b;
        std::thread th([&] {
            EncOpts o;
            o.layout      = 2;
            o.longs       = false;
            o.intMissing  = im;
            o.realMissing = rm;
            Image img;
            buildImage(s.t, o, img);
            odc_encoder_t* q = nullptr;
            long n           = 0;
            int rc           = odc_new_encoder(&q);
            rc |= setupEncoder(q, s.t, o, img);
            rc |= odc_encode_to_stream(q, &b, sink, &n);
            odc_free_encoder(q);
            if (rc) e = "cannot be encoded";
        });
        th.join();
        did(9, "encode by a new thread");
        if (!e.empty()) return fail("encode", e);
        if (!stored(b, s, "a new thread")) return;
        keep(b, s, true);
        c.stat("encoded by new threads");
    }
    void step() {
        switch (r.below(16)) {
            case 0:
            case 1:
            case 2: set(thread(), r.chance(1, 2)); break;
            case 3:
                if (r.chance(1, 2))
                    markers(IM[r.below(7)], RM[r.below(6)]);
                else
                    markers(2147483647, -2147483647);
                break;
            case 4:
            case 5: encode(); break;
            case 6: open(); break;
            case 7:
            case 8:
            case 9: {
                next();
                break;
            }
            case 10:
            case 11:
                if (!fr.empty()) check(*fr[r.below(fr.size())], thread());
                break;
            case 12:
                if (!fr.empty()) copy(*fr[r.below(fr.size())]);
                break;
            case 13:
                if (!fr.empty()) r.chance(1, 2) ? span(*fr[r.below(fr.size())]) : filter(*fr[r.below(fr.size())]);
                break;
            case 14: r.chance(1, 3) ? fresh() : whole(); break;
            default: {
                size_t t = thread();
                int v    = r.chance(1, 2) ? 0 : int(r.range(3, 100)), rc = 0;
                on(t, [&] { rc = odc_integer_behaviour(v); });
                did(t, "an unknown treatment");
                if (!rc) fail("setting", "unknown treatment " + std::to_string(v) + " accepted");
                confirm(t);
            }
        }
    }
    void end() {
        for (auto& f : fr)
            if (!bad) check(*f, thread());
        for (auto& f : fr)
            if (f->f) odc_free_frame(f->f);
        fr.clear();
        for (auto& x : rd)
            if (x->r) odc_close(x->r);
        rd.clear();
        for (auto& e : en) odc_free_encoder(e->e);
        for (auto& f : file) unlink(f->path.c_str());
        odc_set_missing_integer(2147483647);
        odc_set_missing_double(-2147483647);
    }
};
}  // namespace
void odvInit() {
    for (size_t t = 1; t < NTHREADS; t++) {
        g_worker[t] = new Worker;
        g_worker[t]->start();
    }
}
void odvCase(Ctx& c) {
    World w(c);
    for (size_t t = 0; t < NTHREADS; t++) {
        w.longs[t] = c.rng.chance(1, 2);
        bool l     = w.longs[t];
        on(t, [&] { odc_integer_behaviour(l ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES); });
        w.how += l ? " longs" : " doubles";
    }
    w.how = " [initially" + w.how + "]";
    size_t n = size_t(c.rng.range(10, 60));
    try {
        for (size_t i = 0; i < n && !w.bad; i++) w.step();
    }
    catch (std::exception& e) {
        w.fail("exception", e.what());
    }
    w.end();
    c.stat("operations", n);
    std::string all;
    for (auto& s : w.log) all += s + ";";
    c.sig(hashStr(all));
    if (c.idx < 2) c.sample(all.substr(0, 600));
}
}  // namespace odv
