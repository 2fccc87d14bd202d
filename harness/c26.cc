// C26: resources are released, objects stay valid for their documented lifetime.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <list>
#include <memory>
#include <sanitizer/lsan_interface.h>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/Writer.h"
#include "odc/api/Odb.h"
#include "iface.h"
namespace odv {
const char* odvName() { return "C26"; }
}  // namespace odv
// The parser of eckit does not release its scanner when it refuses a query.
extern "C" const char* __lsan_default_suppressions() { return "leak:SQLYacc::eckit_sql_\nleak:eckit::sql::SQLParser\n"; }
namespace odv {
uint64_t odvProbes() { return 0; }
namespace {
using odc::api::Frame;
size_t g_leaks;  // allocations reported so far
size_t descriptors(std::string* list = nullptr) {
    size_t n = 0;
    DIR* d   = opendir("/proc/self/fd");
    if (!d) throw std::runtime_error("no /proc/self/fd");
    while (dirent* e = readdir(d)) {
        n++;
        char b[300];
        ssize_t k = readlinkat(dirfd(d), e->d_name, b, sizeof b - 1);
        if (k > 0 && list) *list += std::string(" ") + e->d_name + "=" + std::string(b, size_t(k));
    }
    closedir(d);
    return n;
}
// report of memory which is no longer reachable; empty: none since the last call
std::string leaked(Ctx& c) {
    std::string f = c.scratch + "/lsan.txt";
    fflush(stderr);
    int keep = dup(2), to = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(to, 2);
    int found = __lsan_do_recoverable_leak_check();
    fflush(stderr);
    dup2(keep, 2);
    close(keep);
    close(to);
    Bytes b;
    readFile(f, b);
    unlink(f.c_str());
    std::string s(b.begin(), b.end());
    if (s.find("LeakSanitizer has encountered a fatal error") != std::string::npos) throw std::runtime_error("LeakSanitizer cannot run here");
    if (!found) return "";
    size_t at = s.find("leaked in "), n = at == std::string::npos ? 0 : strtoul(s.c_str() + at + 10, nullptr, 10);
    if (n <= g_leaks) return "";
    g_leaks = n;
    return s;
}
struct Src {
    Bytes bytes;
    std::vector<RefFrame> frames;
    std::vector<Tab> tabs;
    std::string path, how;
    size_t good = 0;  // frames which can be read
    bool bad    = false;
};
struct Rd {
    odc_reader_t* r = nullptr;
    Src* s          = nullptr;
    size_t pos      = 0;
    bool lost       = false;
    StreamSrc stream;
    Rng rng{1, 2, 3};
};
struct Kept {
    const char* p;
    std::string was;
};
struct Content {
    std::vector<size_t> parts;  // stored frames of src
    Src* src   = nullptr;
    bool known = false;
    Tab tab() const {
        std::vector<Tab> v;
        for (size_t i : parts) v.push_back(src->tabs[i]);
        // columns of later frames may be in another order
        Tab t = v[0];
        for (size_t i = 1; i < v.size(); i++) t.append(v[i]);
        return t;
    }
};
struct Fr {
    odc_frame_t* f = nullptr;
    std::shared_ptr<Rd> rd;
    bool positioned = false;
    Content now;
    std::vector<Kept> kept;
};
struct De {
    odc_decoder_t* d = nullptr;
    const void* data = nullptr;
    Bytes was;
};
struct En {
    odc_encoder_t* e = nullptr;
    Tab t;
    EncOpts o;
    Image im;
};
struct Crd {
    std::unique_ptr<odc::api::Reader> r;
    Src* s     = nullptr;
    size_t pos = 0;
    bool lost  = false;
};
struct Cfr {
    Frame f;
    Content now;
    const std::vector<odc::api::ColumnInfo>* info = nullptr;  // of f, kept
    std::vector<std::string> names;
};
struct World {
    Ctx& c;
    Rng& r;
    std::string how;
    bool longs = false, bad = false;
    std::vector<std::unique_ptr<Src>> src;
    std::vector<std::shared_ptr<Rd>> rd;
    std::vector<std::unique_ptr<Fr>> fr;
    std::vector<std::unique_ptr<De>> de;
    std::vector<std::unique_ptr<En>> en;
    std::vector<std::unique_ptr<Crd>> crd;
    std::vector<std::unique_ptr<Cfr>> cfr;
    std::vector<std::unique_ptr<odc::api::Span>> span;
    std::vector<std::unique_ptr<eckit::DataHandle>> handles;  // lent to readers
    std::vector<std::string> log;
    World(Ctx& c) : c(c), r(c.rng) {}
    void fail(const std::string& key, const std::string& m) {
        if (bad) return;
        bad = true;
        std::string h;
        for (size_t i = log.size() > 30 ? log.size() - 30 : 0; i < log.size(); i++) h += log[i] + "; ";
        ODV_FAIL(c, key, m << " after: " << h << how);
    }
    void did(const std::string& s) { log.push_back(s); }
    template <class T>
    size_t pick(const std::vector<T>& v) {
        return r.below(v.size());
    }
    // which stored frames a delivered frame consists of
    bool located(Content& n, Src* s, size_t& pos, size_t rows, bool aggregated, bool& lost) {
        n       = Content();
        n.src   = s;
        n.known = false;
        if (lost) return true;
        size_t k = 0, q = pos;
        while (q < s->good && (k < rows || q == pos)) {
            n.parts.push_back(q);
            k += size_t(s->frames[q].nrows);
            q++;
            if (!aggregated) break;
        }
        if (k != rows) {
            if (s->bad) {
                lost = true;
                return true;
            }
            fail("frame", "a frame of " + std::to_string(rows) + " rows at stored frame " + std::to_string(pos));
            return false;
        }
        pos     = q;
        n.known = true;
        return true;
    }
    void checkKept(Fr& f) {
        for (auto& k : f.kept)
            if (std::string(k.p) != k.was) fail("pointer", "text of a frame changed from " + show(k.was) + " to " + show(k.p));
        if (!f.kept.empty()) c.stat("pointers checked while valid", f.kept.size());
    }
    void keepPointers(Fr& f) {
        int n = 0;
        odc_frame_column_count(f.f, &n);
        for (int q = 0; q < 3 && n > 0; q++) {
            int i = int(r.below(size_t(n))), ty = 0, es = 0, nb = 0;
            const char* p = nullptr;
            if (odc_frame_column_attributes(f.f, i, &p, &ty, &es, &nb) || !p) return fail("attributes", "no name of column " + std::to_string(i));
            f.kept.push_back({p, p});
            if (nb > 0) {
                int o = 0, sz = 0;
                if (odc_frame_bitfield_attributes(f.f, i, int(r.below(size_t(nb))), &p, &o, &sz)) return fail("attributes", "no member");
                f.kept.push_back({p, p});
            }
        }
        odc_frame_properties_count(f.f, &n);
        for (int q = 0; q < 3 && n > 0; q++) {
            const char *k = nullptr, *v = nullptr;
            if (odc_frame_property_idx(f.f, int(r.below(size_t(n))), &k, &v)) return fail("property", "no property");
            f.kept.push_back({k, k});
            f.kept.push_back({v, v});
            const char* w = nullptr;
            if (odc_frame_property(f.f, k, &w) || !w || std::string(w) != v) return fail("property", "property differs by name");
            f.kept.push_back({w, w});
        }
    }
    void checkFrame(Fr& f) {
        if (!f.positioned) {
            long n = 0;
            if (odc_frame_row_count(f.f, &n) == 0) fail("no-failure", "row count of a frame which is not positioned");
            return;
        }
        DecOpts o  = genDec(r, 1);
        o.longs    = longs;
        o.strides.clear();
        o.select.clear();
        DecResult d = decodeC(f.f, o);
        if (!f.now.known) return;
        if (d.rc) return fail("decode", "a frame cannot be decoded: " + d.err);
        Tab want      = f.now.tab();
        std::string x = diffCells(want, flattened(d.t), true);
        if (!x.empty()) fail("content", "a frame has other content: " + x);
        c.stat("frames checked");
    }
    bool alive(const Fr& f) const { return f.rd->r != nullptr; }
    void openC() {
        auto x = std::make_shared<Rd>();
        x->s   = src[pick(src)].get();
        int k = int(r.below(4)), rc = 0;
        switch (k) {
            case 0: rc = odc_open_path(&x->r, x->s->path.c_str()); break;
            case 1: {
                int fd = open(x->s->path.c_str(), O_RDONLY);
                rc     = odc_open_file_descriptor(&x->r, fd);
                close(fd);
                break;
            }
            case 2: rc = odc_open_buffer(&x->r, x->s->bytes.data(), long(x->s->bytes.size())); break;
            default:
                x->stream.b = &x->s->bytes;
                if (r.chance(1, 2)) x->stream.rng = &x->rng;
                if (r.chance(1, 8)) {
                    x->stream.failAt = r.range(1, 12);
                    x->lost          = true;
                }
                rc = odc_open_stream(&x->r, &x->stream, StreamSrc::read);
        }
        did("open " + std::to_string(k));
        if (rc) return fail("open", std::string("a reader cannot be opened: ") + odc_error_string(rc));
        rd.push_back(x);
        c.stat("readers");
    }
    std::shared_ptr<Rd> openReader() {
        std::vector<std::shared_ptr<Rd>> v;
        for (auto& x : rd)
            if (x->r) v.push_back(x);
        return v.empty() ? nullptr : v[pick(v)];
    }
    void nextC(Fr& f) {
        Rd& x = *f.rd;
        checkKept(f);
        f.kept.clear();
        bool agg = r.chance(1, 2);
        long lim = r.chance(1, 2) ? -1 : r.range(1, 200);
        int rc   = agg ? odc_next_frame_aggregated(f.f, lim) : odc_next_frame(f.f);
        did(std::string("next") + (agg ? "_aggregated " + std::to_string(lim) : ""));
        if (rc == ODC_SUCCESS) {
            f.positioned = true;
            long n       = 0;
            if (odc_frame_row_count(f.f, &n)) return fail("row_count", "no row count");
            if (!located(f.now, x.s, x.pos, size_t(n), agg, x.lost)) return;
            if (r.chance(1, 2)) keepPointers(f);
            c.stat("frames delivered");
        }
        else if (rc == ODC_ITERATION_COMPLETE) {
            f.positioned = false;
            if (!x.lost && !x.s->bad && x.pos != x.s->frames.size()) fail("frames", "the end at stored frame " + std::to_string(x.pos) + " of " + std::to_string(x.s->frames.size()));
            c.stat("ends reached");
        }
        else {
            if (!x.lost && !x.s->bad) fail("next", std::string("no next frame: ") + odc_error_string(rc));
            x.lost = true;
            // n.b. the frame stays where it was
            c.stat("failing advances");
        }
    }
    void useDecoder(Fr& f) {
        De* d = nullptr;
        if (!de.empty() && r.chance(1, 2))
            d = de[pick(de)].get();
        else {
            de.emplace_back(new De);
            d = de.back().get();
            if (odc_new_decoder(&d->d)) return fail("decoder", "no decoder");
        }
        checkDecoder(*d);
        d->data = nullptr;
        d->was.clear();
        int rc = 0;
        std::string what = "decode";
        if (r.chance(1, 10)) {
            what += " of an absent column";
            odc_decoder_add_column(d->d, "no such column");
            rc = odc_decode(d->d, f.f, nullptr);
            did(what);
            if (rc == 0) fail("no-failure", "an absent column was decoded");
            odc_free_decoder(d->d);
            de.erase(std::find_if(de.begin(), de.end(), [&](const std::unique_ptr<De>& x) { return x.get() == d; }));
            c.stat("failing calls");
            return;
        }
        // n.b. columns are added to those it has
        odc_free_decoder(d->d);
        d->d = nullptr;
        odc_new_decoder(&d->d);
        rc = odc_decoder_defaults_from_frame(d->d, f.f);
        if (!rc && r.chance(1, 2)) rc = odc_decoder_set_column_major(d->d, r.chance(1, 2));
        long n = 0;
        if (!rc) rc = r.chance(1, 4) ? odc_decode_threaded(d->d, f.f, &n, int(r.range(2, 4))) : odc_decode(d->d, f.f, &n);
        if (!rc && r.chance(1, 4)) rc = odc_decode(d->d, f.f, &n);  // again
        did(what);
        if (rc) {
            if (f.now.known) fail("decode", std::string("a frame cannot be decoded: ") + odc_error_string(rc));
            return;
        }
        long w = 0, h = 0;
        bool cm = false;
        if (odc_decoder_data_array(d->d, &d->data, &w, &h, &cm)) return fail("decoder", "no data array");
        d->was.assign(static_cast<const unsigned char*>(d->data), static_cast<const unsigned char*>(d->data) + size_t(w) * size_t(h));
        c.stat("decoders holding data");
    }
    void checkDecoder(De& d) {
        if (!d.data) return;
        const void* p = nullptr;
        long w = 0, h = 0;
        bool cm = false;
        if (odc_decoder_data_array(d.d, &p, &w, &h, &cm) || p != d.data || size_t(w) * size_t(h) != d.was.size() || memcmp(p, d.was.data(), d.was.size()))
            fail("decoder-data", "data owned by a decoder changed");
        c.stat("data of decoders checked");
    }
    void encoder() {
        std::unique_ptr<En> e(new En);
        GenOpts g;
        g.maxRows = 30;
        e->t      = genTable(r, g);
        genProps(r, e->t);
        if (e->t.props.size() > 20) e->t.props.clear();
        e->o       = genEnc(r, e->t);
        e->o.longs = longs;
        e->o.intMissing  = 2147483647;
        e->o.realMissing = -2147483647;
        buildImage(e->t, e->o, e->im);
        if (odc_new_encoder(&e->e)) return fail("encoder", "no encoder");
        did("new encoder");
        if (setupEncoder(e->e, e->t, e->o, e->im)) return fail("encoder", "cannot be set up");
        en.push_back(std::move(e));
    }
    static long sink(void* ctx, const void* p, long n) {
        auto* v = static_cast<Bytes*>(ctx);
        v->insert(v->end(), static_cast<const unsigned char*>(p), static_cast<const unsigned char*>(p) + n);
        return n;
    }
    static long badSink(void* ctx, const void*, long n) { return --*static_cast<int*>(ctx) > 0 ? n : -1; }
    void encode(En& e) {
        Bytes b;
        long n = -1;
        int rc = odc_encode_to_stream(e.e, &b, sink, &n);
        did("encode");
        if (rc) return fail("encode", std::string("cannot encode: ") + odc_error_string(rc));
        std::vector<RefFrame> got = refParse(b, false);
        std::vector<Tab> v;
        for (auto& f : got) {
            v.push_back(f.tab);
            v.back().n = size_t(f.nrows);
        }
        std::string x = diffCells(flattened(e.t), flattened(concat(v)), true);
        if (!x.empty()) return fail("encode", "other content: " + x);
        c.stat("encodings");
        int way = int(r.below(5));
        if (way == 0) {
            Bytes s(r.below(b.size()) + 1);
            if (s.size() >= b.size()) return;
            if (odc_encode_to_buffer(e.e, s.data(), long(s.size()), &n) == 0) fail("no-failure", "encoded into " + std::to_string(s.size()) + " of " + std::to_string(b.size()) + " bytes");
        }
        else if (way == 1) {
            int left = int(r.range(1, 3));
            if (odc_encode_to_stream(e.e, &left, badSink, &n) == 0 && left <= 0) fail("no-failure", "a failing stream was not noticed");
        }
        else if (way == 2) {
            int fd = open(src[0]->path.c_str(), O_RDONLY);
            if (odc_encode_to_file_descriptor(e.e, fd, &n) == 0) fail("no-failure", "written to a descriptor for reading");
            close(fd);
        }
        else if (way == 3) {
            std::string p = c.scratch + "/out.odb";
            int fd        = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            rc            = odc_encode_to_file_descriptor(e.e, fd, &n);
            if (rc || fcntl(fd, F_GETFD) < 0) fail("encode", "encoding to a descriptor");
            close(fd);
            Bytes w;
            readFile(p, w);
            if (w != b) fail("encode", "other bytes through a descriptor");
            return;
        }
        else {
            Bytes again;
            if (odc_encode_to_stream(e.e, &again, sink, &n) || again != b) fail("encode", "other bytes when encoded again");
            return;
        }
        c.stat("failing calls");
    }
    void failing() {
        odc_reader_t* x  = nullptr;
        odc_frame_t* f   = nullptr;
        int k = int(r.below(9)), rc = 1;
        switch (k) {
            case 0: rc = odc_open_path(&x, (c.scratch + "/nothing.odb").c_str()); break;
            case 1: rc = odc_open_file_descriptor(&x, -1); break;
            case 2: rc = odc_open_stream(&x, nullptr, nullptr); break;
            case 3: rc = odc_open_buffer(&x, src[0]->bytes.data(), -1); break;
            case 4: rc = odc_new_frame(&f, nullptr); break;
            case 5: rc = odc_close(nullptr); break;
            case 6: rc = odc_open_path(&x, nullptr); break;
            default:
                if (!fr.empty()) {
                    Fr& y = *fr[pick(fr)];
                    if (!alive(y)) return;
                    const char* p = nullptr;
                    if (k == 7) rc = odc_frame_column_attributes(y.f, 100000, &p, nullptr, nullptr, nullptr);
                    if (k == 8) rc = odc_frame_property_idx(y.f, 100000, &p, &p);
                }
        }
        did("failing call " + std::to_string(k));
        if (rc == 0) fail("no-failure", "failing call " + std::to_string(k) + " succeeded");
        c.stat("failing calls");
    }
    // ---- C++
    void openCpp() {
        std::unique_ptr<Crd> x(new Crd);
        x->s   = src[pick(src)].get();
        int k  = int(r.below(4));
        bool a = r.chance(1, 2);
        long l = r.chance(1, 2) ? -1 : r.range(1, 100);
        did("Reader " + std::to_string(k));
        try {
            if (k == 0)
                x->r.reset(new odc::api::Reader(x->s->path, a, l));
            else if (k == 1) {
                handles.emplace_back(new eckit::FileHandle(x->s->path));
                handles.back()->openForRead();
                x->r.reset(new odc::api::Reader(*handles.back(), a, l));
            }
            else if (k == 2)
                x->r.reset(new odc::api::Reader(new eckit::MemoryHandle(x->s->bytes.data(), x->s->bytes.size()), a, l));
            else
                x->r.reset(new odc::api::Reader(new eckit::FileHandle(r.chance(1, 10) ? c.scratch + "/nothing.odb" : x->s->path), a, l));
        }
        catch (std::exception& e) {
            if (k != 3 && !x->s->bad) fail("open", e.what());
            c.stat("failing calls");
            return;
        }
        crd.push_back(std::move(x));
        c.stat("C++ readers");
    }
    void nextCpp(Crd& x) {
        bool agg = r.chance(1, 2);
        long lim = r.chance(1, 2) ? -1 : r.range(1, 200);
        did("next()");
        try {
            std::unique_ptr<Cfr> f(new Cfr);
            f->f = x.r->next(agg, lim);
            if (!f->f) {
                if (!x.lost && !x.s->bad && x.pos != x.s->frames.size()) fail("frames", "the end too early");
                return;
            }
            if (!located(f->now, x.s, x.pos, f->f.rowCount(), agg, x.lost)) return;
            f->info = &f->f.columnInfo();
            for (auto& i : *f->info) f->names.push_back(i.name);
            cfr.push_back(std::move(f));
            c.stat("C++ frames delivered");
        }
        catch (std::exception& e) {
            if (!x.lost && !x.s->bad) fail("next", std::string("no next frame: ") + e.what());
            x.lost = true;
        }
    }
    void checkCpp(Cfr& f) {
        if (!f.f) return;
        if (f.info)
            for (size_t i = 0; i < f.names.size(); i++)
                if ((*f.info)[i].name != f.names[i]) return fail("pointer", "column description of a frame changed");
        std::vector<std::string> names;
        std::vector<std::unique_ptr<unsigned char[]>> mem;
        std::vector<odc::api::StridedData> sd;
        auto& info = f.f.columnInfo();
        size_t n   = f.f.rowCount();
        for (auto& i : info) {
            names.push_back(i.name);
            mem.emplace_back(new unsigned char[std::max<size_t>(1, n * i.decodedSize)]);
            sd.emplace_back(mem.back().get(), n, i.decodedSize, i.decodedSize);
        }
        try {
            odc::api::Decoder d(names, sd);
            d.decode(f.f, r.chance(1, 4) ? 3 : 1);
        }
        catch (std::exception& e) {
            if (f.now.known) fail("decode", std::string("a C++ frame cannot be decoded: ") + e.what());
            return;
        }
        if (!f.now.known) return;
        Tab want = f.now.tab();
        for (size_t j = 0; j < names.size(); j++) {
            int q = want.find(names[j]);
            if (q < 0) return fail("content", "another column " + names[j]);
            Col g = want.c[size_t(q)];
            size_t w = info[j].decodedSize;
            for (size_t i = 0; i < n; i++) {
                const unsigned char* p = mem[j].get() + i * w;
                double v;
                int64_t l;
                memcpy(&v, p, 8);
                memcpy(&l, p, 8);
                if (g.isStr())
                    g.s[i] = std::string(reinterpret_cast<const char*>(p), strnlen(reinterpret_cast<const char*>(p), w));
                else
                    g.d[i] = g.isInt() && longs ? double(l) : v;
                if (!cellEq(want.c[size_t(q)], i, g, i, true)) return fail("content", "a C++ frame has other content in column " + names[j]);
            }
        }
        c.stat("C++ frames checked");
    }
    void useCpp(Cfr& f) {
        try {
            switch (r.below(7)) {
                case 0: {
                    std::unique_ptr<Cfr> g(new Cfr);
                    if (r.chance(1, 2)) {
                        g.reset(new Cfr{Frame(f.f), f.now, nullptr, {}});
                    }
                    else {
                        Cfr& other = *cfr[pick(cfr)];
                        g->f       = other.f;
                        g->now     = f.now;
                        g->f       = f.f;
                    }
                    did("copy of a C++ frame");
                    cfr.push_back(std::move(g));
                    c.stat("C++ frames copied");
                    break;
                }
                case 1: {
                    did("move of a C++ frame");
                    Frame g(std::move(f.f));
                    f.f = std::move(g);
                    break;
                }
                case 2: {
                    did("self assignment");
                    Frame& g = f.f;
                    f.f      = g;
                    break;
                }
                case 3: {
                    did("span");
                    std::vector<std::string> one{f.f.columnInfo()[0].name};
                    span.emplace_back(new odc::api::Span(f.f.span(one, false)));
                    break;
                }
                case 4: {
                    did("filter");
                    Cfr g;
                    std::string nm;
                    for (auto& i : f.f.columnInfo())
                        if (nm.empty() && std::all_of(i.name.begin(), i.name.end(), [](unsigned char ch) { return isalnum(ch) || ch == '_' || ch == '@'; })) nm = i.name;
                    if (nm.empty()) return;
                    if (r.chance(1, 4)) nm = "no_such_column_here";
                    Frame h = f.f.filter("select " + nm);
                    if (h && h.rowCount() != f.f.rowCount()) fail("filter", "other number of rows");
                    std::unique_ptr<Cfr> k(new Cfr{h, Content(), nullptr, {}});
                    cfr.push_back(std::move(k));
                    c.stat("frames filtered");
                    break;
                }
                case 5: {
                    did("encodedData");
                    eckit::Buffer b = f.f.encodedData();
                    if (f.now.known && refParse(Bytes(static_cast<unsigned char*>(b.data()), static_cast<unsigned char*>(b.data()) + b.size()), false).size() != f.now.parts.size())
                        fail("encodedData", "other data");
                    break;
                }
                default: {
                    did("properties");
                    auto& p = f.f.properties();
                    for (auto& kv : p)
                        if (kv.first.empty() && kv.second.empty()) c.stat("empty properties");
                }
            }
        }
        catch (std::exception& e) {
            c.stat("failing calls");
        }
    }
    void rows() {
        Src& s = *src[pick(src)];
        int k  = int(r.below(4));
        did("rows " + std::to_string(k));
        try {
            if (k == 0) {
                odc::Reader rd(s.path);
                size_t n = r.below(40), i = 0;
                for (auto it = rd.begin(), end = rd.end(); it != end && i < n; ++it) i++;
            }
            else if (k == 1) {
                std::string nm = s.tabs[0].c[0].name;
                for (char ch : nm)
                    if (!isalnum((unsigned char)ch) && ch != '_' && ch != '@') return;
                if (r.chance(1, 4)) nm = "no_such_column_here";
                odc::Select sel("select " + nm + " from \"" + s.path + "\"");
                size_t n = r.below(40), i = 0;
                for (auto it = sel.begin(), end = sel.end(); it != end && i < n; ++it) i++;
            }
            else if (k == 2) {
                odc::Reader rd(s.path);
                odc::Writer<> w(eckit::PathName(c.scratch + "/rows.odb"));
                auto it  = w.begin();
                auto beg = rd.begin();
                it->pass1(beg, rd.end());
            }
            else {
                odc::Reader rd(r.chance(1, 2) ? c.scratch + "/nothing.odb" : s.path);
                auto it = rd.begin();
            }
            c.stat("row interfaces used");
        }
        catch (std::exception& e) {
            c.stat("failing calls");
        }
    }
    void step() {
        switch (r.below(24)) {
            case 0: openC(); break;
            case 1:
            case 2: {
                auto x = openReader();
                if (!x) return openC();
                std::unique_ptr<Fr> f(new Fr);
                f->rd = x;
                if (odc_new_frame(&f->f, x->r)) return fail("new_frame", "no frame");
                did("new frame");
                if (r.chance(3, 4)) nextC(*f);
                fr.push_back(std::move(f));
                break;
            }
            case 3:
            case 4:
            case 5: {
                if (fr.empty()) return;
                Fr& f = *fr[pick(fr)];
                if (alive(f)) nextC(f);
                break;
            }
            case 6: {
                if (fr.empty()) return;
                Fr& f = *fr[pick(fr)];
                if (!alive(f)) return;
                std::unique_ptr<Fr> g(new Fr);
                g->rd         = f.rd;
                g->now        = f.now;
                g->positioned = f.positioned;
                if (odc_copy_frame(f.f, &g->f)) return fail("copy", "a frame cannot be copied");
                did("copy frame");
                if (g->positioned && r.chance(1, 2)) keepPointers(*g);
                fr.push_back(std::move(g));
                c.stat("frames copied");
                break;
            }
            case 7:
            case 8: {
                if (fr.empty()) return;
                Fr& f = *fr[pick(fr)];
                if (alive(f)) {
                    checkKept(f);
                    did("check");
                    checkFrame(f);
                }
                break;
            }
            case 9: {
                if (fr.empty()) return;
                Fr& f = *fr[pick(fr)];
                if (alive(f) && f.positioned) useDecoder(f);
                break;
            }
            case 10:
                if (!fr.empty()) freeFrame(pick(fr));
                break;
            case 11:
                if (!de.empty()) freeDecoder(pick(de));
                break;
            case 12:
                if (en.empty() || r.chance(1, 3))
                    encoder();
                else
                    encode(*en[pick(en)]);
                break;
            case 13: failing(); break;
            case 14:
                if (!rd.empty() && r.chance(1, 3)) closeReader(*rd[pick(rd)]);
                break;
            case 15: crd.empty() || r.chance(1, 3) ? openCpp() : nextCpp(*crd[pick(crd)]); break;
            case 16:
                if (!crd.empty()) nextCpp(*crd[pick(crd)]);
                break;
            case 17:
            case 20:
            case 21:
            case 22:
            case 23:
                if (!cfr.empty()) useCpp(*cfr[pick(cfr)]);
                break;
            case 18:
                if (!cfr.empty()) {
                    did("check C++ frame");
                    checkCpp(*cfr[pick(cfr)]);
                }
                else
                    rows();
                break;
            default:
                if (!crd.empty() && r.chance(1, 3)) {
                    did("destroy Reader");
                    crd.erase(crd.begin() + long(pick(crd)));
                    c.stat("C++ readers destroyed before their frames", !cfr.empty());
                }
                else if (!cfr.empty() && r.chance(1, 2)) {
                    did("destroy C++ frame");
                    cfr.erase(cfr.begin() + long(pick(cfr)));
                }
                else
                    rows();
        }
    }
    void freeFrame(size_t i) {
        Fr& f = *fr[i];
        if (alive(f)) checkKept(f);
        did("free frame");
        if (odc_free_frame(f.f)) fail("free", "a frame cannot be freed");
        fr.erase(fr.begin() + long(i));
    }
    void freeDecoder(size_t i) {
        checkDecoder(*de[i]);
        did("free decoder");
        if (odc_free_decoder(de[i]->d)) fail("free", "a decoder cannot be freed");
        de.erase(de.begin() + long(i));
    }
    void closeReader(Rd& x) {
        if (!x.r) return;
        for (auto& f : fr)
            if (f->rd.get() == &x) checkKept(*f);
        did("close");
        if (odc_close(x.r)) fail("close", "a reader cannot be closed");
        x.r = nullptr;
        for (auto& f : fr)
            if (f->rd.get() == &x) c.stat("frames which outlive their reader");
    }
    void freeAll() {
        for (;;) {
            std::vector<int> left;
            bool open = false;
            for (auto& x : rd) open |= x->r != nullptr;
            if (open) left.push_back(0);
            if (!fr.empty()) left.push_back(1);
            if (!de.empty()) left.push_back(2);
            if (!en.empty()) left.push_back(3);
            if (!crd.empty()) left.push_back(4);
            if (!cfr.empty()) left.push_back(5);
            if (!span.empty()) left.push_back(6);
            if (left.empty()) break;
            switch (left[pick(left)]) {
                case 0: closeReader(*rd[pick(rd)]); break;
                case 1: freeFrame(pick(fr)); break;
                case 2: freeDecoder(pick(de)); break;
                case 3: {
                    size_t i = pick(en);
                    if (odc_free_encoder(en[i]->e)) fail("free", "an encoder cannot be freed");
                    en.erase(en.begin() + long(i));
                    break;
                }
                case 4: crd.erase(crd.begin() + long(pick(crd))); break;
                case 5: {
                    size_t i = pick(cfr);
                    if (r.chance(1, 3)) checkCpp(*cfr[i]);
                    cfr.erase(cfr.begin() + long(i));
                    break;
                }
                default: span.erase(span.begin() + long(pick(span)));
            }
        }
        for (auto& h : handles) h->close();
        handles.clear();
        rd.clear();
    }
};
}  // namespace
void odvInit() {}

void odvCase(Ctx& c) {
    static bool first = true;
    if (first) {  // what is allocated once and for all
        first = false;
        leaked(c);
    }
    size_t before = descriptors();
    std::vector<std::string> files;
    {
        World w(c);
        Rng& r  = c.rng;
        w.longs = r.chance(1, 2);
        odc_integer_behaviour(w.longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        size_t n = size_t(r.range(1, 3));
        for (size_t i = 0; i < n; i++) {
            std::unique_ptr<Src> s(new Src);
            FileOpts fo;
            fo.g.maxRows = 30;
            s->bytes     = genFile(c, fo, s->frames, s->how);
            for (auto& f : s->frames) {
                s->tabs.push_back(flattened(f));
                s->tabs.back().n = size_t(f.nrows);
            }
            s->good = s->frames.size();
            if (r.chance(1, 5)) {
                size_t k = r.below(s->frames.size());
                s->bytes.resize(s->frames[k].off + 1 + r.below(s->frames[k].len - 1));
                s->good = k;
                s->bad  = true;
                s->how += " [cut]";
            }
            // exactly sized, so that anything read outside is noticed
            s->bytes.shrink_to_fit();
            s->path = c.scratch + "/src" + std::to_string(i) + ".odb";
            writeFile(s->path, s->bytes);
            files.push_back(s->path);
            w.how += s->how;
            w.src.push_back(std::move(s));
        }
        odc_integer_behaviour(w.longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        size_t steps = size_t(r.range(5, 80));
        try {
            for (size_t i = 0; i < steps && !w.bad; i++) w.step();
        }
        catch (std::exception& e) {
            w.fail("exception", e.what());
        }
        w.freeAll();
        c.stat("steps", steps);
        std::string all;
        for (auto& s : w.log) all += s + ";";
        c.sig(mix(hashStr(all), hashStr(w.how)));
        size_t after = descriptors();
        if (after != before) {
            std::string l;
            descriptors(&l);
            w.fail("descriptors", std::to_string(after) + " open descriptors instead of " + std::to_string(before) + ":" + l);
        }
        std::string l = leaked(c);
        if (!l.empty()) {
            size_t at = l.find("leak of");
            w.fail("leak", l.substr(at == std::string::npos ? 0 : at, 900));
        }
        c.stat("histories checked for leaks");
    }
    for (auto& f : files) unlink(f.c_str());
}
}  // namespace odv
