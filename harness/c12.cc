// C12: misuse of the C API in any order. A model of every object decides which calls must succeed, which must fail, and what
// a successful call must answer; the failure handler, the codes and the messages are watched on every call.
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include <new>
#include "ref.h"
using namespace odv;

// allocations beyond any reasonable size fail (as they do for an ordinary process)
static void* odvAlloc(size_t n) {
    if (n > (size_t(256) << 20)) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return odvAlloc(n); }
void* operator new[](size_t n) { return odvAlloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace odv {
const char* odvName() { return "C12"; }
uint64_t odvProbes() { return 0; }
namespace {

struct Handler {
    int calls = 0, lastCode = 0;
    std::string msg;
};
Handler g_h[2];
void onFailure(void* ctx, int code) {
    Handler* h = static_cast<Handler*>(ctx);
    h->calls++;
    h->lastCode = code;
    const char* m = odc_error_string(code);
    h->msg        = m ? m : "(null)";
}

struct RdrM {
    odc_reader_t* p = nullptr;
    const std::vector<RefFrame>* fr = nullptr;  // frames that can be delivered
    bool broken = false;                        // the end is an error
    bool wild = false;                          // may fail at any time (failing source)
    size_t pos = 0;
    bool failed = false;
    size_t cutLen = 0, cutOf = 0;
    std::unique_ptr<StreamSrc> src;
    std::unique_ptr<Rng> rng;
    int frames = 0;  // objects that use it
};
struct FrmM {
    odc_frame_t* p = nullptr;
    RdrM* r = nullptr;
    bool has = false;
    bool unknown = false;  // content not predicted
    size_t from = 0, to = 0;
};
struct DecM {
    odc_decoder_t* p = nullptr;
    long ncols = 0;
    long nrows = 0;
    bool plain = true;    // columns as by defaults_from_frame(frame), own memory
    const RefFrame* of = nullptr;
};
struct EncM {
    odc_encoder_t* p = nullptr;
    int ncols = 0;
    bool clean = true;
    struct C {
        bool data = false;
        int type = 0, nbits = 0;
    };
    std::vector<C> cols;
    long nrows = 0;
    bool nrowsFromArray = false;
    bool array = false;
    long width = 0, height = 0;
    bool rpfBad = false;
};

struct World {
    Ctx& c;
    Rng& r;
    std::vector<std::unique_ptr<Bytes>> files;
    std::vector<std::vector<RefFrame>> parsed;
    std::vector<std::string> paths;
    std::vector<std::unique_ptr<RdrM>> rd;
    std::vector<std::unique_ptr<FrmM>> fm;
    std::vector<std::unique_ptr<DecM>> de;
    std::vector<std::unique_ptr<EncM>> en;
    std::vector<std::unique_ptr<unsigned char[]>> mem;
    std::string log;
    uint64_t h = 0;
    int which = 0;
    bool handler = true, longs = false;
    size_t maxRows = 0, cutLen = 0, cutOf = 0;
    explicit World(Ctx& c) : c(c), r(c.rng) {}

    unsigned char* block(size_t n, bool zero = true) {
        mem.emplace_back(new unsigned char[n ? n : 1]);
        if (zero) memset(mem.back().get(), 0, n);
        return mem.back().get();
    }
    enum { MUST_OK, MUST_FAIL, EITHER, ITER };
    // run one call and check code, handler and message
    int call(const std::string& name, int expect, const std::function<int()>& f) {
        static const char* sentinel = "integer behaviour must be";
        bool sent                   = r.chance(1, 8);
        if (sent) odc_integer_behaviour(17);
        g_h[0] = Handler();
        g_h[1] = Handler();
        int rc = f();
        if (getenv("C12LOG")) fprintf(stderr, "CALL %s=%d\n", name.c_str(), rc);
        log += name + "=" + std::to_string(rc) + " ";
        if (log.size() > 900) log.erase(0, log.size() - 900);
        h = mix(h, hashStr(name) + uint64_t(rc));
        c.stat("calls");
        std::string at = name + " after [" + log + "]";
        bool fail      = rc >= 2;
        if (rc < 0 || rc > 3) ODV_FAIL(c, name + ":code", "undocumented code " << rc << ": " << at);
        if (rc == 1 && expect != ITER) ODV_FAIL(c, name + ":iteration", "ODC_ITERATION_COMPLETE from a call that does not iterate: " << at);
        if (fail) {
            c.stat("failures returned");
            const char* m = odc_error_string(rc);
            if (!m || !*m || !strcmp(m, "<unknown>")) ODV_FAIL(c, name + ":message", "no message for code " << rc << ": " << at);
            else if (sent && strstr(m, sentinel) && name != "integer_behaviour") ODV_FAIL(c, name + ":stale", "the message is that of an earlier failure: " << at);
            if (handler) {
                if (g_h[which].calls != 1) ODV_FAIL(c, name + ":handler", "handler called " << g_h[which].calls << " times for one failure: " << at);
                else if (g_h[which].lastCode != rc) ODV_FAIL(c, name + ":handler-code", "handler got " << g_h[which].lastCode << ", call returned " << rc << ": " << at);
                else if (m && g_h[which].msg != m) ODV_FAIL(c, name + ":handler-message", "in the handler the message was " << show(g_h[which].msg) << ": " << at);
                c.stat("handler calls checked");
            }
            else if (g_h[which].calls) ODV_FAIL(c, name + ":handler", "an unregistered handler was called: " << at);
        }
        else if (g_h[which].calls) ODV_FAIL(c, name + ":handler", "handler called for a call that did not fail: " << at);
        if (g_h[1 - which].calls) ODV_FAIL(c, name + ":handler", "a replaced handler was called: " << at);
        if (expect == MUST_OK && rc != 0) ODV_FAIL(c, name + ":refused", "valid call failed: " << (fail ? odc_error_string(rc) : "") << ": " << at);
        if (expect == MUST_FAIL && rc == 0) ODV_FAIL(c, name + ":accepted", "invalid call succeeded: " << at);
        return rc;
    }
    int anyInt() { return r.pick(std::vector<int>{0, 1, 2, 3, 7, 8, -1, INT_MIN, INT_MAX, 100, 65536, -8}); }
    long anyLong() { return r.pick(std::vector<long>{0, 1, 2, 5, -1, LONG_MIN, LONG_MAX, INT_MAX, 1L << 40, 100}); }
    template <class T>
    T* any(std::vector<std::unique_ptr<T>>& v) {
        return v.empty() || r.chance(1, 15) ? nullptr : v[r.below(v.size())].get();
    }
    void closeReader(size_t i) {
        // frames first: they refer to the reader
        for (size_t k = fm.size(); k-- > 0;)
            if (fm[k]->r == rd[i].get()) {
                odc_frame_t* f = fm[k]->p;
                call("free_frame", MUST_OK, [&] { return odc_free_frame(f); });
                fm.erase(fm.begin() + long(k));
            }
        odc_reader_t* p = rd[i]->p;
        call("close", MUST_OK, [&] { return odc_close(p); });
        rd.erase(rd.begin() + long(i));
    }
    Tab expected(const FrmM& f) {
        Tab t = (*f.r->fr)[f.from].tab;
        for (size_t k = f.from + 1; k < f.to; k++) t.append((*f.r->fr)[k].tab);
        return t;
    }
    static bool compat(const RefFrame& a, const RefFrame& b) {
        if (a.cols.size() != b.cols.size()) return false;
        for (auto& x : a.cols) {
            bool ok = false;
            for (auto& y : b.cols) ok |= x.name == y.name && x.type == y.type && x.width == y.width;
            if (!ok) return false;
        }
        return true;
    }

    // ---- operations
    void opOpen() {
        if (rd.size() >= 6) {
            closeReader(r.below(rd.size()));
            return;
        }
        odc_reader_t* const bogus = reinterpret_cast<odc_reader_t*>(16);
        odc_reader_t* p           = bogus;
        size_t fi                 = r.below(files.size());
        const Bytes& b            = *files[fi];
        auto m                    = std::unique_ptr<RdrM>(new RdrM);
        int expect                = MUST_OK;
        bool null                 = r.chance(1, 20);
        std::string nm;
        int rc = 0;
        std::function<int()> f;
        int k    = int(r.below(8));
        bool cut = fi + 1 == files.size();
        m->fr     = &parsed[fi];
        m->broken = cut;
        if (cut) m->cutLen = cutLen, m->cutOf = cutOf;
        if (k == 0) {
            nm = "open_path";
            static const char* bad[] = {"/nonexistent/x.odb", "", "/dev/null/x", "/proc"};
            int w = int(r.below(5));
            std::string path = w < 4 ? bad[w] : "";
            bool nul         = w == 4;
            expect           = w == 1 || w == 3 ? EITHER : MUST_FAIL;
            m->wild          = true;
            f = [&, path, nul] { return odc_open_path(null ? nullptr : &p, nul ? nullptr : path.c_str()); };
            rc = call(nm, null ? MUST_FAIL : expect, f);
        }
        else if (k <= 2) {
            nm = "open_path";
            rc = call(nm, null ? MUST_FAIL : MUST_OK, [&] { return odc_open_path(null ? nullptr : &p, paths[fi].c_str()); });
        }
        else if (k == 3) {
            nm  = "open_file_descriptor";
            int fd = r.chance(1, 3) ? r.pick(std::vector<int>{-1, 9999, INT_MAX, INT_MIN}) : open(paths[fi].c_str(), O_RDONLY);
            bool bad = fd < 0 || fd >= 9999;
            rc = call(nm, null || bad ? MUST_FAIL : MUST_OK, [&] { return odc_open_file_descriptor(null ? nullptr : &p, fd); });
            if (!bad) close(fd);
        }
        else if (k <= 5) {
            nm  = "open_buffer";
            int w = int(r.below(8));
            if (w == 0) rc = call(nm, MUST_FAIL, [&] { return odc_open_buffer(&p, b.data(), -5); });
            else if (w == 1) rc = call(nm, MUST_FAIL, [&] { return odc_open_buffer(&p, nullptr, 5); });
            else if (w == 2) {
                m->wild = true;
                rc      = call(nm, EITHER, [&] { return odc_open_buffer(&p, nullptr, 0); });
            }
            else rc = call(nm, null ? MUST_FAIL : MUST_OK, [&] { return odc_open_buffer(null ? nullptr : &p, b.data(), long(b.size())); });
        }
        else {
            nm       = "open_stream";
            bool nul = r.chance(1, 6);
            m->src.reset(new StreamSrc);
            m->rng.reset(new Rng(r.next()));
            m->src->b   = &b;
            m->src->rng = m->rng.get();
            if (r.chance(1, 4)) {
                m->src->failAt   = long(r.below(12));
                m->src->failCode = r.pick(std::vector<long>{-1, -5, LONG_MIN, 1L << 40});
                m->wild          = true;
            }
            rc = call(nm, null || nul ? MUST_FAIL : MUST_OK, [&] { return odc_open_stream(null ? nullptr : &p, m->src.get(), nul ? nullptr : &StreamSrc::read); });
        }
        if (rc == 0 && p == bogus) ODV_FAIL(c, nm + ":output", "success without a reader");
        if (rc != 0 && p != bogus) ODV_FAIL(c, nm + ":output", "a failed call changed the reader pointer: " << log);
        if (rc == 0 && p != bogus) {
            m->p = p;
            rd.push_back(std::move(m));
        }
    }
    void opNewFrame() {
        RdrM* m = any(rd);
        if (fm.size() >= 10) {
            size_t k       = r.below(fm.size());
            odc_frame_t* f = fm[k]->p;
            call("free_frame", MUST_OK, [&] { return odc_free_frame(f); });
            fm.erase(fm.begin() + long(k));
            return;
        }
        bool null      = r.chance(1, 15);
        odc_frame_t* p = nullptr;
        int rc         = call("new_frame", !m || null ? MUST_FAIL : MUST_OK, [&] { return odc_new_frame(null ? nullptr : &p, m ? m->p : nullptr); });
        if (rc == 0 && p) {
            std::unique_ptr<FrmM> f(new FrmM);
            f->p = p;
            f->r = m;
            fm.push_back(std::move(f));
        }
    }
    void opNext() {
        FrmM* f = any(fm);
        if (!f) {
            if (r.chance(1, 2)) call("next_frame", MUST_FAIL, [&] { return odc_next_frame(nullptr); });
            else call("next_frame_aggregated", MUST_FAIL, [&] { return odc_next_frame_aggregated(nullptr, 10); });
            return;
        }
        RdrM* m    = f->r;
        bool agg   = r.chance(1, 3);
        long limit = agg ? r.pick(std::vector<long>{-1, 0, 1, 10, 50, LONG_MAX, LONG_MIN, 100000}) : 0;
        int rc     = call(agg ? "next_frame_aggregated" : "next_frame", ITER, [&] { return agg ? odc_next_frame_aggregated(f->p, limit) : odc_next_frame(f->p); });
        std::string at = std::string(agg ? "next_frame_aggregated(" + std::to_string(limit) + ")" : "next_frame") + " after [" + log + "]";
        if (m->wild) {
            f->unknown = true;
            f->has     = rc == 0;
            return;
        }
        size_t left = m->fr->size() - std::min(m->pos, m->fr->size());
        if (m->failed) {
            // after a failure nothing more may be delivered as if nothing had happened
            if (rc == 0) ODV_FAIL(c, "next_frame:after-failure", "a frame was delivered after the reading had failed: " << at);
            if (rc == 1 && m->broken) c.stat("end reported after a failure");
        }
        else if (left == 0) {
            if (m->broken && rc == 0) {
                // the data of a frame are read when they are decoded: it must not decode
                DecOpts o;
                o.longs     = longs;
                DecResult d = decodeC(f->p, o);
                if (d.rc == 0) ODV_FAIL(c, "next_frame:truncated", "an incomplete frame was decoded: " << at);
                f->has = f->unknown = m->failed = true;
                c.stat("incomplete frames refused when decoded");
            }
            else if (m->broken ? rc < 2 : rc != 1) ODV_FAIL(c, "next_frame:end", "at the end of " << (m->broken ? "a damaged" : "the") << " file (frame size " << m->cutLen << " of " << m->cutOf << ") the code is " << rc << ": " << at);
            if (rc >= 2) m->failed = true;
            c.stat("exhausted readers");
        }
        else {
            size_t to = m->pos + 1;
            long rows = (*m->fr)[m->pos].nrows;
            if (agg)
                while (to < m->fr->size() && compat((*m->fr)[m->pos], (*m->fr)[to]) && (limit < 0 || rows + (*m->fr)[to].nrows <= limit)) rows += (*m->fr)[to++].nrows;
            if (rc == 0) {
                f->has     = true;
                f->unknown = false;
                f->from    = m->pos;
                f->to      = to;
                m->pos     = to;
                long n     = 0;
                odc_frame_row_count(f->p, &n);
                if (n > rows && agg && m->broken && to == m->fr->size()) {
                    // the incomplete last frame is part of it
                    f->unknown = m->failed = true;
                    DecOpts o;
                    o.longs     = longs;
                    DecResult d = decodeC(f->p, o);
                    if (d.rc == 0) ODV_FAIL(c, "next_frame:truncated", "an incomplete frame was decoded: " << at);
                    c.stat("incomplete frames refused when decoded");
                }
            }
            else if (agg && to == m->fr->size() && m->broken) m->failed = true;  // the aggregation runs into the damage
            else ODV_FAIL(c, "next_frame:refused", "frame " << m->pos << " of " << m->fr->size() << " was not delivered, code " << rc << ": " << at);
        }
        if (rc == 1) f->has = false;
    }
    void opFrameQuery() {
        FrmM* f        = any(fm);
        odc_frame_t* p = f ? f->p : nullptr;
        bool ok        = f && f->has;
        int expect     = !f ? MUST_FAIL : f->unknown ? EITHER : ok ? MUST_OK : MUST_FAIL;
        bool known     = ok && !f->unknown;
        const RefFrame* rf = known ? &(*f->r->fr)[f->from] : nullptr;
        switch (r.below(8)) {
            case 0: {
                bool null = r.chance(1, 10);
                long n    = -77;
                int rc    = call("frame_row_count", null ? MUST_FAIL : expect, [&] { return odc_frame_row_count(p, null ? nullptr : &n); });
                if (known && rc == 0) {
                    long want = 0;
                    for (size_t k = f->from; k < f->to; k++) want += (*f->r->fr)[k].nrows;
                    if (n != want) ODV_FAIL(c, "frame_row_count:value", n << " rows reported, " << want << " stored: " << log);
                }
                if (rc && n != -77) ODV_FAIL(c, "frame_row_count:output", "a failed call stored a value: " << log);
                break;
            }
            case 1: {
                bool null = r.chance(1, 10);
                int n     = -77;
                int rc    = call("frame_column_count", null ? MUST_FAIL : expect, [&] { return odc_frame_column_count(p, null ? nullptr : &n); });
                if (known && rc == 0 && n != int(rf->cols.size())) ODV_FAIL(c, "frame_column_count:value", n << " columns: " << log);
                if (rc && n != -77) ODV_FAIL(c, "frame_column_count:output", "a failed call stored a value: " << log);
                break;
            }
            case 2: {
                int col         = known && r.chance(2, 3) ? int(r.below(rf->cols.size() + 1)) : anyInt();
                const char* nm  = nullptr;
                int type = -77, es = -77, bf = -77;
                int mask = r.chance(1, 3) ? int(r.below(16)) : 15;
                int e    = known && (col < 0 || col >= int(rf->cols.size())) ? MUST_FAIL : expect;
                if (col < 0) e = MUST_FAIL;
                int rc = call("frame_column_attributes", e, [&] {
                    return odc_frame_column_attributes(p, col, mask & 1 ? &nm : nullptr, mask & 2 ? &type : nullptr, mask & 4 ? &es : nullptr, mask & 8 ? &bf : nullptr);
                });
                if (rc && (nm || type != -77 || es != -77 || bf != -77)) ODV_FAIL(c, "frame_column_attributes:output", "a failed call stored a value: " << log);
                if (known && rc == 0) {
                    const RefCol& k = rf->cols[size_t(col)];
                    if ((mask & 1 && (!nm || k.name != nm)) || (mask & 2 && type != k.type) || (mask & 8 && bf != int(k.bits.size())))
                        ODV_FAIL(c, "frame_column_attributes:value", "attributes of column " << col << " differ from those stored: " << log);
                }
                break;
            }
            case 3: {
                int col = known && r.chance(3, 4) ? int(r.below(rf->cols.size())) : anyInt();
                int fld = r.chance(1, 2) ? int(r.below(3)) : anyInt();
                int nb  = known && col >= 0 && col < int(rf->cols.size()) ? int(rf->cols[size_t(col)].bits.size()) : -1;
                int e   = known ? (nb >= 0 && fld >= 0 && fld < nb ? MUST_OK : MUST_FAIL) : expect;
                if (col < 0 || fld < 0) e = MUST_FAIL;
                const char* nm = nullptr;
                int off = -77, sz = -77;
                int rc = call("frame_bitfield_attributes", e, [&] { return odc_frame_bitfield_attributes(p, col, fld, &nm, &off, &sz); });
                if (rc && (nm || off != -77 || sz != -77)) ODV_FAIL(c, "frame_bitfield_attributes:output", "a failed call stored a value: " << log);
                if (known && rc == 0 && e == MUST_OK && (!nm || rf->cols[size_t(col)].bits[size_t(fld)].first != nm || sz != rf->cols[size_t(col)].bits[size_t(fld)].second))
                    ODV_FAIL(c, "frame_bitfield_attributes:value", "member " << fld << " of column " << col << " differs: " << log);
                break;
            }
            case 4: {
                int n     = -77;
                bool null = r.chance(1, 10);
                int rc    = call("frame_properties_count", null ? MUST_FAIL : expect, [&] { return odc_frame_properties_count(p, null ? nullptr : &n); });
                if (rc && n != -77) ODV_FAIL(c, "frame_properties_count:output", "a failed call stored a value: " << log);
                break;
            }
            case 5: {
                const char *k = nullptr, *v = nullptr;
                int idx = r.chance(1, 2) ? int(r.below(4)) : anyInt();
                int e   = EITHER;
                std::map<std::string, std::string> pr;
                if (known) {
                    for (size_t q = f->from; q < f->to; q++) pr.insert((*f->r->fr)[q].props.begin(), (*f->r->fr)[q].props.end());
                    e = idx >= 0 && size_t(idx) < pr.size() ? MUST_OK : MUST_FAIL;
                }
                else if (!ok && !(f && f->unknown)) e = MUST_FAIL;
                if (idx < 0) e = MUST_FAIL;
                bool n1 = r.chance(1, 12), n2 = r.chance(1, 12);
                if (n1 || n2) e = MUST_FAIL;
                int rc = call("frame_property_idx", e, [&] { return odc_frame_property_idx(p, idx, n1 ? nullptr : &k, n2 ? nullptr : &v); });
                if (rc && (k || v)) ODV_FAIL(c, "frame_property_idx:output", "a failed call stored a value: " << log);
                if (known && rc == 0 && e == MUST_OK) {
                    auto it = pr.begin();
                    std::advance(it, idx);
                    if (!k || !v || it->first != k || it->second != v) ODV_FAIL(c, "frame_property_idx:value", "property " << idx << " differs: " << log);
                }
                break;
            }
            case 6: {
                const char* v = reinterpret_cast<const char*>(8);
                bool n1 = r.chance(1, 10), n2 = r.chance(1, 10);
                std::string key = known && !rf->props.empty() && r.chance(1, 2) ? rf->props.begin()->first : r.pick(std::vector<std::string>{"", "nosuch", "encoder"});
                int rc = call("frame_property", n1 || n2 ? MUST_FAIL : expect, [&] { return odc_frame_property(p, n1 ? nullptr : key.c_str(), n2 ? nullptr : &v); });
                if (rc && v != reinterpret_cast<const char*>(8)) ODV_FAIL(c, "frame_property:output", "a failed call stored a value: " << log);
                if (known && rc == 0) {
                    bool in = false;
                    std::string val;
                    for (size_t q = f->from; q < f->to && !in; q++) {
                        auto it = (*f->r->fr)[q].props.find(key);
                        if (it != (*f->r->fr)[q].props.end()) in = true, val = it->second;
                    }
                    if (in != (v != nullptr) || (in && val != v)) ODV_FAIL(c, "frame_property:value", "value of '" << key << "' differs: " << log);
                }
                break;
            }
            default: {
                if (fm.size() >= 10) break;
                odc_frame_t* q = nullptr;
                bool null      = r.chance(1, 10);
                int rc         = call("copy_frame", !f || null ? MUST_FAIL : MUST_OK, [&] { return odc_copy_frame(p, null ? nullptr : &q); });
                if (rc == 0 && q) {
                    std::unique_ptr<FrmM> g(new FrmM(*f));
                    g->p = q;
                    fm.push_back(std::move(g));
                }
                break;
            }
        }
    }
    void opDecoder() {
        if (de.size() < 4 && r.chance(1, 3)) {
            odc_decoder_t* p = nullptr;
            bool null        = r.chance(1, 10);
            int rc           = call("new_decoder", null ? MUST_FAIL : MUST_OK, [&] { return odc_new_decoder(null ? nullptr : &p); });
            if (rc == 0 && p) {
                de.emplace_back(new DecM);
                de.back()->p = p;
            }
            return;
        }
        DecM* d          = any(de);
        odc_decoder_t* p = d ? d->p : nullptr;
        int ok           = d ? MUST_OK : MUST_FAIL;
        int nc           = d ? int(d->ncols) : 0;
        auto col         = [&] { return nc && r.chance(2, 3) ? int(r.below(size_t(nc))) : anyInt(); };
        switch (r.below(12)) {
            case 0: {
                FrmM* f = any(fm);
                int e   = !d || !f || (!f->has && !f->unknown) ? MUST_FAIL : f->unknown ? EITHER : MUST_OK;
                int rc  = call("decoder_defaults_from_frame", e, [&] { return odc_decoder_defaults_from_frame(p, f ? f->p : nullptr); });
                if (d) {
                    int n = 0;
                    odc_decoder_column_count(p, &n);
                    if (rc == 0 && e == MUST_OK && n != nc + int((*f->r->fr)[f->from].cols.size())) ODV_FAIL(c, "decoder_defaults_from_frame:columns", n << " columns: " << log);
                    if (rc != 0 && n != nc) ODV_FAIL(c, "decoder_defaults_from_frame:columns", "a failed call added columns: " << log);
                    d->ncols = n;
                    if (rc == 0) {
                        long nr = 0;
                        odc_decoder_row_count(p, &nr);
                        d->nrows = nr;
                    }
                }
                break;
            }
            case 1: call("decoder_set_column_major", ok, [&] { return odc_decoder_set_column_major(p, r.chance(1, 2)); }); break;
            case 2: {
                long n = r.chance(1, 2) ? long(r.below(300)) : anyLong();
                int rc = call("decoder_set_row_count", n < 0 ? MUST_FAIL : ok, [&] { return odc_decoder_set_row_count(p, n); });
                if (rc == 0 && d) d->nrows = n;
                break;
            }
            case 3: {
                long n    = -77;
                bool null = r.chance(1, 10);
                int rc    = call("decoder_row_count", null ? MUST_FAIL : ok, [&] { return odc_decoder_row_count(p, null ? nullptr : &n); });
                if (rc == 0 && d && n != d->nrows) ODV_FAIL(c, "decoder_row_count:value", n << " instead of " << d->nrows << ": " << log);
                break;
            }
            case 4: {
                long w = r.pick(std::vector<long>{0, 8, 16, 64, 4096, -8, LONG_MIN, 7}), hh = r.pick(std::vector<long>{0, 1, long(maxRows), 300, -1, LONG_MIN});
                bool null = r.chance(1, 10);
                bool bad  = w <= 0 || hh <= 0 || null;
                unsigned char* b = bad ? block(8) : block(size_t(w) * size_t(hh), false);
                int rc = call("decoder_set_data_array", bad ? MUST_FAIL : ok, [&] { return odc_decoder_set_data_array(p, null ? nullptr : b, w, hh, r.chance(1, 2)); });
                if (rc == 0 && d) d->nrows = hh;
                break;
            }
            case 5: {
                const void* a = nullptr;
                long w, hh;
                bool cm;
                call("decoder_data_array", d ? EITHER : MUST_FAIL, [&] { return odc_decoder_data_array(p, &a, r.chance(1, 3) ? nullptr : &w, r.chance(1, 3) ? nullptr : &hh, r.chance(1, 3) ? nullptr : &cm); });
                break;
            }
            case 6: {
                bool null      = r.chance(1, 10);
                std::string nm = r.pick(std::vector<std::string>{"", "nosuch", "a@b", std::string(3000, 'x')});
                const auto& fr = parsed[r.below(parsed.size())];
                if (!fr.empty() && r.chance(2, 3)) nm = fr[0].cols[r.below(fr[0].cols.size())].name;
                int rc = call("decoder_add_column", null ? MUST_FAIL : ok, [&] { return odc_decoder_add_column(p, null ? nullptr : nm.c_str()); });
                if (rc == 0 && d) d->ncols++;
                break;
            }
            case 7: {
                int n     = -77;
                bool null = r.chance(1, 10);
                int rc    = call("decoder_column_count", null ? MUST_FAIL : ok, [&] { return odc_decoder_column_count(p, null ? nullptr : &n); });
                if (rc == 0 && d && n != d->ncols) ODV_FAIL(c, "decoder_column_count:value", n << " instead of " << d->ncols << ": " << log);
                break;
            }
            case 8: {
                int k = col(), s = r.pick(std::vector<int>{0, 8, 16, 24, 8, -8, INT_MIN, 48, 1600});
                int e = k < 0 || k >= nc || s < 0 ? MUST_FAIL : d ? (s % 8 ? EITHER : MUST_OK) : MUST_FAIL;
                call("decoder_column_set_data_size", e, [&] { return odc_decoder_column_set_data_size(p, k, s); });
                break;
            }
            case 9: {
                int k = col(), s = r.pick(std::vector<int>{0, 8, 16, 24, 8, -8, INT_MIN, 64}), st = r.pick(std::vector<int>{0, 8, 16, 40, 8, 64, -8, INT_MIN});
                bool bad = k < 0 || k >= nc || s < 0 || st < 0;
                // memory for what the call describes, for as many rows as any frame has
                size_t eb        = s > 0 ? size_t(s) : 8;
                size_t sb        = st > 0 ? size_t(st) : eb;
                unsigned char* b = bad ? block(8) : block(sb * 4096 + eb, false);
                bool null        = r.chance(1, 8);
                int e            = bad ? MUST_FAIL : d ? (s % 8 || st % 8 ? EITHER : MUST_OK) : MUST_FAIL;
                call("decoder_column_set_data_array", e, [&] { return odc_decoder_column_set_data_array(p, k, s, st, null ? nullptr : b); });
                break;
            }
            case 10: {
                int k = col();
                int es, st;
                const void* dp;
                call("decoder_column_data_array", !d || k < 0 || k >= nc ? MUST_FAIL : MUST_OK,
                     [&] { return odc_decoder_column_data_array(p, k, r.chance(1, 3) ? nullptr : &es, r.chance(1, 3) ? nullptr : &st, r.chance(1, 3) ? nullptr : &dp); });
                break;
            }
            default:
                if (d) {
                    for (size_t k = 0; k < de.size(); k++)
                        if (de[k].get() == d) {
                            call("free_decoder", MUST_OK, [&] { return odc_free_decoder(p); });
                            de.erase(de.begin() + long(k));
                            break;
                        }
                }
                else call("free_decoder", EITHER, [&] { return odc_free_decoder(nullptr); });
        }
    }
    void opDecode() {
        DecM* d = any(de);
        FrmM* f = any(fm);
        int th  = r.pick(std::vector<int>{1, 1, 2, 3, 0, -1, INT_MIN});
        long n  = -77;
        bool bad = !d || !f || (!f->has && !f->unknown) || th < 1;
        long rows = -1;
        if (!bad && !f->unknown) {
            rows = 0;
            for (size_t k = f->from; k < f->to; k++) rows += (*f->r->fr)[k].nrows;
            if (d->nrows < rows) bad = true;
            if (d->ncols > long((*f->r->fr)[f->from].cols.size())) bad = true;
        }
        int rc = call("decode", bad ? MUST_FAIL : EITHER, [&] { return odc_decode_threaded(d ? d->p : nullptr, f ? f->p : nullptr, r.chance(1, 6) ? nullptr : &n, th); });
        if (rc == 0 && n != -77 && rows >= 0 && n != rows) ODV_FAIL(c, "decode:rows", n << " rows reported instead of " << rows << ": " << log);
        if (rc && n != -77) ODV_FAIL(c, "decode:output", "a failed call stored a row count: " << log);
        if (rc == 0) c.stat("decodes by misused decoders that succeeded");
    }
    // what an untouched object must still be able to do
    void checkFrame(FrmM* f) {
        if (!f->has || f->unknown) return;
        Tab want     = expected(*f);
        DecOpts o    = genDec(r, want.c.size());
        o.select.clear();
        o.longs     = longs;
        DecResult d  = decodeC(f->p, o);
        c.stat("frames decoded after misuse");
        if (d.rc) ODV_FAIL(c, "later:decode", "a valid frame could not be decoded after misuse elsewhere: " << d.err << " after [" << log << "]");
        else {
            std::string df = diffCells(want, d.t);
            if (!df.empty()) ODV_FAIL(c, "later:cells", df << " after [" << log << "]");
        }
    }
    void opEncoder() {
        if (en.size() < 4 && r.chance(1, 3)) {
            odc_encoder_t* p = nullptr;
            bool null        = r.chance(1, 10);
            int rc           = call("new_encoder", null ? MUST_FAIL : MUST_OK, [&] { return odc_new_encoder(null ? nullptr : &p); });
            if (rc == 0 && p) {
                en.emplace_back(new EncM);
                en.back()->p = p;
            }
            return;
        }
        EncM* e          = any(en);
        odc_encoder_t* p = e ? e->p : nullptr;
        int ok           = e ? MUST_OK : MUST_FAIL;
        int nc           = e ? int(e->cols.size()) : 0;
        auto col         = [&] { return nc && r.chance(3, 4) ? int(r.below(size_t(nc))) : anyInt(); };
        if (e && e->clean && r.chance(1, 3)) {
            // complete the configuration with something valid
            e->clean = false;
            long n   = long(r.range(1, 30));
            call("encoder_set_row_count", MUST_OK, [&] { return odc_encoder_set_row_count(p, n); });
            e->nrows = n, e->nrowsFromArray = false;
            if (e->cols.size() < 3) {
                std::string nm = "v" + std::to_string(e->cols.size());
                int ty         = int(r.range(1, 5));
                call("encoder_add_column", MUST_OK, [&] { return odc_encoder_add_column(p, nm.c_str(), ty); });
                e->cols.emplace_back();
                e->cols.back().type = ty;
            }
            for (size_t k = 0; k < e->cols.size(); k++) {
                unsigned char* b = block(80 * 65);
                call("encoder_column_set_data_array", MUST_OK, [&] { return odc_encoder_column_set_data_array(p, int(k), 8, 8 * int(r.below(4)), b); });
            }
            opEncode(e);
            return;
        }
        switch (r.below(12)) {
            case 0: {
                bool n1 = r.chance(1, 10), n2 = r.chance(1, 10);
                std::string k = genString(r, 0, 20), v = genString(r, 0, 40);
                call("encoder_add_property", n1 || n2 ? MUST_FAIL : ok, [&] { return odc_encoder_add_property(p, n1 ? nullptr : k.c_str(), n2 ? nullptr : v.c_str()); });
                break;
            }
            case 1: {
                long n = r.chance(3, 4) ? long(r.below(40)) : r.pick(std::vector<long>{-1, LONG_MIN, 0});
                int rc = call("encoder_set_row_count", n < 0 ? MUST_FAIL : ok, [&] { return odc_encoder_set_row_count(p, n); });
                if (rc == 0 && e) e->nrows = n, e->nrowsFromArray = false;
                break;
            }
            case 2: {
                long n = r.pick(std::vector<long>{1, 2, 7, 10000, 0, -1, LONG_MIN, LONG_MAX});
                int rc = call("encoder_set_rows_per_frame", e ? (n <= 0 ? EITHER : MUST_OK) : MUST_FAIL, [&] { return odc_encoder_set_rows_per_frame(p, n); });
                if (rc == 0 && e) e->rpfBad = n <= 0;
                break;
            }
            case 3: {
                long w = r.pick(std::vector<long>{8, 16, 48, 64, 0, -8, 12}), hh = r.pick(std::vector<long>{1, 5, 40, 0, -1, LONG_MIN});
                int cm   = r.pick(std::vector<int>{0, 0, 8, 16, 4, -8, 7});
                bool bad = w < 0 || hh < 0 || cm < 0 || cm % 8;
                unsigned char* b = bad ? block(8) : block(size_t(w) * size_t(hh));
                bool null        = r.chance(1, 10);
                int rc = call("encoder_set_data_array", bad ? MUST_FAIL : ok, [&] { return odc_encoder_set_data_array(p, null ? nullptr : b, w, hh, cm); });
                if (e) {
                    // (a refused call may or may not have dropped the column arrays)
                    if (rc == 0) {
                        e->array = !null;
                        if (e->nrows == 0 || e->nrowsFromArray) e->nrows = hh, e->nrowsFromArray = true;
                    }
                    e->clean = false;
                }
                break;
            }
            case 4: case 5: {
                bool null = r.chance(1, 10);
                int ty    = r.chance(3, 4) ? int(r.range(1, 5)) : r.pick(std::vector<int>{0, 6, -1, INT_MIN, INT_MAX});
                std::set<std::string> used;
                std::string nm = r.chance(1, 2) ? "c" + std::to_string(r.below(6)) : uniqueName(r, used, GenOpts());
                int rc = call("encoder_add_column", null || ty < 1 || ty > 5 ? MUST_FAIL : ok, [&] { return odc_encoder_add_column(p, null ? nullptr : nm.c_str(), ty); });
                if (rc == 0 && e) {
                    e->cols.emplace_back();
                    e->cols.back().type = ty;
                }
                break;
            }
            case 6: {
                int k = col(), s = r.pick(std::vector<int>{0, 8, 16, 24, 7, -8, INT_MIN, 4, 80});
                int ex = k < 0 || k >= nc || s < 0 || s % 8 ? MUST_FAIL : ok;
                call("encoder_column_set_data_size", ex, [&] { return odc_encoder_column_set_data_size(p, k, s); });
                break;
            }
            case 7: case 8: {
                int k = col(), s = r.pick(std::vector<int>{0, 8, 16, 24, 8, 8, 7, -8, INT_MIN}), st = r.pick(std::vector<int>{0, 8, 16, 40, 8, 8, 9, -8, INT_MIN});
                bool bad = k < 0 || k >= nc || s < 0 || s % 8 || st < 0 || st % 8;
                size_t eb = s > 0 ? size_t(s) : 80, sb = st > 0 ? size_t(st) : 80;
                // (the size may be changed later by column_set_data_size, up to 80)
                bool null        = r.chance(1, 10);
                unsigned char* b = bad ? block(8) : block(std::max(sb, size_t(80)) * 64 + std::max(eb, size_t(80)));
                call("encoder_column_set_data_array", bad ? MUST_FAIL : ok, [&] { return odc_encoder_column_set_data_array(p, k, s, st, null ? nullptr : b); });
                break;
            }
            case 9: {
                int k    = col();
                int nb   = r.chance(1, 2) ? int(r.range(1, 12)) : r.pick(std::vector<int>{0, -1, 32, 33, INT_MAX, INT_MIN, 31});
                bool null = r.chance(1, 10);
                bool in   = k >= 0 && k < nc;
                bool bad  = !in || null || nb <= 0 || nb > 32 || e->cols[size_t(k)].nbits + nb > 32;
                std::string nm = "b" + std::to_string(r.below(5));
                // a name given twice, or a column of another type, may be refused
                int rc = call("encoder_column_add_bitfield", !e || bad ? MUST_FAIL : EITHER, [&] { return odc_encoder_column_add_bitfield(p, k, null ? nullptr : nm.c_str(), nb); });
                if (rc == 0 && in) e->cols[size_t(k)].nbits += nb;
                break;
            }
            case 10: opEncode(e); break;
            default:
                if (e) {
                    for (size_t k = 0; k < en.size(); k++)
                        if (en[k].get() == e) {
                            call("free_encoder", MUST_OK, [&] { return odc_free_encoder(p); });
                            en.erase(en.begin() + long(k));
                            break;
                        }
                }
                else call("free_encoder", EITHER, [&] { return odc_free_encoder(nullptr); });
        }
    }
    void opEncode(EncM* e) {
        odc_encoder_t* p = e ? e->p : nullptr;
        bool bad         = !e || e->cols.empty() || e->nrows == 0;
        long n           = -77;
        Bytes out;
        int rc;
        switch (r.below(4)) {
            case 0: {
                bool nul = r.chance(1, 8);
                rc       = call("encode_to_stream", bad || nul ? MUST_FAIL : EITHER, [&] {
                    return odc_encode_to_stream(p, &out, nul ? nullptr : +[](void* ctx, const void* b, long len) -> long {
                        auto o = static_cast<Bytes*>(ctx);
                        o->insert(o->end(), static_cast<const unsigned char*>(b), static_cast<const unsigned char*>(b) + len);
                        return len;
                    }, r.chance(1, 6) ? nullptr : &n);
                });
                break;
            }
            case 1: {
                std::string path = c.scratch + "/enc.odb";
                int fd           = r.chance(1, 4) ? r.pick(std::vector<int>{-1, 9999}) : open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
                bool badfd       = fd < 0 || fd >= 9999;
                rc = call("encode_to_file_descriptor", bad || badfd ? MUST_FAIL : EITHER, [&] { return odc_encode_to_file_descriptor(p, fd, &n); });
                if (!badfd) {
                    if (fcntl(fd, F_GETFD) < 0) ODV_FAIL(c, "encode_to_file_descriptor:closed", "the caller's descriptor was closed");
                    else close(fd);
                    readFile(path, out);
                    unlink(path.c_str());
                }
                break;
            }
            default: {
                long cap = r.pick(std::vector<long>{0, 1, 100, 100000, 100000, 100000, -1, LONG_MIN});
                unsigned char* b = block(cap > 0 ? size_t(cap) : 1);
                bool nul = r.chance(1, 10);
                rc = call("encode_to_buffer", bad || nul || cap <= 0 ? MUST_FAIL : EITHER, [&] { return odc_encode_to_buffer(p, nul ? nullptr : b, cap, &n); });
                if (rc == 0 && n >= 0 && n <= cap) out.assign(b, b + n);
                else if (rc == 0) ODV_FAIL(c, "encode_to_buffer:size", n << " bytes reported for a buffer of " << cap << ": " << log);
            }
        }
        if (rc && n != -77) ODV_FAIL(c, "encode:output", "a failed call stored a byte count: " << log);
        if (rc == 0) {
            c.stat("encodings by misused encoders that succeeded");
            if (n != -77 && size_t(n) != out.size()) ODV_FAIL(c, "encode:bytes", n << " bytes reported, " << out.size() << " delivered: " << log);
            try {
                auto fs   = refParse(out, true);
                long rows = 0;
                for (auto& f : fs) {
                    rows += f.nrows;
                    if (f.cols.size() != e->cols.size()) ODV_FAIL(c, "encode:columns", f.cols.size() << " columns written: " << log);
                }
                if (rows != e->nrows) ODV_FAIL(c, "encode:rows", rows << " rows written instead of " << e->nrows << ": " << log);
            }
            catch (std::exception& x) {
                ODV_FAIL(c, "encode:invalid", "success, but the bytes are not a valid file: " << x.what() << ": " << log);
            }
        }
    }
    void opSettings() {
        switch (r.below(9)) {
            case 0: {
                int v = r.chance(1, 2) ? (longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES) : anyInt();
                if (v == 1 || v == 2) v = longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES;  // (what is opened keeps its treatment)
                call("integer_behaviour", v == 1 || v == 2 ? MUST_OK : MUST_FAIL, [&] { return odc_integer_behaviour(v); });
                break;
            }
            case 1: {
                bool null = r.chance(1, 4);
                int n     = 0;
                int rc    = call("column_type_count", null ? MUST_FAIL : MUST_OK, [&] { return odc_column_type_count(null ? nullptr : &n); });
                if (rc == 0 && n != 6) ODV_FAIL(c, "column_type_count:value", n << " types");
                break;
            }
            case 2: {
                bool null     = r.chance(1, 6);
                int t         = r.chance(1, 2) ? int(r.below(7)) : anyInt();
                const char* s = nullptr;
                int rc        = call("column_type_name", null || t < 0 || t > 5 ? MUST_FAIL : MUST_OK, [&] { return odc_column_type_name(t, null ? nullptr : &s); });
                static const char* want[] = {"ignore", "integer", "real", "string", "bitfield", "double"};
                if (rc == 0 && (!s || strcmp(s, want[t]))) ODV_FAIL(c, "column_type_name:value", "type " << t << " is called " << (s ? s : "(null)"));
                break;
            }
            case 3: {
                bool null = r.chance(1, 4);
                long v    = 0;
                double w  = 0;
                int rc    = call("missing_integer", null ? MUST_FAIL : MUST_OK, [&] { return odc_missing_integer(null ? nullptr : &v); });
                if (rc == 0 && v != 2147483647) ODV_FAIL(c, "missing_integer:value", v);
                rc = call("missing_double", null ? MUST_FAIL : MUST_OK, [&] { return odc_missing_double(null ? nullptr : &w); });
                if (rc == 0 && w != -2147483647) ODV_FAIL(c, "missing_double:value", w);
                break;
            }
            case 4: {
                bool null     = r.chance(1, 4);
                const char* s = nullptr;
                int rc        = call("version", null ? MUST_FAIL : MUST_OK, [&] { return odc_version(null ? nullptr : &s); });
                if (rc == 0 && (!s || !*s)) ODV_FAIL(c, "version:value", "empty");
                s  = nullptr;
                rc = call("vcs_version", null ? MUST_FAIL : MUST_OK, [&] { return odc_vcs_version(null ? nullptr : &s); });
                if (rc == 0 && !s) ODV_FAIL(c, "vcs_version:value", "null");
                break;
            }
            case 5: {
                for (int k : {0, 1, 2, 3, 4, -1, INT_MAX, INT_MIN}) {
                    const char* s = odc_error_string(k);
                    if (!s) ODV_FAIL(c, "error_string:null", "no text for code " << k);
                    else if (k < 2 && k >= 0 && !*s) ODV_FAIL(c, "error_string:empty", "empty text for code " << k);
                }
                break;
            }
            case 6: call("initialise_api", MUST_OK, [] { return odc_initialise_api(); }); break;
            default: {
                // another handler, or none
                int w = int(r.below(3));
                int o = which;
                odc_set_failure_handler(w == 2 ? nullptr : onFailure, w == 2 ? nullptr : &g_h[w]);
                handler = w != 2;
                which   = w == 2 ? o : w;
                g_h[0] = g_h[1] = Handler();
            }
        }
    }
};
}  // namespace
void odvInit() {}
void odvCase(Ctx& c) {
    World w(c);
    Rng& r = c.rng;
    // files: runs of frames with the same columns, the last one damaged at its end
    size_t nf = size_t(r.range(2, 3));
    for (size_t i = 0; i < nf; i++) {
        std::unique_ptr<Bytes> b(new Bytes);
        size_t runs = size_t(r.range(1, 3));
        for (size_t k = 0; k < runs; k++) {
            GenOpts g;
            g.maxRows = 50;
            g.maxCols = 4;
            Tab t     = genTable(r, g);
            genProps(r, t);
            EncOpts o;
            o.rowsPerFrame = r.pick(std::vector<long>{1000, 7, 20, 1});
            EncResult e    = encodeC(t, o);
            if (e.rc) {
                ODV_FAIL(c, "setup:encode", e.err << describe(t));
                return;
            }
            b->insert(b->end(), e.bytes.begin(), e.bytes.end());
        }
        std::vector<RefFrame> fs;
        try {
            fs = refParse(*b, true);
        }
        catch (std::exception& x) {
            ODV_FAIL(c, "setup:parse", x.what());
            return;
        }
        for (auto& f : fs) w.maxRows = std::max(w.maxRows, size_t(f.nrows));
        if (i + 1 == nf) {
            const RefFrame& l = fs.back();
            w.cutOf  = l.len;
            w.cutLen = 1 + r.below(l.len - 1);
            b->resize(l.off + w.cutLen);
            b->shrink_to_fit();
            fs.pop_back();
        }
        w.parsed.push_back(fs);
        w.paths.push_back(c.scratch + "/f" + std::to_string(i) + ".odb");
        writeFile(w.paths.back(), *b);
        w.files.push_back(std::move(b));
    }
    w.which   = 0;
    w.handler = true;
    odc_set_failure_handler(onFailure, &g_h[0]);
    w.longs = r.chance(1, 2);
    odc_integer_behaviour(w.longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    size_t ops = size_t(r.range(40, 160));
    for (size_t i = 0; i < ops; i++) {
        switch (r.below(16)) {
            case 0: case 1: w.opOpen(); break;
            case 2: case 3: w.opNewFrame(); break;
            case 4: case 5: case 6: w.opNext(); break;
            case 7: case 8: case 9: w.opFrameQuery(); break;
            case 10: case 11: w.opDecoder(); break;
            case 12: w.opDecode(); break;
            case 13: case 14: w.opEncoder(); break;
            default:
                if (r.chance(1, 3)) w.opSettings();
                else if (r.chance(1, 6) && !w.rd.empty()) w.closeReader(r.below(w.rd.size()));
                else if (!w.fm.empty()) {
                    odc_set_failure_handler(nullptr, nullptr);
                    w.checkFrame(w.fm[r.below(w.fm.size())].get());
                    odc_set_failure_handler(w.handler ? onFailure : nullptr, w.handler ? &g_h[w.which] : nullptr);
                }
        }
    }
    odc_set_failure_handler(nullptr, nullptr);
    w.handler = false;
    for (auto& f : w.fm) w.checkFrame(f.get());
    // a fresh encoding and decoding work
    {
        GenOpts g;
        g.maxRows   = 10;
        Tab t       = genTable(r, g);
        EncResult e = encodeC(t);
        if (e.rc) ODV_FAIL(c, "later:encode", e.err << describe(t));
        else {
            ReadResult x = readC(e.bytes);
            std::string d = x.rc ? x.err : diffCells(t, concat(x.frames));
            if (!d.empty()) ODV_FAIL(c, "later:roundtrip", d);
        }
    }
    // everything can be freed, in any order the contract allows
    while (!w.de.empty() || !w.en.empty() || !w.rd.empty() || !w.fm.empty()) {
        switch (r.below(4)) {
            case 0:
                if (!w.de.empty()) {
                    size_t k = r.below(w.de.size());
                    auto p   = w.de[k]->p;
                    w.call("free_decoder", World::MUST_OK, [&] { return odc_free_decoder(p); });
                    w.de.erase(w.de.begin() + long(k));
                }
                break;
            case 1:
                if (!w.en.empty()) {
                    size_t k = r.below(w.en.size());
                    auto p   = w.en[k]->p;
                    w.call("free_encoder", World::MUST_OK, [&] { return odc_free_encoder(p); });
                    w.en.erase(w.en.begin() + long(k));
                }
                break;
            case 2:
                if (!w.fm.empty()) {
                    size_t k = r.below(w.fm.size());
                    auto p   = w.fm[k]->p;
                    w.call("free_frame", World::MUST_OK, [&] { return odc_free_frame(p); });
                    w.fm.erase(w.fm.begin() + long(k));
                }
                break;
            default:
                if (!w.rd.empty()) w.closeReader(r.below(w.rd.size()));
        }
    }
    c.sig(w.h);
    c.sample(w.log);
}
}  // namespace odv
