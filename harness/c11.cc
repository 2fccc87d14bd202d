// C11: no input bytes can cause memory errors, undefined behaviour or hangs.
#include <sys/stat.h>
#include <algorithm>
#include <atomic>
#include <new>
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "hostile.h"
#include "iface.h"
#include "odc/api/Odb.h"
#include "odc/api/odc.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
// Allocations far out of proportion to the inputs (all below 1 MB) must fail cleanly: they do not succeed here.
static std::atomic<unsigned long> g_refused{0};
static void* odvAlloc(size_t n) {
    if (n > (size_t(256) << 20)) {
        g_refused++;
        throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return odvAlloc(n); }
void* operator new[](size_t n) { return odvAlloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#define HAVE_REFUSED 1
#endif
#endif

using namespace odv;
namespace odv {
const char* odvName() { return "C11"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
namespace {
template <class F>
bool attempt(F f) {
    try {
        f();
        return true;
    }
    catch (std::exception&) {
        return false;
    }
}
uint64_t touch(const Tab& t) {
    return hashTab(t);
}
}  // namespace
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    GenOpts g;
    g.maxRows = 20;
    g.maxCols = 5;
    bool tools = c.idx % 16 == 3;
    g.weirdNames = !tools;
    g.simpleStrings = tools;
    Bytes file;
    Tab t;
    size_t nf = size_t(r.range(1, 3));
    t         = genTable(r, g);
    for (size_t k = 0; k < nf; k++) {
        Tab s = k && r.chance(1, 3) ? genTable(r, g) : t;
        Bytes b;
        if (r.chance(2, 3)) {
            RefWrite w;
            w.big     = r.chance(1, 4);
            w.markers = int(r.below(3));
            b         = refWriteFrame(r, s, w);
        }
        else
            b = encodeC(s).bytes;
        file.insert(file.end(), b.begin(), b.end());
    }
    std::vector<RefFrame> fs = refParse(file, false);
    std::string what;
    Bytes bad;
    if (r.chance(1, 60)) {
        bad.resize(r.below(300));
        for (auto& x : bad) x = (unsigned char)(r.below(256));
        what = "random bytes";
    }
    else
        bad = damage(r, file, fs, what);
    if (r.chance(1, 10)) {
        std::string w2;
        std::vector<RefFrame> none;
        if (bad.size() < 200000) bad = damage(r, bad, none, w2), what += " and " + w2;
    }
    c.keep("bad.odb", bad);
    std::string path = c.scratch + "/bad.odb";
    writeFile(path, bad);
    std::string how = " [" + what + "]";
    uint64_t ok = 0, refused = 0;
    auto note = [&](bool x) { (x ? ok : refused)++; };
    // C interface
    for (int pass = 0; pass < 2; pass++) {
        ReadOpts ro;
        ro.source     = int(r.below(4));
        ro.aggregated = pass == 1;
        ro.maxRows    = r.chance(1, 3) ? r.range(1, 30) : -1;
        ro.scratch    = c.scratch;
        ro.dec        = genDec(r, 4);
        ro.dec.threads = pass ? int(r.range(1, 3)) : 1;
        ReadResult R;
        try {
            R = readC(bad, ro);
        }
        catch (std::bad_alloc&) {  // the harness's own arrays
            note(false);
            continue;
        }
        for (auto& f : R.frames) touch(f);
        if (R.rc && R.err.empty()) c.viol("no-message", "an error without a message" + how);
        if (!R.guardOk && R.guardMsg.find("NUL padded") == std::string::npos) c.viol("guard", R.guardMsg + how);
        note(R.rc == 0);
    }
    // frames kept and used out of order, properties asked for
    attempt([&] {
        odc_reader_t* rd = nullptr;
        odc_frame_t* fr  = nullptr;
        std::vector<odc_frame_t*> cp;
        if (odc_open_buffer(&rd, bad.data(), long(bad.size())) == 0) {
            if (odc_new_frame(&fr, rd) == 0) {
                for (int k = 0; k < 50 && odc_next_frame(fr) == 0; k++) {
                    odc_frame_t* q = nullptr;
                    if (odc_copy_frame(fr, &q) == 0) cp.push_back(q);
                    const char* v = nullptr;
                    odc_frame_property(fr, "encoder", &v);
                }
                while (!cp.empty()) {
                    Tab m;
                    std::string e;
                    metaC(cp.back(), m, e);
                    decodeC(cp.back());
                    odc_free_frame(cp.back());
                    cp.pop_back();
                }
                odc_free_frame(fr);
            }
            odc_close(rd);
        }
    });
    // C++ frames: encoded bytes, spans, filters
    CppOpts co;
    co.aggregated = r.chance(1, 2);
    co.longs      = r.chance(1, 2);
    co.source     = int(r.below(2));
    co.reverse    = r.chance(1, 3);
    CppRead cr    = readCpp(path, co);
    note(cr.err.empty());
    for (auto& f : cr.frames) touch(f.tab);
    std::vector<std::string> names;
    for (auto& k : t.c) names.push_back(k.name);
    note(attempt([&] { spansCpp(path, co, names, r.chance(1, 2)); }));
    if (r.chance(1, 2)) {
        std::string sql = r.chance(1, 2) ? "select *" : "select * where \"" + t.c[r.below(t.c.size())].name + "\" is not null";
        note(frameFilterCpp(path, co, sql).err.empty());
        note(attempt([&] { filterCpp(sql, path, c.scratch + "/fo.odb"); }));
    }
    // rows
    RowRead rr = readRows(path, r.chance(1, 2));
    for (auto& s : rr.segs) touch(s);
    note(rr.err.empty());
    if (r.chance(1, 2)) {
        RowRead sr = selectRows("select * from \"" + path + "\"");
        for (auto& s : sr.segs) touch(s);
        note(sr.err.empty());
        note(attempt([&] { copyRows(path, c.scratch + "/cp.odb", r.chance(1, 2) ? r.range(1, 9) : 0, r.chance(1, 2)); }));
    }
    if (tools) {
        std::vector<std::vector<std::string>> cmds{{"count", "bad.odb"},
                                                   {"ls", "bad.odb"},
                                                   {"header", "bad.odb"},
                                                   {"header", "-offsets", "bad.odb"},
                                                   {"header", "-ddl", "-table", "foo", "bad.odb"},
                                                   {"index", "bad.odb", "bad.idx"},
                                                   {"sql", "select *", "-i", "bad.odb"},
                                                   {"sql", "select distinct *", "-i", "bad.odb", "-f", "odb", "-o", "s.odb"},
                                                   {"compact", "bad.odb", "c.odb"},
                                                   {"fixrowsize", "bad.odb", "x.odb"},
                                                   {"set", t.c[0].name + "=1", "bad.odb", "st.odb"},
                                                   {"mdset", t.c[0].name + ":REAL", "bad.odb", "md.odb"},
                                                   {"merge", "-o", "m.odb", "bad.odb", "bad.odb"},
                                                   {"split", "bad.odb", "sp.{" + t.c[0].name + "}.odb"},
                                                   {"compare", "bad.odb", "bad.odb"}};
        for (auto& cmd : cmds) {
            if (r.chance(1, 2)) continue;
            Proc p = odcTool(c, cmd, c.scratch);
            bool oom = p.err.find("requested allocation size") != std::string::npos || p.err.find("out of memory") != std::string::npos || p.err.find("allocation-size-too-big") != std::string::npos;
            if (p.timeout)
                c.viol("tool-hang:" + cmd[0], "no end after 60 s" + how);
            else if (p.sanitizer && !oom) {
                std::string m = p.err;
                size_t at     = std::min(m.find("ERROR: "), m.find("runtime error"));
                if (at == std::string::npos) at = 0;
                c.viol("tool-sanitizer:" + cmd[0], m.substr(at, 2500) + how);
            }
            else if (p.rc >= 128 && !oom)
                c.viol("tool-signal:" + cmd[0], "exit " + std::to_string(p.rc) + ": " + p.err.substr(p.err.size() > 1200 ? p.err.size() - 1200 : 0) + how);
            note(p.rc == 0);
            c.stat("tools run on damaged files");
        }
    }
    c.stat("readings that succeeded", ok);
    c.stat("readings that were refused", refused);
#ifdef HAVE_REFUSED
    c.stat("oversized allocations refused", g_refused.exchange(0));
#endif
    c.sig(mix(hashStr(what.substr(0, 40)), shapeSig(t)));
    c.sample(how);
}
}  // namespace odv
