// C15: decoding a selection of columns by name returns exactly those columns.
#include <algorithm>
#include "eckit/io/MemoryHandle.h"
#include "iface.h"
#include "odc/api/Odb.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C15"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
namespace {
std::string prefix(const std::string& s) { return s.substr(0, s.find('@')); }
// the column a name stands for: -1 none, -2 ambiguous
int resolve(const Tab& t, const std::string& n) {
    int k = t.find(n);
    if (k >= 0) return k;
    k = -1;
    for (size_t i = 0; i < t.c.size(); i++)
        if (prefix(t.c[i].name) == n) k = k == -1 ? int(i) : -2;
    return k;
}
void rename(Rng& r, Tab& t) {
    static const std::vector<std::string> B = {"a", "b", "ab", "abc", "a1", "A", "lat", "lat_2", "x y"}, S = {"@hdr", "@body", "", "@h", "@hdr2", "@hdr@1", "@"};
    std::set<std::string> used;
    for (auto& k : t.c) {
        std::string n = k.name;
        if (r.chance(4, 5)) n = r.pick(B) + r.pick(S);
        while (used.count(n)) n = r.pick(B) + std::to_string(r.below(50)) + r.pick(S);
        used.insert(n);
        k.name = n;
    }
}
// a name which denotes no column of t, or several
std::string badName(Rng& r, const Tab& t, std::string& kind) {
    for (int i = 0; i < 20; i++) {
        std::string n = t.c[r.below(t.c.size())].name;
        switch (r.below(9)) {
            case 0: n = prefix(n), kind = "short"; break;
            case 1: n += "x", kind = "extended"; break;
            case 2: n = n.substr(0, n.size() - 1), kind = "shortened"; break;
            case 3: n = prefix(n) + "@", kind = "empty suffix"; break;
            case 4: n = prefix(n) + "@other", kind = "other suffix"; break;
            case 5: n = "zz" + n, kind = "prefixed"; break;
            case 6:
                for (auto& x : n) x = char(isupper(x) ? tolower(x) : toupper(x));
                kind = "case";
                break;
            case 7: n = n.find('@') == std::string::npos ? n : n.substr(n.find('@')), kind = "suffix only"; break;
            default: n = "", kind = "empty";
        }
        if (resolve(t, n) < 0) return kind = resolve(t, n) == -2 ? "ambiguous" : kind, n;
    }
    kind = "absent";
    return "no such column";
}
struct Req {
    std::vector<std::string> names;
    std::vector<int> idx;  // into the columns of the frame
    std::string bad;       // kind of an unusable name
};
Req request(Rng& r, const Tab& t, bool allowBad) {
    Req q;
    std::vector<int> p;
    for (size_t i = 0; i < t.c.size(); i++) p.push_back(int(i));
    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
    p.resize(size_t(r.range(1, long(p.size()))));
    for (int k : p) {
        std::string n = t.c[size_t(k)].name, s = prefix(n);
        if (r.chance(1, 2) && resolve(t, s) == k) n = s;
        q.names.push_back(n);
        q.idx.push_back(k);
    }
    if (allowBad && r.chance(1, 5)) {
        size_t at   = r.below(q.names.size());
        q.names[at] = badName(r, t, q.bad);
        q.idx[at]   = -1;
    }
    else if (allowBad && r.chance(1, 25) && q.names.size() < t.c.size()) {  // the same column twice
        size_t at     = r.below(q.names.size());
        std::string n = t.c[size_t(q.idx[at])].name;
        if (r.chance(1, 2) && resolve(t, prefix(n)) == q.idx[at]) n = prefix(n);
        q.names.insert(q.names.begin() + long(r.below(q.names.size() + 1)), n);
        q.bad = "twice";
    }
    return q;
}
std::string list(const Req& q) {
    std::string s = " request";
    for (auto& n : q.names) s += " " + show(n);
    return s + (q.bad.empty() ? "" : " (" + q.bad + ")");
}
// rows of the stored frames, by name, that a delivered frame must hold
struct Walk {
    std::vector<Tab> fr;
    size_t at = 0;
    bool take(const Tab& meta, Tab& out) {
        out = Tab();
        while (out.n < meta.n || (meta.n == 0 && out.c.empty())) {
            if (at >= fr.size()) return false;
            if (out.c.empty())
                out = fr[at];
            else {
                for (auto& k : out.c)
                    if (fr[at].find(k.name) < 0) return false;
                if (out.c.size() != fr[at].c.size()) return false;
                out.append(fr[at]);
            }
            at++;
        }
        return out.n == meta.n;
    }
};
std::string diffSel(const Tab& all, const Req& q, const Tab& got) {
    if (got.c.size() != q.names.size()) return "number of columns";
    for (size_t i = 0; i < q.names.size(); i++) {
        int k = resolve(all, q.names[i]);
        if (k < 0) return "expectation";
        const Col& e = all.c[size_t(k)];
        for (size_t x = 0; x < all.n; x++)
            if (!cellEq(e, x, got.c[i], x, false))
                return "requested " + show(q.names[i]) + " row " + std::to_string(x) + " of " + std::to_string(all.n) + ": " + cellStr(got.c[i], x) + " instead of " + cellStr(e, x);
    }
    return "";
}
struct Lib {
    odc_reader_t* r = nullptr;
    odc_frame_t* f  = nullptr;
    odc_decoder_t* d = nullptr;
    ~Lib() {
        if (d) odc_free_decoder(d);
        if (f) odc_free_frame(f);
        if (r) odc_close(r);
    }
};
// C++ decoder with memory of its own per column
std::string cppDecode(odc::api::Frame& f, const Tab& meta, const Req& q, bool longs, size_t threads, Rng& r, Tab& got) {
    std::vector<std::unique_ptr<unsigned char[]>> mem;
    std::vector<odc::api::StridedData> sd;
    std::vector<size_t> st;
    for (int k : q.idx) {
        size_t w = k < 0 ? 64 : meta.c[size_t(k)].width, s = w + 8 * r.below(3);
        mem.emplace_back(new unsigned char[std::max<size_t>(1, s * meta.n)]);
        memset(mem.back().get(), 0xA5, std::max<size_t>(1, s * meta.n));
        sd.emplace_back(mem.back().get(), meta.n, w, s);
        st.push_back(s);
    }
    if (q.bad == "twice") {
        sd.clear(), st.clear(), mem.clear();
        for (size_t i = 0; i < q.names.size(); i++) {
            size_t w = meta.c[size_t(resolve(meta, q.names[i]))].width;
            mem.emplace_back(new unsigned char[std::max<size_t>(1, w * meta.n)]);
            sd.emplace_back(mem.back().get(), meta.n, w, w);
            st.push_back(w);
        }
    }
    try {
        odc::api::Decoder d(q.names, sd);
        d.decode(f, threads);
    }
    catch (std::exception& e) {
        return e.what();
    }
    if (!q.bad.empty()) return "";
    got   = Tab();
    got.n = meta.n;
    for (size_t i = 0; i < q.idx.size(); i++) {
        Col c = meta.c[size_t(q.idx[i])];
        c.resize(meta.n);
        for (size_t x = 0; x < meta.n; x++) {
            const unsigned char* p = mem[i].get() + x * st[i];
            if (c.isStr())
                c.s[x] = std::string(reinterpret_cast<const char*>(p), strnlen(reinterpret_cast<const char*>(p), c.width));
            else if (c.isInt() && longs) {
                int64_t v;
                memcpy(&v, p, 8);
                c.d[x] = double(v);
            }
            else
                memcpy(&c.d[x], p, 8);
            c.miss[x] = 0;
        }
        got.c.push_back(c);
    }
    return "";
}
}  // namespace
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    FileOpts fo;
    fo.g.minCols = r.chance(1, 8) ? 1 : 2;
    fo.g.maxCols = r.chance(1, 6) ? 20 : 7;
    fo.g.maxRows = 30;
    fo.g.maxCols = std::max(fo.g.maxCols, fo.g.minCols);
    fo.g.manyCols = 300;
    Tab base     = genTable(r, fo.g);
    rename(r, base);
    fo.base      = &base;
    fo.maxFrames = 8;
    fo.schema    = r.chance(1, 3);
    fo.types     = fo.schema;
    std::vector<RefFrame> fs;
    std::string how;
    Bytes b = genFile(c, fo, fs, how);
    std::vector<Tab> stored;
    for (auto& f : fs) stored.push_back(flattened(f));
    c.sig(mix(shapeSig(base), fs.size()));

    auto flat = [](Tab t) { return flattened(t); };
    // C: any layout, fresh decoder per frame
    for (int agg = 0; agg < 2; agg++) {
        bool longs = r.chance(1, 2);
        odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        Lib L;
        if (odc_open_buffer(&L.r, b.data(), long(b.size())) || odc_new_frame(&L.f, L.r)) return c.viol("open", how);
        Walk w;
        w.fr    = stored;
        long lim = agg && r.chance(1, 3) ? r.range(1, 60) : -1;
        int rc;
        while ((rc = agg ? odc_next_frame_aggregated(L.f, lim) : odc_next_frame(L.f)) == 0) {
            Tab meta, all;
            std::string e;
            if (metaC(L.f, meta, e)) return c.viol("meta", e + how);
            if (!w.take(meta, all)) return c.viol("frames", "rows do not match the stored frames" + how);
            int n = int(r.range(1, 3));
            for (int k = 0; k < n; k++) {
                Req q     = request(r, meta, true);
                DecOpts d = genDec(r, meta.c.size());
                d.longs   = longs;
                d.select  = q.names;
                d.strides.resize(q.names.size() + 1);
                if (r.chance(1, 4)) d.threads = int(r.range(2, 5));
                DecResult g = decodeC(L.f, d);
                std::string h = list(q) + " " + decStr(d) + (agg ? " aggregated" : "") + how;
                if (!g.guardOk) c.viol("c-guard", g.guardMsg + h);
                if (!q.bad.empty()) {
                    if (!g.rc) c.viol("c-accepted:" + q.bad, "the request succeeded" + h);
                    c.stat("requests which must fail: " + q.bad);
                    continue;
                }
                std::string df = g.rc ? g.err : diffSel(all, q, flat(g.t));
                if (!df.empty()) c.viol(g.rc ? "c-refused" : "c-cells", df + h);
                c.stat("selections compared");
                c.stat("cells compared", all.n * q.names.size());
            }
        }
        if (rc != ODC_ITERATION_COMPLETE) c.viol("end", std::string("code ") + odc_error_string(rc) + how);
    }
    // C: one decoder with a fixed list of columns, used for all frames
    {
        odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
        bool agg = r.chance(1, 2);
        Req q    = request(r, stored[r.below(stored.size())], r.chance(1, 4));
        if (q.bad == "twice") q.names.clear();
        Lib L;
        int rc = 0;
        if (odc_open_buffer(&L.r, b.data(), long(b.size())) || odc_new_frame(&L.f, L.r) || odc_new_decoder(&L.d)) return c.viol("open", how);
        for (auto& n : q.names) rc |= odc_decoder_add_column(L.d, n.c_str());
        if (rc) return c.viol("add", how);
        bool cm = r.chance(1, 2);
        odc_decoder_set_column_major(L.d, cm);
        Walk w;
        w.fr = stored;
        while (!q.names.empty() && (agg ? odc_next_frame_aggregated(L.f, -1) : odc_next_frame(L.f)) == 0) {
            Tab meta, all;
            std::string e;
            if (metaC(L.f, meta, e)) return c.viol("meta", e + how);
            if (!w.take(meta, all)) return c.viol("frames", "rows do not match the stored frames" + how);
            bool ok = true;
            std::set<int> which;
            for (auto& n : q.names) ok = ok && resolve(meta, n) >= 0 && which.insert(resolve(meta, n)).second;
            std::string h = list(q) + (agg ? " aggregated" : "") + (cm ? " by one column-major decoder" : " by one decoder") + how;
            long got      = 0;
            odc_decoder_set_row_count(L.d, long(meta.n));
            rc = r.chance(1, 4) ? odc_decode_threaded(L.d, L.f, &got, 3) : odc_decode(L.d, L.f, &got);
            if (!ok) {
                if (!rc) c.viol("reused-accepted", "the request succeeded" + h);
                c.stat("failures by a decoder used for several frames");
                continue;
            }
            if (rc || size_t(got) != meta.n) {
                c.viol("reused-refused", (rc ? std::string(odc_error_string(rc)) : "rows " + std::to_string(got)) + h);
                continue;
            }
            Tab t;
            t.n = meta.n;
            for (size_t i = 0; i < q.names.size() && meta.n; i++) {
                const void* p = nullptr;
                int es = 0, st = 0;
                if (odc_decoder_column_data_array(L.d, int(i), &es, &st, &p)) return c.viol("reused-array", h);
                Col k = meta.c[size_t(resolve(meta, q.names[i]))];
                k.resize(meta.n);
                for (size_t x = 0; x < meta.n; x++) {
                    const char* a = static_cast<const char*>(p) + x * size_t(st);
                    if (k.isStr()) {
                        std::string v(a, size_t(es));
                        for (size_t j = 0; cm && j < v.size() / 8; j++)  // column-major: each element is a column of 8 byte words
                            v.replace(j * 8, 8, std::string(static_cast<const char*>(p) + (j * meta.n + x) * 8, 8));
                        k.s[x] = v.substr(0, v.find('\0'));
                    }
                    else if (k.isInt()) {
                        int64_t v;
                        memcpy(&v, a, 8);
                        k.d[x] = double(v);
                    }
                    else
                        memcpy(&k.d[x], a, 8);
                }
                t.c.push_back(k);
            }
            if (meta.n) {
                std::string df = diffSel(all, q, t);
                if (!df.empty()) c.viol("reused-cells", df + h);
            }
            c.stat("selections by a decoder used for several frames");
        }
    }
    // C++
    {
        bool longs = r.chance(1, 2), agg = r.chance(2, 3);
        odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        odc::api::Reader rd(new eckit::MemoryHandle(b.data(), b.size()), agg);
        Walk w;
        w.fr = stored;
        while (odc::api::Frame f = rd.next()) {
            Tab meta, all;
            for (auto& ci : f.columnInfo()) {
                Col k;
                k.name  = ci.name;
                k.type  = int(ci.type);
                k.width = ci.decodedSize;
                meta.c.push_back(k);
            }
            meta.n = f.rowCount();
            if (!w.take(meta, all)) return c.viol("frames", "rows do not match the stored frames" + how);
            Req q = request(r, meta, true);
            Tab got;
            std::string e = cppDecode(f, meta, q, longs, size_t(r.range(1, 4)), r, got), h = list(q) + (agg ? " aggregated" : "") + " C++" + how;
            if (!q.bad.empty()) {
                if (e.empty()) c.viol("cpp-accepted:" + q.bad, "the request succeeded" + h);
                c.stat("requests which must fail: " + q.bad);
                continue;
            }
            if (e.empty()) {
                e = diffSel(all, q, got);
                if (!e.empty()) c.viol("cpp-cells", e + h);
            }
            else
                c.viol("cpp-refused", e + h);
            c.stat("selections compared");
        }
    }
    c.sample(how);
}
}  // namespace odv
