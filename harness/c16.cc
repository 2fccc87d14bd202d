// C16: metadata survives - names, types, sizes, bitfields, properties, counts.
#include <algorithm>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/MemoryHandle.h"
#include "iface.h"
#include "odc/ODBAPISettings.h"
#include "odc/Reader.h"
#include "odc/LibOdc.h"
#include "odc/Writer.h"
#include "odc/api/Odb.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C16"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
namespace {
typedef std::map<std::string, std::string> Props;
std::string bytesStr(Rng& r, size_t lo, size_t hi, bool nul) {
    std::string s = genString(r, lo, hi);
    if (nul && r.chance(1, 4) && !s.empty()) s[r.below(s.size())] = '\0';
    return s;
}
void metaTable(Rng& r, Tab& t, bool nul, bool big) {
    GenOpts g;
    g.minRows = 1;
    g.maxRows = 12;
    g.maxCols = big ? 150 : r.chance(1, 6) ? 30 : 6;
    t         = genTable(r, g);
    std::set<std::string> used;
    for (auto& k : t.c) used.insert(k.name);
    for (auto& k : t.c) {
        if (r.chance(1, big ? 30 : 6)) {
            std::string n = genString(r, 1, big && r.chance(1, 4) ? 20000 : 60);
            if (used.insert(n).second) k.name = n;
        }
        if (k.type == BITFIELD && r.chance(1, 2)) {  // members of any name, up to 31 bits in total
            k.bits.clear();
            int left = int(r.range(1, 31));
            std::set<std::string> un;
            bool single = r.chance(1, 4);
            while (left > 0) {
                int w         = single ? 1 : int(r.range(1, left));
                std::string n = r.chance(1, 8) ? "" : genString(r, 0, r.chance(1, 10) ? 300 : 12);
                while (!un.insert(n).second) n += std::to_string(un.size());
                k.bits.push_back({n, w});
                left -= w;
                if (r.chance(1, 12)) break;
            }
            for (auto& d : k.d) d = double(r.below(2));
        }
    }
    t.props.clear();
    size_t n = big ? size_t(r.range(0, 400)) : r.chance(1, 10) ? size_t(r.range(5, 60)) : r.below(5);
    for (size_t i = 0; i < n; i++) {
        std::string k = r.chance(1, 12) ? r.pick(std::vector<std::string>{"", "Encoder", "encoder ", "a", "A", "b"}) : bytesStr(r, 0, 14, nul);
        t.props[k]    = bytesStr(r, 0, r.chance(1, 15) ? (big ? 200000 : 3000) : 20, nul);
    }
}
std::string diffP(const Props& e, const Props& g) {
    for (auto& kv : e) {
        auto i = g.find(kv.first);
        if (i == g.end()) return "property " + show(kv.first) + " is absent";
        if (i->second != kv.second) return "property " + show(kv.first) + " is " + show(i->second) + " instead of " + show(kv.second);
    }
    for (auto& kv : g)
        if (!e.count(kv.first) && kv.first != "encoder") return "property " + show(kv.first) + " = " + show(kv.second) + " was not supplied";
    return "";
}
std::string diffM(const Tab& e, const Tab& g) {
    if (e.n != g.n) return "row count " + std::to_string(g.n) + " instead of " + std::to_string(e.n);
    std::string d = diffMeta(e, g, false);
    return d.empty() ? diffP(e.props, g.props) : d;
}
size_t longest(const Tab& t, size_t i) {
    size_t m = 0;
    for (auto& s : t.c[i].s) m = std::max(m, s.size());
    return m;
}
std::string sizes(const Tab& e, const Tab& g) {
    for (size_t i = 0; i < e.c.size(); i++) {
        size_t w = g.c[i].width;
        if (w != (!e.c[i].isStr() ? 8 : std::max<size_t>(8, (longest(e, i) + 7) / 8 * 8))) return "column " + std::to_string(i) + ": element size " + std::to_string(w);
    }
    return "";
}
Tab fromCpp(const odc::api::Frame& f, std::string& err) {
    Tab t;
    for (auto& ci : f.columnInfo()) {
        Col k;
        k.name  = ci.name;
        k.type  = int(ci.type);
        k.width = ci.decodedSize;
        int off = 0;
        for (auto& b : ci.bitfield) {
            if (b.offset != off) err = "bitfield member offset " + std::to_string(b.offset) + " instead of " + std::to_string(off);
            off += b.size;
            k.bits.push_back({b.name, b.size});
        }
        t.c.push_back(k);
    }
    t.n     = f.rowCount();
    t.props = f.properties();
    if (f.columnCount() != t.c.size()) err = "columnCount";
    return t;
}
// the expected metadata of consecutive frames
struct Expect {
    std::vector<Tab> fr;
    // frames [a, b) read as one
    Tab join(size_t a, size_t b) const {
        Tab t = fr[a];
        for (size_t i = a + 1; i < b; i++) {
            t.append(fr[i]);
            t.props.insert(fr[i].props.begin(), fr[i].props.end());
        }
        return t;
    }
};
}  // namespace
void odvCase(Ctx& c) {
    Rng& r   = c.rng;
    bool big = r.chance(1, 40), nul = r.chance(1, 4);
    int how  = int(r.below(4));  // 0 C, 1 C++, 2 rows, 3 mixture
    if (nul) how = 1;
    Tab base;
    metaTable(r, base, nul, big);
    Expect E;
    Bytes file;
    std::vector<Tab> parts;
    int F = big ? int(r.range(1, 2)) : int(r.range(1, 5));
    std::string path = c.scratch + "/m.odb";
    // the buffer in which headers are made: of any size, it grows
    size_t hb = r.chance(1, 3) ? 4 << 20 : size_t(r.chance(1, 3) ? r.range(1, 200) : r.range(100, 4000));
    odc::ODBAPISettings::instance().headerBufferSize(hb);
    if (hb < 4000) c.stat("small header buffers");
    std::vector<bool> ours;
    for (int f = 0; f < F; f++) {
        Tab t = base;
        if (f) {
            std::vector<size_t> idx;
            for (long k = r.range(1, 10); k > 0; k--) idx.push_back(r.below(base.n));
            t = base.rows(idx);
            if (r.chance(3, 4)) {  // other properties, some keys again with other values
                Props p;
                for (auto& kv : base.props)
                    if (r.chance(1, 2)) p[kv.first] = r.chance(1, 2) ? kv.second : bytesStr(r, 0, 9, nul);
                for (size_t k = r.below(4); k > 0; k--) p[bytesStr(r, 0, 6, nul)] = bytesStr(r, 0, 9, nul);
                t.props = p;
            }
            else
                t.props = base.props;
            if (r.chance(1, 6)) {
                Tab o;
                metaTable(r, o, nul, false);
                t = o;
            }
            else if (r.chance(1, 4))
                for (size_t i = t.c.size(); i > 1; i--) std::swap(t.c[i - 1], t.c[r.below(i)]);
        }
        Bytes b;
        int way = how == 3 ? int(r.below(4)) : how;
        ours.push_back(way < 2);
        switch (way) {
            case 0: {
                EncOpts eo       = genEnc(r, t);
                eo.rowsPerFrame  = 0;
                EncResult x      = encodeC(t, eo);
                if (x.rc) return c.viol("encode", x.err);
                b = x.bytes;
                break;
            }
            case 1:
                encodeCpp(t, path, 100000, r.chance(1, 2));
                readFile(path, b);
                break;
            case 2: {
                odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES);
                odc::Writer<> w((eckit::PathName(path)));
                {
                    odc::Writer<>::iterator it = w.begin();
                    it->setNumberOfColumns(t.c.size());
                    for (auto& kv : t.props) (**it).property(kv.first, kv.second);
                    for (size_t i = 0; i < t.c.size(); i++) {
                        const Col& k = t.c[i];
                        if (k.type == BITFIELD) {
                            eckit::sql::BitfieldDef d;
                            for (auto& x : k.bits) d.first.push_back(x.first), d.second.push_back(x.second);
                            it->setBitfieldColumn(i, k.name, odc::api::ColumnType(k.type), d);
                        }
                        else
                            it->setColumn(i, k.name, odc::api::ColumnType(k.type));
                        if (k.isStr()) it->columns()[i]->dataSizeDoubles(k.width / 8);
                    }
                    it->writeHeader();
                    EncOpts eo;
                    eo.longs = false;
                    for (size_t x = 0; x < t.n; x++) {
                        for (size_t i = 0; i < t.c.size(); i++) putCell(reinterpret_cast<unsigned char*>(&it->data(i)), t.c[i], x, eo);
                        ++it;
                    }
                }
            }
                readFile(path, b);
                break;
            default: {
                RefWrite w;
                w.big = r.chance(1, 3);
                b     = refWriteFrame(r, t, w);
            }
        }
        file.insert(file.end(), b.begin(), b.end());
        E.fr.push_back(t);
    }
    std::string h = " [written by " + std::string(how == 0 ? "C" : how == 1 ? "C++" : how == 2 ? "rows" : "several") + ", " + std::to_string(F) + " frames, " + describe(base) + "]";
    writeFile(path, file);
    c.sig(mix(mix(shapeSig(base), base.props.size()), uint64_t(how * 10 + F)));
    c.stat("properties", base.props.size());
    for (auto& k : base.c) c.stat("bitfield members", k.bits.size());

    // the stored bytes
    std::vector<RefFrame> st = refParse(file, false);
    if (st.size() != E.fr.size()) return c.viol("stored-frames", std::to_string(st.size()) + " stored frames" + h);
    for (size_t i = 0; i < st.size(); i++) {
        Tab t         = st[i].tab;
        std::string d = diffM(E.fr[i], t);
        if (!d.empty()) c.viol("stored", "frame " + std::to_string(i) + ": " + d + h);
        if (ours[i]) {  // frames tell which encoder made them
            std::string want = "odc version " + odc::LibOdc::instance().version();
            if (!t.props.count("encoder") || t.props["encoder"] != want) c.viol("encoder", "frame " + std::to_string(i) + " does not name its encoder" + h);
            c.stat("encoders named");
        }
    }
    odc_integer_behaviour(r.chance(1, 2) ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    // C frame interface with copies; C strings end at the first NUL, so data with NULs is left to C++
    if (!nul) {
        odc_reader_t* rd = nullptr;
        if (odc_open_buffer(&rd, file.data(), long(file.size()))) return c.viol("open", h);
        struct Held {
            odc_frame_t* f;
            Tab e;
            bool valid;
        };
        std::vector<Held> held;
        odc_frame_t* f0 = nullptr;
        odc_new_frame(&f0, rd);
        held.push_back({f0, Tab(), false});
        size_t pos = 0;
        bool mix   = r.chance(1, 2);
        bool agg   = r.chance(1, 2);
        auto check = [&](Held& x, const char* what) {
            if (!x.valid) return;
            Tab g;
            std::string e;
            if (metaC(x.f, g, e)) return c.viol(std::string("c-failed:") + what, e + h);
            std::string d = diffM(x.e, g);
            if (d.empty()) d = sizes(x.e, g);
            if (!d.empty()) c.viol(std::string("c:") + what, d + h);
            const char* v = "";
            std::string absent = "no such key " + std::to_string(r.below(100));
            if (!x.e.props.count(absent) && (odc_frame_property(x.f, absent.c_str(), &v) || v)) c.viol("c-absent-key", "the value of a key which is absent is not null" + h);
            c.stat("metadata compared");
        };
        for (int step = 0; step < 14; step++) {
            size_t k = r.below(held.size());
            switch (r.below(6)) {
                case 0:
                case 1:
                case 2: {
                    if (mix) agg = r.chance(1, 2);
                    long lim = r.chance(1, 2) ? -1 : r.range(1, 15);
                    int rc   = agg ? odc_next_frame_aggregated(held[k].f, lim) : odc_next_frame(held[k].f);
                    if (rc) {
                        held[k].valid = false;
                        if (rc != ODC_ITERATION_COMPLETE || pos != E.fr.size()) c.viol("c-next", std::string("code ") + std::to_string(rc) + " at frame " + std::to_string(pos) + h);
                        break;
                    }
                    long n = 0;
                    odc_frame_row_count(held[k].f, &n);
                    size_t a = pos, rows = 0;
                    while (pos < E.fr.size() && rows < size_t(n)) rows += E.fr[pos++].n;
                    if (rows != size_t(n) || a == pos) return c.viol("c-rows", "row count " + std::to_string(n) + h);
                    held[k].e     = E.join(a, pos);
                    held[k].valid = true;
                    if (pos - a > 1) c.stat("aggregated frames checked");
                    check(held[k], agg ? "aggregated" : "next");
                    break;
                }
                case 3: {
                    odc_frame_t* f = nullptr;
                    int rc         = odc_copy_frame(held[k].f, &f);
                    if (rc) {
                        if (held[k].valid) c.viol("c-copy", std::string(odc_error_string(rc)) + h);
                        break;
                    }
                    held.push_back({f, held[k].e, held[k].valid});
                    if (r.chance(1, 2)) check(held.back(), "copy");
                    c.stat("copies");
                    break;
                }
                case 4:
                    if (held.size() > 1) {
                        odc_free_frame(held[k].f);
                        held.erase(held.begin() + long(k));
                    }
                    break;
                default: check(held[k], "again");
            }
        }
        for (auto& x : held) {
            check(x, "at the end");
            odc_free_frame(x.f);
        }
        odc_close(rd);
    }
    // C++ frames, kept after the reader is gone
    for (int agg = 0; agg < 2; agg++) {
        try {
            std::vector<std::pair<odc::api::Frame, Tab>> kept;
            {
                odc::api::Reader rd(new eckit::MemoryHandle(file.data(), file.size()), agg == 1, agg && r.chance(1, 3) ? r.range(1, 20) : -1);
                size_t pos = 0;
                while (odc::api::Frame f = rd.next()) {
                    size_t a = pos, rows = 0;
                    while (pos < E.fr.size() && rows < f.rowCount()) rows += E.fr[pos++].n;
                    if (rows != f.rowCount() || a == pos) return c.viol("cpp-rows", "row count" + h);
                    if (!agg && pos - a != 1) return c.viol("cpp-rows", "frames joined" + h);
                    kept.push_back({f, E.join(a, pos)});
                    if (pos - a > 1) c.stat("aggregated frames checked");
                    if (r.chance(1, 2)) {
                        std::string e, d;
                        Tab g = fromCpp(f, e);
                        d     = e.empty() ? diffM(kept.back().second, g) : e;
                        if (!d.empty()) c.viol("cpp", d + h);
                    }
                }
                if (pos != E.fr.size()) c.viol("cpp-frames", "frames are absent" + h);
            }
            for (auto& k : kept) {
                std::string e, d;
                Tab g = fromCpp(k.first, e);
                d     = e.empty() ? diffM(k.second, g) : e;
                if (d.empty()) d = sizes(k.second, g);
                if (!d.empty()) c.viol("cpp-kept", d + h);
                for (auto& x : k.second.c)
                    if (!k.first.hasColumn(x.name)) c.viol("cpp-hascolumn", "hasColumn denies " + show(x.name) + h);
                std::string no = "no column " + std::to_string(r.below(99)) + "@z";
                if (k.second.find(no) < 0 && k.first.hasColumn(no)) c.viol("cpp-hascolumn", "hasColumn accepts a name which is absent" + h);
                c.stat("metadata compared");
            }
        }
        catch (std::exception& x) {
            c.viol("cpp-exception", std::string(x.what()) + h);
        }
    }
    // row iterator: metadata at every row is that of its frame
    try {
        odc::Reader rd((eckit::PathName(path)));
        odc::Reader::iterator it = rd.begin(), end = rd.end();
        size_t f = 0, x = 0;
        for (; it != end; ++it) {
            if (f < E.fr.size() && x == E.fr[f].n) f++, x = 0;
            if (f >= E.fr.size()) return c.viol("rows", "too many rows" + h);
            if (x == 0 || r.chance(1, 10)) {
                Tab g;
                g.n = E.fr[f].n;
                for (size_t i = 0; i < it->columns().size(); i++) {
                    const odc::core::Column& k = *it->columns()[i];
                    Col q;
                    q.name  = k.name();
                    q.type  = int(k.type());
                    q.width = k.dataSizeDoubles() * 8;
                    const auto& bf = k.bitfieldDef();
                    for (size_t j = 0; j < bf.first.size(); j++) q.bits.push_back({bf.first[j], bf.second[j]});
                    g.c.push_back(q);
                }
                for (auto& kv : (**it).properties()) g.props[kv.first] = kv.second;
                std::string d = diffM(E.fr[f], g);
                if (d.empty()) d = sizes(E.fr[f], g);
                if (!d.empty()) return c.viol("rows-meta", "frame " + std::to_string(f) + " row " + std::to_string(x) + ": " + d + h);
                c.stat("metadata compared");
            }
            x++;
        }
    }
    catch (std::exception& x) {
        c.viol("rows-exception", std::string(x.what()) + h);
    }
    c.sample(h);
}
}  // namespace odv
