// C17: span summaries agree with the decoded data.
#include <algorithm>
#include "eckit/io/MemoryHandle.h"
#include "iface.h"
#include "odc/api/Odb.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C17"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
namespace {
std::string prefix(const std::string& s) { return s.substr(0, s.find('@')); }
int resolve(const Tab& t, const std::string& n) {
    int k = t.find(n);
    if (k >= 0) return k;
    k = -1;
    for (size_t i = 0; i < t.c.size(); i++)
        if (prefix(t.c[i].name) == n) k = k == -1 ? int(i) : -2;
    return k;
}
struct V {
    int kind = 0, visits = 0;
    std::set<long> l;
    std::set<double> d;
    std::set<std::string> s;
    bool operator==(const V& o) const { return kind == o.kind && l == o.l && d == o.d && s == o.s; }
    std::string text() const {
        std::ostringstream o;
        o << "kind " << kind << " {";
        size_t n = 0;
        for (auto x : l)
            if (n++ < 6) o << " " << x;
        char b[40];
        for (auto x : d)
            if (n++ < 6) snprintf(b, sizeof b, " %.17g", x), o << b;
        for (auto& x : s)
            if (n++ < 6) o << " " << show(x, 30);
        o << " } " << l.size() + d.size() + s.size();
        return o.str();
    }
};
struct Visit : odc::api::SpanVisitor {
    std::map<std::string, V> m;
    void operator()(const std::string& n, const std::set<long>& v) override { m[n].kind = 1, m[n].l = v, m[n].visits++; }
    void operator()(const std::string& n, const std::set<double>& v) override { m[n].kind = 2, m[n].d = v, m[n].visits++; }
    void operator()(const std::string& n, const std::set<std::string>& v) override { m[n].kind = 3, m[n].s = v, m[n].visits++; }
};
void add(V& v, const Col& k) {
    v.kind = k.isStr() ? 3 : k.isInt() ? 1 : 2;
    for (size_t r = 0; r < k.size(); r++) {
        if (k.isStr())
            v.s.insert(k.s[r]);
        else if (k.isInt())
            v.l.insert(long(k.d[r]));
        else if (k.d[r] == k.d[r])  // NaN is not listed
            v.d.insert(k.d[r]);
    }
}
bool storedConstant(const RefCol& c) { return c.codec == "constant" || c.codec == "constant_string" || c.codec == "long_constant_string"; }
bool varies(const Col& k) {
    for (size_t r = 1; r < k.size(); r++)
        if (k.isStr() ? k.s[r] != k.s[0] : !(k.d[r] == k.d[0])) return true;
    return false;
}
}  // namespace
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    FileOpts fo;
    fo.g.maxCols = r.chance(1, 8) ? 15 : 6;
    fo.g.manyCols = 300;
    fo.g.maxRows = r.chance(1, 15) ? 2000 : 30;
    fo.g.nan     = r.chance(1, 5);
    fo.maxFrames = r.chance(1, 8) ? 25 : 6;
    fo.schema = fo.types = r.chance(1, 3);
    Tab base             = genTable(r, fo.g);
    std::set<std::string> used;
    for (auto& k : base.c) {  // some names share their first part
        if (r.chance(1, 4)) k.name = std::string(1, char('a' + r.below(3))) + r.pick(std::vector<std::string>{"@hdr", "@body", ""});
        while (!used.insert(k.name).second) k.name += "x";
    }
    if (r.chance(2, 3))
        for (auto& k : base.c)  // constants are the interesting summaries
            if (r.chance(1, 2)) {
                bool keepMissing = r.chance(1, 3);
                for (size_t x = 1; x < base.n; x++) {
                    if (k.isStr()) k.s[x] = k.s[0];
                    else if (!keepMissing || !k.miss[x]) k.d[x] = k.d[0], k.miss[x] = k.miss[0];
                }
            }
    fo.base = &base;
    std::vector<RefFrame> fs;
    std::string how;
    Bytes b = genFile(c, fo, fs, how);
    if (r.chance(1, 3)) {  // frames with another constant each
        Bytes all;
        for (int i = int(r.range(1, 4)); i > 0; i--) {
            Tab t = base.slice(r.below(base.n), 1);
            for (auto& k : t.c)
                if (!k.isStr() && !k.miss[0] && r.chance(1, 2)) k.d[0] = double(r.range(0, 5));
            std::vector<size_t> idx(size_t(r.range(1, 9)), 0);
            Tab u = t.rows(idx);
            EncResult x = encodeC(u, EncOpts());
            if (x.rc) continue;
            all.insert(all.end(), x.bytes.begin(), x.bytes.end());
        }
        b.insert(b.end(), all.begin(), all.end());
        fs = refParse(b, false);
        how += " and constant frames";
    }
    std::vector<Tab> stored;
    for (auto& f : fs) stored.push_back(flattened(f));
    c.sig(mix(shapeSig(base), fs.size()));

    for (int agg = 0; agg < 2; agg++) {
        bool l1 = r.chance(1, 2);
        odc_integer_behaviour(l1 ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
        odc::api::Reader rd(new eckit::MemoryHandle(b.data(), b.size()), agg == 1, agg && r.chance(1, 4) ? r.range(1, 100) : -1);
        std::vector<std::pair<odc::api::Frame, std::pair<size_t, size_t>>> held;
        size_t pos = 0;
        while (odc::api::Frame f = rd.next()) {
            size_t a = pos, rows = 0;
            while (pos < fs.size() && rows < f.rowCount()) rows += stored[pos++].n;
            if (rows != f.rowCount() || a == pos) return c.viol("rows", "row counts" + how);
            held.push_back({f, {a, pos}});
        }
        if (pos != fs.size()) c.viol("frames", "frames are absent" + how);
        for (auto& hf : held) {
            size_t a = hf.second.first, z = hf.second.second;
            const Tab& first = stored[a];
            int reps         = int(r.range(1, 2));
            for (int rep = 0; rep < reps; rep++) {
                bool only = r.chance(1, 3);
                std::vector<std::string> req;
                std::map<std::string, V> e;
                bool bad = false, varying = false, doubt = false;
                std::string why;
                size_t k = r.chance(1, 10) ? 0 : size_t(r.range(1, long(first.c.size())));
                std::vector<int> p;
                for (size_t i = 0; i < first.c.size(); i++) p.push_back(int(i));
                for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
                p.resize(k);
                if (only && r.chance(1, 2))  // constant columns only
                    p.erase(std::remove_if(p.begin(), p.end(), [&](int i) { return !storedConstant(fs[a].cols[size_t(i)]); }), p.end());
                for (int i : p) {
                    std::string n = first.c[size_t(i)].name;
                    if (r.chance(1, 3) && resolve(first, prefix(n)) == i) n = prefix(n);
                    req.push_back(n);
                    for (size_t f = a; f < z; f++) {
                        int j = stored[f].find(first.c[size_t(i)].name);
                        if (j < 0) return c.viol("joined", "frames with different columns are joined" + how);
                        add(e[n], stored[f].c[size_t(j)]);
                        if (!storedConstant(fs[f].cols[size_t(j)])) {
                            if (varies(stored[f].c[size_t(j)]))
                                varying = true;
                            else
                                doubt = true;  // constant, but not stored so
                        }
                    }
                }
                if (r.chance(1, 12)) {
                    std::string n = r.chance(1, 2) ? "zz no such" : prefix(first.c[r.below(first.c.size())].name);
                    if (resolve(first, n) < 0) {
                        req.insert(req.begin() + long(r.below(req.size() + 1)), n);
                        bad = true;
                    }
                }
                if (r.chance(1, 3)) odc_integer_behaviour(r.chance(1, 2) ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
                std::string h = (agg ? " aggregated," : "") + std::string(only ? " constants only," : "") + " columns";
                for (auto& n : req) h += " " + show(n);
                h += how;
                try {
                    odc::api::Span s = hf.first.span(req, only);
                    if (bad) {
                        c.viol("accepted", "the span of a column which is absent or ambiguous succeeded" + h);
                        continue;
                    }
                    if (only && varying) {
                        c.viol("accepted-varying", "the span of constants succeeded for a column which is not constant" + h);
                        continue;
                    }
                    if (long(static_cast<long long>(s.offset())) != long(fs[a].off) || long(static_cast<long long>(s.length())) != long(fs[z - 1].off + fs[z - 1].len - fs[a].off))
                        ODV_FAIL(c, "extent", "offset " << s.offset() << " length " << s.length() << " for the frame at " << fs[a].off << " to " << fs[z - 1].off + fs[z - 1].len << h);
                    Visit v;
                    s.visit(v);
                    for (auto& kv : e) {
                        auto i = v.m.find(kv.first);
                        if (i == v.m.end()) {
                            c.viol("not-visited", "column " + show(kv.first) + " is absent" + h);
                            continue;
                        }
                        if (!(i->second == kv.second) || i->second.visits != 1)
                            c.viol("values", "column " + show(kv.first) + ": " + i->second.text() + " instead of " + kv.second.text() + h);
                        try {
                            bool same = kv.second.kind == 1 ? s.getIntegerValues(kv.first) == kv.second.l : kv.second.kind == 3 ? s.getStringValues(kv.first) == kv.second.s : s.getRealValues(kv.first) == kv.second.d;
                            if (!same) c.viol("getter", "column " + show(kv.first) + ": the getter disagrees" + h);
                        }
                        catch (std::exception& x) {
                            c.viol("getter", std::string(x.what()) + h);
                        }
                        c.stat("columns summarised");
                        c.stat("distinct values", kv.second.l.size() + kv.second.d.size() + kv.second.s.size());
                    }
                    for (auto& kv : v.m)
                        if (!e.count(kv.first)) c.viol("extra", "column " + show(kv.first) + " was not requested" + h);
                    // the summary of the same columns again is equal
                    odc::api::Span s2 = hf.first.span(req, only);
                    if (!(s == s2)) c.viol("unequal", "two summaries of the same columns differ" + h);
                    if (z - a > 1) c.stat("aggregated summaries");
                    if (only) c.stat("summaries of constants");
                }
                catch (std::exception& x) {
                    if (bad)
                        c.stat("unusable names refused");
                    else if (only && (varying || doubt))
                        c.stat("columns refused as not constant");
                    else
                        c.viol("failed", std::string(x.what()) + h);
                }
            }
        }
    }
    c.sample(how);
}
}  // namespace odv
