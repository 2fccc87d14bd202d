#include "hostile.h"
#include <algorithm>
#include <cfloat>
namespace odv {
std::vector<Field> headerFields(const unsigned char* p, size_t n, bool swap) {
    std::vector<Field> v;
    size_t i = 0;
    auto get = [&](void* q, size_t k) {
        if (n - i < k) throw RefErr("short header");
        unsigned char b[8];
        memcpy(b, p + i, k);
        if (swap) std::reverse(b, b + k);
        memcpy(q, b, k);
        i += k;
    };
    auto I = [&](const char* role) {
        int32_t x;
        get(&x, 4);
        Field f{'i', x, 0, "", role};
        v.push_back(f);
        return x;
    };
    auto L = [&](const char* role) {
        int64_t x;
        get(&x, 8);
        Field f{'l', x, 0, "", role};
        v.push_back(f);
        return x;
    };
    auto D = [&](const char* role) {
        Field f{'d', 0, 0, "", role};
        get(&f.d, 8);
        v.push_back(f);
    };
    auto Raw = [&](const char* role) {
        Field f{'r', 0, 0, std::string(reinterpret_cast<const char*>(p + i), 8), role};
        i += 8;
        v.push_back(f);
    };
    auto S = [&](const char* role) {
        int32_t l;
        get(&l, 4);
        if (l < 0 || n - i < size_t(l)) throw RefErr("short header");
        Field f{'s', 0, 0, std::string(reinterpret_cast<const char*>(p + i), size_t(l)), role};
        i += size_t(l);
        v.push_back(f);
        return f.s;
    };
    L("data size");
    L("previous");
    L("rows");
    int nf = I("flag count");
    for (int k = 0; k < nf; k++) D("flag");
    int np = I("property count");
    for (int k = 0; k < np; k++) S("property key"), S("property value");
    int nc = I("column count");
    for (int k = 0; k < nc; k++) {
        S("column name");
        int ty = I("column type");
        if (ty == BITFIELD) {
            int a = I("bitfield name count");
            for (int j = 0; j < a; j++) S("bitfield name");
            int b = I("bitfield size count");
            for (int j = 0; j < b; j++) I("bitfield size");
        }
        std::string codec = S("storage name");
        I("missing flag");
        if (codec == "constant_string")
            Raw("string constant"), Raw("string constant");
        else
            D("minimum"), D("maximum");
        D("missing value");
        if (codec == "chars") I("string count");
        if (codec == "int8_string" || codec == "int16_string") {
            int ns = I("string count");
            for (int j = 0; j < ns; j++) S("table string"), I("table frequency"), I("table index");
        }
        if (codec == "long_constant_string") S("string constant");
    }
    if (i != n) throw RefErr("fields do not fill the header");
    return v;
}
Bytes headerBytes(const std::vector<Field>& f, bool swap) {
    RawBuf b(swap);
    for (auto& x : f) {
        if (x.kind == 'i') b.i32(int32_t(x.i));
        if (x.kind == 'l') b.i64(x.i);
        if (x.kind == 'd') b.f64(x.d);
        if (x.kind == 'r') b.raw(x.s.data(), 8);
        if (x.kind == 's') {
            b.i32(x.i ? int32_t(x.i) : int32_t(x.s.size()));  // i: a length which is not that of the text
            b.raw(x.s.data(), x.s.size());
        }
    }
    return b.b;
}
static const char* CODECS[] = {"constant", "constant_or_missing", "real_constant_or_missing", "constant_string", "long_constant_string", "chars", "int8", "int16", "int32", "int8_missing",
                               "int16_missing", "int8_string", "int16_string", "long_real", "short_real", "short_real2", "", "nosuch", "string8", "INT8"};
static int64_t interesting(Rng& r, int64_t old) {
    static const int64_t v[] = {0, 1, -1, 2, 7, 8, 9, 127, 128, 255, 256, 257, 4096, 65535, 65536, 1 << 20, 1 << 24, 1 << 28, 2147483647, -2147483648LL, -2147483647, 1LL << 31, 1LL << 32, 1LL << 33, 1LL << 40,
                                1LL << 61, 1LL << 62, INT64_MAX, INT64_MIN, INT64_MAX / 2, INT64_MAX / 8, 1LL << 60};
    switch (r.below(4)) {
        case 0:
            return int64_t(uint64_t(old) + uint64_t(r.range(-3, 3)));
        case 1:
            return int64_t(uint64_t(old) * 2 + uint64_t(r.range(0, 1)));
        case 2:
            return int64_t(r.next());
        default:
            return v[r.below(sizeof v / sizeof *v)];
    }
}
static double interestingD(Rng& r) {
    static const double v[] = {0, -0.0, 1, -1, 255, 65535, 2147483647, -2147483647, 2147483648.0, 1e18, 1e19, -1e19, 1e300, -1e300, INFINITY, -INFINITY, NAN, DBL_MIN, 5e-324, FLT_MIN, -FLT_MAX, 0.5};
    return v[r.below(sizeof v / sizeof *v)];
}
static std::string mutStr(Rng& r, const std::string& s0) {
    std::string s = s0;
    switch (r.below(7)) {
        case 0:
            return "";
        case 1:
            return std::string(size_t(r.pick(std::vector<long>{1, 7, 8, 9, 100, 5000})), char(r.below(256)));
        case 2:
            if (!s.empty()) s[r.below(s.size())] = char(r.below(256));
            return s;
        case 3:
            return s + std::string(1, '\0') + "x";
        case 4:
            return s + s;
        case 5:
            return "%s%n/../" + s;
        default:
            return s + "@x";
    }
}
Bytes damage(Rng& r, const Bytes& file, const std::vector<RefFrame>& fs, std::string& what) {
    Bytes out = file;
    std::ostringstream w;
    int times = int(r.range(1, 3));
    int kind  = int(r.below(20));
    if (kind < 12 && !fs.empty()) {
        // fields of one header, with a matching digest
        size_t k          = r.below(fs.size());
        const RefFrame& f = fs[k];
        const unsigned char* h = file.data() + f.off + 57;
        size_t hl              = f.headerLen - 57;
        std::vector<Field> v   = headerFields(h, hl, f.swapped);
        // some sections of the header are small: choose by role first
        std::map<std::string, std::vector<size_t>> roles;
        for (size_t i = 0; i < v.size(); i++) roles[v[i].role].push_back(i);
        for (int q = 0; q < times; q++) {
            auto it = roles.begin();
            std::advance(it, long(r.below(roles.size())));
            Field& x = v[r.pick(it->second)];
            w << x.role << " ";
            if (x.kind == 'i') {
                if (x.role == "column type" && r.chance(2, 3))
                    x.i = int64_t(r.below(8));
                else if (x.role == "table index" && r.chance(1, 2))
                    x.i = int64_t(r.below(300));
                else
                    x.i = interesting(r, x.i);
                w << "= " << x.i;
            }
            else if (x.kind == 'l') {
                x.i = interesting(r, x.i);
                w << "= " << x.i;
            }
            else if (x.kind == 'd') {
                x.d = r.chance(1, 2) ? interestingD(r) : x.d + double(r.range(-300, 300));
                w << "= " << x.d;
            }
            else if (x.kind == 'r')
                for (auto& ch : x.s) ch = char(r.below(256));
            else if (x.role == "storage name" && r.chance(5, 6)) {
                x.s = CODECS[r.below(sizeof CODECS / sizeof *CODECS)];
                w << "= " << x.s;
                if (r.chance(1, 2)) {  // with the parameters of that storage when they differ
                    size_t at = size_t(&x - v.data());
                    // remove the parameters after the missing value up to the next column name
                    size_t e = at + 5;
                    while (e < v.size() && v[e].role != "column name") e++;
                    std::vector<Field> par;
                    if (x.s == "chars") par.push_back({'i', r.chance(1, 2) ? 0 : int64_t(r.below(5)), 0, "", "string count"});
                    if (x.s == "long_constant_string") par.push_back({'s', 0, 0, std::string(r.below(40), 'q'), "string constant"});
                    if (x.s == "int8_string" || x.s == "int16_string") {
                        size_t n = r.below(4);
                        par.push_back({'i', int64_t(n), 0, "", "string count"});
                        for (size_t j = 0; j < n; j++) {
                            par.push_back({'s', 0, 0, std::string(r.below(30), char('a' + j)), "table string"});
                            par.push_back({'i', 1, 0, "", "table frequency"});
                            par.push_back({'i', int64_t(r.chance(1, 5) ? r.below(10) : j), 0, "", "table index"});
                        }
                    }
                    if (at + 5 <= v.size()) {
                        v.erase(v.begin() + long(at + 5), v.begin() + long(e));
                        v.insert(v.begin() + long(at + 5), par.begin(), par.end());
                    }
                    w << " with parameters";
                    break;  // references into v are gone
                }
            }
            else if (r.chance(1, 3))
                x.i = interesting(r, int64_t(x.s.size())), w << "announces " << x.i;
            else if (r.chance(1, 3) && it->second.size() > 1)
                x.s = v[r.pick(it->second)].s, w << "repeated";
            else
                x.s = mutStr(r, x.s), w << "changed";
            w << "; ";
        }
        Bytes hb = headerBytes(v, f.swapped);
        Bytes data(file.begin() + long(f.off + f.headerLen), file.begin() + long(f.off + f.len));
        if (r.chance(1, 6) && !data.empty()) {
            data[r.below(data.size())] = (unsigned char)(r.below(256));
            w << "and row data";
        }
        Bytes fr = refAssemble(f.swapped, f.minor, hb, data);
        out.assign(file.begin(), file.begin() + long(f.off));
        out.insert(out.end(), fr.begin(), fr.end());
        out.insert(out.end(), file.begin() + long(f.off + f.len), file.end());
    }
    else if (kind < 16 && !fs.empty()) {
        const RefFrame& f = fs[r.below(fs.size())];
        w << "row data:";
        for (int q = 0; q < times && f.dataLen; q++) {
            size_t at = f.off + f.headerLen + (r.chance(1, 4) ? r.below(std::min<size_t>(2, f.dataLen)) : r.below(f.dataLen));
            out[at]   = (unsigned char)(r.chance(1, 3) ? 255 : r.below(256));
            w << " byte " << at << "=" << int(out[at]);
        }
    }
    else if (kind == 16 && !out.empty()) {
        w << "raw bytes";
        for (int q = 0; q < times * 3; q++) out[r.below(out.size())] = (unsigned char)(r.below(256));
    }
    else if (kind == 17) {
        size_t a = r.below(out.size() + 1), b = r.below(out.size() + 1);
        if (a > b) std::swap(a, b);
        if (r.chance(1, 2)) {
            out.erase(out.begin() + long(a), out.begin() + long(b));
            w << "removed " << a << ".." << b;
        }
        else {
            Bytes p(out.begin() + long(a), out.begin() + long(b));
            out.insert(out.begin() + long(r.below(out.size() + 1)), p.begin(), p.end());
            w << "repeated " << a << ".." << b;
        }
    }
    else if (kind == 18) {
        out.resize(r.below(out.size() + 1));
        w << "cut at " << out.size();
    }
    else {
        // before the variable header: magic, order, version, digest, header length
        size_t off = fs.empty() ? 0 : fs[r.below(fs.size())].off;
        w << "fixed header:";
        for (int q = 0; q < times; q++) {
            size_t at = off + r.below(57);
            if (at < out.size()) {
                out[at] = (unsigned char)(r.below(256));
                w << " byte " << at - off << "=" << int(out[at]);
            }
        }
        if (r.chance(1, 3) && off + 57 <= out.size()) {
            int32_t l = int32_t(interesting(r, 100));
            memcpy(&out[off + 53], &l, 4);
            w << " header length " << l;
        }
        if (r.chance(1, 6)) out.insert(out.end(), {0xff, 0xff, 'O', 'D', 'A', 1, 0, 0, 0});
    }
    what = w.str();
    return out;
}
}  // namespace odv
