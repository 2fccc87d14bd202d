#include "iface.h"
#include <algorithm>
namespace odv {
void flatten(Tab& t, const std::vector<double>& mdi) {
    for (size_t i = 0; i < t.c.size(); i++) {
        Col& k = t.c[i];
        if (k.isStr()) continue;
        k.wasMiss = k.miss;
        for (size_t r = 0; r < k.d.size(); r++)
            if (k.miss[r]) {
                k.d[r]    = mdi[i];
                k.miss[r] = 0;
            }
    }
}
Tab flattened(const Tab& t0, double im, double rm) {
    Tab t = t0;
    std::vector<double> m;
    for (auto& k : t.c) m.push_back(k.isInt() ? im : rm);
    flatten(t, m);
    return t;
}
Tab flattened(const RefFrame& f) {
    Tab t = f.tab;
    std::vector<double> m;
    for (auto& k : f.cols) m.push_back(k.mdi);
    flatten(t, m);
    return t;
}
namespace {
// columns agree so that two frames may be aggregated
bool same(const Tab& a, const Tab& b) {
    if (a.c.size() != b.c.size()) return false;
    for (auto& k : a.c) {
        int j = b.find(k.name);
        if (j < 0 || b.c[size_t(j)].type != k.type) return false;
    }
    return true;
}
void cells(Ctx& c, const Tab& all, const std::vector<Tab>& got, const std::string& key, const std::string& how, bool rr, bool byName) {
    std::vector<Tab> v;
    for (auto& t : got) v.push_back(flattened(t));
    // names differ between parts: compare per run of equal schema is not needed, concat matches by name
    Tab g         = concat(v);
    std::string d = diffCells(all, g, rr, byName);
    if (!d.empty()) c.viol(key, d + how);
    c.stat("cells compared", all.n * all.c.size());
}
std::string metaDiff(const Tab& a, const Tab& b) {
    std::string d = diffMeta(a, b, false);
    if (d.empty() && a.n != b.n) d = "row count " + std::to_string(b.n) + " instead of " + std::to_string(a.n);
    return d;
}
}  // namespace
void checkAll(Ctx& c, const Bytes& b, const std::vector<Tab>& frames, const std::string& how, unsigned which, const std::string& what, bool rr) {
    Rng& r = c.rng;
    std::string path = c.scratch + "/all.odb";
    writeFile(path, b);
    bool uniform = true;
    for (auto& f : frames) uniform &= same(frames[0], f);
    // runs of frames with the same columns, in order
    std::vector<Tab> runs;
    for (auto& f : frames) {
        if (!runs.empty() && same(runs.back(), f))
            runs.back().append(f);
        else
            runs.push_back(f);
    }
    auto perFrame = [&](const std::vector<Tab>& got, const std::string& key, const std::string& h) {
        if (got.size() != frames.size()) {
            ODV_FAIL(c, key + "-frames", got.size() << " frames instead of " << frames.size() << h);
            return;
        }
        for (size_t i = 0; i < frames.size(); i++) {
            std::string d = metaDiff(frames[i], got[i]);
            if (d.empty()) d = diffProps(frames[i], got[i]);
            if (!d.empty()) c.viol(key + "-meta", "frame " + std::to_string(i) + ": " + d + h);
            d = diffCells(frames[i], flattened(got[i]), rr);
            if (!d.empty()) c.viol(key + "-cells", "frame " + std::to_string(i) + ": " + d + h);
            c.stat("cells compared", frames[i].n * frames[i].c.size());
        }
    };
    auto perRun = [&](const std::vector<Tab>& got, const std::string& key, const std::string& h) {
        // an aggregated frame never crosses a change of columns, but need not span a whole run (string widths)
        size_t run = 0, at = 0;
        for (auto& g0 : got) {
            Tab g = flattened(g0);
            while (run < runs.size() && at == runs[run].n && g.n > 0) run++, at = 0;
            if (g.n == 0) continue;
            if (run >= runs.size() || at + g.n > runs[run].n) {
                c.viol(key + "-rows", "more rows than stored, or a frame across a change of columns" + h);
                return;
            }
            std::string d = diffCells(runs[run].slice(at, g.n), g, rr, true);
            if (!d.empty()) {
                c.viol(key + "-cells", d + h);
                return;
            }
            at += g.n;
            c.stat("cells compared", g.n * g.c.size());
        }
        size_t n = 0, e = 0;
        for (auto& g : got) n += g.n;
        for (auto& f : frames) e += f.n;
        if (n != e) ODV_FAIL(c, key + "-rows", n << " rows instead of " << e << h);
    };
    for (unsigned k = 0; k < 2; k++) {
        if (!(which & (k ? BY_CAGG : BY_C))) continue;
        ReadOpts ro;
        ro.source     = int(r.below(4));
        ro.scratch    = c.scratch;
        ro.aggregated = k == 1;
        ro.dec        = genDec(r, frames.empty() ? 1 : frames[0].c.size());
        if (k && r.chance(1, 2)) ro.dec.threads = int(r.range(2, 4));
        ReadResult R  = readC(b, ro);
        std::string h = how + (k ? " [C aggregated " : " [C ") + "source " + std::to_string(ro.source) + " " + decStr(ro.dec) + "]";
        if (R.rc)
            c.viol(what + ":c-error", R.where + ": " + R.err + h);
        else if (k)
            perRun(R.frames, what + ":c-agg", h);
        else
            perFrame(R.frames, what + ":c", h);
        if (!R.guardOk) c.viol(what + ":guard", R.guardMsg + h);
        c.stat("readings by the C interface");
    }
    for (unsigned k = 0; k < 2; k++) {
        if (!(which & (k ? BY_CPPAGG : BY_CPP))) continue;
        CppOpts o;
        o.aggregated  = k == 1;
        o.longs       = r.chance(1, 2);
        o.source      = int(r.below(2));
        o.reverse     = r.chance(1, 3);
        o.nthreads    = k ? size_t(r.range(1, 3)) : 1;
        CppRead R     = readCpp(path, o);
        std::string h = how + " [C++ frames" + (k ? " aggregated" : "") + (o.longs ? " longs" : "") + (o.reverse ? " decoded in reverse" : "") + "]";
        std::vector<Tab> v;
        for (auto& f : R.frames) v.push_back(f.tab);
        if (!R.err.empty())
            c.viol(what + ":cpp-error", R.err + h);
        else if (k)
            perRun(v, what + ":cpp-agg", h);
        else
            perFrame(v, what + ":cpp", h);
        c.stat("readings by C++ frames");
    }
    if (which & BY_ROWS) {
        bool longs    = r.chance(1, 2);
        RowRead R     = readRows(path, longs);
        std::string h = how + " [rows" + (longs ? " longs]" : "]");
        if (!R.err.empty())
            c.viol(what + ":rows-error", R.err + h);
        else if (!R.anomaly.empty())
            c.viol(what + ":rows-anomaly", R.anomaly + h);
        else {
            // each segment continues the frames in order
            size_t fi = 0, at = 0;
            bool ok = true;
            size_t n = 0, e = 0;
            for (auto& f : frames) e += f.n;
            for (size_t s = 0; s < R.segs.size() && ok; s++) {
                const Tab& g = R.segs[s];
                size_t gi    = 0;
                n += g.n;
                while (gi < g.n) {
                    while (fi < frames.size() && at == frames[fi].n) fi++, at = 0;
                    if (fi >= frames.size()) {
                        c.viol(what + ":rows-count", "more rows than stored" + h);
                        ok = false;
                        break;
                    }
                    size_t take = std::min(g.n - gi, frames[fi].n - at);
                    Tab want    = frames[fi].slice(at, take);
                    Tab have    = g.slice(gi, take);
                    for (size_t i = 0; i < have.c.size() && i < want.c.size(); i++) {
                        Col& k = have.c[i];
                        if (k.isStr()) continue;
                        const auto& wm = frames[fi].c[i].wasMiss;
                        for (size_t q = 0; q < take; q++) {
                            if (!wm.empty() && bool(k.miss[q]) != bool(wm[at + q])) {
                                ODV_FAIL(c, what + ":rows-missing", "frame " << fi << " row " << at + q << " column " << i << ": isMissing is " << int(k.miss[q]) << h);
                                ok = false;
                            }
                            k.miss[q] = 0;
                        }
                    }
                    std::string d = diffCells(want, have, rr);
                    if (d.empty()) {
                        std::string m = diffMeta(want, have, false);
                        if (!m.empty()) d = m;
                    }
                    if (!d.empty()) {
                        ODV_FAIL(c, what + ":rows-cells", "frame " << fi << ": " << d << h);
                        ok = false;
                        break;
                    }
                    gi += take;
                    at += take;
                }
            }
            if (ok && n != e) ODV_FAIL(c, what + ":rows-count", n << " rows instead of " << e << h);
            for (auto& f : frames) c.stat("cells compared", f.n * f.c.size());
        }
        c.stat("readings by the row interface");
    }
}
std::string tail(const std::string& s, size_t n) { return s.size() > n ? "..." + s.substr(s.size() - n) : s; }
Proc odcTool(Ctx& c, const std::vector<std::string>& args, const std::string& cwd) {
    std::vector<std::string> v{c.bindir + "/odc"};
    v.insert(v.end(), args.begin(), args.end());
    return run(v, cwd);
}
namespace {
std::string csvCell(const Col& k, size_t i) {
    if (k.isStr()) return "'" + k.s[i] + "'";
    if (k.miss[i]) return "NULL";
    char b[64];
    if (k.isInt())
        snprintf(b, sizeof b, "%.0f", k.d[i]);
    else
        snprintf(b, sizeof b, "%.17g", k.d[i]);
    return b;
}
const char* TYPES[] = {"", "INTEGER", "REAL", "STRING", "BITFIELD", "DOUBLE"};
}  // namespace
std::string csv(const Tab& t, const std::string& delim) {
    std::string s;
    for (size_t i = 0; i < t.c.size(); i++) {
        s += (i ? delim : "") + t.c[i].name + ":" + TYPES[t.c[i].type];
        if (t.c[i].type == BITFIELD) {
            s += "[";
            for (size_t j = 0; j < t.c[i].bits.size(); j++) s += (j ? ";" : "") + t.c[i].bits[j].first + ":" + std::to_string(t.c[i].bits[j].second);
            s += "]";
        }
    }
    s += "\n";
    for (size_t r = 0; r < t.n; r++) {
        for (size_t i = 0; i < t.c.size(); i++) s += (i ? delim : "") + csvCell(t.c[i], r);
        s += "\n";
    }
    return s;
}

Bytes genFile(Ctx& c, const FileOpts& o, std::vector<RefFrame>& frames, std::string& how) {
    Rng& r   = c.rng;
    Tab base = o.base ? *o.base : genTable(r, o.g);
    how += " [file of " + describe(base) + ":";
    Bytes file;
    int F   = int(r.range(o.minFrames, o.maxFrames));
    Tab cur = base;
    for (int f = 0; f < F; f++) {
        Tab t = cur;
        switch (f ? int(r.below(9)) : 8) {
            case 0:
            case 1:
                if (!o.permute) break;
                for (size_t i = t.c.size(); i > 1; i--) std::swap(t.c[i - 1], t.c[r.below(i)]);
                how += " permuted";
                break;
            case 2:
                if (!o.schema) break;
                if (t.c.size() > 1) t.c.erase(t.c.begin() + long(r.below(t.c.size())));
                how += " fewer";
                break;
            case 3: {
                if (!o.schema) break;
                Col k;
                k.name = "extra" + std::to_string(f) + (o.g.suffix.empty() ? "@y" : o.g.suffix);
                k.type = r.chance(1, 2) && o.g.strings ? STRING : o.g.reals ? REAL : INTEGER;
                genCells(r, k, t.n, o.g);
                t.c.insert(t.c.begin() + long(r.below(t.c.size() + 1)), k);
                how += " more";
                break;
            }
            case 4: {
                if (!o.types) break;
                Col& k = t.c[r.below(t.c.size())];
                k.type = k.type == DOUBLE ? REAL : k.type == REAL ? DOUBLE : k.type == INTEGER ? DOUBLE : INTEGER;
                k.bits.clear();
                k.width = 8;
                genCells(r, k, t.n, o.g);
                how += " retyped";
                break;
            }
            case 5:
            case 6:
                if (o.bits && r.chance(1, 2)) {
                    for (auto& k : t.c)
                        if (k.type == BITFIELD) {
                            int n = 0;
                            for (auto& m : k.bits) n += m.second;
                            if (n > 31)
                                k.bits.clear();
                            else if (r.chance(1, 2) || k.bits.empty())
                                k.bits.push_back({"added" + std::to_string(k.bits.size()), 1});
                            else if (r.chance(1, 2))
                                k.bits[r.below(k.bits.size())].second++;
                            else
                                k.bits[r.below(k.bits.size())].first += "x";
                            how += " members";
                        }
                    break;
                }
                if (!o.widths) break;
                for (auto& k : t.c)
                    if (k.isStr()) {
                        k.width = 8 * size_t(r.range(1, 5));
                        for (auto& s : k.s) s = genString(r, k.width - 7, k.width, o.g.simpleStrings);
                    }
                how += " widths";
                break;
            default:;
        }
        cur      = t;
        size_t n = f ? size_t(r.range(1, 30)) : t.n;
        Tab u    = t;
        if (f) {
            if (o.empty && r.chance(1, o.empty)) n = 0, how += " empty";
            std::vector<size_t> idx;
            for (size_t i = 0; i < n; i++) idx.push_back(r.below(t.n));
            u = t.rows(idx);
            if (r.chance(1, 3)) {
                u.props.clear();
                if (r.chance(1, 2)) genProps(r, u);
            }
        }
        if (u.n == 0 || (o.ref && r.chance(1, 4))) {
            RefWrite w;
            w.big     = o.swapped && r.chance(1, 2);
            w.markers = int(r.below(3));
            Bytes b   = refWriteFrame(r, u, w);
            file.insert(file.end(), b.begin(), b.end());
            how += w.big ? " swapped" : " ref";
        }
        else {
            EncOpts e = genEnc(r, u);
            e.rowsPerFrame = o.rowsPerFrame && r.chance(1, 4) ? r.range(std::max(1L, long(u.n) / 4), 10 + long(u.n) / 4) : 0;
            EncResult x    = encodeC(u, e);
            if (x.rc) throw std::runtime_error("cannot encode: " + x.err + how);
            file.insert(file.end(), x.bytes.begin(), x.bytes.end());
        }
        how += ",";
    }
    how += "]";
    frames = refParse(file, false);
    return file;
}
// rows of one file against what was sent there
void checkRows(Ctx& c, const std::string& file, const Bytes& b, const std::vector<Tab>& src, const std::vector<std::pair<size_t, size_t>>& rows, const std::string& how, bool byName, bool types) {
    std::vector<RefFrame> got;
    try {
        got = refParse(b, true);
    }
    catch (std::exception& e) {
        ODV_FAIL(c, "unreadable", "file '" << file << "': " << e.what() << how);
        return;
    }
    size_t total = 0;
    for (auto& f : got) total += size_t(f.nrows);
    if (total != rows.size()) {
        ODV_FAIL(c, "row-count", "file '" << file << "' holds " << total << " rows instead of " << rows.size() << how);
        return;
    }
    size_t at = 0;
    for (auto& f : got) {
        Tab g = f.tab, gf = flattened(f);
        for (size_t r = 0; r < size_t(f.nrows); at++, r++) {
            const Tab& s = src[rows[at].first];
            if (r == 0 || rows[at].first != rows[at - 1].first) {
                Tab a = s, b2 = g;
                if (byName) {
                    auto lt = [](const Col& x, const Col& y) { return x.name < y.name; };
                    std::sort(a.c.begin(), a.c.end(), lt);
                    std::sort(b2.c.begin(), b2.c.end(), lt);
                }
                if (!types)
                    for (auto* t : {&a, &b2})
                        for (auto& k : t->c)
                            if (k.type == REAL) k.type = DOUBLE;
                std::string d = diffMeta(a, b2, false);
                if (!d.empty()) {
                    ODV_FAIL(c, "columns", "row " << at << " of file '" << file << "' from frame " << rows[at].first << ": " << d << how);
                    return;
                }
            }
            for (size_t i = 0; i < s.c.size(); i++) {
                int j = byName ? gf.find(s.c[i].name) : int(i);
                if (!cellEq(s.c[i], rows[at].second, gf.c[size_t(j)], r, true)) {
                    ODV_FAIL(c, "cells",
                             "row " << at << " of file '" << file << "', column '" << s.c[i].name << "': " << cellStr(gf.c[size_t(j)], r) << " instead of " << cellStr(s.c[i], rows[at].second) << " (row "
                                    << rows[at].second << " of frame " << rows[at].first << ")" << how);
                    return;
                }
                if (!s.c[i].isStr() && bool(g.c[size_t(j)].miss[r]) != bool(s.c[i].wasMiss[rows[at].second])) {
                    ODV_FAIL(c, "missing",
                             "row " << at << " of file '" << file << "', column '" << s.c[i].name << "': " << (g.c[size_t(j)].miss[r] ? "missing" : "not missing") << " unlike row " << rows[at].second << " of frame "
                                    << rows[at].first << how);
                    return;
                }
            }
            c.stat("cells compared", s.c.size());
        }
    }
}
}  // namespace odv
