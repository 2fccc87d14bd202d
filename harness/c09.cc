// C09: every conforming file decodes to what the format reference assigns.
#include <algorithm>
#include <cfloat>
#include "iface.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C09"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    size_t nf = size_t(r.pick(std::vector<long>{1, 1, 2, 3, 5}));
    GenOpts g;
    g.maxRows  = r.chance(1, 25) ? 3000 : 50;
    g.maxCols  = r.chance(1, 10) ? 30 : 6;
    g.bigDict  = r.chance(1, 20);
    g.manyCols = 300;
    g.negBitfields = false;
    Tab base = genTable(r, g);
    Bytes file;
    std::vector<Tab> frames;
    std::string codecs;
    uint64_t cs = 0;
    for (size_t k = 0; k < nf; k++) {
        Tab t = k == 0 ? base : base;
        if (k) {
            // same columns with other content, or a different table
            if (r.chance(1, 3)) {
                g.maxRows = 40;
                t         = genTable(r, g);
            }
            else {
                t.n = size_t(r.range(1, 40));
                for (auto& col : t.c) {
                    Col n = col;
                    genCells(r, n, t.n, g);
                    col = n;
                }
                if (r.chance(1, 3))
                    for (size_t i = t.c.size(); i > 1; i--) std::swap(t.c[i - 1], t.c[r.below(i)]);
            }
        }
        if (r.chance(1, 12)) {  // an empty frame
            t = t.slice(0, 0);
            c.stat("empty frames");
        }
        RefWrite w;
        w.big        = r.chance(1, 4);
        w.markers    = int(r.below(3));
        w.skipLeading = r.chance(1, 2);
        w.nflags     = int(r.pick(std::vector<long>{0, 1, 1, 1, 2, 8, 30}));
        w.minor      = r.chance(1, 4) ? 4 : 5;
        // arbitrary missing values per column
        for (auto& col : t.c) {
            double m = col.isInt() ? 2147483647.0 : -2147483647.0;
            if (r.chance(1, 2)) m = col.isInt() ? double(r.pick(std::vector<long>{-2147483648L, 0, -1, 255, 65535, -9999, 1000000})) : r.pick(std::vector<double>{0, -1e30, 1e38, FLT_MAX, -FLT_MAX, FLT_MIN, DBL_MAX, 99.5, 2147483647.0});
            w.mdi.push_back(m);
            if (!col.isStr())
                for (size_t i = 0; i < col.d.size(); i++)
                    if (!col.miss[i] && col.d[i] == m) col.miss[i] = 1;
        }
        Tab exp;
        Bytes b = refWriteFrame(r, t, w, &exp);
        RefFrame self;
        try {
            self = refParseFrame(b.data(), b.size(), 0, false);
        }
        catch (std::exception& e) {
            c.inconclusive(std::string("reference writer and reader disagree: ") + e.what());
            return;
        }
        flatten(exp, w.mdi);
        std::string d = diffCells(exp, flattened(self), false);
        if (!d.empty()) {
            c.inconclusive("reference writer and reader disagree: " + d + describe(t));
            return;
        }
        exp.props = t.props;
        frames.push_back(exp);
        file.insert(file.end(), b.begin(), b.end());
        codecs += (k ? " | " : "") + std::string(w.big ? "swapped:" : "");
        std::set<std::string> uniq;
        for (size_t i = 0; i < w.chosen.size(); i++) {
            if (i < 12) codecs += (i ? "," : "") + w.chosen[i];
            cs = mix(cs, hashStr(w.chosen[i]) + uint64_t(t.c[i].type));
            c.stat("columns stored as " + w.chosen[i]);
            if (t.n) {
                bool any = false;
                for (char m : t.c[i].miss) any |= m != 0;
                if (any) c.stat("columns with missing cells stored as " + w.chosen[i]);
            }
        }
        if (t.n && w.skipLeading && !self.startCols.empty() && self.startCols[0] > 0) c.stat("frames whose first row starts after column 0");
    }
    std::string how = " [" + describe(base) + " storage " + codecs + "]";
    c.keep("file.odb", file);
    checkAll(c, file, frames, how);
    c.sig(mix(cs, shapeSig(base)));
    c.sample(how);
}
}  // namespace odv
