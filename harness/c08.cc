// C08: every writer's output parses under the format reference, to the data written.
#include <sys/stat.h>
#include <algorithm>
#include "eckit/config/Resource.h"
#include "iface.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C08"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    GenOpts g;
    g.maxRows = r.chance(1, 20) ? 3000 : 60;
    g.maxCols = r.chance(1, 20) ? 40 : 6;
    g.bigDict = r.chance(1, 20);
    if (c.idx % 8 < 6) g.manyCols = 60;
    int writer = int(c.idx % 8);
    if (writer >= 6) {
        g.weirdNames      = false;
        g.simpleStrings   = true;
        g.nonEmptyStrings = true;
        g.maxRows         = 40;
        g.special         = false;
        g.bitfields       = false;
    }
    Tab t = genTable(r, g);
    if (writer == 6)  // number parsing rejects denormalised values
        for (auto& k : t.c)
            if (!k.isInt() && !k.isStr())
                for (auto& x : k.d)
                    if (std::fabs(x) < (k.type == REAL ? 1.2e-38 : 2.3e-308)) x = 0;
    std::string how = " [" + describe(t) + " written by ";
    std::string path = c.scratch + "/w.odb";
    long maxRows     = 0;
    Bytes b;
    Tab exp       = t;
    long reported = -1;
    switch (writer) {
        case 0:
        case 1:
        case 2: {
            EncOpts eo      = genEnc(r, t);
            eo.layout       = writer;
            if (writer == 2) eo.setRowCount = true;
            eo.rowsPerFrame = r.chance(1, 2) ? r.range(1, long(t.n) + 5) : 0;
            maxRows         = eo.rowsPerFrame;
            how += "the C encoder, " + encStr(eo) + "]";
            EncResult e = encodeC(t, eo);
            if (e.rc) {
                ODV_FAIL(c, "encode-error", e.err << how);
                return;
            }
            b        = e.bytes;
            reported = e.reported;
            break;
        }
        case 3: {
            WriteOpts wo;
            wo.buffer = r.chance(1, 2) ? r.range(1, 80) : 0;
            wo.longs  = r.chance(1, 2);
            wo.sink   = int(r.below(2));
            how += "the row writer, buffer of " + std::to_string(wo.buffer) + " rows" + (wo.longs ? ", longs]" : "]");
            exp.props.clear();
            try {
                std::vector<Tab> parts{t};
                writeRows(path, parts, wo);
                maxRows = wo.buffer;
            }
            catch (std::exception& e) {
                c.viol("write-error", e.what() + how);
                return;
            }
            readFile(path, b);
            break;
        }
        case 4: {
            maxRows = r.range(1, long(t.n) + 5);
            how += "the C++ encoder, at most " + std::to_string(maxRows) + " rows]";
            try {
                encodeCpp(t, path, size_t(maxRows), r.chance(1, 2));
            }
            catch (std::exception& e) {
                c.viol("write-error", e.what() + how);
                return;
            }
            readFile(path, b);
            break;
        }
        case 5: {
            EncResult e = encodeC(t);
            if (e.rc) {
                ODV_FAIL(c, "encode-error", e.err << how);
                return;
            }
            std::string in = c.scratch + "/in.odb";
            writeFile(in, e.bytes);
            long buf = r.chance(1, 2) ? r.range(1, 80) : 0;
            maxRows  = buf;
            how += "a row-wise copy, buffer of " + std::to_string(buf) + " rows]";
            try {
                copyRows(in, path, buf, r.chance(1, 2));
            }
            catch (std::exception& x) {
                c.viol("write-error", x.what() + how);
                return;
            }
            readFile(path, b);
            exp.props.clear();
            break;
        }
        case 6: {
            how += "text import]";
            try {
                importCpp(csv(t), path, ",", int(r.below(3)));
            }
            catch (std::exception& x) {
                c.viol("write-error", x.what() + how);
                return;
            }
            readFile(path, b);
            exp.props.clear();
            break;
        }
        default: {
            EncResult e = encodeC(t);
            writeFile(c.scratch + "/in.odb", e.bytes);
            int k = int(r.below(3));
            std::vector<std::string> cmd;
            if (k == 0) cmd = {"sql", "select *", "-i", "in.odb", "-o", "w.odb", "-f", "odb"};
            if (k == 1) cmd = {"compact", "in.odb", "w.odb"};
            if (k == 2) cmd = {"fixrowsize", "in.odb", "w.odb"};
            how += "odc " + cmd[0] + "]";
            Proc p = odcTool(c, cmd, c.scratch);
            if (p.sanitizer) c.viol("tool-sanitizer:" + cmd[0], p.err.substr(0, 2000) + how);
            if (p.rc) {
                c.viol("tool-error:" + cmd[0], p.err.substr(0, 600) + how);
                return;
            }
            readFile(path, b);
            exp.props.clear();
            c.stat("tool outputs parsed");
        }
    }
    c.keep("out.odb", b);
    try {
        std::vector<RefFrame> fs = refParse(b);
        if (reported >= 0 && size_t(reported) != b.size()) ODV_FAIL(c, "byte-count", reported << " reported, " << b.size() << " written" << how);
        Tab got;
        std::vector<Tab> v;
        for (auto& f : fs) {
            if (f.swapped || f.major != 0 || f.minor != 5) ODV_FAIL(c, "version", f.major << "." << f.minor << (f.swapped ? " swapped" : "") << how);
            if (maxRows > 0 && f.nrows > maxRows) ODV_FAIL(c, "frame-rows", f.nrows << " rows in a frame of at most " << maxRows << how);
            std::string d = diffMeta(exp, f.tab, false);
            if (!d.empty() && writer < 6) c.viol("meta", d + how);
            if (writer == 0 || writer == 1 || writer == 2 || writer == 4) {
                d = diffProps(exp, f.tab);
                if (!d.empty()) c.viol("props", d + how);
            }
            // statistics in the header are those of the content
            for (size_t i = 0; i < f.cols.size(); i++) {
                const RefCol& k = f.cols[i];
                if (k.type == STRING) {
                    std::set<std::string> tabset(k.table.begin(), k.table.end());
                    if (tabset.size() != k.table.size()) ODV_FAIL(c, "string-table", "a string twice in the table of column " << i << how);
                    continue;
                }
                bool anyMiss = false, any = false, nan = false;
                double mn = 0, mx = 0;
                for (size_t q = 0; q < f.tab.n; q++) {
                    if (f.tab.c[i].miss[q]) {
                        anyMiss = true;
                        continue;
                    }
                    double x = f.tab.c[i].d[q];
                    if (x != x) nan = true;
                    if (!any || x < mn) mn = x;
                    if (!any || x > mx) mx = x;
                    any = true;
                }
                if (anyMiss != k.hasMissing) ODV_FAIL(c, "missing-flag", "column " << i << " missing flag " << k.hasMissing << " but missing cells " << anyMiss << " storage " << k.codec << how);
                if (any && !nan) {
                    bool okMin = k.min == mn || (k.type == REAL && double(float(k.min)) == mn);
                    bool okMax = k.max == mx || (k.type == REAL && double(float(k.max)) == mx);
                    if (!okMin || !okMax) ODV_FAIL(c, "range", "column " << i << " range " << k.min << "," << k.max << " but cells " << mn << "," << mx << " storage " << k.codec << how);
                }
                c.stat("numeric columns parsed");
            }
            v.push_back(f.tab);
        }
        std::string d = diffCells(exp, concat(v), true, writer >= 6);
        if (!d.empty()) c.viol("cells", d + how);
        c.stat("frames parsed", fs.size());
        c.stat("cells compared", exp.n * exp.c.size());
    }
    catch (std::exception& x) {
        c.viol("parse", x.what() + how);
    }
    c.sig(mix(shapeSig(t), uint64_t(writer)));
    c.sample(how);
}
}  // namespace odv
