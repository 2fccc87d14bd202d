// C07: frames of the opposite byte order read like native ones.
#include <sys/stat.h>
#include <algorithm>
#include "iface.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C07"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
namespace {
// the frames of a native file written again in the opposite order, with the same storage and contents
Bytes swapFrames(Rng& r, const std::vector<RefFrame>& fs, const std::vector<char>& which) {
    Bytes out;
    for (size_t k = 0; k < fs.size(); k++) {
        RefWrite w;
        w.big           = which[k];
        w.markers       = 0;
        w.shuffleTables = false;
        w.extraTable    = false;
        w.randomMinMax  = false;
        w.nflags        = int(fs[k].flags.size());
        for (auto& c : fs[k].cols) {
            w.codecs.push_back(c.codec);
            w.mdi.push_back(c.mdi);
        }
        Bytes b = refWriteFrame(r, fs[k].tab, w);
        out.insert(out.end(), b.begin(), b.end());
    }
    return out;
}
void dropCr(std::string& s, const std::string& a, const std::string& b) {
    for (size_t p = 0; (p = s.find(a, p)) != std::string::npos;) s.replace(p, a.size(), b);
}
}  // namespace
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    GenOpts g;
    g.maxRows = r.chance(1, 20) ? 1500 : 60;
    g.bigDict = r.chance(1, 20);
    g.manyCols = 300;
    bool tools = c.idx % 16 == 7;
    if (tools) {
        g.maxRows       = 30;
        g.weirdNames    = false;
        g.simpleStrings = true;
        g.manyCols      = 0;
    }
    Tab t = genTable(r, g);
    Bytes native;
    size_t parts = size_t(r.pick(std::vector<long>{1, 1, 2, 4}));
    bool own     = r.chance(1, 2);
    std::vector<Tab> exp;
    if (own) {
        EncOpts eo;
        eo.layout       = int(r.below(3));
        eo.rowsPerFrame = long((t.n + parts - 1) / parts);
        EncResult e     = encodeC(t, eo);
        if (e.rc) {
            ODV_FAIL(c, "encode-error", e.err << describe(t));
            return;
        }
        native = e.bytes;
    }
    else {
        for (size_t k = 0; k < parts; k++) {
            RefWrite w;
            w.markers = int(r.below(3));
            w.nflags  = int(r.below(4));
            Tab s     = k ? t.rows({size_t(r.below(t.n))}) : t;
            Bytes b   = refWriteFrame(r, s, w);
            native.insert(native.end(), b.begin(), b.end());
        }
    }
    std::vector<RefFrame> fs;
    try {
        fs = refParse(native, own);
    }
    catch (std::exception& e) {
        c.viol("native-parse", e.what() + describe(t));
        return;
    }
    std::vector<char> which;
    bool anySwap = false;
    int mix3     = int(r.below(3));
    for (size_t k = 0; k < fs.size(); k++) {
        which.push_back(mix3 == 0 ? 1 : char(r.chance(1, 2)));
        anySwap |= which.back() != 0;
    }
    if (!anySwap) which[0] = 1;
    Bytes sw = swapFrames(r, fs, which);
    for (auto& f : fs) {
        Tab q   = flattened(f);
        q.props = f.props;
        exp.push_back(q);
    }
    std::string how = " [" + describe(t) + " in " + std::to_string(fs.size()) + " frames, swapped";
    for (char q : which) how += q ? " 1" : " 0";
    how += own ? ", storage of the encoder]" : "]";
    c.keep("swapped.odb", sw);
    checkAll(c, sw, exp, how);
    c.stat("frames of opposite byte order", uint64_t(std::count(which.begin(), which.end(), 1)));
    // widths, offsets and lengths as for the native file
    auto look = [&](const Bytes& b, const char* name) {
        std::string p = c.scratch + "/" + name;
        writeFile(p, b);
        CppOpts o;
        o.longs = true;
        return readCpp(p, o);
    };
    CppRead A = look(native, "nat.odb"), B = look(sw, "swp.odb");
    if (!A.err.empty() || !B.err.empty() || A.frames.size() != B.frames.size())
        c.viol("counterpart", "frames read: native " + std::to_string(A.frames.size()) + " " + A.err + ", swapped " + std::to_string(B.frames.size()) + " " + B.err + how);
    else
        for (size_t i = 0; i < A.frames.size(); i++) {
            std::string d = diffMeta(A.frames[i].tab, B.frames[i].tab, own);
            if (d.empty()) d = diffProps(A.frames[i].tab, B.frames[i].tab);
            if (d.empty()) d = diffCells(flattened(A.frames[i].tab), flattened(B.frames[i].tab), false);
            if (d.empty() && A.frames[i].bitOffsets != B.frames[i].bitOffsets) d = "bitfield offsets differ";
            if (!d.empty()) c.viol("counterpart", d + how);
        }
    // a copy through the row interface is native again and equal
    if (r.chance(1, 4)) {
        std::string in = c.scratch + "/swp.odb", out = c.scratch + "/cpy.odb";
        try {
            copyRows(in, out, 0, r.chance(1, 2));
            Bytes cb;
            readFile(out, cb);
            Tab e2;
            std::vector<RefFrame> rf = refParse(cb);
            bool sameSchema          = true;
            for (auto& q : exp) {
                if (e2.c.empty())
                    e2 = q;
                else
                    e2.append(q);
            }
            (void)sameSchema;
            std::vector<Tab> v;
            for (auto& f : rf) v.push_back(flattened(f));
            std::string d = diffCells(e2, concat(v), true);
            if (!d.empty()) c.viol("row-copy", d + how);
        }
        catch (std::exception& e) {
            c.viol("row-copy", e.what() + how);
        }
    }
    if (tools) {
        std::string da = c.scratch + "/a", db = c.scratch + "/b";
        mkdir(da.c_str(), 0755);
        mkdir(db.c_str(), 0755);
        writeFile(da + "/f.odb", native);
        writeFile(db + "/f.odb", sw);
        std::vector<std::vector<std::string>> cmds{{"count", "f.odb"}, {"ls", "f.odb"}, {"header", "f.odb"}, {"sql", "select *", "-i", "f.odb"}, {"sql", "select count(*)", "-i", "f.odb"}, {"compare", "f.odb", "f.odb"}};
        for (auto& cmd : cmds) {
            Proc pa = odcTool(c, cmd, da), pb = odcTool(c, cmd, db);
            if (cmd[0] == "header" && !own) continue;
            if (cmd[0] == "header")
                for (auto* p : {&pa, &pb}) {
                    dropCr(p->out, "byteOrder: same", "byteOrder: x");
                    dropCr(p->out, "byteOrder: other", "byteOrder: x");
                    // positions and the text around the order may be of different length, sizes are equal by construction
                }
            if (pa.sanitizer || pb.sanitizer) c.viol("tool-sanitizer:" + cmd[0], pa.err.substr(0, 800) + pb.err.substr(0, 1500) + how);
            if (cmd[0] == "header") {
                // storage ranges are compared through decoding; only the structure is compared here
                auto lines = [](const std::string& s) { return std::count(s.begin(), s.end(), '\n'); };
                if (lines(pa.out) != lines(pb.out) || pa.rc != pb.rc) c.viol("tool:header", "native:\n" + pa.out.substr(0, 500) + "\nswapped:\n" + pb.out.substr(0, 500) + how);
            }
            else if (pa.rc != pb.rc || pa.out != pb.out)
                c.viol("tool:" + cmd[0], "exit " + std::to_string(pa.rc) + " and " + std::to_string(pb.rc) + ", native:\n" + pa.out.substr(0, 400) + "\nswapped:\n" + pb.out.substr(0, 400) + how);
            c.stat("tool outputs compared");
        }
    }
    c.sig(mix(shapeSig(t), hashStr(how.substr(how.find("swapped")))));
    c.sample(how);
}
}  // namespace odv
