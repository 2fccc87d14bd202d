// C14: the way bytes are delivered never affects what is read.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include "iface.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C14"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
namespace {
enum Kind { NEW, NEXT, AGG, COPY, DECODE, META, FREE, NKIND };
struct Op {
    Kind k;
    int slot, to = 0;
    long lim = -1;
    DecOpts d;
};
struct Res {
    bool cells = false;
    int rc = 0;
    bool done = false;
    Tab t;
};
const int SLOTS = 6;
struct Slot {
    odc_frame_t* f = nullptr;
    int filled     = -1;  // op which gave it its content
    bool doubtful  = false;
};
enum { BUFFER, PATH, FD, FDAT, STREAM, SHORTS, TINY, PIPE, NSRC };
const char* SRC[] = {"buffer", "path", "descriptor", "descriptor being repositioned", "callback", "callback with short pieces", "callback, one byte at a time", "pipe"};
struct Cb {
    StreamSrc s;
    bool tiny = false;
    bool fired = false;
    bool once  = false;
    static long read(void* ctx, void* buf, long len) {
        Cb* c = static_cast<Cb*>(ctx);
        if (c->fired && !c->once) return c->s.failCode;
        if (c->s.failAt >= 0 && c->s.calls + 1 == c->s.failAt) c->fired = true;
        if (c->tiny && len > 1) len = 1;
        return StreamSrc::read(&c->s, buf, len);
    }
};
struct Run {
    std::vector<Res> res;
    std::string err;
    long failedOp = -1;  // operation during which the callback signalled its error
    long calls    = 0;
};
std::vector<Op> script(Rng& r, size_t frames, size_t ncols) {
    std::vector<Op> v;
    bool have[SLOTS] = {};
    int n            = int(r.range(6, 14 + 3 * long(frames)));
    for (int i = 0; i < n; i++) {
        Op o;
        o.slot = int(r.below(SLOTS));
        int k  = int(r.below(20));
        if (!have[o.slot]) {
            o.k          = NEW;
            have[o.slot] = true;
            v.push_back(o);
            continue;
        }
        if (k < 6)
            o.k = NEXT;
        else if (k < 9) {
            o.k   = AGG;
            o.lim = r.chance(1, 2) ? -1 : r.range(1, 60);
        }
        else if (k < 11) {
            o.k  = COPY;
            o.to = int(r.below(SLOTS));
            if (have[o.to]) continue;
            have[o.to] = true;
        }
        else if (k < 17) {
            o.k         = DECODE;
            o.d         = genDec(r, ncols);
            o.d.longs   = true;
            o.d.threads = r.chance(1, 4) ? int(r.range(2, 4)) : 1;
        }
        else if (k < 19)
            o.k = META;
        else {
            o.k          = FREE;
            have[o.slot] = false;
        }
        v.push_back(o);
    }
    // everything that is held is decoded once more
    for (int s = 0; s < SLOTS; s++)
        if (have[s]) {
            Op o;
            o.k    = DECODE;
            o.slot = s;
            v.push_back(o);
        }
    return v;
}
Run execute(Ctx& c, const std::vector<Op>& ops, const Bytes& b, int src, long failAt = -1, long failCode = -1, bool once = false) {
    Run R;
    odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
    Rng sub(c.seed, c.idx, 77);
    odc_reader_t* rd = nullptr;
    Cb cb;
    std::unique_ptr<unsigned char[]> exact;
    std::string path = c.scratch + "/d.odb";
    int rc           = 0, fd = -1;
    bool keepFd      = false;
    switch (src) {
        case BUFFER:
            exact.reset(new unsigned char[b.size() + 1]);
            memcpy(exact.get(), b.data(), b.size());
            rc = odc_open_buffer(&rd, exact.get(), long(b.size()));
            break;
        case PATH:
            writeFile(path, b);
            rc = odc_open_path(&rd, path.c_str());
            break;
        case FD:
        case FDAT: {
            writeFile(path, b);
            fd = open(path.c_str(), sub.chance(1, 2) ? O_RDONLY : O_RDWR);
            if (src == FDAT) lseek(fd, off_t(sub.below(b.size() + 2000)), SEEK_SET);  // the file is read from its start
            rc     = odc_open_file_descriptor(&rd, fd);
            keepFd = src == FDAT || sub.chance(1, 2);
            if (!keepFd) close(fd);
            if (sub.chance(1, 3)) unlink(path.c_str());
            break;
        }
        case PIPE: {
            int p[2];
            if (pipe(p)) throw std::runtime_error("pipe");
            fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
            if (b.size() < (1 << 20) && write(p[1], b.data(), b.size()) != ssize_t(b.size())) throw std::runtime_error("write");
            close(p[1]);
            rc = odc_open_file_descriptor(&rd, p[0]);
            close(p[0]);
            break;
        }
        default:
            cb.s.b        = &b;
            cb.s.rng      = src == SHORTS ? &sub : nullptr;
            cb.tiny       = src == TINY;
            cb.s.failAt   = failAt;
            cb.s.failCode = failCode;
            cb.once       = once;
            rc            = odc_open_stream(&rd, &cb, Cb::read);
    }
    if (rc) {
        R.err = std::string("open: ") + odc_error_string(rc);
        return R;
    }
    Slot s[SLOTS];
    std::vector<std::string> texts;
    for (size_t i = 0; i < ops.size(); i++) {
        const Op& o = ops[i];
        Res q;
        Slot& sl = s[o.slot];
        if (!sl.f && o.k != NEW) {  // its creation failed
            R.res.push_back(q);
            continue;
        }
        bool before = cb.fired;
        if (keepFd && sub.chance(1, 3)) lseek(fd, off_t(sub.below(b.size() + 2000)), SEEK_SET);  // the position is shared with the reader
        q.done      = true;
        switch (o.k) {
            case NEW: q.rc = odc_new_frame(&sl.f, rd); break;
            case NEXT: q.rc = odc_next_frame(sl.f); break;
            case AGG: q.rc = odc_next_frame_aggregated(sl.f, o.lim); break;
            case COPY:
                q.rc = odc_copy_frame(sl.f, &s[o.to].f);
                if (q.rc) s[o.to].f = nullptr;
                break;
            case DECODE: {
                DecResult d = decodeC(sl.f, o.d);
                q.rc        = d.rc;
                q.t         = d.t;
                q.cells     = true;
                if (!d.guardOk) c.viol("guard", d.guardMsg);
                break;
            }
            case META: {
                std::string e;
                q.rc = metaC(sl.f, q.t, e);
                break;
            }
            case FREE:
                q.rc = odc_free_frame(sl.f);
                sl.f = nullptr;
                break;
            default:;
        }
        if (cb.fired && !before) R.failedOp = long(i);
        R.res.push_back(q);
    }
    R.calls = cb.s.calls;
    for (auto& x : s)
        if (x.f) odc_free_frame(x.f);
    if (odc_close(rd)) R.err = "close failed";
    if (keepFd) close(fd);
    return R;
}
std::string diffRes(const Res& a, const Res& b) {
    if (a.done != b.done) return "one was not executed";
    if ((a.rc != 0) != (b.rc != 0) || (a.rc == ODC_ITERATION_COMPLETE) != (b.rc == ODC_ITERATION_COMPLETE))
        return "code " + std::to_string(b.rc) + " instead of " + std::to_string(a.rc) + (b.rc ? std::string(" ") + odc_error_string(b.rc) : "");
    if (a.rc) return "";
    if (a.t.n != b.t.n) return std::to_string(b.t.n) + " rows instead of " + std::to_string(a.t.n);
    std::string d = diffMeta(a.t, b.t, true);
    if (d.empty()) d = diffProps(a.t, b.t);
    if (d.empty() && a.cells) d = diffCells(a.t, b.t, false);
    return d;
}
const char* OPN[] = {"new", "next", "next aggregated", "copy", "decode", "meta", "free"};
}  // namespace
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    FileOpts fo;
    fo.g.maxRows = r.chance(1, 15) ? 3000 : 40;
    fo.maxFrames = r.chance(1, 10) ? 30 : 6;
    std::vector<RefFrame> fs;
    std::string how;
    Bytes b      = genFile(c, fo, fs, how);
    if (r.chance(1, 6)) {  // an empty frame somewhere
        Tab t = fs[0].tab;
        Tab e = t.slice(0, 0);
        RefWrite w;
        Bytes x = refWriteFrame(r, e, w);
        size_t at = fs[r.below(fs.size())].off;
        b.insert(b.begin() + long(at), x.begin(), x.end());
        fs = refParse(b, false);
        how += " with an empty frame";
    }
    size_t ncols = fs[0].cols.size();
    for (auto& f : fs) ncols = std::min(ncols, f.cols.size());
    std::vector<Op> ops = script(r, fs.size(), ncols);
    Run base            = execute(c, ops, b, BUFFER);
    if (!base.err.empty()) {
        c.viol("base", base.err + how);
        return;
    }
    // the baseline itself: frames read one by one are the stored ones
    {
        size_t pos = 0;
        bool agg   = false;
        std::vector<long> at(SLOTS, -1);
        for (size_t i = 0; i < ops.size(); i++) {
            const Op& o  = ops[i];
            const Res& q = base.res[i];
            if (o.k == AGG) agg = true;
            if (agg) break;
            if (o.k == NEXT) {
                if (pos < fs.size() ? q.rc != 0 : q.rc != ODC_ITERATION_COMPLETE) {
                    ODV_FAIL(c, "base-next", "operation " << i << ": code " << q.rc << " at stored frame " << pos << how);
                    return;
                }
                at[size_t(o.slot)] = pos < fs.size() ? long(pos++) : -1;
            }
            if (o.k == COPY) at[size_t(o.to)] = at[size_t(o.slot)];
            if (o.k == NEW || o.k == FREE) at[size_t(o.slot)] = -1;
            if (o.k == DECODE && at[size_t(o.slot)] >= 0 && o.d.select.empty()) {
                const RefFrame& f = fs[size_t(at[size_t(o.slot)])];
                std::string d     = q.rc ? std::string(odc_error_string(q.rc)) : diffMeta(f.tab, q.t);
                if (d.empty()) d = diffCells(flattened(f), flattened(q.t), false);
                if (!d.empty()) ODV_FAIL(c, "base-cells", "operation " << i << ": " << d << how);
                c.stat("decodes compared with the stored frame");
            }
        }
    }
    c.stat("operations", ops.size());
    long shortCalls = 0;
    for (int k = 0; k < 4; k++) {
        int src = int(r.range(PATH, NSRC - 1));
        if (k == 0) src = SHORTS;
        if (src == TINY && b.size() > 20000) src = STREAM;
        if (src == PIPE && b.size() >= (1 << 20)) src = FD;
        Run R = execute(c, ops, b, src);
        if (src == SHORTS) shortCalls = R.calls;
        std::string h = std::string(" read from ") + SRC[src] + how;
        if (!R.err.empty()) {
            c.viol(std::string("open:") + SRC[src], R.err + h);
            continue;
        }
        bool failed = false;
        for (size_t i = 0; i < ops.size(); i++) {
            if (src == PIPE && (failed || R.res[i].rc)) {  // a pipe cannot be read again: errors are allowed, other data is not
                failed = failed || R.res[i].rc;
                if (ops[i].k == DECODE && !R.res[i].rc && !failed) {}
                if (failed && ops[i].k == NEXT) break;
                if (R.res[i].rc) continue;
            }
            std::string d = diffRes(base.res[i], R.res[i]);
            if (!d.empty()) {
                ODV_FAIL(c, std::string("differs:") + SRC[src] + ":" + OPN[ops[i].k], "operation " << i << " (" << OPN[ops[i].k] << "): " << d << h);
                break;
            }
            c.stat("results compared");
        }
        c.stat(std::string("scripts by ") + SRC[src]);
        c.sig(mix(mix(uint64_t(src), fs.size()), shapeSig(fs[0].tab)));
    }
    // the callback fails at its n-th call
    if (shortCalls > 0)
        for (int k = 0; k < 3; k++) {
            long at   = r.range(1, shortCalls);
            long code = r.pick(std::vector<long>{-1, -1, -5, LONG_MIN, INT_MIN});
            bool once = r.chance(1, 2);
            Run R     = execute(c, ops, b, SHORTS, at, code, once);
            std::string h = " callback returns " + std::to_string(code) + " at call " + std::to_string(at) + (once ? " only" : " and later") + how;
            if (!R.err.empty()) {
                if (R.failedOp < 0 && R.err.compare(0, 5, "open:") == 0) continue;
                c.viol("fail-open", R.err + h);
                continue;
            }
            if (R.failedOp < 0) continue;
            size_t e = size_t(R.failedOp);
            c.stat("callback errors");
            for (size_t i = 0; i < e; i++) {
                std::string d = diffRes(base.res[i], R.res[i]);
                if (!d.empty()) {
                    ODV_FAIL(c, "before-failure", "operation " << i << " (" << OPN[ops[i].k] << "): " << d << h);
                    break;
                }
            }
            if (!R.res[e].rc || R.res[e].rc == ODC_ITERATION_COMPLETE)
                ODV_FAIL(c, "lost-error", "operation " << e << " (" << OPN[ops[e].k] << ") during which the callback failed returned " << R.res[e].rc << h);
            // later: what succeeds on frames obtained before the failure gives the same data; nothing is invented
            std::vector<int> state(SLOTS, 1);  // 1: as in the baseline, 0: obtained later
            if (ops[e].k == NEXT || ops[e].k == AGG) state[size_t(ops[e].slot)] = 0;
            if (ops[e].k == COPY) state[size_t(ops[e].to)] = 0;
            for (size_t i = e + 1; i < ops.size(); i++) {
                const Op& o  = ops[i];
                const Res& q = R.res[i];
                if (o.k == NEXT || o.k == AGG) state[size_t(o.slot)] = 0;
                if (o.k == NEW) state[size_t(o.slot)] = 1;
                if (o.k == COPY) state[size_t(o.to)] = state[size_t(o.slot)];
                if ((o.k != DECODE && o.k != META) || q.rc || !q.done) continue;
                if (state[size_t(o.slot)]) {
                    std::string d = diffRes(base.res[i], q);
                    if (!d.empty()) ODV_FAIL(c, "after-failure", "operation " << i << " (" << OPN[o.k] << "): " << d << h);
                    c.stat("results compared after a failure");
                }
                else if (o.k == DECODE && o.d.select.empty() && q.t.n) {
                    // some run of stored frames
                    bool found = false;
                    Tab g      = flattened(q.t);
                    for (size_t f = 0; f < fs.size() && !found; f++) {
                        size_t n = 0, last = f;
                        while (last < fs.size() && n < g.n) n += size_t(fs[last++].nrows);
                        if (n != g.n) continue;
                        bool ok = true;
                        size_t p = 0;
                        for (size_t x = f; x < last && ok; x++) {
                            ok = diffCells(flattened(fs[x]), g.slice(p, size_t(fs[x].nrows)), false, true).empty();
                            p += size_t(fs[x].nrows);
                        }
                        found = ok;
                    }
                    if (!found) ODV_FAIL(c, "invented", "operation " << i << " delivers " << g.n << " rows which are no run of stored frames" << h);
                    c.stat("results checked after a failure");
                }
            }
        }
    c.sample(how);
}
}  // namespace odv
