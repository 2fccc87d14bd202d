// C13: a sink that fails at any point is always reported, and byte counts are exact.
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include "eckit/io/DataHandle.h"
#include "iface.h"
using namespace odv;
namespace odv {
const char* odvName() { return "C13"; }
uint64_t odvProbes() { return 0; }
void odvInit() {
    signal(SIGPIPE, SIG_IGN);
    signal(SIGXFSZ, SIG_IGN);
}
namespace {
enum How { SHORT, ZERO, MINUS, LMIN, LONGER, DRIBBLE, THROW, NHOW };
const char* HOWS[] = {"short count", "zero", "-1", "LONG_MIN", "more than offered", "one byte less at each call", "exception"};
// accepts 'budget' bytes, then fails in the given way; once (then it would accept again) or for ever
struct Sink {
    Bytes got;
    long budget = LONG_MAX;
    int how     = SHORT;
    bool failed = false;
    bool once   = false;
    long calls  = 0;
    long put(const void* p, long n, bool throws) {
        calls++;
        const unsigned char* q = static_cast<const unsigned char*>(p);
        if (how == DRIBBLE && budget != LONG_MAX) {
            if (n > 1) failed = true;
            got.insert(got.end(), q, q + std::max(0L, n - 1));
            return n > 1 ? n - 1 : n;
        }
        if (!(failed && once) && (failed || long(got.size()) + n > budget)) {
            long room = std::max(0L, budget - long(got.size()));
            if (room > n) room = n;
            failed    = true;
            switch (how) {
                case SHORT:
                    got.insert(got.end(), q, q + room);
                    return room;
                case ZERO: return 0;
                case MINUS: return -1;
                case LMIN: return LONG_MIN;
                case LONGER: return n + 1;
                case THROW:
                    if (throws) throw std::runtime_error("the sink is full");
                    return -7;
            }
        }
        got.insert(got.end(), q, q + n);
        return n;
    }
    static long write(void* ctx, const void* p, long n) { return static_cast<Sink*>(ctx)->put(p, n, false); }
};
struct SinkHandle : public eckit::DataHandle {
    Sink* s;
    bool open       = false;
    bool closeFails = false;
    int opened = 0, closed = 0;
    explicit SinkHandle(Sink* s) : s(s) {}
    void print(std::ostream& o) const override { o << "SinkHandle"; }
    eckit::Length openForRead() override { throw std::runtime_error("not readable"); }
    void openForWrite(const eckit::Length&) override { open = true, opened++; }
    void openForAppend(const eckit::Length&) override { open = true, opened++; }
    long read(void*, long) override { throw std::runtime_error("not readable"); }
    long write(const void* p, long n) override { return s->put(p, n, true); }
    eckit::Offset position() override { return (long long)s->got.size(); }
    eckit::Length estimate() override { return (long long)s->got.size(); }
    void close() override {
        closed++;
        open = false;
        if (closeFails) {
            s->failed = true;
            throw std::runtime_error("close failed");
        }
    }
};
bool isPrefix(const Bytes& a, const Bytes& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
// as far as both go
bool agrees(const Bytes& a, const Bytes& b) { return std::equal(a.begin(), a.begin() + long(std::min(a.size(), b.size())), b.begin()); }
long pickBudget(Rng& r, size_t total, const std::vector<size_t>& edges) {
    if (r.chance(1, 8)) return long(total) + r.range(0, 3);
    if (r.chance(1, 2) && !edges.empty()) {
        long e = long(r.pick(edges)) + r.range(-2, 2);
        if (e >= 0) return e;
    }
    if (r.chance(1, 6)) return long(total) - 1;
    return long(r.below(total));
}
struct Limit {  // file size limit of this process
    rlimit old;
    explicit Limit(long n) {
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit l = old;
        l.rlim_cur = rlim_t(n);
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
struct Enc {
    odc_encoder_t* e = nullptr;
    Image im;
    EncOpts eo;
    ~Enc() {
        if (e) odc_free_encoder(e);
    }
};
void capi(Ctx& c, int mode) {
    Rng& r = c.rng;
    GenOpts g;
    g.maxRows = r.chance(1, 12) ? 3000 : 60;
    g.bigDict = r.chance(1, 20);
    Tab t     = genTable(r, g);
    Enc E;
    E.eo = genEnc(r, t);
    if (E.eo.layout == 2) E.eo.setRowCount = true;
    E.eo.rowsPerFrame = r.chance(1, 2) ? r.range(1, long(t.n) + 3) : 0;
    odc_integer_behaviour(E.eo.longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
    buildImage(t, E.eo, E.im);
    if (odc_new_encoder(&E.e) || setupEncoder(E.e, t, E.eo, E.im)) {
        c.viol("setup", "cannot configure the encoder");
        return;
    }
    std::string how = " [" + describe(t) + ", " + encStr(E.eo) + "]";
    // the reference: a sink with room
    Sink ref;
    long rep = -1;
    int rc   = odc_encode_to_stream(E.e, &ref, Sink::write, &rep);
    if (rc) {
        ODV_FAIL(c, "good-sink", "encoding to a sink with room failed: " << odc_error_string(rc) << how);
        return;
    }
    if (rep != long(ref.got.size())) ODV_FAIL(c, "count", "reported " << rep << " bytes, delivered " << ref.got.size() << how);
    std::vector<RefFrame> fs;
    try {
        fs = refParse(ref.got);
        Tab got = refConcat(fs);
        size_t n = 0;
        for (auto& f : fs) n += size_t(f.nrows);
        if (n != t.n) ODV_FAIL(c, "not-a-file", n << " rows written instead of " << t.n << how);
    }
    catch (std::exception& e) {
        ODV_FAIL(c, "not-a-file", "delivered bytes are no complete file: " << e.what() << how);
        return;
    }
    std::vector<size_t> edges;
    for (auto& f : fs) {
        edges.push_back(f.off);
        edges.push_back(f.off + f.headerLen);
        edges.push_back(f.off + 57);
        edges.push_back(f.off + f.len);
    }
    size_t total = ref.got.size();
    c.sig(mix(mix(uint64_t(mode), uint64_t(E.eo.layout) * 8 + rowClass(fs.size())), shapeSig(t)));
    for (int k = 0; k < 6; k++) {
        if (mode == 0) {
            Sink s;
            s.budget  = pickBudget(r, total, edges);
            s.how     = int(r.below(NHOW));
            s.once    = r.chance(1, 3);
            long rep  = -77;
            bool ask  = r.chance(5, 6);
            int rc    = odc_encode_to_stream(E.e, &s, Sink::write, ask ? &rep : nullptr);
            std::string h = std::string(" [callback, ") + HOWS[s.how] + " after " + std::to_string(s.budget) + " of " + std::to_string(total) + (s.once ? ", once" : "") + "]" + how;
            if (s.failed && rc == 0) c.viol("stream-lost-error", "success reported" + h);
            if (!s.failed && rc) c.viol("stream-false-error", std::string(odc_error_string(rc)) + h);
            if (!s.failed && rc == 0) {
                if (s.got != ref.got) c.viol("stream-bytes", "other bytes than before" + h);
                if (ask && rep != long(s.got.size())) c.viol("count", "reported " + std::to_string(rep) + h);
            }
            if (s.failed && s.how != DRIBBLE && !(s.once && s.how == SHORT) && !agrees(s.got, ref.got)) c.viol("stream-prefix", "what was delivered before the failure is not the start of the file" + h);
            if (s.failed) c.stat(std::string("callback failures: ") + HOWS[s.how]);
        }
        else if (mode == 1) {
            int kind     = int(r.below(7));
            long budget  = pickBudget(r, total, edges);
            std::string p = c.scratch + "/fd.out";
            unlink(p.c_str());
            int fd = -1, other = -1;
            long before = 0;
            bool mustFail = false, file = true;
            static const char* KN[] = {"regular file", "file with earlier content", "/dev/full", "pipe without reader", "read-only descriptor", "full non-blocking pipe", "file size limit"};
            std::unique_ptr<Limit> lim;
            int flags = O_WRONLY | O_CREAT | O_TRUNC;
            Bytes old;
            switch (kind) {
                case 0: fd = open(p.c_str(), flags, 0600); break;
                case 1: {
                    old.assign(size_t(r.range(1, 500)), 'o');
                    writeFile(p, old);
                    fd     = open(p.c_str(), O_WRONLY | (r.chance(1, 2) ? O_APPEND : 0));
                    before = long(old.size());
                    lseek(fd, 0, SEEK_END);
                    break;
                }
                case 2: fd = open("/dev/full", O_WRONLY); mustFail = true; file = false; break;
                case 3: {
                    int q[2];
                    if (pipe(q)) throw std::runtime_error("pipe");
                    close(q[0]);
                    fd = q[1];
                    mustFail = true;
                    file     = false;
                    break;
                }
                case 4: {
                    writeFile(p, std::string("x"));
                    fd       = open(p.c_str(), O_RDONLY);
                    mustFail = true;
                    file     = false;
                    break;
                }
                case 5: {
                    int q[2];
                    if (pipe(q)) throw std::runtime_error("pipe");
                    other = q[0];
                    fd    = q[1];
                    fcntl(fd, F_SETFL, O_NONBLOCK);
                    fcntl(fd, F_SETPIPE_SZ, 4096);
                    fcntl(other, F_SETFL, O_NONBLOCK);
                    // leave room for 'budget' bytes (or none)
                    std::vector<char> fill(4096, 'f');
                    long room = std::min<long>(budget, 4096);
                    if (write(fd, fill.data(), size_t(4096 - room)) < 0 && room != 4096) {}
                    before   = 4096 - room;
                    file     = false;
                    break;
                }
                case 6: {
                    fd = open(p.c_str(), flags, 0600);
                    mustFail = budget < long(total);
                    break;
                }
            }
            long rep = -77;
            int rc;
            {
                if (kind == 6) lim.reset(new Limit(budget));
                rc = odc_encode_to_file_descriptor(E.e, fd, &rep);
                lim.reset();
            }
            std::string h = std::string(" [") + KN[kind] + ", room for " + std::to_string(budget) + " of " + std::to_string(total) + "]" + how;
            Bytes got;
            if (kind == 5) {
                char buf[8192];
                ssize_t n;
                while ((n = read(other, buf, sizeof buf)) > 0) got.insert(got.end(), buf, buf + n);
                got.erase(got.begin(), got.begin() + std::min<long>(before, long(got.size())));
                close(other);
            }
            if (fcntl(fd, F_GETFD) < 0) c.viol("fd-closed", "the caller's descriptor was closed" + h);
            close(fd);
            if (file) {
                readFile(p, got);
                if (got.size() < old.size() || !std::equal(old.begin(), old.end(), got.begin()))
                    c.viol("fd-old-content", "earlier content altered" + h);
                else
                    got.erase(got.begin(), got.begin() + long(old.size()));
            }
            if (mustFail && rc == 0) c.viol("fd-lost-error", "success reported" + h);
            if ((kind == 0 || kind == 1 || (kind == 6 && !mustFail)) && rc) c.viol("fd-false-error", std::string(odc_error_string(rc)) + h);
            if (rc == 0 && (file || kind == 5)) {
                if (got != ref.got) ODV_FAIL(c, "fd-bytes", "success, but " << got.size() << " bytes of " << total << " delivered, or others" << h);
                if (rep != long(total)) ODV_FAIL(c, "count", "reported " << rep << " bytes" << h);
            }
            if (rc && (file || kind == 5) && !isPrefix(got, ref.got)) c.viol("fd-prefix", "what was delivered is not the start of the file" + h);
            c.stat(std::string(rc ? "descriptor failures: " : "descriptor successes: ") + KN[kind]);
        }
        else {
            long n = k == 0 ? 0 : pickBudget(r, total, edges);
            if (k == 1) n = long(total);
            std::unique_ptr<unsigned char[]> buf(new unsigned char[size_t(n) + (n == 0)]);
            memset(buf.get(), 0x5A, size_t(n) + (n == 0));
            long rep = -77;
            int rc   = odc_encode_to_buffer(E.e, buf.get(), n, &rep);
            std::string h = " [buffer of " + std::to_string(n) + " of " + std::to_string(total) + "]" + how;
            if (n < long(total)) {
                if (rc == 0) c.viol("buffer-lost-error", "success reported" + h);
                c.stat("buffers too small");
            }
            else {
                if (rc) c.viol("buffer-false-error", std::string(odc_error_string(rc)) + h);
                else if (rep != long(total))
                    ODV_FAIL(c, "count", "reported " << rep << " bytes" << h);
                else if (memcmp(buf.get(), ref.got.data(), total))
                    c.viol("buffer-bytes", "other bytes" + h);
                for (long q = long(total); q < n; q++)
                    if (buf[size_t(q)] != 0x5A) c.viol("buffer-beyond", "bytes after the reported count were written" + h);
                c.stat("buffers large enough");
            }
        }
        c.stat("encodings attempted");
        // the same encoder, and another one, still work
        if (r.chance(1, 2)) {
            Sink s;
            long rep = -1;
            int rc   = odc_encode_to_stream(E.e, &s, Sink::write, &rep);
            if (rc || s.got != ref.got || rep != long(total)) ODV_FAIL(c, "after-failure", "the encoder gives code " << rc << ", " << rep << " bytes after a failure instead of " << total << how);
            c.stat("encodings after a failure");
        }
    }
    EncOpts plain = E.eo;
    EncResult e   = encodeC(t, plain);
    if (e.rc || e.bytes != ref.got) ODV_FAIL(c, "other-encoder", "another encoder gives " << (e.rc ? e.err : "other bytes") << how);
}
// C++ writers to a failing handle
void cpp(Ctx& c) {
    Rng& r = c.rng;
    int what = int(r.below(5));
    static const char* W[] = {"frame encoder", "row writer", "row writer with schema changes", "text import", "file filter"};
    GenOpts g;
    g.maxRows = r.chance(1, 6) ? 800 : 60;
    if (what >= 3) {
        g.weirdNames = false, g.simpleStrings = true, g.nonEmptyStrings = true, g.special = false, g.bitfields = false;
    }
    std::vector<Tab> parts{genTable(r, g)};
    if (what >= 3)
        for (auto& k : parts[0].c)
            if (!k.isInt() && !k.isStr())
                for (auto& x : k.d)
                    if (std::fabs(x) < (k.type == REAL ? 1.2e-38 : 2.3e-308)) x = 0;
    if (what == 2)
        for (int i = int(r.range(1, 3)); i--;) parts.push_back(genTable(r, g));
    long limit = r.range(1, long(parts[0].n) + 3);
    WriteOpts wo;
    wo.buffer = r.chance(1, 2) ? r.range(1, 80) : 0;
    wo.longs  = r.chance(1, 2);
    std::string in = c.scratch + "/in.odb", text;
    if (what == 3) text = csv(parts[0]);
    if (what == 4) {
        EncOpts eo;
        eo.rowsPerFrame = r.chance(1, 2) ? limit : 0;
        writeFile(in, encodeC(parts[0], eo).bytes);
    }
    std::string delim = ",", sql = "select *";
    int csvHow = int(r.below(3));
    auto doit = [&](eckit::DataHandle* to) {
        switch (what) {
            case 0: encodeCpp(parts[0], "", size_t(limit), wo.longs, to); break;
            case 1:
            case 2: wo.handle = to; writeRows("", parts, wo); break;
            case 3: importCpp(text, "", delim, csvHow, to); break;
            case 4: filterCpp(sql, in, "", to); break;
        }
    };
    std::string how = std::string(" [") + W[what] + ", " + describe(parts[0]) + (what == 1 || what == 2 ? ", buffer of " + std::to_string(wo.buffer) + " rows" : "") + "]";
    Sink ref;
    SinkHandle rh(&ref);
    try {
        doit(&rh);
    }
    catch (std::exception& e) {
        c.viol("cpp-good-sink", e.what() + how);
        return;
    }
    std::vector<RefFrame> fs;
    try {
        fs = refParse(ref.got);
        size_t n = 0, want = 0;
        for (auto& f : fs) n += size_t(f.nrows);
        for (auto& p : parts) want += p.n;
        if (n != want) ODV_FAIL(c, "cpp-not-a-file", n << " rows written instead of " << want << how);
    }
    catch (std::exception& e) {
        ODV_FAIL(c, "cpp-not-a-file", e.what() << how);
        return;
    }
    std::vector<size_t> edges;
    for (auto& f : fs)
        for (size_t x : {f.off, f.off + f.headerLen, f.off + f.len}) edges.push_back(x);
    size_t total = ref.got.size();
    for (int k = 0; k < 4; k++) {
        Sink s;
        SinkHandle h(&s);
        s.budget     = pickBudget(r, total, edges);
        s.how        = int(r.below(NHOW));
        s.once       = r.chance(1, 3);
        bool threw = false;
        std::string msg;
        try {
            doit(&h);
        }
        catch (std::exception& e) {
            threw = true;
            msg   = e.what();
        }
        std::string hh = std::string(" [") + HOWS[s.how] + " after " + std::to_string(s.budget) + " of " + std::to_string(total) + (s.once ? ", once" : "") + "]" + how;
        if (s.failed && !threw) c.viol(std::string("cpp-lost-error:") + W[what], "no exception" + hh);
        if (!s.failed && threw) c.viol("cpp-false-error", msg + hh);
        if (!s.failed && !threw && s.got != ref.got) c.viol("cpp-bytes", "other bytes than before" + hh);
        if (s.failed && s.how != DRIBBLE && !s.once && !agrees(s.got, ref.got)) c.viol("cpp-prefix", "what was delivered before the failure is not the start of the file" + hh);
        // nothing may be written after the failure by a writer which is torn down
        if (s.failed && s.once && s.how != DRIBBLE && s.got.size() > total) c.viol("cpp-again", "rows were written again after a failure" + hh);
        if (s.failed) c.stat(std::string("C++ failures: ") + W[what]);
        c.stat("encodings attempted");
    }
    {
        Sink s;
        SinkHandle h(&s);
        try {
            doit(&h);
            if (s.got != ref.got) c.viol("cpp-after-failure", "other bytes after failures of other writers" + how);
        }
        catch (std::exception& e) {
            c.viol("cpp-after-failure", e.what() + how);
        }
    }
    c.sig(mix(mix(9, uint64_t(what)), shapeSig(parts[0])));
}
std::map<std::string, Bytes> dirFiles(const std::string& d) {
    std::map<std::string, Bytes> m;
    Proc p = run({"/bin/ls", "-1", d}, d);
    std::istringstream is(p.out);
    std::string f;
    while (std::getline(is, f)) readFile(d + "/" + f, m[f]);
    return m;
}
void tools(Ctx& c) {
    Rng& r = c.rng;
    GenOpts g;
    g.minRows = 1;
    g.maxRows = r.chance(1, 3) ? 2000 : 60;
    g.weirdNames = false, g.simpleStrings = true, g.nonEmptyStrings = true, g.special = false, g.bitfields = false;
    g.suffix = "@t";
    Tab t = genTable(r, g);
    for (auto& k : t.c)
        if (!k.isInt() && !k.isStr())
            for (auto& x : k.d)
                if (std::fabs(x) < (k.type == REAL ? 1.2e-38 : 2.3e-308)) x = 0;
    Col id;
    id.name = "kk@t";
    id.type = INTEGER;
    id.resize(t.n);
    for (size_t i = 0; i < t.n; i++) id.d[i] = double(i % 3);
    t.c.push_back(id);
    {
        Col q = id;
        q.name = "seqno@t";
        t.c.push_back(q);
    }
    Tab u;
    u.n = t.n;
    id.name = "other@u";
    u.c.push_back(id);
    EncOpts eo;
    eo.rowsPerFrame = r.chance(1, 2) ? r.range(1, long(t.n) + 3) : 0;
    unsigned which = unsigned(r.below(12));
    if (which == 6) eo.rowsPerFrame = 0;  // sorting strings of changing widths: see C22
    Bytes b = encodeC(t, eo).bytes, b2 = encodeC(u).bytes;
    struct Cmd {
        const char* name;
        std::vector<std::string> a;
    };
    std::vector<Cmd> cmds{{"compact", {"compact", "../in.odb", "o.odb"}},
                          {"fixrowsize", {"fixrowsize", "../in.odb", "o.odb"}},
                          {"set", {"set", "kk@t=7", "../in.odb", "o.odb"}},
                          {"sql", {"sql", "select *", "-i", "../in.odb", "-o", "o.odb", "-f", "odb"}},
                          {"sql text", {"sql", "select *", "-i", "../in.odb", "-o", "o.txt"}},
                          {"split", {"split", "../in.odb", "o_{kk}.odb"}},
                          {"split sorted", {"split", "-sort", "../in.odb", "o_{kk}.odb"}},
                          {"split, one open file", {"split", "-maxopenfiles", "1", "../in.odb", "o_{kk}.odb"}},
                          {"merge", {"merge", "-o", "o.odb", "../in.odb", "../in2.odb"}},
                          {"import", {"import", "../in.csv", "o.odb"}},
                          {"mdset", {"mdset", "kk:REAL", "../in.odb", "o.odb"}},
                          {"index", {"index", "../in.odb", "o.idx"}}};
    Cmd& cmd       = cmds[which % cmds.size()];
    std::string in = c.scratch + "/in.odb";
    writeFile(in, b);
    writeFile(c.scratch + "/in2.odb", b2);
    writeFile(c.scratch + "/in.csv", csv(t));
    std::string good = c.scratch + "/good", bad = c.scratch + "/bad";
    mkdir(good.c_str(), 0700);
    mkdir(bad.c_str(), 0700);
    for (auto& f : dirFiles(good)) unlink((good + "/" + f.first).c_str());
    std::string how = " [odc " + std::string(cmd.name) + ", " + describe(t) + "]";
    Proc p = odcTool(c, cmd.a, good);
    if (p.rc || p.sanitizer) {
        ODV_FAIL(c, std::string("tool-good:") + cmd.name, "exit " << p.rc << " " << p.err.substr(0, 800) << how);
        return;
    }
    auto want = dirFiles(good);
    size_t biggest = 0;
    for (auto& f : want) biggest = std::max(biggest, f.second.size());
    if (!biggest) {
        ODV_FAIL(c, std::string("tool-good:") + cmd.name, "no output" << how);
        return;
    }
    for (int k = 0; k < 3; k++) {
        long lim = k == 0 ? long(biggest) - 1 - long(r.below(std::min<size_t>(biggest, 3))) : pickBudget(r, biggest, {});
        for (auto& f : dirFiles(bad)) unlink((bad + "/" + f.first).c_str());
        std::vector<std::string> v{c.bindir + "/odc"};
        v.insert(v.end(), cmd.a.begin(), cmd.a.end());
        Proc q        = run(v, bad, {}, 60, lim);
        std::string h = " [files limited to " + std::to_string(lim) + " of " + std::to_string(biggest) + " bytes]" + how;
        if (q.sanitizer || q.timeout || q.rc >= 128) {
            ODV_FAIL(c, std::string("tool-crash:") + cmd.name, "exit " << q.rc << " " << q.err.substr(0, 1500) << h);
            continue;
        }
        if (lim < long(biggest)) {
            if (q.rc == 0) c.viol(std::string("tool-lost-error:") + cmd.name, "exit 0" + h);
            c.stat(std::string("tool failures: ") + cmd.name);
        }
        else {
            if (q.rc) c.viol(std::string("tool-false-error:") + cmd.name, "exit " + std::to_string(q.rc) + " " + q.err.substr(0, 500) + h);
            else if (dirFiles(bad) != want)
                c.viol(std::string("tool-bytes:") + cmd.name, "other files" + h);
        }
        c.stat("tools run with limited files");
    }
    c.sig(mix(hashStr(cmd.name), shapeSig(t)));
}
}  // namespace
void odvCase(Ctx& c) {
    int m = int(c.idx % 16);
    if (m == 15)
        tools(c);
    else if (m >= 11)
        cpp(c);
    else
        capi(c, m < 5 ? 0 : m < 8 ? 1 : 2);
}
}  // namespace odv
