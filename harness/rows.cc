#include "rows.h"

#include "eckit/filesystem/PathName.h"
#include "eckit/io/AutoCloser.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/MDI.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/Writer.h"
#include "odc/api/ColumnInfo.h"
#include "odc/api/Odb.h"
#include "odc/api/StridedData.h"
#include "odc/core/MetaData.h"
#include "odc/core/Column.h"

namespace odv {
namespace {
struct Longs {
    explicit Longs(bool l) { odc::api::Settings::treatIntegersAsDoubles(!l); }
    ~Longs() { odc::api::Settings::treatIntegersAsDoubles(false); }
};
struct Buf {
    explicit Buf(long n) : n(n) {
        if (n) setenv("ODB_ROWS_BUFFER_SIZE", std::to_string(n).c_str(), 1);
    }
    ~Buf() {
        if (n) unsetenv("ODB_ROWS_BUFFER_SIZE");
    }
    long n;
};
template <typename IT>
void startSeg(RowRead& R, IT& it) {
    Tab t;
    std::vector<double> md;
    for (size_t i = 0; i < it->columns().size(); i++) {
        const odc::core::Column& k = *it->columns()[i];
        Col c;
        c.name  = k.name();
        c.type  = int(k.type());
        c.width = k.dataSizeDoubles() * 8;
        if (c.type == BITFIELD) {
            const auto& b = k.bitfieldDef();
            for (size_t j = 0; j < b.first.size(); j++) c.bits.push_back({b.first[j], b.second[j]});
        }
        t.c.push_back(c);
        md.push_back(it->missingValue(i));
    }
    R.segs.push_back(t);
    R.mdi.push_back(md);
}
template <typename IT>
void readAll(RowRead& R, IT& it, const IT& end, bool longs, bool props) {
    bool first = true;
    for (; it != end; ++it) {
        bool nd = it->isNewDataset();
        // (the first row of a file is not marked by a Reader's begin(); every later change of schema is)
        if (nd || first) {
            startSeg(R, it);
            (void)props;
        }
        first  = false;
        Tab& t = R.segs.back();
        if (it->columns().size() != t.c.size()) {
            R.anomaly = "column count changed without a new dataset";
            return;
        }
        for (size_t i = 0; i < t.c.size(); i++) {
            Col& c = t.c[i];
            if (!nd && R.anomaly.empty() && (it->columns()[i]->name() != c.name || int(it->columns()[i]->type()) != c.type))
                R.anomaly = "column " + c.name + " changed without a new dataset";
            if (c.isStr()) {
                c.s.push_back(it->string(int(i)));
                c.miss.push_back(0);
            }
            else {
                double v = it->data(i);
                bool m   = it->isMissing(i);
                if (c.isInt() && longs) {
                    int64_t x;
                    memcpy(&x, &v, 8);
                    v = double(x);
                }
                c.d.push_back(v);
                c.miss.push_back(m);
            }
        }
        t.n++;
    }
}
}  // namespace

RowRead readRows(const std::string& path, bool longs) {
    RowRead R;
    Longs L(longs);
    try {
        odc::Reader rd((eckit::PathName(path)));
        odc::Reader::iterator it  = rd.begin();
        odc::Reader::iterator end = rd.end();
        readAll(R, it, end, longs, true);
    }
    catch (std::exception& e) {
        R.err = e.what();
    }
    return R;
}

RowRead selectRows(const std::string& sql, const std::string& path) {
    RowRead R;
    Longs L(false);
    try {
        odc::Select s = path.empty() ? odc::Select(sql) : odc::Select(sql, path.c_str());
        odc::Select::iterator it  = s.begin();
        odc::Select::iterator end = s.end();
        // n.b. a change of schema while selecting is signalled as for readers
        readAll(R, it, end, false, false);
    }
    catch (std::exception& e) {
        R.err = e.what();
    }
    return R;
}

void writeRows(const std::string& path, const std::vector<Tab>& parts, const WriteOpts& o) {
    Longs L(o.longs);
    Buf B(o.buffer);
    std::unique_ptr<eckit::DataHandle> dh;
    std::unique_ptr<odc::Writer<>> w;
    if (o.handle)
        w.reset(new odc::Writer<>(*o.handle));
    else if (o.sink == 1) {
        dh.reset(eckit::PathName(path).fileHandle());
        w.reset(new odc::Writer<>(*dh));
    }
    else
        w.reset(new odc::Writer<>(eckit::PathName(path)));
    {
        odc::Writer<>::iterator it = w->begin();
        EncOpts eo;
        eo.longs       = o.longs;
        eo.intMissing  = o.intMissing;
        eo.realMissing = o.realMissing;
        for (size_t p = 0; p < parts.size(); p++) {
            const Tab& t = parts[p];
            if (p) (**it).flush();
            it->setNumberOfColumns(t.c.size());
            for (size_t i = 0; i < t.c.size(); i++) {
                const Col& c = t.c[i];
                if (c.type == BITFIELD) {
                    eckit::sql::BitfieldDef b;
                    for (auto& x : c.bits) {
                        b.first.push_back(x.first);
                        b.second.push_back(x.second);
                    }
                    it->setBitfieldColumn(i, c.name, odc::api::ColumnType(c.type), b);
                }
                else
                    it->setColumn(i, c.name, odc::api::ColumnType(c.type));
                if (c.isStr()) it->columns()[i]->dataSizeDoubles(c.width / 8);
                if (o.setMissing && !c.isStr()) it->missingValue(i, c.isInt() ? o.intMissing : o.realMissing);
            }
            it->writeHeader();
            for (size_t r = 0; r < t.n; r++) {
                for (size_t i = 0; i < t.c.size(); i++) putCell(reinterpret_cast<unsigned char*>(&it->data(i)), t.c[i], r, eo);
                ++it;
            }
        }
    }
    w.reset();
    if (dh) dh->close();
}

unsigned long copyRows(const std::string& in, const std::string& out, long buffer, bool longs) {
    Longs L(longs);
    Buf B(buffer);
    odc::Reader rd((eckit::PathName(in)));
    odc::Writer<> w((eckit::PathName(out)));
    odc::Reader::iterator b = rd.begin(), e = rd.end();
    odc::Writer<>::iterator o = w.begin();
    return o->pass1(b, e);
}

namespace {
Tab metaCpp(const odc::api::Frame& f, CppFrame& F) {
    Tab t;
    for (auto& ci : f.columnInfo()) {
        Col c;
        c.name  = ci.name;
        c.type  = int(ci.type);
        c.width = ci.decodedSize;
        std::vector<int> off;
        for (auto& b : ci.bitfield) {
            c.bits.push_back({b.name, b.size});
            off.push_back(b.offset);
        }
        F.bitOffsets.push_back(off);
        t.c.push_back(c);
    }
    t.n = f.rowCount();
    if (f.columnCount() != t.c.size()) throw std::runtime_error("columnCount differs from columnInfo");
    t.props  = f.properties();
    F.offset = long(static_cast<long long>(f.offset()));
    F.length = long(static_cast<long long>(f.length()));
    return t;
}
void decodeCpp(odc::api::Frame& f, CppFrame& F, const CppOpts& o) {
    Tab meta = F.tab;
    std::vector<std::string> names;
    std::vector<int> idx;
    if (o.select.empty())
        for (size_t i = 0; i < meta.c.size(); i++) {
            names.push_back(meta.c[i].name);
            idx.push_back(int(i));
        }
    else
        for (auto& s : o.select) {
            int k = meta.find(s);
            if (k < 0) throw std::runtime_error("harness: select of unknown column");
            names.push_back(s);
            idx.push_back(k);
        }
    std::vector<std::unique_ptr<unsigned char[]>> mem;
    std::vector<odc::api::StridedData> sd;
    for (int k : idx) {
        mem.emplace_back(new unsigned char[std::max<size_t>(1, meta.c[k].width * meta.n)]);
        memset(mem.back().get(), 0xA5, std::max<size_t>(1, meta.c[k].width * meta.n));
        sd.emplace_back(mem.back().get(), meta.n, meta.c[k].width, meta.c[k].width);
    }
    odc::api::Decoder d(names, sd);
    d.decode(f, o.nthreads);
    Tab t;
    t.n     = meta.n;
    t.props = meta.props;
    for (size_t i = 0; i < idx.size(); i++) {
        Col c = meta.c[idx[i]];
        c.resize(meta.n);
        for (size_t r = 0; r < meta.n; r++) {
            const unsigned char* p = mem[i].get() + r * c.width;
            if (c.isStr())
                c.s[r] = std::string(reinterpret_cast<const char*>(p), strnlen(reinterpret_cast<const char*>(p), c.width));
            else if (c.isInt() && o.longs) {
                int64_t v;
                memcpy(&v, p, 8);
                c.d[r]    = double(v);
                c.miss[r] = c.d[r] == o.intMissing;
            }
            else {
                memcpy(&c.d[r], p, 8);
                c.miss[r] = c.d[r] == (c.isInt() ? o.intMissing : o.realMissing);
            }
        }
        t.c.push_back(c);
    }
    F.tab = t;
}
std::unique_ptr<odc::api::Reader> openCpp(const std::string& path, const CppOpts& o, Bytes& keep) {
    if (o.source == 0) return std::unique_ptr<odc::api::Reader>(new odc::api::Reader(path, o.aggregated, o.rowlimit));
    readFile(path, keep);
    return std::unique_ptr<odc::api::Reader>(new odc::api::Reader(new eckit::MemoryHandle(keep.data(), keep.size()), o.aggregated, o.rowlimit));
}
}  // namespace

CppRead readCpp(const std::string& path, const CppOpts& o) {
    CppRead R;
    Longs L(o.longs);
    try {
        Bytes keep;
        auto rd = openCpp(path, o, keep);
        std::vector<odc::api::Frame> fs;
        while (odc::api::Frame f = rd->next()) {
            CppFrame F;
            F.tab = metaCpp(f, F);
            if (o.reverse) {
                R.frames.push_back(F);
                fs.push_back(f);
            }
            else {
                decodeCpp(f, F, o);
                eckit::Buffer b = f.encodedData();
                F.encoded.assign(static_cast<const unsigned char*>(b.data()), static_cast<const unsigned char*>(b.data()) + b.size());
                R.frames.push_back(F);
            }
        }
        if (o.reverse) {
            rd.reset();
            for (size_t i = fs.size(); i-- > 0;) {
                eckit::Buffer b = fs[i].encodedData();
                R.frames[i].encoded.assign(static_cast<const unsigned char*>(b.data()), static_cast<const unsigned char*>(b.data()) + b.size());
                decodeCpp(fs[i], R.frames[i], o);
            }
        }
    }
    catch (std::exception& e) {
        R.err = e.what();
    }
    return R;
}

namespace {
struct Visit : odc::api::SpanVisitor {
    SpanRes& R;
    explicit Visit(SpanRes& r) : R(r) {}
    void operator()(const std::string& n, const std::set<long>& v) override {
        auto& c = R.cols[n];
        if (c.present) R.err = "column visited twice";
        c.present = true;
        c.kind    = 1;
        c.l       = v;
        R.visits++;
    }
    void operator()(const std::string& n, const std::set<double>& v) override {
        auto& c   = R.cols[n];
        c.present = true;
        c.kind    = 2;
        c.d       = v;
        R.visits++;
    }
    void operator()(const std::string& n, const std::set<std::string>& v) override {
        auto& c   = R.cols[n];
        c.present = true;
        c.kind    = 3;
        c.s       = v;
        R.visits++;
    }
};
}  // namespace

std::vector<SpanRes> spansCpp(const std::string& path, const CppOpts& o, const std::vector<std::string>& cols, bool onlyConst) {
    std::vector<SpanRes> out;
    Longs L(o.longs);
    Bytes keep;
    auto rd = openCpp(path, o, keep);
    while (odc::api::Frame f = rd->next()) {
        SpanRes S;
        try {
            odc::api::Span s = f.span(cols, onlyConst);
            S.offset         = long(static_cast<long long>(s.offset()));
            S.length         = long(static_cast<long long>(s.length()));
            Visit v(S);
            s.visit(v);
            for (auto& kv : S.cols) {  // the typed getters agree with the visitor
                bool same = kv.second.kind == 1 ? s.getIntegerValues(kv.first) == kv.second.l
                            : kv.second.kind == 3 ? s.getStringValues(kv.first) == kv.second.s
                                                  : s.getRealValues(kv.first).size() == kv.second.d.size();
                if (!same) S.err = "getter and visitor disagree";
            }
        }
        catch (std::exception& e) {
            S.err = e.what();
            S.offset = -2;
        }
        out.push_back(S);
    }
    return out;
}

size_t filterCpp(const std::string& sql, const std::string& in, const std::string& out, eckit::DataHandle* to) {
    Longs L(false);
    std::unique_ptr<eckit::DataHandle> a(eckit::PathName(in).fileHandle()), b(to ? nullptr : eckit::PathName(out).fileHandle());
    a->openForRead();
    size_t n;
    {
        eckit::AutoClose c(*a);
        n = odc::api::filter(sql, *a, to ? *to : *b);
    }
    if (b) b->close();
    return n;
}

CppRead frameFilterCpp(const std::string& path, const CppOpts& o, const std::string& sql) {
    CppRead R;
    Longs L(false);
    try {
        Bytes keep;
        auto rd = openCpp(path, o, keep);
        while (odc::api::Frame f = rd->next()) {
            odc::api::Frame g = f.filter(sql);
            CppFrame F;
            if (g) {
                F.tab = metaCpp(g, F);
                decodeCpp(g, F, o);
            }
            R.frames.push_back(F);
        }
    }
    catch (std::exception& e) {
        R.err = e.what();
    }
    return R;
}

size_t importCpp(const std::string& text, const std::string& out, const std::string& delim, int how, eckit::DataHandle* to) {
    Longs L(false);
    std::unique_ptr<eckit::DataHandle> own(to ? nullptr : eckit::PathName(out).fileHandle());
    eckit::DataHandle* b = to ? to : own.get();
    size_t n;
    if (how == 0)
        n = odc::api::odbFromCSV(text, *b, delim);
    else if (how == 1) {
        std::istringstream is(text);
        n = odc::api::odbFromCSV(is, *b, delim);
    }
    else {
        eckit::MemoryHandle m(text.c_str(), text.size());
        m.openForRead();
        eckit::AutoClose c(m);
        n = odc::api::odbFromCSV(m, *b, delim);
    }
    if (own) own->close();
    return n;
}

void encodeCpp(const Tab& t, const std::string& path, size_t maxRows, bool longs, eckit::DataHandle* to) {
    Longs L(longs);
    EncOpts eo;
    eo.longs = longs;
    Image im;
    buildImage(t, eo, im);
    std::vector<odc::api::ColumnInfo> ci;
    std::vector<odc::api::ConstStridedData> sd;
    for (size_t i = 0; i < t.c.size(); i++) {
        odc::api::ColumnInfo k{t.c[i].name, odc::api::ColumnType(t.c[i].type), t.c[i].width, {}};
        int off = 0;
        for (auto& b : t.c[i].bits) {
            k.bitfield.push_back({b.first, uint8_t(b.second), uint8_t(off)});
            off += b.second;
        }
        ci.push_back(k);
        sd.emplace_back(im.colPtr[i], t.n, t.c[i].width, im.stride[i]);
    }
    std::unique_ptr<eckit::DataHandle> own(to ? nullptr : eckit::PathName(path).fileHandle());
    eckit::DataHandle* b = to ? to : own.get();
    if (own) own->openForWrite(0);
    odc::api::encode(*b, ci, sd, t.props, maxRows);
    b->close();
}
}  // namespace odv
