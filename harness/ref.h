// Independent reader and writer of the file format, written from the format reference (docs) only.
#pragma once
#include "odv.h"
namespace odv {

std::string md5hex(const void* p, size_t n);

struct RefErr : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct RefCol {
    std::string name;
    int type = 0;
    std::vector<std::pair<std::string, int>> bits;
    std::string codec;
    bool hasMissing = false;
    double min = 0, max = 0, mdi = 0;
    std::vector<std::string> table;
    std::string longConst;
    size_t width = 8;
};
struct RefFrame {
    size_t off = 0, len = 0, headerLen = 0, dataLen = 0;  // headerLen: all bytes before the row data
    bool swapped = false;
    int major = 0, minor = 0;
    int64_t nrows = 0;
    std::vector<double> flags;
    std::map<std::string, std::string> props;
    std::vector<RefCol> cols;
    Tab tab;                      // decoded cells
    std::vector<int> startCols;   // per row
};
// Parses one frame at off; throws RefErr naming what is not conforming. strict: what a writer must also respect.
RefFrame refParseFrame(const unsigned char* p, size_t n, size_t off, bool strict);
std::vector<RefFrame> refParse(const Bytes& b, bool strict = true);
Tab refConcat(const std::vector<RefFrame>& v);

// ---- writer
struct RefWrite {
    bool big = false;       // opposite byte order
    int markers = 0;        // 0 minimal deltas, 1 every row from column 0, 2 random start not after the first change
    bool skipLeading = false;  // row 0 may start after leading missing columns
    std::vector<std::string> codecs;  // per column; empty: choose at random among those that can serve
    std::vector<double> mdi;          // per column missing value (numeric)
    bool shuffleTables = true;
    bool extraTable = true;  // unused strings in tables
    int nflags = 1;
    double intMissing = 2147483647, realMissing = -2147483647;
    int minor = 5;
    bool randomMinMax = true;  // min/max ranges wider than the content where the storage does not depend on it
    std::vector<std::string> chosen;  // out
};
// codecs able to store the column exactly as given
std::vector<std::string> refCodecsFor(const Col& c, const RefWrite& w, size_t idx);
Bytes refWriteFrame(Rng& r, const Tab& t, RefWrite& w, Tab* expected = nullptr);
// assembling a frame from raw parts (for damaged files)
struct RawBuf {
    Bytes b;
    bool big;
    explicit RawBuf(bool big) : big(big) {}
    void raw(const void* p, size_t n) { b.insert(b.end(), static_cast<const unsigned char*>(p), static_cast<const unsigned char*>(p) + n); }
    void num(const void* p, size_t n) {
        Bytes t(static_cast<const unsigned char*>(p), static_cast<const unsigned char*>(p) + n);
        if (big)
            for (size_t i = 0; i < n / 2; i++) std::swap(t[i], t[n - 1 - i]);
        raw(t.data(), n);
    }
    void i16(int32_t v) {
        uint16_t x = uint16_t(v);
        num(&x, 2);
    }
    void i32(int32_t v) { num(&v, 4); }
    void i64(int64_t v) { num(&v, 8); }
    void f64(double v) { num(&v, 8); }
    void f32(float v) { num(&v, 4); }
    void str(const std::string& s) {
        i32(int32_t(s.size()));
        raw(s.data(), s.size());
    }
};
Bytes refAssemble(bool big, int minor, const Bytes& varHeader, const Bytes& data);
}  // namespace odv
