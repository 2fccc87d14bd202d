// Row-at-a-time interface (odc::Reader / odc::Writer<>) and the C++ frame interface (odc::api).
#pragma once
#include "odv.h"
namespace eckit {
class DataHandle;
}
namespace odv {

struct RowRead {
    std::vector<Tab> segs;            // one per run of rows between new-dataset marks
    std::vector<std::vector<double>> mdi;  // advertised missing values per segment and column
    std::vector<std::map<std::string, std::string>> props;
    std::string err;                  // exception text, rows read before it are in segs
    std::string anomaly;              // inconsistent answers of the interface
    size_t rows() const {
        size_t n = 0;
        for (auto& s : segs) n += s.n;
        return n;
    }
};
RowRead readRows(const std::string& path, bool longs = false);
// rows of any iterator-like source are appended
struct WriteOpts {
    long buffer = 0;      // rows per flush, 0: default
    bool longs = false;
    double intMissing = 2147483647, realMissing = -2147483647;
    bool setMissing = false;  // announce the markers per column (missingValue)
    int sink = 0;         // 0 path, 1 handle
    eckit::DataHandle* handle = nullptr;  // write here instead
    bool keepIterator = true;  // schema changes through one iterator (flush + new header)
};
void writeRows(const std::string& path, const std::vector<Tab>& parts, const WriteOpts& o);
// copy through the row interfaces (reader -> writer pass1), long rows returned
unsigned long copyRows(const std::string& in, const std::string& out, long buffer = 0, bool longs = false);

// select iterator
RowRead selectRows(const std::string& sql, const std::string& path = "");

struct CppOpts {
    bool aggregated = false;
    long rowlimit = -1;
    size_t nthreads = 1;
    bool longs = false;
    int source = 0;  // 0 path 1 memory handle
    bool reverse = false;  // decode after all frames were collected, last first
    std::vector<std::string> select;
    double intMissing = 2147483647, realMissing = -2147483647;
};
struct CppFrame {
    Tab tab;
    long offset = 0, length = 0;
    std::vector<std::vector<int>> bitOffsets;
    Bytes encoded;
};
struct CppRead {
    std::vector<CppFrame> frames;
    std::string err;
};
CppRead readCpp(const std::string& path, const CppOpts& o = CppOpts());
struct SpanCol {
    bool present = false;
    int kind = 0;  // 1 long 2 double 3 string
    std::set<long> l;
    std::set<double> d;
    std::set<std::string> s;
};
struct SpanRes {
    std::string err;
    long offset = -1, length = -1;
    std::map<std::string, SpanCol> cols;
    int visits = 0;
};
std::vector<SpanRes> spansCpp(const std::string& path, const CppOpts& o, const std::vector<std::string>& cols, bool onlyConst);
// file filter: rows written; throws
size_t filterCpp(const std::string& sql, const std::string& in, const std::string& out, eckit::DataHandle* to = nullptr);
// frame filter of each (possibly aggregated) frame: bytes of the filtered frames decoded
CppRead frameFilterCpp(const std::string& path, const CppOpts& o, const std::string& sql);
size_t importCpp(const std::string& text, const std::string& out, const std::string& delim, int how, eckit::DataHandle* to = nullptr);
void encodeCpp(const Tab& t, const std::string& path, size_t maxRows, bool longs, eckit::DataHandle* to = nullptr);
}  // namespace odv
