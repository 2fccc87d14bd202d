// Common support for all harnesses: deterministic random numbers, a table model, generators of hostile
// tables, C API encode/decode drivers, violation reporting.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "odc/api/odc.h"

namespace odv {

typedef std::vector<unsigned char> Bytes;

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t a = 1, uint64_t b = 2, uint64_t c = 3);
    uint64_t next();
    int64_t range(int64_t lo, int64_t hi);  // inclusive
    size_t below(size_t n) { return n ? next() % n : 0; }
    bool chance(uint64_t num, uint64_t den) { return next() % den < num; }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[below(v.size())];
    }
};

// ---- table model ------------------------------------------------------------------------------------------
enum { IGNORE = 0, INTEGER = 1, REAL = 2, STRING = 3, BITFIELD = 4, DOUBLE = 5 };

struct Col {
    std::string name;
    int type = INTEGER;
    std::vector<std::pair<std::string, int>> bits;
    size_t width = 8;            // element size in bytes
    std::vector<double> d;       // numeric cells (undefined where missing)
    std::vector<std::string> s;  // string cells
    std::vector<char> miss;
    std::vector<char> wasMiss;   // set by flatten(): which cells were missing
    std::string style;  // generator style, for coverage statistics
    bool isStr() const { return type == STRING; }
    bool isInt() const { return type == INTEGER || type == BITFIELD; }
    size_t size() const { return isStr() ? s.size() : d.size(); }
    void resize(size_t n);
    void push(const Col& o, size_t r);
};

struct Tab {
    size_t n = 0;
    std::vector<Col> c;
    std::map<std::string, std::string> props;
    int find(const std::string& nm) const;
    Tab slice(size_t from, size_t count) const;
    void append(const Tab& o);  // columns matched by name
    Tab rows(const std::vector<size_t>& idx) const;
};

struct GenOpts {
    size_t minRows = 1, maxRows = 60;
    size_t minCols = 1, maxCols = 6;
    uint64_t manyCols = 0;  // one table in so many has hundreds of columns of which the first ones rarely change
    bool strings = true, wide = true, missing = true, bitfields = true, reals = true, special = true;
    bool weirdNames = true;
    bool negBitfields = false;
    bool nan = false;
    bool bigDict = false;      // allow columns with more than 255 distinct strings
    bool simpleStrings = false;  // printable, no quotes / separators (text tools)
    bool nonEmptyStrings = false;
    std::string suffix;        // table suffix for names ("@hdr") or "" random
    double intMissing = 2147483647, realMissing = -2147483647;
};
Tab genTable(Rng& r, const GenOpts& o = GenOpts());
// fills one column with one random style of its type
void genCells(Rng& r, Col& c, size_t n, const GenOpts& o);
void avoidMarkers(Col& c, double im, double rm);
std::string genString(Rng& r, size_t minLen, size_t maxLen, bool simple = false);
std::string uniqueName(Rng& r, std::set<std::string>& used, const GenOpts& o);
void genProps(Rng& r, Tab& t);

// ---- comparison -------------------------------------------------------------------------------------------
// true when cell (row r2 of got) is what storing cell (row r of exp) may yield
bool cellEq(const Col& exp, size_t r, const Col& got, size_t r2, bool realRounds = true);
std::string cellStr(const Col& c, size_t r);
// "" when equal, otherwise a description of the first difference. Columns are matched by position.
std::string diffCells(const Tab& exp, const Tab& got, bool realRounds = true, bool byName = false);
// names, types, bitfields (element sizes when sizes==true)
std::string diffMeta(const Tab& exp, const Tab& got, bool sizes = false);
std::string diffProps(const Tab& exp, const Tab& got);  // ignores the "encoder" key
uint64_t hashTab(const Tab& t);
std::string describe(const Tab& t);  // one line
uint64_t shapeSig(const Tab& t);  // abstract signature: types/styles/row classes

// ---- reporting --------------------------------------------------------------------------------------------
struct Ctx {
    uint64_t seed = 1, idx = 0;
    Rng rng;
    bool thorough = false;
    bool probe = false;
    std::string scratch;   // private directory, emptied by the runner
    std::string bindir;    // where the instrumented tools are
    void viol(const std::string& key, const std::string& msg);
    void stat(const std::string& k, uint64_t n = 1);
    void sig(uint64_t h);
    void inconclusive(const std::string& why);
    void sample(const std::string& what);  // an actual case, written out (the first few are kept)
    void keep(const std::string& name, const Bytes& b);  // keep bytes beside the replay of this case
};
void odvCase(Ctx& c);        // supplied by the property
const char* odvName();       // supplied by the property
uint64_t odvProbes();        // number of leading deterministic cases
void odvInit();              // supplied by property: once per process

extern Ctx* g_ctx;
#define ODV_FAIL(c, key, expr)              \
    do {                                    \
        std::ostringstream _o;              \
        _o << expr;                         \
        (c).viol(key, _o.str());            \
    } while (0)

// ---- C API drivers ----------------------------------------------------------------------------------------
struct EncOpts {
    int layout = 2;  // 0 row-major array, 1 column-major array, 2 per-column arrays
    bool longs = true;
    long rowsPerFrame = 0;            // 0: leave default
    std::vector<size_t> strides;      // layout 2: extra bytes per element beyond the width (multiple of 8)
    size_t slackWidth = 0;            // layout 0: extra bytes per row
    size_t slackRows = 0;             // extra rows in the array
    int sink = 0;                     // 0 stream, 1 buffer, 2 fd
    bool setSizes = true;             // set data sizes for non-string columns as well
    bool setRowCount = true;
    double intMissing = 2147483647, realMissing = -2147483647;
    bool padPattern = true;           // unused bytes hold 0xEE
};
EncOpts genEnc(Rng& r, const Tab& t);
std::string encStr(const EncOpts& o);
struct EncResult {
    int rc = 0;
    std::string err;
    Bytes bytes;
    long reported = -1;
};
// memory for one table in a given layout (exactly sized heap blocks, so that ASan sees every overrun)
struct Image {
    std::vector<std::unique_ptr<unsigned char[]>> blocks;
    std::vector<unsigned char*> colPtr;
    std::vector<size_t> stride;
    unsigned char* array = nullptr;
    size_t arrayBytes = 0;
    long width = 0, height = 0;
};
void putCell(unsigned char* p, const Col& c, size_t r, const EncOpts& o);
void buildImage(const Tab& t, const EncOpts& o, Image& im);
// configure an encoder for the table; returns first non-zero code
int setupEncoder(odc_encoder_t* e, const Tab& t, const EncOpts& o, const Image& im);
EncResult encodeC(const Tab& t, const EncOpts& o = EncOpts());

struct DecOpts {
    int layout = 0;  // 0 owned row-major, 1 owned column-major, 2 caller row-major, 3 caller column-major, 4 per-column
    bool longs = true;
    int threads = 1;
    std::vector<size_t> strides;  // layout 4 extra
    size_t slackWidth = 0, slackRows = 0;
    std::vector<std::string> select;  // empty: all columns, by defaults_from_frame
    bool defaults = true;             // use odc_decoder_defaults_from_frame when select is empty
    double intMissing = 2147483647, realMissing = -2147483647;
    bool setTreatment = true;  // otherwise that of the thread is left alone
    size_t widen = 0;  // layout 4: extra bytes of element size for string columns
};
DecOpts genDec(Rng& r, size_t ncols);
std::string decStr(const DecOpts& o);
struct DecResult {
    int rc = 0;
    std::string err;
    Tab t;
    bool guardOk = true;
    std::string guardMsg;
};
// metadata of a frame (no cells)
int metaC(const odc_frame_t* f, Tab& t, std::string& err);
DecResult decodeC(const odc_frame_t* f, const DecOpts& o = DecOpts());

// readers
struct StreamSrc {
    const Bytes* b = nullptr;
    size_t pos = 0;
    Rng* rng = nullptr;     // short reads when set
    long failAt = -1;       // call number that fails
    long failCode = -1;
    long calls = 0;
    static long read(void* ctx, void* buf, long len);
};
struct ReadOpts {
    int source = 0;  // 0 buffer 1 path 2 fd 3 stream
    bool aggregated = false;
    long maxRows = -1;
    DecOpts dec;
    std::string scratch;
};
struct ReadResult {
    int rc = 0;  // 0: clean end
    std::string err;
    std::string where;
    std::vector<Tab> frames;
    bool guardOk = true;
    std::string guardMsg;
};
ReadResult readC(const Bytes& b, const ReadOpts& o = ReadOpts());
Tab concat(const std::vector<Tab>& v);

// ---- files ------------------------------------------------------------------------------------------------
void writeFile(const std::string& p, const void* d, size_t n);
inline void writeFile(const std::string& p, const Bytes& b) { writeFile(p, b.data(), b.size()); }
inline void writeFile(const std::string& p, const std::string& b) { writeFile(p, b.data(), b.size()); }
bool readFile(const std::string& p, Bytes& b);
std::string hex(const void* p, size_t n, size_t max = 64);
std::string show(const std::string& s, size_t max = 80);
struct Proc {
    int rc = -1;       // exit code, or 128+signal
    bool timeout = false;
    std::string out, err;
    bool sanitizer = false;  // a sanitizer report in stderr
};
Proc run(const std::vector<std::string>& argv, const std::string& cwd, const std::map<std::string, std::string>& env = {},
         int timeoutS = 60, long fsize = -1);  // fsize: limit on the size of written files (SIGXFSZ ignored)
size_t rowClass(size_t n);
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 29);
}
uint64_t hashStr(const std::string& s);

}  // namespace odv
