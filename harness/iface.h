// All reading interfaces against one expectation.
#pragma once
#include "ref.h"
#include "rows.h"
namespace odv {
// cells with their missing marks replaced by the marker they hold
void flatten(Tab& t, const std::vector<double>& mdi);
Tab flattened(const Tab& t, double im = 2147483647, double rm = -2147483647);
Tab flattened(const RefFrame& f);
enum { BY_C = 1, BY_CAGG = 2, BY_CPP = 4, BY_CPPAGG = 8, BY_ROWS = 16, BY_ALL = 31 };
// 'frames' are the expected stored frames (flattened). Differences are reported as violations with keys '<what>:...'.
// meta: names, types, bitfields and properties are compared as well.
void checkAll(Ctx& c, const Bytes& b, const std::vector<Tab>& frames, const std::string& how, unsigned which = BY_ALL, const std::string& what = "read", bool realRounds = false);
// odc tool: text output of a command run on f.odb in a directory of its own
Proc odcTool(Ctx& c, const std::vector<std::string>& args, const std::string& cwd);
std::string tail(const std::string& s, size_t n);
// a file of several frames whose columns, order, widths, storage and byte order vary
struct FileOpts {
    GenOpts g;
    int minFrames = 1, maxFrames = 6;
    bool swapped = true;   // frames of the opposite byte order
    bool ref     = true;   // frames by the reference writer
    bool permute = true, widths = true, schema = true, types = true;
    bool rowsPerFrame = true;
    bool bits = false;  // other bitfield members in some frames
    uint64_t empty = 0;  // one frame (but the first) in so many has no rows
    const Tab* base = nullptr;  // otherwise a random table
};
Bytes genFile(Ctx& c, const FileOpts& o, std::vector<RefFrame>& frames, std::string& how);
// rows (frame and row of 'src', flattened) expected in the bytes of a file, in this order; their columns are those of their frame
void checkRows(Ctx& c, const std::string& file, const Bytes& b, const std::vector<Tab>& src, const std::vector<std::pair<size_t, size_t>>& rows, const std::string& how, bool byName = false, bool types = true);
// text table as read by the import interfaces
std::string csv(const Tab& t, const std::string& delim = ",");
}  // namespace odv
