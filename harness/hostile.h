// Structure-aware damage of files.
#pragma once
#include "ref.h"
namespace odv {
// the variable header of a frame as a list of fields
struct Field {
    char kind;  // 'i' int32, 'l' int64, 'd' double, 's' string, 'r' 8 raw bytes
    int64_t i = 0;
    double d  = 0;
    std::string s;
    std::string role;
};
std::vector<Field> headerFields(const unsigned char* p, size_t n, bool swap);
Bytes headerBytes(const std::vector<Field>& f, bool swap);
// one damaged version of a valid file; 'what' tells what was done
Bytes damage(Rng& r, const Bytes& file, const std::vector<RefFrame>& fs, std::string& what);
}  // namespace odv
