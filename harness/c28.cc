// C28: the Fortran interface transports the same data as the C interface.
// The same script of calls is played through both; everything each returns is compared.
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <optional>
#include "iface.h"
extern "C" {
extern long f28_handler_context;
extern int f28_handler_error, f28_handler_calls;
int f28_version(int vcs, const char** p, long* n);
int f28_type_name(int t, const char** p, long* n);
void f28_error_string(int code, const char** p, long* n);
int f28_type_count(int* n);
int f28_missing(int set, long* i, double* d);
int f28_integer_behaviour(int b);
void f28_constants(int* v);
int f28_set_handler(long ctx);
int f28_open(const char* path, long n, void** p);
int f28_close(void* p);
int f28_frame(void* reader, void** p);
int f28_frame_free(void* p);
int f28_frame_copy(void* from, void** p);
int f28_next(void* p, const int* agg, const long* max);
int f28_rows(void* p, long* n);
int f28_columns(void* p, int* n);
int f28_attributes(void* p, int col, int named, const char** nm, long* n, int* type, int* size, int* doubles, int* bits);
int f28_bits(void* p, int col, int field, int named, const char** nm, long* n, int* off, int* size);
int f28_properties(void* p, int* n);
int f28_property_idx(void* p, int i, const char** k, long* kn, const char** v, long* vn);
int f28_property(void* p, int how, const char* k, long kn, const char** v, long* vn, int* exists);
int f28_decoder(const int* cm, void** p);
int f28_decoder_free(void* p);
int f28_defaults(void* p, void* f);
int f28_dec_set_rows(void* p, long n);
int f28_dec_rows(void* p, long* n);
int f28_dec_set_data(void* p, void* data, long n1, long n2, long k1, long k2, const int* cm);
int f28_dec_data(void* p, int wanted, void** data, long* n1, long* n2, int* cm);
int f28_dec_add(void* p, const char* nm, long n);
int f28_dec_columns(void* p, int* n);
int f28_dec_col_size(void* p, int col, int size);
int f28_dec_col_set(void* p, int col, const int* size, const int* stride, void* data);
int f28_dec_col(void* p, int col, int* size, int* doubles, int* stride, void** data);
int f28_decode(void* p, void* f, long* rows, const int* threads);
int f28_encoder(void** p);
int f28_encoder_free(void* p);
int f28_enc_rows(void* p, long n);
int f28_enc_rows_per_frame(void* p, long n);
int f28_enc_set_data(void* p, const void* data, long n1, long n2, long k1, long k2, const int* cm);
int f28_enc_add(void* p, const char* nm, long n, int type);
int f28_enc_property(void* p, const char* k, long kn, const char* v, long vn);
int f28_enc_col_size(void* p, int col, const int* size, const int* doubles);
int f28_enc_col_set(void* p, int col, const int* size, const int* doubles, const int* stride, const void* data);
int f28_enc_bits(void* p, int col, const char* nm, long n, int bits);
int f28_encode(void* p, const char* path, long n, int mode, long* bytes);
}
using namespace odv;
namespace odv {
const char* odvName() { return "C28"; }
uint64_t odvProbes() { return 0; }
void odvInit() {}
namespace {
typedef std::optional<int> OptI;
typedef std::optional<long> OptL;
template <class T>
const T* ptr(const std::optional<T>& o) {
    return o ? &*o : nullptr;
}
std::string text(const char* p, long n) {
    return n == -1 ? "(none)" : n < 0 ? "(not asked)" : std::string(p, size_t(n));
}
std::string ctext(const char* p) { return p ? p : "(none)"; }
std::string rtrim(std::string s) {
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s;
}
int g_calls, g_code;
void* g_context;
void onFailure(void* ctx, int code) {
    g_calls++;
    g_code    = code;
    g_context = ctx;
}
struct Api {
    virtual ~Api() {}
    virtual bool fortran() const = 0;
    virtual int open(const std::string& path, int pad, void** p) = 0;
    virtual int close(void* p) = 0;
    virtual int frame(void* r, void** p) = 0;
    virtual int freeFrame(void* p) = 0;
    virtual int copy(void* f, void** p) = 0;
    virtual int next(void* f, OptI agg, OptL max) = 0;
    virtual int rows(void* f, long* n) = 0;
    virtual int columns(void* f, int* n) = 0;
    virtual int attributes(void* f, int col, unsigned want, std::string& log) = 0;  // col from 0
    virtual int bits(void* f, int col, int field, unsigned want, std::string& log) = 0;
    virtual int properties(void* f, int* n) = 0;
    virtual int propertyIdx(void* f, int i, std::string& log) = 0;
    virtual int property(void* f, const std::string& key, int pad, int how, std::string& log) = 0;
    virtual int decoder(OptI cm, void** p) = 0;
    virtual int freeDecoder(void* p) = 0;
    virtual int defaults(void* d, void* f) = 0;
    virtual int decSetRows(void* d, long n) = 0;
    virtual int decRows(void* d, long* n) = 0;
    virtual int decSetData(void* d, void* data, long cols, long rows, OptI cm) = 0;  // in doubles
    virtual int decData(void* d, unsigned want, void** data, long* cols, long* rows, int* cm) = 0;
    virtual int decAdd(void* d, const std::string& nm, int pad) = 0;
    virtual int decColumns(void* d, int* n) = 0;
    virtual int decColSize(void* d, int col, int size) = 0;
    virtual int decColSet(void* d, int col, OptI size, OptI stride, void* data) = 0;
    virtual int decCol(void* d, int col, unsigned want, int* size, int* stride, void** data) = 0;
    virtual int decode(void* d, void* f, long* rows, OptI threads) = 0;
    virtual int encoder(void** p) = 0;
    virtual int freeEncoder(void* p) = 0;
    virtual int encRows(void* e, long n) = 0;
    virtual int encRowsPerFrame(void* e, long n) = 0;
    virtual int encSetData(void* e, const void* data, long cols, long rows, OptI cm) = 0;
    virtual int encAdd(void* e, const std::string& nm, int pad, int type) = 0;
    virtual int encProperty(void* e, const std::string& k, const std::string& v, int pad) = 0;
    virtual int encColSize(void* e, int col, OptI size, bool doubles) = 0;
    virtual int encColSet(void* e, int col, OptI size, bool doubles, OptI stride, const void* data) = 0;
    virtual int encBits(void* e, int col, const std::string& nm, int pad, int bits) = 0;
    virtual int encode(void* e, const std::string& path, int mode, long* bytes) = 0;
    virtual std::string global(int what, int arg) = 0;
    virtual int setHandler(long ctx) = 0;
    virtual std::string handler() = 0;
};
struct CApi : Api {
    bool fortran() const override { return false; }
    int open(const std::string& path, int, void** p) override { return odc_open_path((odc_reader_t**)p, rtrim(path).c_str()); }
    int close(void* p) override { return odc_close((odc_reader_t*)p); }
    int frame(void* r, void** p) override { return odc_new_frame((odc_frame_t**)p, (odc_reader_t*)r); }
    int freeFrame(void* p) override { return odc_free_frame((odc_frame_t*)p); }
    int copy(void* f, void** p) override { return odc_copy_frame((odc_frame_t*)f, (odc_frame_t**)p); }
    int next(void* f, OptI agg, OptL max) override {
        bool a = agg ? *agg != 0 : bool(max);
        return a ? odc_next_frame_aggregated((odc_frame_t*)f, max ? *max : -1) : odc_next_frame((odc_frame_t*)f);
    }
    int rows(void* f, long* n) override { return odc_frame_row_count((odc_frame_t*)f, n); }
    int columns(void* f, int* n) override { return odc_frame_column_count((odc_frame_t*)f, n); }
    int attributes(void* f, int col, unsigned want, std::string& log) override {
        const char* nm = nullptr;
        int t = -9, s = -9, b = -9;
        int rc = odc_frame_column_attributes((odc_frame_t*)f, col, &nm, &t, &s, &b);
        if (rc) return rc;
        if (want & 1) log += " name=" + ctext(nm);
        if (want & 2) log += " type=" + std::to_string(t);
        if (want & 4) log += " size=" + std::to_string(s);
        if (want & 8) log += " doubles=" + std::to_string(s / 8);
        if (want & 16) log += " bits=" + std::to_string(b);
        return rc;
    }
    int bits(void* f, int col, int field, unsigned want, std::string& log) override {
        const char* nm = nullptr;
        int o = -9, s = -9;
        int rc = odc_frame_bitfield_attributes((odc_frame_t*)f, col, field, &nm, &o, &s);
        if (rc) return rc;
        if (want & 1) log += " name=" + ctext(nm);
        if (want & 2) log += " offset=" + std::to_string(o);
        if (want & 4) log += " size=" + std::to_string(s);
        return rc;
    }
    int properties(void* f, int* n) override { return odc_frame_properties_count((odc_frame_t*)f, n); }
    int propertyIdx(void* f, int i, std::string& log) override {
        const char *k = nullptr, *v = nullptr;
        int rc = odc_frame_property_idx((odc_frame_t*)f, i, &k, &v);
        if (!rc) log += ctext(k) + "=" + ctext(v);
        return rc;
    }
    int property(void* f, const std::string& key, int, int how, std::string& log) override {
        const char* v = nullptr;
        int rc        = odc_frame_property((odc_frame_t*)f, rtrim(key).c_str(), &v);
        if (rc) return rc;
        if (how != 2) log += " value=" + ctext(v);
        if (how != 1) log += " exists=" + std::to_string(v ? 1 : 0);
        return rc;
    }
    int decoder(OptI cm, void** p) override {
        int rc = odc_new_decoder((odc_decoder_t**)p);
        return rc ? rc : odc_decoder_set_column_major((odc_decoder_t*)*p, cm ? *cm != 0 : true);
    }
    int freeDecoder(void* p) override { return odc_free_decoder((odc_decoder_t*)p); }
    int defaults(void* d, void* f) override { return odc_decoder_defaults_from_frame((odc_decoder_t*)d, (odc_frame_t*)f); }
    int decSetRows(void* d, long n) override { return odc_decoder_set_row_count((odc_decoder_t*)d, n); }
    int decRows(void* d, long* n) override { return odc_decoder_row_count((odc_decoder_t*)d, n); }
    int decSetData(void* d, void* data, long cols, long rows, OptI cm) override {
        return odc_decoder_set_data_array((odc_decoder_t*)d, data, cols * 8, rows, cm ? *cm != 0 : true);
    }
    int decData(void* d, unsigned, void** data, long* cols, long* rows, int* cm) override {
        const void* p = nullptr;
        bool b        = false;
        long w = -1, h = -1;
        int rc = odc_decoder_data_array((odc_decoder_t*)d, &p, &w, &h, &b);
        *data  = const_cast<void*>(p);
        *cols  = w / 8;
        *rows  = h;
        *cm    = b;
        return rc;
    }
    int decAdd(void* d, const std::string& nm, int) override { return odc_decoder_add_column((odc_decoder_t*)d, rtrim(nm).c_str()); }
    int decColumns(void* d, int* n) override { return odc_decoder_column_count((odc_decoder_t*)d, n); }
    int decColSize(void* d, int col, int size) override { return odc_decoder_column_set_data_size((odc_decoder_t*)d, col, size); }
    int decColSet(void* d, int col, OptI size, OptI stride, void* data) override {
        return odc_decoder_column_set_data_array((odc_decoder_t*)d, col, size.value_or(0), stride.value_or(0), data);
    }
    int decCol(void* d, int col, unsigned, int* size, int* stride, void** data) override {
        const void* p = nullptr;
        int rc        = odc_decoder_column_data_array((odc_decoder_t*)d, col, size, stride, &p);
        *data         = const_cast<void*>(p);
        return rc;
    }
    int decode(void* d, void* f, long* rows, OptI threads) override {
        return threads ? odc_decode_threaded((odc_decoder_t*)d, (odc_frame_t*)f, rows, *threads) : odc_decode((odc_decoder_t*)d, (odc_frame_t*)f, rows);
    }
    int encoder(void** p) override { return odc_new_encoder((odc_encoder_t**)p); }
    int freeEncoder(void* p) override { return odc_free_encoder((odc_encoder_t*)p); }
    int encRows(void* e, long n) override { return odc_encoder_set_row_count((odc_encoder_t*)e, n); }
    int encRowsPerFrame(void* e, long n) override { return odc_encoder_set_rows_per_frame((odc_encoder_t*)e, n); }
    int encSetData(void* e, const void* data, long cols, long rows, OptI cm) override {
        return odc_encoder_set_data_array((odc_encoder_t*)e, data, cols * 8, rows, cm && !*cm ? 0 : 8);
    }
    int encAdd(void* e, const std::string& nm, int, int type) override { return odc_encoder_add_column((odc_encoder_t*)e, rtrim(nm).c_str(), type); }
    int encProperty(void* e, const std::string& k, const std::string& v, int) override {
        return odc_encoder_add_property((odc_encoder_t*)e, rtrim(k).c_str(), rtrim(v).c_str());
    }
    int encColSize(void* e, int col, OptI size, bool) override { return odc_encoder_column_set_data_size((odc_encoder_t*)e, col, size.value_or(0)); }
    int encColSet(void* e, int col, OptI size, bool, OptI stride, const void* data) override {
        return odc_encoder_column_set_data_array((odc_encoder_t*)e, col, size.value_or(0), stride.value_or(0), data);
    }
    int encBits(void* e, int col, const std::string& nm, int, int bits) override { return odc_encoder_column_add_bitfield((odc_encoder_t*)e, col, rtrim(nm).c_str(), bits); }
    int encode(void* e, const std::string& path, int mode, long* bytes) override {
        if (mode >= 2) return odc_encode_to_stream((odc_encoder_t*)e, nullptr, [](void*, const void*, long) { return long(-1); }, bytes);
        int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | (mode == 0 ? O_TRUNC : O_APPEND), 0644);
        if (fd < 0) return -1;
        int rc = odc_encode_to_file_descriptor((odc_encoder_t*)e, fd, bytes);
        ::close(fd);
        return rc;
    }
    std::string global(int what, int arg) override {
        const char* s = nullptr;
        int rc = 0, n = -1;
        switch (what) {
            case 0: rc = odc_version(&s); break;
            case 1: rc = odc_vcs_version(&s); break;
            case 2: rc = odc_column_type_name(arg, &s); break;
            case 3: s = odc_error_string(arg); break;
            case 4: {
                rc = odc_column_type_count(&n);
                return std::to_string(rc) + " " + std::to_string(n);
            }
            case 5: return std::to_string(odc_integer_behaviour(arg));
            default: {
                long i   = 2147483647 - arg;
                double d = -2147483647 + arg;
                if (arg) {
                    rc = odc_set_missing_integer(i);
                    if (!rc) rc = odc_set_missing_double(d);
                }
                i = 1, d = 2;
                if (!rc) rc = odc_missing_integer(&i);
                if (!rc) rc = odc_missing_double(&d);
                odc_set_missing_integer(2147483647);
                odc_set_missing_double(-2147483647);
                return std::to_string(rc) + " " + std::to_string(i) + " " + std::to_string(d);
            }
        }
        return std::to_string(rc) + " " + (rc ? "" : ctext(s));
    }
    int setHandler(long ctx) override {
        g_calls = 0, g_code = 0, g_context = nullptr;
        return odc_set_failure_handler(onFailure, (void*)ctx);
    }
    std::string handler() override { return std::to_string(g_calls) + " calls, code " + std::to_string(g_code) + " context " + std::to_string(g_calls ? (long)g_context : 0); }
};
struct FApi : Api {
    bool fortran() const override { return true; }
    static std::string padded(const std::string& s, int pad) { return s + std::string(size_t(pad), ' '); }
    int open(const std::string& path, int pad, void** p) override {
        std::string s = padded(path, pad);
        return f28_open(s.data(), long(s.size()), p);
    }
    int close(void* p) override { return f28_close(p); }
    int frame(void* r, void** p) override { return f28_frame(r, p); }
    int freeFrame(void* p) override { return f28_frame_free(p); }
    int copy(void* f, void** p) override { return f28_frame_copy(f, p); }
    int next(void* f, OptI agg, OptL max) override { return f28_next(f, ptr(agg), ptr(max)); }
    int rows(void* f, long* n) override { return f28_rows(f, n); }
    int columns(void* f, int* n) override { return f28_columns(f, n); }
    int attributes(void* f, int col, unsigned want, std::string& log) override {
        const char* nm = nullptr;
        long n         = -2;
        int t = -9, s = -9, d = -9, b = -9;
        int rc = f28_attributes(f, col + 1, want & 1, &nm, &n, want & 2 ? &t : nullptr, want & 4 ? &s : nullptr, want & 8 ? &d : nullptr, want & 16 ? &b : nullptr);
        if (rc) return rc;
        if (want & 1) log += " name=" + text(nm, n);
        if (want & 2) log += " type=" + std::to_string(t);
        if (want & 4) log += " size=" + std::to_string(s);
        if (want & 8) log += " doubles=" + std::to_string(d);
        if (want & 16) log += " bits=" + std::to_string(b);
        return rc;
    }
    int bits(void* f, int col, int field, unsigned want, std::string& log) override {
        const char* nm = nullptr;
        long n         = -2;
        int o = -9, s = -9;
        int rc = f28_bits(f, col + 1, field + 1, want & 1, &nm, &n, want & 2 ? &o : nullptr, want & 4 ? &s : nullptr);
        if (rc) return rc;
        if (want & 1) log += " name=" + text(nm, n);
        if (want & 2) log += " offset=" + std::to_string(o);
        if (want & 4) log += " size=" + std::to_string(s);
        return rc;
    }
    int properties(void* f, int* n) override { return f28_properties(f, n); }
    int propertyIdx(void* f, int i, std::string& log) override {
        const char *k = nullptr, *v = nullptr;
        long kn = -2, vn = -2;
        int rc = f28_property_idx(f, i + 1, &k, &kn, &v, &vn);
        if (!rc) log += text(k, kn) + "=" + text(v, vn);
        return rc;
    }
    int property(void* f, const std::string& key, int pad, int how, std::string& log) override {
        const char* v = nullptr;
        long vn       = -2;
        int ex        = -1;
        std::string k = padded(key, pad);
        int rc        = f28_property(f, how, k.data(), long(k.size()), &v, &vn, &ex);
        if (rc) return rc;
        if (how != 2) log += " value=" + text(v, vn);
        if (how != 1) log += " exists=" + std::to_string(ex);
        return rc;
    }
    int decoder(OptI cm, void** p) override { return f28_decoder(ptr(cm), p); }
    int freeDecoder(void* p) override { return f28_decoder_free(p); }
    int defaults(void* d, void* f) override { return f28_defaults(d, f); }
    int decSetRows(void* d, long n) override { return f28_dec_set_rows(d, n); }
    int decRows(void* d, long* n) override { return f28_dec_rows(d, n); }
    int decSetData(void* d, void* data, long cols, long rows, OptI cm) override {
        bool c = !cm || *cm;
        long a = c ? rows : cols, b = c ? cols : rows;
        return f28_dec_set_data(d, data, a, b, a, b, ptr(cm));
    }
    // the shape is that of the layout
    int decData(void* d, unsigned want, void** data, long* cols, long* rows, int* cm) override {
        long a = -1, b = -1;
        int c  = -1;
        int rc = f28_dec_data(d, 1, data, &a, &b, &c);
        if (!rc && (want & 1)) {  // each output alone
            void* p2 = nullptr;
            int c2   = -1;
            long a2 = -1, b2 = -1;
            if (f28_dec_data(d, 1, &p2, &a2, &b2, nullptr) || f28_dec_data(d, 0, nullptr, nullptr, nullptr, &c2) || p2 != *data || a2 != a || b2 != b || c2 != c) return -77;
        }
        *cols = c ? b : a;
        *rows = c ? a : b;
        *cm   = c;
        return rc;
    }
    int decAdd(void* d, const std::string& nm, int pad) override {
        std::string s = padded(nm, pad);
        return f28_dec_add(d, s.data(), long(s.size()));
    }
    int decColumns(void* d, int* n) override { return f28_dec_columns(d, n); }
    int decColSize(void* d, int col, int size) override { return f28_dec_col_size(d, col + 1, size); }
    int decColSet(void* d, int col, OptI size, OptI stride, void* data) override { return f28_dec_col_set(d, col + 1, ptr(size), ptr(stride), data); }
    int decCol(void* d, int col, unsigned want, int* size, int* stride, void** data) override {
        int dbl = -9;
        int rc  = f28_dec_col(d, col + 1, want & 1 ? size : nullptr, want & 1 ? nullptr : &dbl, stride, data);
        if (!rc && !(want & 1)) *size = dbl * 8;
        if (!rc && (want & 2)) {  // each output alone
            int s2 = -9, t2 = -9;
            void* p2 = nullptr;
            if (f28_dec_col(d, col + 1, &s2, nullptr, nullptr, nullptr) || f28_dec_col(d, col + 1, nullptr, nullptr, &t2, nullptr) ||
                f28_dec_col(d, col + 1, nullptr, nullptr, nullptr, &p2) || s2 != *size || t2 != *stride || p2 != *data)
                return -77;
        }
        return rc;
    }
    int decode(void* d, void* f, long* rows, OptI threads) override { return f28_decode(d, f, rows, ptr(threads)); }
    int encoder(void** p) override { return f28_encoder(p); }
    int freeEncoder(void* p) override { return f28_encoder_free(p); }
    int encRows(void* e, long n) override { return f28_enc_rows(e, n); }
    int encRowsPerFrame(void* e, long n) override { return f28_enc_rows_per_frame(e, n); }
    int encSetData(void* e, const void* data, long cols, long rows, OptI cm) override {
        bool c = !cm || *cm;
        long a = c ? rows : cols, b = c ? cols : rows;
        return f28_enc_set_data(e, data, a, b, a, b, ptr(cm));
    }
    int encAdd(void* e, const std::string& nm, int pad, int type) override {
        std::string s = padded(nm, pad);
        return f28_enc_add(e, s.data(), long(s.size()), type);
    }
    int encProperty(void* e, const std::string& k, const std::string& v, int pad) override {
        std::string a = padded(k, pad), b = padded(v, pad / 2);
        return f28_enc_property(e, a.data(), long(a.size()), b.data(), long(b.size()));
    }
    int encColSize(void* e, int col, OptI size, bool doubles) override {
        OptI d = size;
        if (d) *d /= 8;
        return f28_enc_col_size(e, col + 1, doubles ? nullptr : ptr(size), doubles ? ptr(d) : nullptr);
    }
    int encColSet(void* e, int col, OptI size, bool doubles, OptI stride, const void* data) override {
        OptI d = size;
        if (d) *d /= 8;
        return f28_enc_col_set(e, col + 1, doubles ? nullptr : ptr(size), doubles ? ptr(d) : nullptr, ptr(stride), data);
    }
    int encBits(void* e, int col, const std::string& nm, int pad, int bits) override {
        std::string s = padded(nm, pad);
        return f28_enc_bits(e, col + 1, s.data(), long(s.size()), bits);
    }
    int encode(void* e, const std::string& path, int mode, long* bytes) override {
        std::string s = path + "  ";
        return f28_encode(e, s.data(), long(s.size()), mode, bytes);
    }
    std::string global(int what, int arg) override {
        const char* s = nullptr;
        long n        = -2;
        int rc = 0, k = -1;
        switch (what) {
            case 0:
            case 1: rc = f28_version(what, &s, &n); break;
            case 2: rc = f28_type_name(arg, &s, &n); break;
            case 3: f28_error_string(arg, &s, &n); break;
            case 4: {
                rc = f28_type_count(&k);
                return std::to_string(rc) + " " + std::to_string(k);
            }
            case 5: return std::to_string(f28_integer_behaviour(arg));
            default: {
                long i   = 2147483647 - arg;
                double d = -2147483647 + arg;
                if (arg) rc = f28_missing(1, &i, &d);
                i = 1, d = 2;
                if (!rc) rc = f28_missing(0, &i, &d);
                odc_set_missing_integer(2147483647);
                odc_set_missing_double(-2147483647);
                return std::to_string(rc) + " " + std::to_string(i) + " " + std::to_string(d);
            }
        }
        return std::to_string(rc) + " " + (rc ? "" : text(s, n));
    }
    int setHandler(long ctx) override {
        f28_handler_calls = 0, f28_handler_error = 0, f28_handler_context = 0;
        return f28_set_handler(ctx);
    }
    std::string handler() override {
        return std::to_string(f28_handler_calls) + " calls, code " + std::to_string(f28_handler_error) + " context " + std::to_string(f28_handler_context);
    }
};
struct Plan {  // common to both runs
    std::vector<std::string> paths;  // of files to read
    std::vector<std::vector<std::string>> names;
    std::vector<Tab> tabs;
    std::string scratch;
};
struct Block {
    std::unique_ptr<unsigned char[]> p;
    size_t n = 0;
    void make(size_t k, unsigned char fill) {
        n = k;
        p.reset(new unsigned char[k ? k : 1]);
        memset(p.get(), fill, k);
    }
};
std::string dump(const void* p, size_t n) {
    std::string s(static_cast<const char*>(p), n);
    return std::to_string(n) + " bytes " + std::to_string(hashStr(s)) + ": " + hex(p, n, 48);
}
struct Script {
    Api& a;
    Rng r;
    const Plan& plan;
    std::vector<std::string> log;
    std::map<std::string, uint64_t> done;
    struct Rd {
        void* p;
        size_t file;
    };
    struct Fr {
        void* p;
        size_t file;
        bool on = false;
        long n  = 0;
    };
    std::vector<Rd> rd;
    std::vector<Fr> fr;
    Script(Api& a, uint64_t s, const Plan& p) : a(a), r(s, 28, 28), plan(p) {}
    void say(const std::string& what, int rc, const std::string& more = "") { log.push_back(what + " -> " + std::to_string(rc) + (more.empty() ? "" : " " + more)); }
    OptI maybeBool() { return r.chance(1, 3) ? OptI() : OptI(int(r.below(2))); }
    int pad() { return r.chance(1, 2) ? 0 : int(r.below(9)); }
    void look(Fr& f) {
        std::string s;
        int n  = -1;
        int rc = a.columns(f.p, &n);
        long rows = -1;
        int rc2   = a.rows(f.p, &rows);
        f.n       = rows;
        s         = std::to_string(n) + " columns, " + std::to_string(rc2) + " " + std::to_string(rows) + " rows";
        for (int i = 0; i < n; i++) {
            int nb         = int(r.below(4));
            unsigned want  = r.chance(1, 2) ? 31 : unsigned(r.below(32));
            int rc3        = a.attributes(f.p, i, want, s);
            std::string bs;
            for (int k = 0; k < nb + 8; k++) {
                unsigned w2 = r.chance(1, 2) ? 7 : unsigned(r.below(8));
                std::string b;
                int rc4 = a.bits(f.p, i, k, w2, b);
                if (rc4) break;
                bs += " [" + b + "]";
                done["bitfield members"]++;
            }
            s += " " + std::to_string(rc3) + bs;
            done["columns described"]++;
        }
        int np = -1;
        rc2    = a.properties(f.p, &np);
        s += "; " + std::to_string(rc2) + " " + std::to_string(np) + " properties";
        for (int i = 0; i < np && i < 20; i++) {
            s += " ";
            rc2 = a.propertyIdx(f.p, i, s);
            s += " " + std::to_string(rc2);
            done["properties"]++;
        }
        if (r.chance(1, 6)) {
            int bad  = int(r.range(-1, 0)) + (r.chance(1, 2) ? n + 1 : 0);
            if (bad == -1 || bad >= n) {
                std::string x;
                s += " column out of range: " + std::to_string(a.attributes(f.p, bad, 31, x)) + x;
            }
        }
        say("frame", rc, s);
        // lookups by key
        std::vector<std::string> keys{"absent", "", "encoder", "encoder "};
        for (auto& kv : plan.tabs[f.file].props) keys.push_back(kv.first);
        for (int i = int(r.below(3)); i > 0; i--) {
            std::string k = r.pick(keys), x;
            int p = pad(), how = int(r.below(3));
            rc = a.property(f.p, k, p, how, x);
            say("property " + show(k), rc, x);
            done["properties by key"]++;
        }
    }
    void decode(Fr& f) {
        void* d  = nullptr;
        OptI cm0 = maybeBool();
        int rc   = a.decoder(cm0, &d);
        say("decoder", rc);
        if (rc) return;
        int layout = int(r.below(4));  // 0 owned, 1 array, 2 per column, 3 owned with sizes
        bool def   = r.chance(1, 2);
        std::vector<std::string> cols;
        std::vector<size_t> w;
        auto& all = plan.names[f.file];
        const Tab& t0 = plan.tabs[f.file];
        std::string s;
        if (def) {
            rc = a.defaults(d, f.p);
        }
        else {
            size_t k = 1 + r.below(all.size());
            for (size_t i = 0; i < k; i++) cols.push_back(r.pick(all));
            if (r.chance(1, 40)) cols.push_back("no such column");
            for (auto& c : cols) {
                int p = pad();
                int x = a.decAdd(d, c, p);
                if (!rc) rc = x;
            }
        }
        say("columns", rc);
        int n = -1;
        rc    = a.decColumns(d, &n);
        say("column count", rc, std::to_string(n));
        (void)t0;
        long rows = -1;
        bool over = r.chance(1, 3);
        long H    = f.n + (over ? long(r.below(4)) : 0);
        if (!def || (layout != 1 && r.chance(1, 3))) {
            long h = layout == 1 && r.chance(1, 2) ? f.n : H;
            rc     = a.decSetRows(d, h);
            say("set rows", rc);
            if (layout != 1) H = h;
        }
        // widths as the frame gives them now (C side of both runs gives the same)
        auto widthOf = [&](const std::string& nm) -> size_t {
            int k = -1;
            if (a.columns(f.p, &k)) return 8;
            for (int i = 0; i < k; i++) {
                std::string x;
                if (a.attributes(f.p, i, 1, x)) continue;
                if (x == " name=" + rtrim(nm)) {
                    std::string y;
                    a.attributes(f.p, i, 4, y);
                    return size_t(atol(y.c_str() + 6));
                }
            }
            return 8;
        };
        size_t W = 0;
        if (def) {
            int k = 0;
            a.columns(f.p, &k);
            for (int i = 0; i < k; i++) {
                std::string y;
                a.attributes(f.p, i, 4, y);
                w.push_back(size_t(atol(y.c_str() + 6)));
                W += w.back();
            }
        }
        else
            for (auto& c : cols) w.push_back(widthOf(c)), W += w.back();
        std::vector<Block> blocks;
        std::vector<size_t> st(w.size());
        bool ok = true;
        if (layout == 1) {
            OptI cm  = maybeBool();
            long cw  = long(W / 8) + (r.chance(1, 3) ? long(r.below(3)) : 0);
            blocks.resize(1);
            blocks[0].make(size_t(cw) * 8 * size_t(H), 0xA5);
            rc = a.decSetData(d, blocks[0].p.get(), cw, H, cm);
            say("set data", rc);
            done[cm ? "decoder arrays" : "decoder arrays of default layout"]++;
        }
        else if (layout == 2) {
            blocks.resize(w.size());
            for (size_t i = 0; i < w.size(); i++) {
                OptI size, stride;
                if (w[i] != 8 || r.chance(1, 2)) size = int(w[i]);
                st[i] = w[i];
                if (r.chance(1, 2)) {
                    st[i] += r.chance(1, 2) ? 8 * r.below(4) : 0;
                    stride = int(st[i]);
                }
                else
                    done["strides omitted"]++;
                if (!size) done["element sizes omitted"]++;
                blocks[i].make(H ? size_t(H - 1) * st[i] + w[i] : 8, 0xA5);
                bool own = r.chance(1, 12);
                rc       = a.decColSet(d, int(i), size, stride, own ? nullptr : blocks[i].p.get());
                if (own) ok = false;  // no memory: whatever the C interface does
                say("set column data", rc);
            }
            if (def && r.chance(1, 2)) say("set rows", a.decSetRows(d, H));
        }
        else if (layout == 3)
            for (size_t i = 0; i < w.size(); i++) say("set column size", a.decColSize(d, int(i), int(w[i])));
        if (!ok) {
            say("free decoder", a.freeDecoder(d));
            return;
        }
        OptI threads = r.chance(1, 2) ? OptI() : OptI(1 + int(r.below(3)));
        rc           = a.decode(d, f.p, &rows, threads);
        say("decode", rc, rc ? "" : std::to_string(rows) + " rows");
        if (!rc) {
            done[layout == 2 ? "decoded per column" : layout == 1 ? "decoded to arrays" : "decoded to owned arrays"]++;
            if (threads) done["decoded with threads"]++;
            long rr = -1;
            int x   = a.decRows(d, &rr);
            say("rows of decoder", x, std::to_string(rr));
            if (layout == 2)
                for (auto& b : blocks) say("column", 0, dump(b.p.get(), b.n));
            else {
                void* p = nullptr;
                long cw = -1, h = -1;
                int cm        = -1;
                unsigned want = unsigned(r.below(2));
                x             = a.decData(d, want, &p, &cw, &h, &cm);
                say("data", x, std::to_string(cw) + "x" + std::to_string(h) + (cm ? " column major" : " row major"));
                if (layout == 1 && p != blocks[0].p.get() && blocks[0].n) say("data", -78, "elsewhere");
                if (!x && p && cw >= 0 && h >= 0 && f.n > 0) {
                    // cells only where they were written
                    Bytes b;
                    const unsigned char* q = static_cast<unsigned char*>(p);
                    if (layout == 1)
                        b.assign(q, q + blocks[0].n);
                    else
                        for (long k = 0; k < cw; k++)
                            for (long i = 0; i < rows && i < h; i++) {
                                const unsigned char* e = q + 8 * (cm ? k * h + i : i * cw + k);
                                b.insert(b.end(), e, e + 8);
                            }
                    say("cells", 0, dump(b.data(), b.size()));
                    for (size_t i = 0; i < w.size(); i++) {
                        int es = -1, sd = -1;
                        void* cp       = nullptr;
                        unsigned want2 = unsigned(r.below(4));
                        x              = a.decCol(d, int(i), want2, &es, &sd, &cp);
                        say("column data", x, std::to_string(es) + " " + std::to_string(sd) + " at " + std::to_string(static_cast<unsigned char*>(cp) - q));
                    }
                }
            }
        }
        say("free decoder", a.freeDecoder(d));
    }
    void encode(size_t which, int nth) {
        const Tab& t = plan.tabs[which];
        EncOpts o    = genEnc(r, t);
        o.sink       = 2;
        int behave   = o.longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES;
        say("treatment", atoi(a.global(5, behave).c_str()));
        Image im;
        buildImage(t, o, im);
        void* e = nullptr;
        int rc  = a.encoder(&e);
        say("encoder", rc);
        if (rc) return;
        for (auto& kv : t.props) {
            int p = pad();
            say("property", a.encProperty(e, kv.first, kv.second, p));
        }
        if (o.setRowCount) say("rows", a.encRows(e, long(t.n)));
        if (o.rowsPerFrame) say("rows per frame", a.encRowsPerFrame(e, o.rowsPerFrame));
        for (size_t i = 0; i < t.c.size(); i++) {
            const Col& c = t.c[i];
            int p        = pad();
            say("column", a.encAdd(e, c.name, p, c.type));
            for (auto& b : c.bits) {
                p = pad();
                say("bits", a.encBits(e, int(i), b.first, p, b.second));
                done["bitfield members"]++;
            }
            bool dbl = r.chance(1, 2);
            if (o.layout == 2) {
                OptI size, stride;
                if (c.width != 8 || o.setSizes) size = int(c.width);
                if (im.stride[i] != c.width || r.chance(1, 2)) stride = int(im.stride[i]);
                if (!stride) done["strides omitted"]++;
                if (!size) done["element sizes omitted"]++;
                say("column data", a.encColSet(e, int(i), size, dbl, stride, im.colPtr[i]));
            }
            else if (c.width != 8 || o.setSizes) {
                say("column size", a.encColSize(e, int(i), int(c.width), dbl));
            }
            else if (r.chance(1, 4))
                say("column size", a.encColSize(e, int(i), OptI(), dbl));
        }
        if (o.layout != 2) {
            OptI cm;
            if (o.layout == 0)
                cm = 0;
            else if (r.chance(1, 2))
                cm = 1;
            if (!cm) done["encoder arrays of default layout"]++;
            say("data", a.encSetData(e, im.array, im.width / 8, im.height, cm));
        }
        if (r.chance(1, 8)) {  // mistakes
            std::string s;
            switch (r.below(5)) {
                case 0: say("bad column", a.encColSize(e, int(t.c.size()), 8, false)); break;
                case 1: say("bad column", a.encColSet(e, -1, 8, true, OptI(), im.blocks[0].get())); break;
                case 2: say("bad bits", a.encBits(e, int(t.c.size()), "x", 0, 1)); break;
                case 3: say("bad rows", a.encRowsPerFrame(e, r.range(-3, 0))); break;
                default: say("bad rows", a.encRows(e, -1));
            }
            done["mistakes"]++;
            say("free encoder", a.freeEncoder(e));
            return;
        }
        std::string path = plan.scratch + "/" + (a.fortran() ? "f" : "c") + std::to_string(nth) + ".odb";
        int mode         = r.chance(1, 10) ? 2 + int(r.below(2)) : r.chance(1, 6) ? 1 : 0;
        if (mode == 1) writeFile(path, std::string("before"));
        if (mode == 2) writeFile(path, std::string());
        long n = -1;
        rc     = a.encode(e, path, mode, &n);
        if (mode >= 2) {
            // the C interface fails when its stream does
            say("encode to a unit which cannot be written", rc ? 1 : 0);
            done["units which cannot be written"]++;
            unlink(path.c_str());
            say("free encoder", a.freeEncoder(e));
            return;
        }
        Bytes b;
        readFile(path, b);
        say("encode", rc, rc ? "" : std::to_string(n) + " of " + std::to_string(b.size()) + " " + dump(b.data(), b.size()));
        if (!rc) done[o.layout == 2 ? "encoded per column" : o.layout == 1 ? "encoded column-major" : "encoded row-major"]++;
        unlink(path.c_str());
        say("free encoder", a.freeEncoder(e));
    }
    void run(int ops) {
        long ctx    = long(r.next() >> 1);
        void* none  = nullptr;
        say("open nothing", a.open(plan.scratch + "/absent", 0, &none));  // what the last error was is the same for both
        say("handler", a.setHandler(ctx));
        say("treatment", atoi(a.global(5, r.chance(1, 2) ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES).c_str()));
        for (int i = 0; i < ops; i++) {
            switch (r.below(12)) {
                case 0: {
                    int p = pad();
                    if (rd.size() >= 4) break;
                    if (r.chance(1, 8)) {
                        void* q = nullptr;
                        say("open nothing", a.open(plan.scratch + "/absent", p, &q));
                        break;
                    }
                    size_t k = r.below(plan.paths.size());
                    void* q  = nullptr;
                    int rc   = a.open(plan.paths[k], p, &q);
                    say("open", rc);
                    if (rc) break;
                    rd.push_back({q, k});
                    void* f = nullptr;
                    rc      = a.frame(q, &f);
                    say("frame", rc);
                    if (!rc) fr.push_back({f, k, false, 0});
                    done["readers"]++;
                    break;
                }
                case 1:
                case 2:
                case 3:
                case 4: {
                    if (fr.empty()) break;
                    Fr& f = fr[r.below(fr.size())];
                    OptI agg;
                    OptL max;
                    if (r.chance(1, 2)) agg = int(r.below(2));
                    if (r.chance(1, 3)) max = r.chance(1, 3) ? -1 : r.range(1, 60);
                    int rc = a.next(f.p, agg, max);
                    say("next", rc);
                    f.on = rc == 0;
                    if (f.on) look(f), done[agg ? "frames advanced" : max ? "frames advanced by limit alone" : "frames advanced by default"]++;
                    break;
                }
                case 5:
                case 6:
                case 7: {
                    std::vector<size_t> on;
                    for (size_t k = 0; k < fr.size(); k++)
                        if (fr[k].on) on.push_back(k);
                    if (on.empty()) break;
                    Fr& f = fr[r.pick(on)];
                    if (r.chance(1, 5)) {
                        void* q = nullptr;
                        int rc  = a.copy(f.p, &q);
                        say("copy", rc);
                        if (rc) break;
                        Fr g = f;
                        g.p  = q;
                        fr.push_back(g);
                        done["frames copied"]++;
                    }
                    else
                        decode(f);
                    break;
                }
                case 8:
                case 9:
                    encode(r.below(plan.tabs.size()), i);
                    break;
                case 10: {
                    int what = int(r.below(7));
                    int arg  = what == 2 ? int(r.range(-1, 7)) : what == 3 ? int(r.range(0, 3)) : what == 5 ? int(r.range(1, 2)) : what == 6 ? int(r.below(3)) * 7 : 0;
                    say("global " + std::to_string(what) + " " + std::to_string(arg), 0, a.global(what, arg));
                    done["library functions"]++;
                    break;
                }
                default:
                    if (fr.size() > 3) {
                        size_t k = r.below(fr.size());
                        say("free frame", a.freeFrame(fr[k].p));
                        fr.erase(fr.begin() + long(k));
                    }
            }
        }
        say("handler", 0, a.handler());
        if (a.handler()[0] != '0') done["failures reported to the handler"]++;
        odc_set_failure_handler(nullptr, nullptr);
        for (auto& f : fr) say("free frame", a.freeFrame(f.p));
        for (auto& x : rd) say("close", a.close(x.p));
    }
};
// calls with every optional argument given: nothing of them may reach later calls
void poison(Rng& r) {
    void *d = nullptr, *e = nullptr;
    int cm = int(r.below(2)), cm2 = int(r.below(2)), cm3 = int(r.below(2)), size = 8 * int(r.range(1, 5)), stride = size + 8 * int(r.below(4));
    std::vector<double> x(64);
    if (!f28_decoder(&cm, &d)) {
        f28_dec_add(d, "poison", 6);
        f28_dec_col_set(d, 1, &size, &stride, x.data());
        f28_dec_set_data(d, x.data(), 8, 8, 8, 8, &cm2);
        f28_decoder_free(d);
    }
    if (!f28_encoder(&e)) {
        f28_enc_add(e, "poison", 6, ODC_STRING);
        f28_enc_col_set(e, 1, &size, nullptr, &stride, x.data());
        f28_enc_col_size(e, 1, &size, nullptr);
        f28_enc_set_data(e, x.data(), 8, 8, 8, 8, &cm3);
        f28_encoder_free(e);
    }
}
// parts of larger arrays: transported, or refused
void sections(Ctx& c) {
    Rng& r  = c.rng;
    long k1 = r.range(2, 6), k2 = r.range(2, 6), n1 = k1 + r.range(r.chance(1, 4) ? 0 : 1, 3), n2 = k2 + r.range(0, 2);
    int cm    = int(r.below(2));
    long rows = cm ? k1 : k2, cols = cm ? k2 : k1;
    std::vector<double> x(size_t(n1 * n2));
    for (auto& v : x) v = double(r.range(-1000, 1000)) / 4;
    auto at = [&](const std::vector<double>& y, long row, long col) { return cm ? y[size_t(row + col * n1)] : y[size_t(col + row * n1)]; };
    std::string p = c.scratch + "/s.odb", what = " array " + std::to_string(n1) + "x" + std::to_string(n2) + " part " + std::to_string(k1) + "x" + std::to_string(k2) + (cm ? " column-major" : " row-major");
    void* e = nullptr;
    f28_encoder(&e);
    for (long i = 0; i < cols; i++) {
        std::string nm = "c" + std::to_string(i);
        f28_enc_add(e, nm.data(), long(nm.size()), ODC_DOUBLE);
    }
    int rc = f28_enc_set_data(e, x.data(), n1, n2, k1, k2, &cm);
    long bytes = -1;
    if (!rc) rc = f28_encode(e, p.data(), long(p.size()), 0, &bytes);
    f28_encoder_free(e);
    c.stat("parts of arrays encoded", rc ? 0 : 1);
    c.stat("parts of arrays refused", rc ? 1 : 0);
    bool whole = k1 == n1;  // contiguous: must work
    if (rc && whole) c.viol("part", "a contiguous part is refused by the encoder:" + what);
    if (!rc) {
        Bytes b;
        readFile(p, b);
        Tab t = concat(readC(b).frames);
        if (long(t.n) != rows || long(t.c.size()) != cols) return c.viol("part-encoded", "encoding a part of an array gives " + describe(t) + what);
        for (long i = 0; i < rows; i++)
            for (long k = 0; k < cols; k++)
                if (t.c[size_t(k)].d[size_t(i)] != at(x, i, k)) {
                    ODV_FAIL(c, "part-encoded", "encoding a part of an array stores " << t.c[size_t(k)].d[size_t(i)] << " instead of " << at(x, i, k) << " in row " << i << " column " << k << what);
                    return;
                }
    }
    // a file with these cells
    Tab t;
    t.n = size_t(rows);
    for (long k = 0; k < cols; k++) {
        Col q;
        q.name = "c" + std::to_string(k);
        q.type = DOUBLE;
        q.resize(t.n);
        for (long i = 0; i < rows; i++) q.d[size_t(i)] = at(x, i, k), q.miss[size_t(i)] = 0;
        t.c.push_back(q);
    }
    EncOpts o;
    EncResult er = encodeC(t, o);
    writeFile(p, er.bytes);
    void *rd = nullptr, *f = nullptr, *d = nullptr;
    std::vector<double> y(x.size(), 12345.5), was;
    if (f28_open(p.data(), long(p.size()), &rd) || f28_frame(rd, &f) || f28_next(f, nullptr, nullptr) || f28_decoder(&cm, &d) || f28_defaults(d, f)) return c.viol("part-open", "cannot read" + what);
    was     = y;
    rc      = f28_dec_set_data(d, y.data(), n1, n2, k1, k2, &cm);
    long nr = -1;
    if (!rc) rc = f28_decode(d, f, &nr, nullptr);
    f28_decoder_free(d);
    f28_frame_free(f);
    f28_close(rd);
    c.stat("parts of arrays decoded", rc ? 0 : 1);
    if (rc && whole) c.viol("part", "a contiguous part is refused by the decoder:" + what);
    if (rc && y != was) c.viol("part-decoded", "a refused part of an array was written:" + what);
    if (rc) return;
    for (long j = 0; j < n2; j++)
        for (long i = 0; i < n1; i++) {
            double want = i < k1 && j < k2 ? x[size_t(i + j * n1)] : 12345.5;
            if (y[size_t(i + j * n1)] != want) {
                ODV_FAIL(c, "part-decoded", "decoding into a part of an array leaves " << y[size_t(i + j * n1)] << " instead of " << want << " at " << i + 1 << "," << j + 1 << what);
                return;
            }
        }
}
}  // namespace
void odvCase(Ctx& c) {
    Rng& r = c.rng;
    if (c.idx % 64 == 3) {
        int v[12] = {0}, w[12] = {ODC_IGNORE, ODC_INTEGER, ODC_REAL, ODC_STRING, ODC_BITFIELD, ODC_DOUBLE, ODC_SUCCESS, ODC_ITERATION_COMPLETE, ODC_ERROR_GENERAL_EXCEPTION,
                               ODC_ERROR_UNKNOWN_EXCEPTION, ODC_INTEGERS_AS_DOUBLES, ODC_INTEGERS_AS_LONGS};
        f28_constants(v);
        if (memcmp(v, w, sizeof v)) c.viol("constants", "the constants of the Fortran interface differ from those of the C interface");
        c.stat("constants");
    }
    Plan plan;
    plan.scratch = c.scratch;
    int nfiles   = int(r.range(1, 3));
    std::string how;
    uint64_t sig = 0;
    for (int i = 0; i < nfiles; i++) {
        FileOpts fo;
        fo.g.maxCols = r.chance(1, 10) ? 20 : 5;
        fo.g.maxRows = r.chance(1, 10) ? 400 : 25;
        fo.schema = fo.types = r.chance(1, 3);
        GenOpts g = fo.g;
        Tab t     = genTable(r, g);
        genProps(r, t);
        // names are given to Fortran without trailing blanks
        std::set<std::string> used;
        size_t k = 0;
        for (auto& q : t.c) {
            q.name = rtrim(q.name);
            while (q.name.empty() || !used.insert(q.name).second) q.name += "n" + std::to_string(k++);
            std::set<std::string> bu;
            for (auto& b : q.bits) {
                b.first = rtrim(b.first);
                while (b.first.empty() || !bu.insert(b.first).second) b.first += "n" + std::to_string(k++);
            }
        }
        std::map<std::string, std::string> props;
        for (auto& kv : t.props)
            if (!rtrim(kv.first).empty()) props[rtrim(kv.first)] = rtrim(kv.second);
        t.props = props;
        fo.base = r.chance(3, 4) ? &t : nullptr;
        std::vector<RefFrame> fs;
        std::string h;
        Bytes b       = genFile(c, fo, fs, h);
        std::string p = c.scratch + "/in" + std::to_string(i) + ".odb";
        if (r.chance(1, 12) && b.size() > 40) b.resize(b.size() / 2 + r.below(b.size() / 2));  // failures on the way
        writeFile(p, b);
        plan.paths.push_back(p);
        std::vector<std::string> names;
        for (auto& q : fs[0].cols) names.push_back(q.name);
        plan.names.push_back(names);
        plan.tabs.push_back(t);
        how += " file " + std::to_string(i) + ":" + h;
        sig = mix(sig, mix(shapeSig(t), hashStr(std::string(b.begin(), b.end()))));
    }
    c.sig(sig);
    uint64_t s = r.next();
    int ops    = int(r.range(8, 45));
    CApi ca;
    FApi fa;
    Script sc(ca, s, plan), sf(fa, s, plan);
    sc.run(ops);
    poison(r);
    sf.run(ops);
    for (auto& kv : sf.done) c.stat(kv.first, kv.second);
    c.stat("calls compared", sf.log.size());
    size_t n = std::min(sc.log.size(), sf.log.size());
    for (size_t i = 0; i <= n; i++) {
        if (i == n && sc.log.size() == sf.log.size()) break;
        if (i == n || sc.log[i] != sf.log[i]) {
            std::string what = i < n ? sf.log[i].substr(0, sf.log[i].find(" -> ")) : "length";
            std::replace(what.begin(), what.end(), ' ', '-');
            if (what.compare(0, 8, "property") == 0) what = "property";
            std::string before;
            for (size_t k = i > 6 ? i - 6 : 0; k < i; k++) before += sf.log[k].substr(0, 100) + "; ";
            ODV_FAIL(c, "differs:" + what,
                     "Fortran: " << (i < sf.log.size() ? show(sf.log[i], 600) : "(no call)") << " C: " << (i < sc.log.size() ? show(sc.log[i], 600) : "(no call)") << " after: " << before << how);
            break;
        }
    }
    odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES);
    if (r.chance(1, 4)) sections(c);
    if (c.idx % 1000 == 7) c.sample(std::to_string(ops) + " operations," + how + " first calls: " + (sf.log.size() > 12 ? sf.log[10].substr(0, 150) + "; " + sf.log[11].substr(0, 150) : ""));
}
}  // namespace odv
