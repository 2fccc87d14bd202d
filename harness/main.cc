// Case driver: runs the cases first, first+step, ... < end of one property, each from its own random stream.
#include "odv.h"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <chrono>
#include <typeinfo>

// Every eckit exception writes a symbolised backtrace to the log, which costs far more than the code under test.
// This definition takes precedence over the library's.
namespace eckit {
class BackTrace {
public:
    static std::string dump();
};
std::string BackTrace::dump() { return "(not recorded)"; }
}  // namespace eckit

namespace odv {
Ctx* g_ctx = nullptr;
static FILE* g_out;
static std::map<std::string, uint64_t> g_stats;
static std::set<uint64_t> g_sigs;
static std::map<std::string, int> g_perKey;
static std::string g_keepDir;

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') {
            o += '\\';
            o += char(c);
        }
        else if (c < 32 || c > 126) {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += char(c);
    }
    return o;
}
void Ctx::viol(const std::string& key, const std::string& msg) {
    if (g_perKey[key]++ < 3) {
        fprintf(g_out, "{\"t\":\"viol\",\"case\":%llu,\"probe\":%s,\"key\":\"%s\",\"msg\":\"%s\"}\n", (unsigned long long)idx, probe ? "true" : "false",
                jesc(key).c_str(), jesc(msg.substr(0, 1500)).c_str());
        fflush(g_out);
    }
    g_stats["violations"]++;
}
void Ctx::stat(const std::string& k, uint64_t n) { g_stats[k] += n; }
void Ctx::sig(uint64_t h) { g_sigs.insert(h); }
void Ctx::inconclusive(const std::string& why) {
    fprintf(g_out, "{\"t\":\"inc\",\"case\":%llu,\"msg\":\"%s\"}\n", (unsigned long long)idx, jesc(why).c_str());
    fflush(g_out);
}
void Ctx::sample(const std::string& what) {
    static int n = 0;
    if (n++ < 2) {
        fprintf(g_out, "{\"t\":\"sample\",\"case\":%llu,\"msg\":\"%s\"}\n", (unsigned long long)idx, jesc(what.substr(0, 700)).c_str());
        fflush(g_out);
    }
}
void Ctx::keep(const std::string& name, const Bytes& b) {
    if (!g_keepDir.empty()) writeFile(g_keepDir + "/" + name, b);
}
}  // namespace odv

using namespace odv;

static std::string g_statusPath;
static int g_status = -1;
static uint64_t g_cur;
static void onAlarm(int) {
    static const char m[] = "ODV-TIMEOUT\n";
    ssize_t r             = write(2, m, sizeof m - 1);
    (void)r;
    _exit(77);
}
static void flushStats(uint64_t done, double wall) {
    fprintf(g_out, "{\"t\":\"stats\",\"done\":%llu,\"wall\":%.3f,\"stats\":{", (unsigned long long)done, wall);
    bool first = true;
    for (auto& kv : g_stats) {
        fprintf(g_out, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(g_out, "},\"sigs\":[");
    first = true;
    for (auto h : g_sigs) {
        fprintf(g_out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
        first = false;
    }
    fprintf(g_out, "]}\n");
    fflush(g_out);
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
    if (a.count("--info")) {
        printf("%llu\n", (unsigned long long)odvProbes());
        return 0;
    }
    uint64_t seed = num("--seed", 1), first = num("--first", 0), step = num("--step", 1), end = num("--end", 1);
    double deadline  = double(num("--deadline", 1000000));
    unsigned perCase = unsigned(num("--percase", 60));
    g_out            = a.count("--out") ? fopen(a["--out"].c_str(), "a") : stdout;
    if (!g_out) return 3;
    if (a.count("--status")) g_status = open(a["--status"].c_str(), O_RDWR | O_CREAT, 0644);
    if (a.count("--keep")) g_keepDir = a["--keep"];
    std::string scratch = a.count("--scratch") ? a["--scratch"] : "/tmp";
    if (odc_initialise_api()) return 3;
    signal(SIGPIPE, SIG_IGN);
    signal(SIGALRM, onAlarm);
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    uint64_t done = 0;
    odvInit();
    for (uint64_t i = first; i < end; i += step) {
        if (el() > deadline) {
            g_stats["stopped at the time limit"]++;
            break;
        }
        g_cur = i;
        if (g_status >= 0) {
            char b[32];
            int n = snprintf(b, sizeof b, "%-20llu", (unsigned long long)i);
            if (pwrite(g_status, b, size_t(n), 0) < 0) return 3;
        }
        Ctx c;
        c.seed     = seed;
        c.idx      = i;
        c.probe    = i < odvProbes();
        c.rng      = Rng(c.probe ? 12345 : seed, hashStr(odvName()), i);
        c.thorough = a.count("--tier") && a["--tier"] == "thorough";
        c.scratch  = scratch;
        c.bindir   = a["--bindir"];
        g_ctx      = &c;
        alarm(perCase);
        try {
            odvCase(c);
        }
        catch (std::exception& e) {
            c.viol(std::string("exception:") + typeid(e).name(), std::string("unexpected C++ exception in the workload: ") + e.what());
        }
        catch (...) {
            c.viol("exception:unknown", "unexpected non-standard exception in the workload");
        }
        alarm(0);
        g_ctx = nullptr;
        done++;
    }
    flushStats(done, el());
    fclose(g_out);
    return 0;
}
