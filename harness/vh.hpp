// Shared runtime-monitoring support: case scheduling, seeded randomness, event counters,
// verdict recording.  Every workload is a list of independent numbered cases; the PRNG of a
// case depends only on (VERIF_SEED, workload name, case number), so any case replays alone.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64() { return splitmix(s); }
    // inclusive bounds
    long long i(long long lo, long long hi) { return lo + (long long)(u64() % (uint64_t)(hi - lo + 1)); }
    size_t below(size_t n) { return n ? (size_t)(u64() % n) : 0; }
    double unit() { return (double)(u64() >> 11) / 9007199254740992.0; }
    double d(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <class V> const typename V::value_type &pick(const V &v) { return v[below(v.size())]; }
    template <class V> void shuffle(V &v) {
        for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[below(k)]);
    }
    double gauss() {
        double a = unit(), b = unit();
        if (a < 1e-300) a = 1e-300;
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
    }
    // a value with few significant digits (exact in short decimal), possibly extreme
    double decimal(int digits = 4, int emin = -3, int emax = 3) {
        double m = (double)i(-(long long)std::pow(10, digits), (long long)std::pow(10, digits));
        char buf[64];
        snprintf(buf, sizeof buf, "%.0fe%lld", m, i(emin, emax) - digits);
        return strtod(buf, nullptr);
    }
};

struct Stop { };   // abandons the current case after a violation

struct State {
    uint64_t seed = 1;
    bool thorough = false;
    std::string workload;
    uint64_t case_no = 0;
    int out_fd = 1;
    int prog_fd = -1;
    uint64_t evaluations = 0;
    uint64_t violations = 0;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::set<std::string> keys_seen;
    uint64_t checks = 0;
};
inline State &S() { static State s; return s; }

inline std::string jesc(const std::string &in) {
    std::string o;
    for (unsigned char c : in) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
inline void emit(const std::string &line) {
    std::string l = line + "\n";
    size_t off = 0;
    while (off < l.size()) {
        ssize_t k = ::write(S().out_fd, l.data() + off, l.size() - off);
        if (k <= 0) break;
        off += (size_t)k;
    }
}
inline void count(const std::string &name, uint64_t n = 1) { S().counters[name] += n; }
// one distinct non-trivial observation, identified by its content
inline void nontrivial(const std::string &content) { S().distinct.insert(fnv(content, fnv(S().workload))); }
inline void nontrivial(uint64_t h) { S().distinct.insert(h ^ fnv(S().workload)); }
inline void sample(const std::string &s, size_t cap = 3) {
    if (S().samples.size() < cap) S().samples.push_back(S().workload + "#" + std::to_string(S().case_no) + ": " + s.substr(0, 600));
}
inline void violation(const std::string &key, const std::string &detail) {
    S().violations++;
    if (S().keys_seen.insert(key).second && S().keys_seen.size() <= 40)
        emit("{\"violation\":{\"key\":\"" + jesc(key) + "\",\"workload\":\"" + jesc(S().workload) + "\",\"case\":" +
             std::to_string(S().case_no) + ",\"detail\":\"" + jesc(detail.substr(0, 3000)) + "\"}}");
}
template <class... A> std::string cat(const A &...a) {
    std::ostringstream o;
    o.precision(17);
    (void)std::initializer_list<int>{((o << a), 0)...};
    return o.str();
}
template <class V> std::string show(const V &v, size_t cap = 60) {
    std::ostringstream o;
    o.precision(17);
    o << "[";
    size_t k = 0;
    for (const auto &e : v) {
        if (k) o << ",";
        if (k >= cap) { o << "..."; break; }
        o << e;
        k++;
    }
    o << "]";
    return o.str();
}
// closeness with relative tolerance; nan equals nan, inf equals same inf
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

#define VCHECK(key, cond, ...)                                                                     \
    do {                                                                                           \
        ::vh::S().checks++;                                                                        \
        if (!(cond)) {                                                                             \
            ::vh::violation((key), ::vh::cat(__VA_ARGS__));                                        \
            throw ::vh::Stop();                                                                    \
        }                                                                                          \
    } while (0)

struct Workload {
    std::string name;
    uint64_t quick, thorough;    // number of cases
    std::function<void(Rng &)> fn;
};
inline std::vector<Workload> &workloads() { static std::vector<Workload> w; return w; }
struct Reg {
    Reg(const char *n, uint64_t q, uint64_t t, std::function<void(Rng &)> f) { workloads().push_back({n, q, t, f}); }
};
#define WORKLOAD(name, quick, thorough)                                                            \
    static void wl_##name(::vh::Rng &rng);                                                         \
    static ::vh::Reg reg_##name(#name, quick, thorough, wl_##name);                                \
    static void wl_##name(::vh::Rng &rng)

inline std::string scratch_dir() {
    static std::string d;
    if (d.empty()) {
        const char *e = getenv("VH_SCRATCH");
        d = e ? e : "/tmp";
    }
    return d;
}
inline void progress(const std::string &w, uint64_t c) {
    if (S().prog_fd < 0) return;
    char b[160];
    int n = snprintf(b, sizeof b, "%-100s %20llu\n", w.c_str(), (unsigned long long)c);
    if (pwrite(S().prog_fd, b, n, 0) < 0) {}
}
inline uint64_t case_seed(uint64_t seed, const std::string &w, uint64_t c) {
    uint64_t s = fnv(w) ^ (seed * 0x9e3779b97f4a7c15ULL) ^ (c * 0xd1342543de82ef95ULL);
    splitmix(s);
    return splitmix(s);
}
inline void run_case(const Workload &w, uint64_t c) {
    S().workload = w.name;
    S().case_no = c;
    progress(w.name, c);
    Rng rng(case_seed(S().seed, w.name, c));
    S().evaluations++;
    S().counters["cases:" + w.name]++;
    try {
        w.fn(rng);
    } catch (const Stop &) {
    } catch (const std::exception &e) {
        violation("exception:" + w.name, cat("unexpected exception escaped the library: ", e.what()));
    }
}
inline void finish() {
    std::ostringstream o;
    o << "{\"result\":{\"evaluations\":" << S().evaluations << ",\"checks\":" << S().checks << ",\"violations\":" << S().violations
      << ",\"counters\":{";
    bool f = true;
    for (auto &kv : S().counters) { o << (f ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; f = false; }
    o << "},\"samples\":[";
    f = true;
    for (auto &s : S().samples) { o << (f ? "" : ",") << "\"" << jesc(s) << "\""; f = false; }
    o << "],\"distinct\":[";
    f = true;
    size_t k = 0;
    for (auto h : S().distinct) { if (k++ >= 400000) break; o << (f ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; f = false; }
    o << "]}}";
    emit(o.str());
}
inline int main_(int argc, char **argv) {
    uint64_t shard = 0, nshards = 1, only_case = 0;
    std::string only_w, prog;
    double scale = 1.0;
    bool only = false;
    std::set<std::string> filter;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k];
        auto val = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
        if (a == "--seed") S().seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") S().thorough = val() == "thorough";
        else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%lu/%lu", &shard, &nshards); }
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--progress") prog = val();
        else if (a == "--only") { only = true; std::string v = val(); auto p = v.rfind('#'); only_w = v.substr(0, p); only_case = strtoull(v.substr(p + 1).c_str(), nullptr, 10); }
        else if (a == "--workload") filter.insert(val());
        else if (a == "--list") { for (auto &w : workloads()) printf("%s %lu %lu\n", w.name.c_str(), w.quick, w.thorough); return 0; }
    }
    // The library prints to stdout: keep the real one for verdicts only.
    S().out_fd = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    if (!getenv("VH_SHOW")) { dup2(nul, 1); }
    if (!getenv("VH_SHOW")) { std::cout.setstate(std::ios::badbit); std::clog.setstate(std::ios::badbit); std::cerr.setstate(std::ios::badbit); }
    if (!prog.empty()) S().prog_fd = open(prog.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    for (auto &w : workloads()) {
        if (only) { if (w.name == only_w) run_case(w, only_case); continue; }
        if (!filter.empty() && !filter.count(w.name)) continue;
        uint64_t n = (uint64_t)std::ceil((S().thorough ? w.thorough : w.quick) * scale);
        for (uint64_t c = shard; c < n; c += nshards) {
            run_case(w, c);
            if (S().keys_seen.size() > 30) break;
        }
    }
    progress("done", 0);
    finish();
    fflush(nullptr);
    return 0;
}
}  // namespace vh
#define VH_MAIN int main(int argc, char **argv) { return ::vh::main_(argc, argv); }
