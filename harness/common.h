// Shared by every harness: seeded randomness, counters, violation reports, scratch directory.
//
// Protocol on stdout, read by /verif/check.py:
//   VIOL <key>\t<message>      a monitor saw a violation; <key> identifies what failed
//   COUNT <name> <number>      what the monitors observed
//   SAMPLE <text>              one observed case, for the evidence file
//   DONE                       the workload ran to its end
// and distinct state hashes, 8 bytes each, in <scratch>/states.bin.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>

extern "C" {
void verif_noise(unsigned bits, unsigned sleep_us, uint64_t seed);
uint64_t verif_blocks_run(void);
uint64_t verif_blocks_total(void);
}

namespace hx {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); s = next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + (*this)(b - a + 1); }
    bool chance(unsigned percent) { return (*this)(100) < percent; }
    template <typename T> T& pick(std::vector<T>& v) { return v[(*this)(v.size())]; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[(*this)(v.size())]; }
};

inline uint64_t hash64(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h ^ (h >> 29);
}
inline uint64_t hash64(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) {
    return hash64(s.data(), s.size(), h);
}

struct State {
    std::map<std::string, std::string> args;
    uint64_t seed = 1;
    std::string scratch;
    std::mutex lock;
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> states;
    std::set<std::string> violKeys, softKeys;
    size_t samples = 0;
    std::string context;   // what is running now, for reports
};
inline State& st() { static State* s = new State(); return *s; }

inline std::string arg(const std::string& k, const std::string& d = "") {
    auto e = st().args.find(k);
    return e == st().args.end() ? d : e->second;
}
inline uint64_t argn(const std::string& k, uint64_t d) {
    auto e = st().args.find(k);
    return e == st().args.end() ? d : strtoull(e->second.c_str(), nullptr, 10);
}

inline std::string fmt(const char* f, ...) {
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof(b), f, a);
    va_end(a);
    return b;
}

inline std::string printable(const std::string& s, size_t lim = 40) {
    std::string r;
    for (size_t i = 0; i < s.size() && i < lim; ++i) {
        unsigned char c = s[i];
        if (c > 0x20 && c < 0x7f && c != '\\') r += (char)c;
        else { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
    }
    if (s.size() > lim) r += fmt("...(%zu)", s.size());
    return "'" + r + "'";
}

inline void count(const std::string& name, uint64_t n = 1) {
    std::lock_guard<std::mutex> l(st().lock);
    st().counts[name] += n;
}
inline void countMax(const std::string& name, uint64_t n) {
    std::lock_guard<std::mutex> l(st().lock);
    uint64_t& c = st().counts["max_" + name];
    if (c < n) c = n;
}
inline void seen(uint64_t h) {
    std::lock_guard<std::mutex> l(st().lock);
    if (st().states.size() < 400000) st().states.insert(h);
}
inline void sample(const std::string& t) {
    std::lock_guard<std::mutex> l(st().lock);
    if (st().samples++ < 3) { printf("SAMPLE %s\n", t.c_str()); fflush(stdout); }
}

// Reports one violation. Distinct keys are all reported (up to 8), the same key once.
inline void viol(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> l(st().lock);
    st().counts["violations_seen"]++;
    if (st().violKeys.size() >= 8 || !st().violKeys.insert(key).second) return;
    std::string m = msg + " [" + st().context + "]";
    for (char& c : m) if (c == '\n' || c == '\t') c = ' ';
    printf("VIOL %s\t%s\n", key.c_str(), m.c_str());
    fflush(stdout);
}
// A violation that need not end the run: the same thing happens often, and what follows is still
// worth watching (known findings above all).
inline void softViol(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> l(st().lock);
    st().counts["soft_" + key]++;
    if (!st().softKeys.insert(key).second) return;
    std::string m = msg + " [" + st().context + "]";
    for (char& c : m) if (c == '\n' || c == '\t') c = ' ';
    printf("VIOL %s\t%s\n", key.c_str(), m.c_str());
    fflush(stdout);
}
#define CHECK_KEY(cond, key, ...) do { if (!(cond)) hx::viol(key, hx::fmt(__VA_ARGS__)); } while (0)

inline void mkdirs(const std::string& p) {
    std::string c;
    for (size_t i = 0; i <= p.size(); ++i) {
        if (i == p.size() || p[i] == '/') { if (!c.empty()) ::mkdir(c.c_str(), 0755); }
        if (i < p.size()) c += p[i];
    }
}

// Only ever called with paths below the scratch directory.
inline void rmtree(const std::string& p) {
    if (st().scratch.empty() || p.compare(0, st().scratch.size(), st().scratch) || p.find("..") != std::string::npos)
        return;
    std::string cmd = "rm -rf '" + p + "'";
    int r = ::system(cmd.c_str());
    (void)r;
}

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline void init(int argc, char** argv) {
    State& s = st();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        size_t e = a.find('=');
        if (e == std::string::npos) s.args[a] = "1";
        else s.args[a.substr(0, e)] = a.substr(e + 1);
    }
    s.seed = argn("seed", 1);
    s.scratch = arg("scratch");
    if (s.scratch.empty()) {
        char t[] = "/tmp/verif-h-XXXXXX";
        s.scratch = mkdtemp(t);
    }
    mkdirs(s.scratch);
    setvbuf(stdout, nullptr, _IOLBF, 0);
}

inline int finish() {
    State& s = st();
    verif_noise(0, 0, 0);
    std::lock_guard<std::mutex> l(s.lock);
    s.counts["blocks_run"] = verif_blocks_run();
    s.counts["blocks_total"] = verif_blocks_total();
    for (auto& e : s.counts) printf("COUNT %s %llu\n", e.first.c_str(), (unsigned long long)e.second);
    FILE* f = fopen((s.scratch + "/states.bin").c_str(), "wb");
    if (f) {
        for (uint64_t h : s.states) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    printf("DONE\n");
    fflush(stdout);
    return s.violKeys.empty() && s.softKeys.empty() ? 0 : 1;
}

// Schedule noise of a random strength for one concurrent run; off when it goes out of scope.
struct Noise {
    explicit Noise(Rng& r) {
        static const unsigned bits[] = {0, 3, 5, 7, 9, 11};
        unsigned b = bits[r(6)];
        verif_noise(b, r.chance(50) ? 0 : 1 + r(150), r.next());
    }
    ~Noise() { verif_noise(0, 0, 0); }
};

// Parallel helper: runs fn(0..n-1) on n threads, released together.
inline void parallel(size_t n, const std::function<void(size_t)>& fn) {
    std::atomic<size_t> ready(0);
    std::vector<std::thread> ts;
    for (size_t i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
            ready++;
            while (ready.load() < n) std::this_thread::yield();
            fn(i);
        });
    for (auto& t : ts) t.join();
}

}  // namespace hx
