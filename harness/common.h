// Shared plumbing of all harnesses: seeded randomness, observation counters,
// violation reporting and the "current case" record that lets the runner name
// the input that was executing when the process died.
#ifndef HX_COMMON_H
#define HX_COMMON_H
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <atomic>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

namespace hx {

typedef unsigned __int128 u128;
typedef __int128 i128;

inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed)) {}
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? (uint64_t)(((u128)next() * n) >> 64) : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned pct) { return below(100) < pct; }
    u128 next128() { return ((u128)next() << 64) | next(); }
    u128 below128(u128 n)
    {
        if (n <= (u128)UINT64_MAX)
            return below((uint64_t)n);
        u128 m = n - 1, mask = m;
        for (int i = 1; i < 128; i <<= 1)
            mask |= mask >> i;
        while (true) {
            u128 v = next128() & mask;
            if (v < n)
                return v;
        }
    }
    template <typename V>
    void shuffle(V& v)
    {
        for (size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[below(i)]);
    }
    template <typename V>
    auto pick(const V& v) -> decltype(v[0])
    {
        return v[below(v.size())];
    }
};

inline std::string str128(u128 v)
{
    if (v == 0)
        return "0";
    std::string s;
    while (v) {
        s += char('0' + (unsigned)(v % 10));
        v /= 10;
    }
    std::reverse(s.begin(), s.end());
    return s;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) {
        h ^= b[i];
        h *= 1099511628211ULL;
    }
    return h;
}
inline uint64_t fnvs(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
    return fnv(s.data(), s.size(), h);
}

struct Args {
    std::string mode;
    std::string tier = "quick";
    uint64_t seed = 1;
    long from = 0, to = 100;
    std::string out;   // observation report (written at exit)
    std::string viol;  // violations, appended at once
    std::string state; // current case (mmapped)
    std::string digest;
    bool verbose = false;
    bool thorough() const { return tier == "thorough"; }
};

struct StateRec {
    char magic[8];
    volatile int64_t idx;
    volatile uint64_t ticks;
    char key[512];
    char desc[3000];
};

class Report {
  public:
    Args a;
    std::map<std::string, uint64_t> counts;
    std::map<std::string, std::unordered_set<uint64_t>> dist;
    std::vector<std::string> samples;
    std::map<std::string, unsigned> vcount;
    uint64_t nviol = 0;
    FILE* vf = nullptr;
    FILE* df = nullptr;
    StateRec* st = nullptr;
    StateRec dummy;
    long cur = -1;

    void parse(int argc, char** argv)
    {
        for (int i = 1; i < argc; i++) {
            std::string o = argv[i];
            auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (o == "--mode") a.mode = val();
            else if (o == "--tier") a.tier = val();
            else if (o == "--seed") a.seed = strtoull(val().c_str(), nullptr, 10);
            else if (o == "--from") a.from = atol(val().c_str());
            else if (o == "--to") a.to = atol(val().c_str());
            else if (o == "--out") a.out = val();
            else if (o == "--viol") a.viol = val();
            else if (o == "--state") a.state = val();
            else if (o == "--digest") a.digest = val();
            else if (o == "-v") a.verbose = true;
            else {
                fprintf(stderr, "unknown option %s\n", o.c_str());
                exit(3);
            }
        }
        vf = a.viol.empty() ? stdout : fopen(a.viol.c_str(), "a");
        if (!a.digest.empty())
            df = fopen(a.digest.c_str(), "w");
        if (!a.state.empty()) {
            int fd = open(a.state.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd < 0 || ftruncate(fd, sizeof(StateRec)) != 0)
                exit(3);
            void* p = mmap(nullptr, sizeof(StateRec), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
            if (p == MAP_FAILED)
                exit(3);
            st = (StateRec*)p;
            memcpy(st->magic, "HXSTATE", 8);
            st->idx = -1;
        } else
            st = &dummy;
    }

    // Names the case: `key` is the class of the input (stable, used to match
    // known findings), desc the full replayable description.
    void set_case(const std::string& key, const std::string& desc)
    {
        snprintf(st->key, sizeof st->key, "%s", key.c_str());
        snprintf(st->desc, sizeof st->desc, "%s", desc.c_str());
        st->ticks = st->ticks + 1;
        if (a.verbose)
            fprintf(stderr, "[%ld] %s | %s\n", cur, key.c_str(), desc.c_str());
    }
    void tick() { st->ticks = st->ticks + 1; }
    void begin(long idx)
    {
        cur = idx;
        st->idx = idx;
        set_case("start", "start");
    }
    void obs(const std::string& n, uint64_t k = 1) { counts[n] += k; }
    void seen(const std::string& n, uint64_t h)
    {
        auto& s = dist[n];
        if (s.size() < 2000000)
            s.insert(h);
    }
    void seen(const std::string& n, const std::string& v) { seen(n, fnvs(v)); }
    void sample(const std::string& s)
    {
        if (samples.size() < 12)
            samples.push_back(s);
    }
    void viol(const std::string& key, const std::string& detail)
    {
        nviol++;
        if (++vcount[key] > 3)
            return;
        std::string d = detail;
        for (auto& c : d)
            if (c == '\n' || c == '\t')
                c = ' ';
        std::string ds = st->desc;
        for (auto& c : ds)
            if (c == '\n' || c == '\t')
                c = ' ';
        fprintf(vf, "VIOL\t%s\t%ld\t%s\t[%s]\n", key.c_str(), cur, d.c_str(), ds.c_str());
        fflush(vf);
    }
    void digest(const std::string& name, uint64_t h)
    {
        if (df)
            fprintf(df, "%ld\t%s\t%016lx\n", cur, name.c_str(), (unsigned long)h);
    }
    static std::string js(const std::string& s)
    {
        std::string o = "\"";
        for (char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += c;
            } else if ((unsigned char)c < 32)
                o += ' ';
            else
                o += c;
        }
        return o + "\"";
    }
    void finish()
    {
        if (df)
            fclose(df);
        df = nullptr;
        if (a.out.empty()) {
            for (auto& c : counts)
                printf("%s=%lu\n", c.first.c_str(), (unsigned long)c.second);
            for (auto& d : dist)
                printf("distinct %s=%zu\n", d.first.c_str(), d.second.size());
            printf("violations=%lu\n", (unsigned long)nviol);
            return;
        }
        std::ofstream f(a.out.c_str());
        f << "{\"counts\":{";
        bool first = true;
        for (auto& c : counts) {
            f << (first ? "" : ",") << js(c.first) << ":" << c.second;
            first = false;
        }
        f << "},\"distinct\":{";
        first = true;
        for (auto& d : dist) {
            f << (first ? "" : ",") << js(d.first) << ":[";
            bool g = true;
            for (auto h : d.second) {
                f << (g ? "" : ",") << h;
                g = false;
            }
            f << "]";
            first = false;
        }
        f << "},\"samples\":[";
        first = true;
        for (auto& s : samples) {
            f << (first ? "" : ",") << js(s);
            first = false;
        }
        f << "],\"viol\":" << nviol << "}\n";
    }
};

inline Report& R()
{
    static Report r;
    return r;
}

// Runs f on every case index; every case owns a generator that depends only on
// (seed, mode, index), so any case can be replayed alone.
inline int run_cases(const std::function<void(long, Rng&)>& f)
{
    Report& r = R();
    for (long i = r.a.from; i < r.a.to; i++) {
        Rng rng(mix64(r.a.seed) ^ mix64(0x51ed27000000ULL + (uint64_t)i) ^ fnvs(r.a.mode));
        r.begin(i);
        try {
            f(i, rng);
        } catch (const std::exception& e) {
            r.viol(std::string("exception:") + r.st->key, e.what());
        }
        r.obs("cases");
    }
    r.finish();
    return r.nviol ? 1 : 0;
}

// Modes linked into this binary (main.cpp picks one).
typedef void (*ModeFn)(long, Rng&);
inline std::map<std::string, ModeFn>& modes()
{
    static std::map<std::string, ModeFn> m;
    return m;
}
struct Mode {
    Mode(const char* n, ModeFn f) { modes()[n] = f; }
};

} // namespace hx
#endif
