// C22: the command-line driver codes files and repairs lost ones. Each coding
// and each repair runs in a process of its own, in a directory of its own.
#include "common.h"
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <getopt.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#define main ec_driver_main
#include HX_DRIVER
#undef main
using namespace hx;

struct Code {
    const char* name;
    int ws;
    bool sys;
    bool slow;
};
static const Code CODES[] = {
    {"rs-fnt", 1, false, false},        {"rs-fnt", 2, false, false},       {"rs-fnt-sys", 1, true, false},     {"rs-fnt-sys", 2, true, false},
    {"rs-nf4", 2, false, false},        {"rs-nf4", 4, false, false},       {"rs-nf4", 8, false, false},        {"rs-gfp-fft", 1, false, false},
    {"rs-gfp-fft", 2, false, false},    {"rs-gfp-fft", 4, false, true},    {"rs-gf2n-fft", 1, false, false},   {"rs-gf2n-fft", 2, false, false},
    {"rs-gf2n-fft", 4, false, true},    {"rs-gf2n-fft", 8, false, true},   {"rs-gf2n-fft-add", 1, false, true}, {"rs-gf2n-fft-add", 2, false, true},
    {"rs-gf2n-fft-add", 4, false, true}, {"rs-gf2n-fft-add", 8, false, true}, {"rs-gf2n-v", 1, true, false},   {"rs-gf2n-v", 2, true, false},
    {"rs-gf2n-v", 4, true, false},      {"rs-gf2n-v", 8, true, true},      {"rs-gf2n-v", 16, true, true},      {"rs-gf2n-c", 1, true, false},
    {"rs-gf2n-c", 2, true, false},      {"rs-gf2n-c", 4, true, false},     {"rs-gf2n-c", 8, true, true},       {"rs-gf2n-c", 16, true, true},
};

typedef std::map<std::string, std::string> Dir;

static std::string slurp(const std::string& p)
{
    std::ifstream f(p.c_str(), std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
static Dir snapshot(const std::string& d)
{
    Dir out;
    DIR* h = opendir(d.c_str());
    if (!h)
        return out;
    while (dirent* e = readdir(h))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
            out[e->d_name] = slurp(d + "/" + e->d_name);
    closedir(h);
    return out;
}
struct Scratch {
    std::string d;
    Scratch()
    {
        char t[] = "/tmp/hxfiles.XXXXXX";
        const char* p = mkdtemp(t);
        if (!p) {
            perror("mkdtemp");
            _exit(3);
        }
        d = p;
    }
    ~Scratch()
    {
        for (auto& f : snapshot(d))
            unlink((d + "/" + f.first).c_str());
        rmdir(d.c_str());
    }
};

// one run of the driver, in a child with the scratch directory as its own
static bool run(const std::string& dir, std::vector<std::string> args, std::string& why)
{
    int pp[2];
    if (pipe(pp)) {
        perror("pipe");
        _exit(3);
    }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        _exit(3);
    }
    if (pid == 0) {
        alarm(80);
        close(pp[0]);
        dup2(pp[1], 1);
        dup2(pp[1], 2);
        if (chdir(dir.c_str()))
            _exit(97);
        std::vector<char*> av;
        for (auto& a : args)
            av.push_back(&a[0]);
        av.push_back(nullptr);
        int rc = 96;
        try {
            rc = ec_driver_main((int)av.size() - 1, av.data());
        } catch (const std::exception& e) {
            dprintf(2, "exception: %s\n", e.what());
        }
        _exit(rc);
    }
    close(pp[1]);
    std::string out;
    char buf[4096];
    for (ssize_t n; (n = read(pp[0], buf, sizeof buf)) > 0;)
        if (out.size() < 8000)
            out.append(buf, (size_t)n);
    close(pp[0]);
    int st = 0;
    if (waitpid(pid, &st, 0) != pid) {
        why = "waitpid";
        return false;
    }
    if (st == 0)
        return true;
    why = fmt("%s %d: ", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    for (auto pat : {"ERROR: AddressSanitizer", "runtime error", "Assertion", "terminate", "exception"}) {
        size_t p = out.find(pat);
        if (p != std::string::npos) {
            out = out.substr(p);
            break;
        }
    }
    why += out.substr(0, 400);
    return false;
}

static std::string num(unsigned v, unsigned last)
{
    std::string s = std::to_string(v);
    size_t w = last ? std::to_string(last).size() : 0;
    while (s.size() < w)
        s = "0" + s;
    return s;
}

static void compare(const char* what, const Dir& want, const Dir& got)
{
    for (auto& f : want) {
        auto it = got.find(f.first);
        if (it == got.end()) {
            R().viol(std::string(what) + ":missing", "no file " + f.first);
            return;
        }
        if (it->second != f.second) {
            size_t i = 0;
            while (i < f.second.size() && i < it->second.size() && f.second[i] == it->second[i])
                i++;
            R().viol(std::string(what) + ":content",
                     fmt("%s differs from byte %zu on (%zu bytes, expected %zu)", f.first.c_str(), i, it->second.size(), f.second.size()));
            return;
        }
        R().obs("files_compared");
    }
    for (auto& f : got)
        if (!want.count(f.first))
            R().viol(std::string(what) + ":extra", "unexpected file " + f.first);
}

static void files(long, Rng& r)
{
    const Code& c = CODES[r.chance(35) ? r.below(10) : r.below(sizeof CODES / sizeof *CODES)];
    const bool fnt = !strncmp(c.name, "rs-fnt", 6);
    unsigned k = 1 + (unsigned)r.below(r.chance(15) ? 20 : 8), m = 1 + (unsigned)r.below(r.chance(15) ? 14 : 6);
    size_t words = r.chance(8) ? 0 : r.chance(10) ? 1 : r.below(c.slow ? 40 : 200);
    if (fnt && r.chance(50))
        words = 1024 * r.below(4) + (r.chance(60) ? r.below(1024) : 0);
    std::string desc = fmt("%s -w %d -n %u -m %u, %zu words", c.name, c.ws, k, m, words);
    R().set_case(std::string("files:") + c.name, desc);
    R().seen("codes", fmt("%s %d %u %u", c.name, c.ws, k, m));
    Scratch s;
    // data files
    std::vector<std::string> data(k, std::string(words * c.ws, '\0'));
    int style = (int)r.below(5);
    for (size_t j = 0; j < words * c.ws; j++)
        for (unsigned i = 0; i < k; i++)
            data[i][j] = style == 0 ? 0 : style == 1 ? (char)0xff : style == 2 && r.chance(90) ? 0 : (char)r.next();
    const bool prime = fnt || !strcmp(c.name, "rs-gfp-fft") || !strcmp(c.name, "rs-nf4");
    if (prime && c.ws <= 2 && style > 2) {
        // make the symbols of the first fragment of the non-systematic codes (the sums of the words), or of the one that
        // evaluates at -1 (alternating sums), exceptional
        const bool alt = r.chance(30);
        const uint32_t p = c.ws == 1 ? 257 : 65537;
        for (size_t w = 0; w < words; w++) {
            if (!r.chance(20))
                continue;
            uint64_t sum = 1; // p - 1 is wanted
            for (unsigned i = 0; i + 1 < k; i++) {
                uint32_t v = 0;
                for (int b = 0; b < c.ws; b++)
                    v += (uint32_t)(uint8_t)data[i][w * c.ws + b] << (8 * b);
                sum += alt && i % 2 ? p - v : v;
            }
            uint32_t last = (uint32_t)(sum % p);
            if (!alt || k % 2)
                last = (p - last) % p;
            if (last == p - 1)
                continue;
            for (int b = 0; b < c.ws; b++)
                data[k - 1][w * c.ws + b] = (char)(last >> (8 * b));
        }
    }
    for (unsigned i = 0; i < k; i++) {
        std::ofstream f((s.d + "/foo.d" + num(i, k - 1)).c_str(), std::ios::binary);
        f << data[i];
    }
    const std::vector<std::string> base = {"ec_driver", "-e", c.name, "-w", std::to_string(c.ws), "-n", std::to_string(k), "-m", std::to_string(m), "-p", "foo"};
    auto with = [&](const char* o) {
        auto v = base;
        v.push_back(o);
        return v;
    };
    std::string why;
    if (!run(s.d, with("-c"), why)) {
        R().viol(std::string("coding-failed:") + c.name, why);
        return;
    }
    const Dir all = snapshot(s.d);
    std::vector<std::string> coding;
    size_t marks = 0;
    for (auto& f : all) {
        if (f.first.compare(0, 5, "foo.c") == 0 && f.first.find(".props") == std::string::npos) {
            coding.push_back(f.first);
            if (f.second.size() != words * c.ws)
                R().viol("coding-length", fmt("%s has %zu bytes", f.first.c_str(), f.second.size()));
            if (!all.count(f.first + ".props"))
                R().viol("no-markers-file", f.first);
        } else if (f.first.find(".props") != std::string::npos)
            marks += !f.second.empty();
    }
    for (unsigned i = 0; i < k; i++)
        if (all.at("foo.d" + num(i, k - 1)) != data[i])
            R().viol("data-changed", fmt("data file %u changed by coding", i));
    if (c.sys ? coding.size() != m : coding.size() < k + m)
        R().viol("coding-files", fmt("%zu coding files", coding.size()));
    R().obs("codings");
    if (marks)
        R().obs("codings_with_markers");
    for (int round = 0; round < 2; round++) {
        // lose files: what remains holds at least k fragments
        std::vector<std::string> frags;
        if (c.sys)
            for (unsigned i = 0; i < k; i++)
                frags.push_back("foo.d" + num(i, k - 1));
        frags.insert(frags.end(), coding.begin(), coding.end());
        for (size_t i = frags.size(); i > 1; i--)
            std::swap(frags[i - 1], frags[r.below(i)]);
        size_t lose = r.chance(60) ? frags.size() - k : r.below(frags.size() - k + 1);
        std::string lost;
        for (size_t i = 0; i < lose; i++) {
            unlink((s.d + "/" + frags[i]).c_str());
            lost += " " + frags[i];
            if (frags[i][4] == 'c' && r.chance(80))
                unlink((s.d + "/" + frags[i] + ".props").c_str());
        }
        if (!c.sys)
            for (unsigned i = 0; i < k; i++)
                if (r.chance(round ? 60 : 95)) {
                    std::string n = "foo.d" + num(i, k - 1);
                    unlink((s.d + "/" + n).c_str());
                    lost += " " + n;
                    R().obs("data_files_lost");
                }
        R().seen("losses", desc + lost);
        R().sample(desc + " lost" + lost);
        R().set_case(std::string("files:") + c.name, desc + " lost" + lost);
        if (!run(s.d, with("-r"), why)) {
            R().viol(std::string("repair-failed:") + c.name, why);
            return;
        }
        compare("repaired", all, snapshot(s.d));
        R().obs("repairs");
        R().obs("files_lost", lose);
    }
}
static Mode m1("files", files);
