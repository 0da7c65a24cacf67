// C16: threads that each own their objects. The concurrent run comes first (so
// that first use of anything happens under concurrency), the same jobs then run
// alone, and the results are compared. ThreadSanitizer watches the former.
#include "codec.h"
#include "thread_jobs.h"
#include <sched.h>
#include <thread>
#include <chrono>
using namespace hx;

struct Event {
    uint32_t seq;
    uint8_t thread, job, step;
};
struct Ctx {
    std::atomic<uint32_t>* seq = nullptr; // relaxed: orders nothing
    std::vector<Event>* ev = nullptr;
    unsigned thread = 0, job = 0, delay = 0;
    Rng rng{0};
    void operator()(int step)
    {
        if (!seq)
            return;
        ev->push_back({seq->fetch_add(1, std::memory_order_relaxed), (uint8_t)thread, (uint8_t)job, (uint8_t)step});
        switch (delay ? rng.below(delay) : 9) {
        case 0: sched_yield(); break;
        case 1: std::this_thread::sleep_for(std::chrono::microseconds(rng.below(200))); break;
        default: break;
        }
    }
};

// A stream buffer that gives way to other threads while a codec reads from it.
class YieldBuf : public std::streambuf {
    std::string s;
    size_t pos = 0;
    Rng rng;
    std::function<void(int)>* jit;

  public:
    YieldBuf(const std::string& s_, uint64_t seed, std::function<void(int)>* j) : s(s_), rng(seed), jit(j) {}
    int_type underflow() override
    {
        if (pos >= s.size())
            return traits_type::eof();
        (*jit)(20);
        size_t n = std::min<size_t>(s.size() - pos, 64 + rng.below(400));
        char* p = &s[pos];
        setg(p, p, p + n);
        pos += n;
        return traits_type::to_int_type(*p);
    }
};

struct Plan {
    int kind; // 0 codec, 1 fields, 2 C interface
    unsigned cls;
    Spec spec;
    Path path;
    uint64_t seed;
};

static uint64_t codec_job(const Plan& p, std::function<void(int)> jit, std::string& err)
{
    Rng rng(p.seed);
    uint64_t h = 1;
    std::unique_ptr<ICodec> c = make_codec(p.spec);
    jit(1);
    const unsigned k = p.spec.k, m = p.spec.m;
    unsigned rounds = 1 + (unsigned)rng.below(2);
    while (rounds--) {
        size_t words = 1 + rng.below(p.path == SH ? 12 : 3 * p.spec.pkt + 5);
        std::vector<std::string> data = gen_data(p.spec, words, rng.chance(50) ? D_RANDOM : D_EDGE, rng, nullptr);
        Encoded e;
        if (p.path == BV)
            e = encode(*c, p.path, data);
        else {
            e.props.resize(c->n_outputs());
            IStreams in;
            OStreams out;
            for (unsigned i = 0; i < k; i++) {
                in.bufs.emplace_back(new YieldBuf(data[i], p.seed + i, &jit));
                in.own.emplace_back(new std::istream(in.bufs.back().get()));
                in.p.push_back(in.own.back().get());
            }
            for (unsigned i = 0; i < c->n_outputs(); i++)
                out.add();
            if (p.path == SV)
                c->enc_sv(in.p, out.p, e.props);
            else
                c->enc_sh(in.p, out.p, e.props);
            for (unsigned i = 0; i < c->n_outputs(); i++)
                e.frag.push_back(out.str(i));
        }
        jit(2);
        for (auto& f : e.frag)
            h = fnvs(f, h);
        for (auto& q : e.props)
            h = fnvs(props_str(q), h);
        for (int t = 0; t < 2; t++) {
            std::vector<bool> have(k + m, true), want(k, true);
            std::vector<unsigned> ids(k + m);
            for (unsigned i = 0; i < k + m; i++)
                ids[i] = i;
            rng.shuffle(ids);
            for (unsigned i = 0; i < m; i++)
                have[ids[i]] = false;
            bool few = rng.chance(10);
            if (few)
                have[ids[m]] = false;
            Decoded d = decode(*c, p.path, data, e, have, want);
            h = fnv(&d.ok, sizeof d.ok, h);
            bool all = kind_sys(p.spec.kind);
            for (unsigned i = 0; i < k; i++)
                all = all && have[i];
            if (d.ok && few)
                err = "decode accepted k-1 fragments";
            if (!d.ok && !few)
                err = "decode refused k fragments";
            for (unsigned i = 0; i < k && d.ok; i++) {
                h = fnvs(d.data[i], h);
                if (!(all && p.path != BV) && d.data[i] != data[i])
                    err = "wrong data";
            }
            jit(3);
        }
    }
    c.reset();
    jit(4);
    return h;
}

static uint64_t run_plan(const Plan& p, Ctx& ctx, std::string& err)
{
    std::function<void(int)> jit = [&ctx](int s) { ctx(s); };
    try {
        switch (p.kind) {
        case 0: return codec_job(p, jit, err);
        case 1: return field_job(p.cls, Rng(p.seed), jit);
        default: return capi_job(p.cls, Rng(p.seed), jit);
        }
    } catch (const std::exception& e) {
        err = std::string("exception ") + e.what();
        return 0;
    }
}

static std::string plan_name(const Plan& p)
{
    return p.kind == 0 ? p.spec.str() + "/" + PNAME[p.path] : p.kind == 1 ? field_cls_name(p.cls) : fmt("c-interface/%u", p.cls & 3);
}
static std::string plan_cls(const Plan& p)
{
    return p.kind == 0 ? p.spec.cls() + "/" + PNAME[p.path] : plan_name(p);
}

static void threads(long, Rng& rng)
{
    Report& r = R();
    const unsigned T = 2 + (unsigned)rng.below(5), J = 1 + (unsigned)rng.below(3);
    const bool same = rng.chance(65);
    const unsigned delay = rng.chance(70) ? 3 + (unsigned)rng.below(10) : 0;
    std::vector<std::vector<Plan>> plan(T, std::vector<Plan>(J));
    std::vector<int> cpus;
    for (unsigned j = 0; j < J; j++) {
        Plan base;
        auto draw = [&](Plan& p) {
            p.kind = rng.chance(60) ? 0 : rng.chance(75) ? 1 : 2;
            p.cls = (unsigned)rng.below(1000);
            p.spec.kind = FNT_NS;
            if (p.kind == 0) {
                const Combo& c = combos()[rng.below(combos().size())];
                p.spec.kind = c.kind;
                p.spec.tbits = c.tbits;
                p.spec.ws = c.ws;
                do
                    p.path = (Path)rng.below(NPATHS);
                while (!kind_has(c.kind, p.path));
            }
        };
        draw(base);
        for (unsigned t = 0; t < T; t++) {
            Plan& p = plan[t][j];
            p = base;
            if (!same)
                draw(p);
            p.spec.k = 1 + (unsigned)rng.below(5);
            p.spec.m = 1 + (unsigned)rng.below(4);
            p.spec.pkt = 1 + rng.below(20);
            p.seed = rng.next();
        }
    }
    std::string desc = fmt("%u threads x %u jobs:", T, J);
    for (auto& v : plan)
        for (auto& p : v)
            desc += " " + plan_name(p) + ";";
    r.set_case("threads:" + plan_cls(plan[0][0]), desc);

    std::vector<std::vector<uint64_t>> got(T, std::vector<uint64_t>(J));
    std::vector<std::vector<std::string>> errs(T, std::vector<std::string>(J));
    std::vector<std::vector<Event>> ev(T);
    std::atomic<uint32_t> seq(0), ready(0);
    std::vector<uint64_t> dseeds(T);
    for (auto& x : dseeds)
        x = rng.next();
    std::vector<std::thread> th;
    for (unsigned t = 0; t < T; t++) {
        ev[t].reserve(4000);
        th.emplace_back([&, t]() {
            Ctx c;
            c.seq = &seq;
            c.ev = &ev[t];
            c.thread = t;
            c.delay = delay;
            c.rng = Rng(dseeds[t]);
            for (unsigned j = 0; j < J; j++) {
                // start the j-th jobs of all threads together, without ordering
                // anything the detector would honour
                ready.fetch_add(1, std::memory_order_relaxed);
                for (int spin = 0; spin < 20000 && ready.load(std::memory_order_relaxed) < T * (j + 1); spin++)
                    sched_yield();
                c.job = j;
                c(0);
                got[t][j] = run_plan(plan[t][j], c, errs[t][j]);
                c(99);
            }
        });
    }
    for (auto& t : th)
        t.join();
    r.tick();
    // what interleaved
    std::vector<Event> all;
    for (auto& v : ev)
        all.insert(all.end(), v.begin(), v.end());
    std::sort(all.begin(), all.end(), [](const Event& a, const Event& b) { return a.seq < b.seq; });
    uint64_t sig = 7, switches = 0, overlap = 0;
    std::vector<bool> active(T, false);
    for (size_t i = 0; i < all.size(); i++) {
        const Event& e = all[i];
        uint8_t b[3] = {e.thread, e.job, e.step};
        sig = fnv(b, 3, sig);
        if (i && all[i - 1].thread != e.thread)
            switches++;
        if (e.step == 0)
            active[e.thread] = true;
        if (e.step == 99)
            active[e.thread] = false;
        unsigned na = 0;
        for (bool x : active)
            na += x;
        if (na >= 2)
            overlap++;
    }
    r.seen("interleavings", sig);
    r.obs("events", all.size());
    r.obs("switches", switches);
    r.obs("events_while_others_active", overlap);
    r.obs("threads_started", T);
    r.seen("plans", desc);

    for (unsigned t = 0; t < T; t++)
        for (unsigned j = 0; j < J; j++) {
            Ctx c;
            std::string e2;
            uint64_t alone = run_plan(plan[t][j], c, e2);
            r.tick();
            r.obs("jobs_compared");
            r.obs(plan[t][j].kind == 0 ? "codec_jobs" : plan[t][j].kind == 1 ? "field_jobs" : "c_interface_jobs");
            if (!e2.empty()) { // not a matter of threads; other properties report it
                r.obs("jobs_failing_alone");
                continue;
            }
            if (!errs[t][j].empty())
                r.viol("concurrent-failure:" + plan_cls(plan[t][j]), fmt("thread %u job %u: %s; alone it succeeds", t, j, errs[t][j].c_str()));
            else if (alone != got[t][j])
                r.viol("concurrent-result:" + plan_cls(plan[t][j]), fmt("thread %u job %u %s: results differ from those of the same job run alone", t, j, plan_name(plan[t][j]).c_str()));
        }
}

int main(int argc, char** argv)
{
    R().parse(argc, argv);
    return run_cases(threads);
}
