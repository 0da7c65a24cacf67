// C06: fragment markers and their stored forms.
#include "common.h"
#include "property.h"
#include <netinet/in.h>
using namespace hx;
using quadiron::Properties;
typedef std::vector<std::pair<size_t, uint32_t>> Map;

static const uint32_t SIG = 0x464E5431; // "FNT1", the documented signature

static std::string show(const Map& m)
{
    std::string s = fmt("%zu:", m.size());
    for (size_t i = 0; i < m.size() && i < 8; i++)
        s += fmt(" %zu=%u", m[i].first, m[i].second);
    return s;
}

static Map random_map(Rng& r, bool text)
{
    Map m;
    size_t n = r.chance(15) ? r.below(3) : r.chance(70) ? r.below(12) : r.below(400);
    size_t pos = 0;
    int style = r.below(3);
    for (size_t i = 0; i < n; i++) {
        if (style == 0)
            pos += r.range(1, 5);
        else if (style == 1)
            pos = r.below((uint64_t)1 << r.range(1, text ? 63 : 32));
        else
            pos = r.chance(50) ? r.below(4) : (text ? SIZE_MAX : UINT32_MAX) - r.below(4);
        uint32_t v = quadiron::OOR_MARK;
        if (text && r.chance(60))
            v = r.chance(20) ? UINT32_MAX - (uint32_t)r.below(3) : (uint32_t)(r.next() >> r.range(32, 63));
        m.emplace_back(pos, v);
    }
    return m;
}

static void fill(Properties& p, const Map& m)
{
    for (auto& x : m)
        p.add(x.first, x.second);
}

// words between two guard zones; an exact heap block so that sanitizers see
// every step outside it
struct Block {
    size_t n;
    std::unique_ptr<uint32_t[]> heap;
    std::vector<uint32_t> guarded;
    uint32_t* w;
    Block(size_t n_, bool exact, Rng& r) : n(n_)
    {
        if (exact) {
            heap.reset(new uint32_t[n]);
            w = heap.get();
        } else {
            guarded.assign(n + 128, 0xa5c3e1f7);
            w = guarded.data() + 64;
        }
        for (size_t i = 0; i < n; i++)
            w[i] = r.chance(30) ? 0xdeadbeef : (uint32_t)r.next();
    }
    void check(const char* key)
    {
        if (heap)
            return;
        for (size_t i = 0; i < 64; i++)
            if (guarded[i] != 0xa5c3e1f7 || guarded[64 + n + i] != 0xa5c3e1f7) {
                R().viol(key, fmt("guard word %zu changed", i));
                return;
            }
        R().obs("guards_checked");
    }
};

static void same(const char* key, const Map& want, const Map& got)
{
    R().obs("maps_compared");
    R().obs("markers_compared", want.size());
    if (want != got)
        R().viol(key, "wanted " + show(want) + " got " + show(got));
}

static void binary(long, Rng& r)
{
    Map m = random_map(r, false);
    for (auto& x : m)
        x.second = quadiron::OOR_MARK;
    Properties p;
    fill(p, m);
    size_t need = 2 + m.size();
    size_t cap = r.chance(30) ? need : r.chance(40) ? r.below(need) : need + r.below(80);
    if (r.chance(10))
        cap = need - 1;
    bool exact = r.chance(50);
    R().set_case("binary", fmt("markers=%zu words=%zu exact=%d %s", m.size(), cap, exact, show(m).c_str()));
    Block b(cap, exact, r);
    int rc = p.fnt_serialize(b.w, (unsigned)cap);
    b.check("binary-write-out-of-bounds");
    same("serialize-changed-markers", m, p.get_map());
    R().seen("shapes", fmt("b%zu/%zu", m.size(), cap));
    if (cap < need) {
        R().obs("refused_small");
        if (rc != -1)
            R().viol("small-buffer-accepted", fmt("rc=%d", rc));
        return;
    }
    if (rc != 0) {
        R().viol("serialize-refused", fmt("rc=%d", rc));
        return;
    }
    // independent parse of the stored form
    Map got;
    bool ok = ntohl(b.w[0]) == SIG && ntohl(b.w[1]) == m.size();
    for (size_t i = 0; ok && i < m.size(); i++)
        got.emplace_back(ntohl(b.w[2 + i]), quadiron::OOR_MARK);
    if (!ok)
        R().viol("stored-form", fmt("header %08x %08x", b.w[0], b.w[1]));
    else
        same("stored-form", m, got);
    R().obs("stored_forms_parsed");
    for (size_t i = need; i < cap; i++)
        if (b.w[i] != 0) {
            R().viol("stored-tail-not-cleared", fmt("word %zu = %08x", i, b.w[i]));
            break;
        }
    // reading it back, from a buffer of any admissible size
    size_t rcap = r.chance(50) ? cap : need + r.below(cap - need + 1);
    Block c(rcap, r.chance(50), r);
    memcpy(c.w, b.w, rcap * 4);
    Properties q;
    Map before;
    if (r.chance(20)) { // reading appends to what is there
        before = random_map(r, false);
        fill(q, before);
        R().obs("appending_reads");
    }
    rc = q.fnt_deserialize(c.w, (unsigned)rcap);
    if (rc != 0)
        R().viol("own-form-refused", fmt("rc=%d", rc));
    Map want = before;
    want.insert(want.end(), m.begin(), m.end());
    same("binary-round-trip", want, q.get_map());
    if (memcmp(c.w, b.w, rcap * 4))
        R().viol("read-changed-input", "stored form changed by reading");
    R().obs("binary_round_trips");
    // and out again
    Block d(cap, false, r);
    Properties q2;
    fill(q2, m);
    q2.fnt_serialize(d.w, (unsigned)cap);
    if (memcmp(d.w, b.w, cap * 4))
        R().viol("rewrite-differs", "second write of the same markers differs");
}

static void damaged(long, Rng& r)
{
    Map m = random_map(r, false);
    for (auto& x : m)
        x.second = quadiron::OOR_MARK;
    size_t n = m.size(), extra = r.chance(50) ? 0 : r.below(20);
    std::vector<uint32_t> w;
    w.push_back(htonl(SIG));
    w.push_back(htonl((uint32_t)n));
    for (auto& x : m)
        w.push_back(htonl((uint32_t)x.first));
    w.resize(w.size() + extra);
    int kind = r.below(7);
    static const char* names[] = {"short", "signature", "count", "count-huge", "count-wrap", "random", "none"};
    bool bad = true;
    switch (kind) {
    case 0: w.resize(n == 0 ? r.below(2) : r.chance(20) ? r.below(2) : r.below(2 + n)); break;
    case 1: w[0] ^= r.chance(50) ? 1u << r.below(32) : (uint32_t)r.range(1, UINT32_MAX); break;
    case 2: w[1] = htonl((uint32_t)(w.size() - 2 + r.range(1, 3))); break;
    case 3: w[1] = htonl((uint32_t)(UINT32_MAX - r.below(6))); break;
    case 4: w[1] = htonl(0x3fffffffu + (uint32_t)r.below(4) + ((uint32_t)r.below(3) << 30)); break;
    case 5:
        for (auto& x : w)
            x = (uint32_t)r.next();
        break;
    default: bad = false;
    }
    if (kind == 5)
        bad = ntohl(w[0]) != SIG || ntohl(w[1]) > w.size() - 2;
    R().set_case(std::string("damaged-") + names[kind], fmt("markers=%zu words=%zu", n, w.size()));
    Block b(w.size(), true, r);
    if (!w.empty())
        memcpy(b.w, w.data(), w.size() * 4);
    Properties q;
    Map before;
    if (r.chance(50)) {
        before = random_map(r, false);
        fill(q, before);
    }
    int rc = q.fnt_deserialize(b.w, (unsigned)w.size());
    R().obs(bad ? "damaged_forms" : "sound_forms");
    R().seen("shapes", fmt("d%d/%zu/%zu", kind, n, w.size()));
    if (bad) {
        if (rc != -1)
            R().viol(std::string("damaged-accepted:") + names[kind], fmt("rc=%d, %zu markers", rc, q.get_map().size()));
        same("damaged-added-markers", before, q.get_map());
    } else {
        if (rc != 0)
            R().viol("sound-refused", fmt("rc=%d", rc));
        before.insert(before.end(), m.begin(), m.end());
        same("sound-form", before, q.get_map());
    }
}

static void text(long, Rng& r)
{
    Map m = random_map(r, true);
    Properties p;
    fill(p, m);
    bool sorted = r.chance(30);
    if (sorted) {
        p.sort();
        std::sort(m.begin(), m.end());
        same("sort", m, p.get_map());
    }
    R().set_case("text", show(m));
    std::ostringstream os;
    os << p;
    same("write-changed-markers", m, p.get_map());
    std::string s = os.str();
    if (r.chance(30) && !s.empty() && s.back() == '\n')
        s.pop_back(); // a last line without its end
    bool deco = r.chance(40);
    if (deco) { // blank lines and comments may be added by hand
        std::string t;
        std::istringstream is(s);
        std::string l;
        while (std::getline(is, l)) {
            if (r.chance(20))
                t += r.chance(50) ? "\n" : "  \t\n";
            if (r.chance(20))
                t += r.chance(50) ? "# 1 = 2\n" : "  ; comment\n";
            t += (r.chance(20) ? "  " : "") + l + (r.chance(20) ? " \t" : "") + "\n";
        }
        s = t;
        R().obs("decorated_texts");
    }
    Properties q;
    std::istringstream is(s);
    is >> q;
    same("text-round-trip", m, q.get_map());
    R().obs("text_round_trips");
    R().seen("shapes", fmt("t%zu/%d", m.size(), deco) + show(m));
    if (r.chance(20)) {
        std::ostringstream o2;
        o2 << q;
        if (o2.str() != os.str())
            R().viol("text-rewrite-differs", "text written after reading differs");
    }
    // accessors describe the same list
    for (size_t i = 0; i < m.size() && i < 20; i++) {
        if (q.location(i) != m[i].first || q.marker(i) != m[i].second || !q.is_marked(i, m[i].first)
            || q.is_marked(i, m[i].first + 1))
            R().viol("accessors", fmt("entry %zu", i));
        size_t lo = r.below(20), hi = lo + r.below(20);
        if (q.in_range(i, lo, hi) != (m[i].first >= lo && m[i].first < hi))
            R().viol("in-range", fmt("entry %zu", i));
        R().obs("accessors_checked");
    }
    if (q.is_marked(m.size(), 0) || q.in_range(m.size(), 0, SIZE_MAX))
        R().viol("accessors-past-end", "an absent entry is reported");
    // absent entries have the default location and marker
    for (size_t i : {m.size(), m.size() + 1 + r.below(100)})
        if (q.location(i) != 0 || q.marker(i) != 0)
            R().viol("accessors-past-end", fmt("entry %zu of %zu is not the default one", i, m.size()));
    q.clear();
    if (!q.get_map().empty())
        R().viol("clear", "markers remain");
}

int main(int argc, char** argv)
{
    R().parse(argc, argv);
    if (R().a.mode == "binary")
        return run_cases(binary);
    if (R().a.mode == "damaged")
        return run_cases(damaged);
    if (R().a.mode == "text")
        return run_cases(text);
    return 3;
}
