// Monitors of the C interface: recovery, reconstruction, honesty, metadata
// and the buffer contract, with every caller buffer inside guard zones.
#include "codec.h"
#include "quadiron_c.h"
#include <arpa/inet.h>
using namespace hx;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HX_ASAN 1
#endif
#endif
#ifndef HX_ASAN
#define HX_ASAN 0
#endif

// One caller block: metadata + payload. Under ASan the allocation is exact,
// otherwise 64 canary bytes stand on each side.
struct Block {
    static const size_t G = 64;
    uint8_t* base = nullptr;
    uint8_t* p = nullptr;
    size_t n = 0;
    Block(size_t n_, Rng& rng, uint8_t fill) : n(n_)
    {
        (void)rng;
        if (HX_ASAN) {
            base = (uint8_t*)malloc(n ? n : 1);
            p = base;
        } else {
            base = (uint8_t*)malloc(n + 2 * G);
            p = base + G;
            memset(base, 0xC3, G);
            memset(p + n, 0x3C, G);
        }
        memset(p, fill, n);
    }
    Block(const Block&) = delete;
    ~Block() { free(base); }
    bool guards_ok() const
    {
        if (HX_ASAN)
            return true;
        for (size_t i = 0; i < G; i++)
            if (base[i] != 0xC3 || p[n + i] != 0x3C)
                return false;
        return true;
    }
    std::string str() const { return std::string((char*)p, n); }
    void put(const std::string& s) { memcpy(p, s.data(), s.size()); }
};

struct Geo {
    unsigned ws, k, m;
    bool sys;
    size_t block, md;
    std::string cls() const { return fmt("capi/%s/w%u", sys ? "sys" : "ns", ws); }
    std::string str() const { return fmt("%s k=%u m=%u block=%zu", cls().c_str(), k, m, block); }
};

struct Coder {
    QuadironFnt32* h;
    Coder(const Geo& g) { h = quadiron_fnt32_new((int)g.ws, (int)g.k, (int)g.m, g.sys); }
    ~Coder() { quadiron_fnt32_delete(h); }
};

// The metadata of a block, read by an independent parser of the documented
// layout. Returns false when it is not well formed.
static bool parse_md(const std::string& blk, size_t md, std::vector<uint32_t>& locs)
{
    locs.clear();
    if (md < 8 || blk.size() < md)
        return false;
    auto be = [&](size_t i) {
        const uint8_t* b = (const uint8_t*)blk.data() + 4 * i;
        return (uint32_t)b[0] << 24 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 8 | b[3];
    };
    if (be(0) != 0x464E5431)
        return false;
    uint32_t n = be(1);
    if (n > md / 4 - 2)
        return false;
    for (uint32_t i = 0; i < n; i++)
        locs.push_back(be(2 + i));
    for (size_t i = 2 + n; i < md / 4; i++)
        if (be(i) != 0)
            return false; // the rest of the area is specified as zero
    return true;
}

static Geo sample_geo(Rng& rng, bool contract)
{
    Geo g;
    g.ws = rng.chance(contract ? 30 : 25) ? 1 : 2;
    g.sys = rng.chance(55);
    unsigned r = (unsigned)rng.below(100);
    if (r < 60) {
        g.k = 1 + (unsigned)rng.below(9);
        g.m = 1 + (unsigned)rng.below(8);
    } else if (r < 75) { // many data, few parities
        g.k = 10 + (unsigned)rng.below(70);
        g.m = 1 + (unsigned)rng.below(4);
    } else if (r < 88) { // few data, many parities
        g.k = 1 + (unsigned)rng.below(4);
        g.m = 8 + (unsigned)rng.below(40);
    } else {
        g.k = 1 + (unsigned)rng.below(100);
        g.m = 1 + (unsigned)rng.below(60);
    }
    size_t w;
    switch (rng.below(9)) {
    case 0: w = 1 + rng.below(40); break;
    case 1: w = 1024; break;
    case 2: w = 1023; break;
    case 3: w = 1025; break;
    case 4: w = 2048 + rng.below(3); break;
    case 5: w = rng.below(8); break;
    default: w = 1 + rng.below(1500);
    }
    if (g.ws == 1)
        w = std::min<size_t>(w, rng.chance(10) ? 1100 : 300);
    if (g.k + g.m > 40)
        w = std::min<size_t>(w, 1100);
    if (g.ws == 2 && g.k + g.m < 12 && rng.chance(contract ? 2 : 6)) // larger metadata area
        w = rng.chance(50) ? 35000 + rng.below(100) : 65537 + rng.below(3000);
    g.block = w * g.ws;
    g.md = 0;
    return g;
}

struct Enc {
    int rc;
    bool must_fit, must_fail;
    std::vector<std::string> full; // k+m blocks with metadata, as stored
    std::vector<std::string> data; // original payloads
};

static void guards(const std::vector<std::unique_ptr<Block>>& b, const std::string& what, const Geo& g)
{
    for (size_t i = 0; i < b.size(); i++)
        if (b[i] && !b[i]->guards_ok())
            R().viol("out-of-bounds:" + g.cls() + "/" + what, fmt("%s: %s wrote outside block %zu", g.str().c_str(), what.c_str(), i));
}

// Encodes and checks everything that can be checked about the call. `want`
// covers the n_outputs outputs.
static bool run_encode(const Geo& g, Coder& c, const std::vector<std::string>& data, const std::vector<bool>& want, Rng& rng, Enc& out, const RefCode& rc, const Spec& s)
{
    Report& r = R();
    const unsigned no = g.sys ? g.m : g.k + g.m;
    std::vector<std::unique_ptr<Block>> db, pb;
    std::vector<uint8_t*> dp, pp;
    for (unsigned i = 0; i < g.k; i++) {
        db.emplace_back(new Block(g.md + g.block, rng, (uint8_t)(0x11 + i)));
        memcpy(db[i]->p + g.md, data[i].data(), g.block);
        dp.push_back(db[i]->p);
    }
    for (unsigned i = 0; i < g.m; i++) {
        bool w = want[g.sys ? i : g.k + i];
        pb.emplace_back(w ? new Block(g.md + g.block, rng, (uint8_t)(0xA1 + i)) : nullptr);
        pp.push_back(w ? pb[i]->p : nullptr);
    }
    while (pp.size() < no)
        pp.push_back(nullptr);
    std::vector<int> wi(no);
    for (unsigned i = 0; i < no; i++)
        wi[i] = want[i] ? 1 : 0;
    // how many markers each output has, from the reference code
    std::vector<size_t> marks(no, 0);
    std::vector<u128> in(g.k);
    size_t words = g.block / g.ws;
    bool counted = words * no * g.k <= 60000;
    if (counted)
        for (size_t w = 0; w < words; w++) {
            for (unsigned j = 0; j < g.k; j++)
                in[j] = get_word(data[j], w, g.ws);
            for (unsigned o = 0; o < no; o++) {
                u128 word;
                uint32_t mark;
                ref_symbol(s, rc, o, in, word, mark);
                if (mark)
                    marks[o]++;
            }
        }
    const size_t cap = g.md / 4 - 2;
    out.must_fit = counted;
    out.must_fail = false;
    for (unsigned o = 0; o < no; o++) {
        if (marks[o] > cap) {
            out.must_fit = false;
            if (want[o])
                out.must_fail = true;
        }
        if (marks[o] == cap)
            r.obs("metadata_exactly_full");
        r.obs("markers", marks[o]);
    }
    out.rc = quadiron_fnt32_encode(c.h, dp.data(), pp.data(), wi.data(), g.block);
    r.obs("encode_calls");
    guards(db, "encode", g);
    guards(pb, "encode", g);
    if (out.rc != 0 && out.rc != -1)
        r.viol("return-code:" + g.cls() + "/encode", fmt("%s returned %d", g.str().c_str(), out.rc));
    if (out.rc != 0) {
        r.obs("encode_refused");
        if (out.must_fit)
            r.viol("encode-refused:" + g.cls(), g.str() + ": every marker fits the metadata area, yet encode returned -1");
        return false;
    }
    if (out.must_fail)
        r.viol("encode-lost-markers:" + g.cls(), g.str() + ": markers do not fit the metadata area, yet encode returned 0");
    out.data = data;
    out.full.assign(g.k + g.m, std::string());
    for (unsigned i = 0; i < g.k; i++) {
        out.full[i] = db[i]->str();
        if (g.sys || !want[i]) {
            if (memcmp(db[i]->p + g.md, data[i].data(), g.block) != 0)
                r.viol("encode-changed-data:" + g.cls(), fmt("%s: data block %u changed", g.str().c_str(), i));
        }
    }
    for (unsigned i = 0; i < g.m; i++)
        if (pb[i])
            out.full[g.k + i] = pb[i]->str();
    for (unsigned i = 0; i < g.k + g.m; i++) {
        if (out.full[i].empty())
            continue;
        std::vector<uint32_t> locs;
        if (!parse_md(out.full[i], g.md, locs)) {
            r.viol("metadata:" + g.cls(), fmt("%s: metadata of block %u is malformed or not fully initialised", g.str().c_str(), i));
            continue;
        }
        if (i < g.k && g.sys && !locs.empty())
            r.viol("metadata:" + g.cls(), fmt("%s: data block %u carries markers", g.str().c_str(), i));
        unsigned o = g.sys ? (i < g.k ? ~0u : i - g.k) : i;
        if (o != ~0u && counted && want[o] && locs.size() != marks[o])
            r.viol("metadata:" + g.cls(), fmt("%s: block %u has %zu markers, expected %zu", g.str().c_str(), i, locs.size(), marks[o]));
        for (auto l : locs)
            if (l >= words)
                r.viol("metadata:" + g.cls(), fmt("%s: block %u marks word %u past its end", g.str().c_str(), i, l));
        r.obs("metadata_parsed");
    }
    return true;
}

static void decode_once(const Geo& g, Coder& c, const Enc& e, const std::vector<bool>& have, unsigned nh, Rng& rng)
{
    Report& r = R();
    std::vector<std::unique_ptr<Block>> db, pb;
    std::vector<uint8_t*> dp, pp;
    std::vector<int> miss(g.k + g.m);
    for (unsigned i = 0; i < g.k; i++) {
        db.emplace_back(new Block(g.md + g.block, rng, (uint8_t)rng.next()));
        if (have[i])
            db[i]->put(e.full[i]);
        dp.push_back(db[i]->p);
    }
    for (unsigned i = 0; i < g.m; i++) {
        bool h = have[g.k + i];
        // a missing parity may be NULL or a buffer full of garbage
        bool give = h || rng.chance(30);
        pb.emplace_back(give ? new Block(g.md + g.block, rng, (uint8_t)rng.next()) : nullptr);
        if (h)
            pb[i]->put(e.full[g.k + i]);
        pp.push_back(give ? pb[i]->p : nullptr);
    }
    for (unsigned i = 0; i < g.k + g.m; i++)
        miss[i] = have[i] ? 0 : 1;
    if (!g.sys)
        for (unsigned i = 0; i < g.k; i++)
            pp.push_back(nullptr);
    std::vector<std::string> d0, p0;
    for (auto& b : db)
        d0.push_back(b->str());
    for (auto& b : pb)
        p0.push_back(b ? b->str() : std::string());
    int rc = quadiron_fnt32_decode(c.h, dp.data(), pp.data(), miss.data(), g.block);
    r.obs("decode_calls");
    guards(db, "decode", g);
    guards(pb, "decode", g);
    std::string d = g.str() + " have=" + mask_str(have);
    for (unsigned i = 0; i < g.m; i++)
        if (pb[i] && pb[i]->str() != p0[i])
            r.viol("decode-changed-parity:" + g.cls(), fmt("%s: parity block %u changed", d.c_str(), i));
    if (nh < g.k) {
        r.obs("too_few_calls");
        if (rc != -1)
            r.viol("false-success:" + g.cls() + "/decode", d + fmt(": returned %d with %u < k blocks", rc, nh));
        for (unsigned i = 0; i < g.k; i++)
            if (db[i]->str() != d0[i])
                r.viol("failure-wrote:" + g.cls() + "/decode", fmt("%s: data block %u changed by a refused decode", d.c_str(), i));
        return;
    }
    if (rc != 0) {
        r.viol("decode-refused:" + g.cls(), d + fmt(": returned %d", rc));
        return;
    }
    for (unsigned i = 0; i < g.k; i++) {
        if (memcmp(db[i]->p + g.md, e.data[i].data(), g.block) != 0)
            r.viol("wrong-data:" + g.cls() + "/decode", fmt("%s: data block %u differs", d.c_str(), i));
        std::vector<uint32_t> locs;
        if (!parse_md(db[i]->str(), g.md, locs) || !locs.empty())
            r.viol("metadata:" + g.cls() + "/decode", fmt("%s: metadata of data block %u is not an empty list", d.c_str(), i));
    }
    r.obs("blocks_compared", g.k);
    r.seen("patterns", fnvs(mask_str(have), fnvs(g.str())));
}

static void reconstruct_once(const Geo& g, Coder& c, const Enc& e, const std::vector<bool>& have, unsigned nh, unsigned dest, Rng& rng)
{
    Report& r = R();
    std::vector<std::unique_ptr<Block>> b(g.k + g.m);
    std::vector<uint8_t*> dp(g.k, nullptr), pp(g.m, nullptr);
    std::vector<int> miss(g.k + g.m);
    std::vector<std::string> before(g.k + g.m);
    for (unsigned i = 0; i < g.k + g.m; i++) {
        miss[i] = have[i] ? 0 : 1;
        if (have[i] || i == dest || rng.chance(20)) {
            b[i].reset(new Block(g.md + g.block, rng, (uint8_t)rng.next()));
            if (have[i])
                b[i]->put(e.full[i]);
            before[i] = b[i]->str();
            (i < g.k ? dp[i] : pp[i - g.k]) = b[i]->p;
        }
    }
    int rc = quadiron_fnt32_reconstruct(c.h, dp.data(), pp.data(), miss.data(), dest, g.block);
    r.obs("reconstruct_calls");
    guards(b, "reconstruct", g);
    std::string d = g.str() + fmt(" dest=%u have=", dest) + mask_str(have);
    for (unsigned i = 0; i < g.k + g.m; i++)
        if (b[i] && (i != dest || nh < g.k) && b[i]->str() != before[i])
            r.viol("reconstruct-changed:" + g.cls(), fmt("%s: block %u changed", d.c_str(), i));
    if (nh < g.k) {
        r.obs("too_few_calls");
        if (rc != -1)
            r.viol("false-success:" + g.cls() + "/reconstruct", d + fmt(": returned %d with %u < k blocks", rc, nh));
        return;
    }
    if (rc != 0) {
        r.viol("reconstruct-refused:" + g.cls(), d + fmt(": returned %d", rc));
        return;
    }
    std::string got = b[dest]->str();
    if (got.substr(g.md) != e.full[dest].substr(g.md))
        r.viol("wrong-data:" + g.cls() + "/reconstruct", d + ": rebuilt payload differs");
    if (got.substr(0, g.md) != e.full[dest].substr(0, g.md))
        r.viol("metadata:" + g.cls() + "/reconstruct", d + ": rebuilt metadata differs from what encoding stored");
    r.obs(dest < g.k ? "reconstructed_data" : "reconstructed_parity");
    r.seen("patterns", fnvs(mask_str(have), fnvs(g.str()) + dest));
}

static std::vector<bool> pick_have(const Geo& g, unsigned n, Rng& rng)
{
    unsigned len = g.k + g.m;
    std::vector<unsigned> idx(len);
    for (unsigned i = 0; i < len; i++)
        idx[i] = i;
    std::vector<bool> v(len, false);
    unsigned how = (unsigned)rng.below(4);
    if (how == 1)
        std::reverse(idx.begin(), idx.end());
    else if (how != 2)
        rng.shuffle(idx);
    for (unsigned i = 0; i < n && i < len; i++)
        v[idx[i]] = true;
    return v;
}

static void capi(long, Rng& rng, bool contract, bool few)
{
    Report& r = R();
    Geo g = sample_geo(rng, contract);
    r.set_case(g.cls(), g.str());
    Coder c(g);
    if (!c.h) {
        r.viol("new-failed:" + g.cls(), g.str());
        return;
    }
    int mds = quadiron_fnt32_get_metadata_size(c.h, g.block);
    if (mds < 8 || mds % 4) {
        r.viol("metadata-size:" + g.cls(), fmt("%s: metadata size %d", g.str().c_str(), mds));
        return;
    }
    g.md = (size_t)mds;
    // the reference needs the internal code length
    unsigned n = 1;
    while (n < g.k + g.m)
        n *= 2;
    Spec s;
    s.kind = g.sys ? FNT_SYS : FNT_NS;
    s.tbits = 32;
    s.ws = g.ws;
    s.k = g.k;
    s.m = g.m;
    s.pkt = 1024;
    const unsigned no = g.sys ? g.m : g.k + g.m;
    RefCode rc = ref_code(s, n, no);
    size_t words = g.block / g.ws;
    DataKind dk = rng.chance(45) ? D_OOR : rng.chance(30) ? D_EDGE : rng.chance(10) ? D_ZERO : D_RANDOM;
    auto data = gen_data(s, words, dk, rng, &rc);
    if (words > 65536) {
        force_far(s, rc, data, words, rng);
        r.obs("blocks_beyond_65536_words");
    } else if (rng.chance(25) && words >= 20) { // fill one output's metadata to the brim
        unsigned row = (unsigned)rng.below(no);
        unsigned target = (unsigned)(g.md / 4 - 2) - (unsigned)rng.below(3) + (unsigned)rng.below(3);
        for (unsigned t = 0; t < target && t < words; t++)
            force_oor(s, rc, row, t, data, rng);
        dk = D_OORDENSE;
    }
    std::string d = g.str() + fmt(" data=%s", DNAME[dk]);
    std::vector<bool> want(no, true);
    if (contract && rng.chance(60)) {
        // without its own buffer an unwanted output is NULL
        for (unsigned i = 0; i < no; i++)
            want[i] = rng.chance(50);
        r.obs("partial_wishes");
        r.set_case(g.cls() + "/null-parity", d + " encode want=" + mask_str(want));
        Enc e;
        run_encode(g, c, data, want, rng, e, rc, s);
        r.seen("wishes", fnvs(mask_str(want), fnvs(g.str())));
        want.assign(no, true);
    }
    r.set_case(g.cls(), d + " encode");
    Enc e;
    r.seen("classes", g.cls());
    r.seen("geometries", g.str());
    r.sample(d);
    if (!run_encode(g, c, data, want, rng, e, rc, s))
        return;
    unsigned len = g.k + g.m;
    int reps = few ? 4 : 4;
    for (int t = 0; t < reps; t++) {
        unsigned nh = few ? (t == 0 ? g.k - 1 : (unsigned)rng.below(g.k)) : (rng.chance(70) ? g.k : g.k + (unsigned)rng.below(g.m + 1));
        auto have = pick_have(g, nh, rng);
        r.set_case(g.cls(), d + " decode have=" + mask_str(have));
        decode_once(g, c, e, have, nh, rng);
        std::vector<unsigned> lost;
        for (unsigned i = 0; i < len; i++)
            if (!have[i])
                lost.push_back(i);
        for (int q = 0; q < 3 && !lost.empty(); q++) {
            unsigned dest = lost[rng.below(lost.size())];
            r.set_case(g.cls(), d + fmt(" reconstruct %u have=", dest) + mask_str(have));
            reconstruct_once(g, c, e, have, nh, dest, rng);
        }
    }
    if (few) {
        auto have = pick_have(g, g.k, rng);
        r.set_case(g.cls(), d + " decode after refusals");
        decode_once(g, c, e, have, g.k, rng);
        r.obs("recovered_after_refusal");
    }
}

// Damaged metadata must be refused (or, if still well formed, merely decode to
// something else) without a memory error.
static void damaged(long, Rng& rng)
{
    Report& r = R();
    Geo g = sample_geo(rng, true);
    g.block = std::min<size_t>(g.block, 64 * g.ws);
    if (g.k + g.m > 20) {
        g.k = 1 + g.k % 8;
        g.m = 1 + g.m % 8;
    }
    r.set_case(g.cls() + "/damaged", g.str());
    Coder c(g);
    g.md = (size_t)quadiron_fnt32_get_metadata_size(c.h, g.block);
    Spec s;
    s.kind = g.sys ? FNT_SYS : FNT_NS;
    s.tbits = 32;
    s.ws = g.ws;
    s.k = g.k;
    s.m = g.m;
    s.pkt = 1024;
    unsigned n = 1;
    while (n < g.k + g.m)
        n *= 2;
    RefCode rc = ref_code(s, n, g.sys ? g.m : g.k + g.m);
    auto data = gen_data(s, g.block / g.ws, D_RANDOM, rng, &rc);
    Enc e;
    std::vector<bool> want(g.sys ? g.m : g.k + g.m, true);
    if (!run_encode(g, c, data, want, rng, e, rc, s))
        return;
    for (int t = 0; t < 6; t++) {
        auto have = std::vector<bool>(g.k + g.m, true);
        unsigned lost = 0;
        for (unsigned i = 0; i < g.k && lost < g.m; i++) // parities are needed
            if (rng.chance(70) || !lost) {
                have[i] = false;
                lost++;
            }
        unsigned victim = g.sys ? g.k + (unsigned)rng.below(g.m) : (unsigned)rng.below(g.k + g.m);
        if (!have[victim])
            victim = g.k + (unsigned)rng.below(g.m);
        Enc x;
        x.data = e.data;
        x.full = e.full;
        std::string& b = x.full[victim];
        bool must_refuse = true;
        unsigned how = (unsigned)rng.below(4);
        uint32_t v;
        switch (how) {
        case 0: b[rng.below(4)] ^= (char)(1 << rng.below(8)); break;
        case 1: v = htonl((uint32_t)(g.md / 4 - 2 + 1 + rng.below(1000))); memcpy(&b[4], &v, 4); break;
        case 2: v = htonl(0xFFFFFFFFu - (uint32_t)rng.below(4)); memcpy(&b[4], &v, 4); break;
        default: v = htonl(0x40000000u + (uint32_t)rng.next() % 0x3fffffff); memcpy(&b[4], &v, 4); break;
        }
        r.set_case(g.cls() + "/damaged", g.str() + fmt(" victim=%u how=%u have=", victim, how) + mask_str(have));
        std::vector<std::unique_ptr<Block>> db, pb;
        std::vector<uint8_t*> dp, pp;
        std::vector<int> miss(g.k + g.m);
        for (unsigned i = 0; i < g.k + g.m; i++) {
            auto& v2 = i < g.k ? db : pb;
            v2.emplace_back(new Block(g.md + g.block, rng, 0x77));
            if (have[i])
                v2.back()->put(x.full[i]);
            (i < g.k ? dp : pp).push_back(v2.back()->p);
            miss[i] = have[i] ? 0 : 1;
        }
        std::vector<std::string> d0;
        for (auto& q : db)
            d0.push_back(q->str());
        int rcode = quadiron_fnt32_decode(c.h, dp.data(), pp.data(), miss.data(), g.block);
        r.obs("damaged_calls");
        r.seen("damage", fnvs(fmt("%u %u %s", how, victim, g.str().c_str())));
        if (must_refuse && rcode != -1)
            r.viol("damaged-accepted:" + g.cls(), fmt("%s: block %u with damaged metadata (kind %u) accepted", g.str().c_str(), victim, how));
        for (size_t i = 0; i < db.size(); i++)
            if (db[i]->str() != d0[i])
                r.viol("failure-wrote:" + g.cls() + "/damaged", g.str());
        // and through reconstruct
        unsigned dest = 0;
        while (have[dest])
            dest++;
        rcode = quadiron_fnt32_reconstruct(c.h, dp.data(), pp.data(), miss.data(), dest, g.block);
        if (must_refuse && rcode != -1)
            r.viol("damaged-accepted:" + g.cls() + "/reconstruct", fmt("%s: block %u with damaged metadata (kind %u) accepted", g.str().c_str(), victim, how));
    }
    r.sample(g.str());
}

static void badargs(long i, Rng& rng)
{
    Report& r = R();
    int ws = i < 12 ? (int)i - 3 : (int)(rng.next() & 0xff) - 64;
    r.set_case("capi/word-size", fmt("word size %d", ws));
    QuadironFnt32* h = quadiron_fnt32_new(ws, 3, 3, (int)rng.below(2));
    if ((h != nullptr) != (ws == 1 || ws == 2))
        r.viol("word-size:" + fmt("%d", ws), fmt("word size %d %s", ws, h ? "accepted" : "refused"));
    r.obs("word_sizes");
    r.seen("word_sizes", (uint64_t)ws);
    if (h && (ws == 1 || ws == 2))
        quadiron_fnt32_delete(h);
}

int main(int argc, char** argv)
{
    R().parse(argc, argv);
    const std::string& m = R().a.mode;
    return run_cases([&](long i, Rng& rng) {
        if (m == "capi") capi(i, rng, false, false);
        else if (m == "contract") capi(i, rng, true, false);
        else if (m == "fewc") capi(i, rng, false, true);
        else if (m == "damaged") damaged(i, rng);
        else if (m == "badargs") badargs(i, rng);
        else { fprintf(stderr, "bad mode\n"); exit(3); }
    });
}
