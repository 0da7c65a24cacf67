// Codec-level monitors: recovery, honesty, marks, reference equality,
// configuration identity, history independence and stream-length handling.
#include "codec.h"
#include <cmath>
using namespace hx;

static bool is_fnt(Kind k) { return k == FNT_SYS || k == FNT_NS; }

static Spec sample_spec(const Combo& c, Rng& rng, bool big)
{
    Spec s;
    s.kind = c.kind;
    s.tbits = c.tbits;
    s.ws = c.ws;
    unsigned maxlen, maxk;
    if (c.ws == 1) {
        maxlen = (c.kind == GF2NFFT) ? 255 : 256;
        maxk = (c.kind == GF2N_V || c.kind == GF2N_C || c.kind == GF2NADD) ? 255 : (c.kind == GF2NFFT ? 127 : 128);
    } else {
        maxlen = 300;
        maxk = 200;
    }
    unsigned cap = maxlen;
    // quadratic or cubic set-up costs
    if (c.kind == GF2N_V)
        cap = std::min(cap, c.ws >= 8 ? 20u : (c.ws == 4 ? 40u : 90u));
    if (c.kind == GF2N_C)
        cap = std::min(cap, c.ws >= 8 ? 24u : (c.ws == 4 ? 50u : 120u));
    if (c.kind == GF2NFFT || c.kind == GF2NADD)
        cap = std::min(cap, c.ws >= 8 ? 34u : (c.ws == 4 ? 66u : maxlen));
    if (c.kind == GFPFFT)
        cap = std::min(cap, 150u);
    if (c.kind == NF4K)
        cap = std::min(cap, c.ws == 8 ? 70u : 140u);
    if (!big)
        cap = std::min(cap, 40u);
    unsigned r = (unsigned)rng.below(100);
    unsigned k, m;
    if (r < 45) {
        k = 1 + (unsigned)rng.below(8);
        m = 1 + (unsigned)rng.below(6);
    } else if (r < 60) { // total exactly a power of two, or one off
        unsigned p = 2u << rng.below(6);
        p = std::min(p, cap - 1);
        unsigned tot = p + (unsigned)rng.below(3) - 1;
        tot = std::max(2u, std::min(tot, cap));
        k = 1 + (unsigned)rng.below(tot - 1);
        m = tot - k;
    } else if (r < 70) { // k around a power of two
        unsigned p = 1u << (1 + rng.below(5));
        k = std::max(1u, p + (unsigned)rng.below(3) - 1);
        m = 1 + (unsigned)rng.below(10);
    } else if (r < 90) {
        k = 2 + (unsigned)rng.below(24);
        m = 1 + (unsigned)rng.below(16);
    } else {
        k = 1 + (unsigned)rng.below(maxk);
        m = 1 + (unsigned)rng.below(maxlen);
    }
    k = std::min(std::min(k, maxk), cap - 1);
    k = std::max(k, 1u);
    m = std::max(1u, std::min(m, cap - k));
    s.k = k;
    s.m = m;
    static const size_t pk[] = {1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 24, 31, 32, 33, 48, 64, 100, 128, 255, 256, 1024};
    s.pkt = pk[rng.below(sizeof pk / sizeof *pk)];
    if (s.kind == NF4K && s.pkt > 128)
        s.pkt = 64;
    if (!kind_has(s.kind, BV))
        s.pkt = 8;
    return s;
}

// Codes far longer than the usual ones: indices beyond a byte, transforms of
// thousands of points.
static bool make_huge(Spec& s, Rng& rng)
{
    unsigned tot, maxk;
    switch (s.kind) {
    case FNT_SYS:
    case FNT_NS:
        if (s.ws != 2)
            return false;
        tot = 300 + (unsigned)rng.below(rng.chance(10) ? 65536 - 300 + 1 : rng.chance(30) ? 12000 : 1500);
        maxk = rng.chance(15) ? 3000 : 700;
        break;
    case GFPFFT:
        if (s.ws != 2)
            return false;
        tot = 200 + (unsigned)rng.below(1200);
        maxk = 500;
        break;
    case NF4K:
        tot = 200 + (unsigned)rng.below(rng.chance(20) ? 8000 : 1200);
        maxk = 400;
        break;
    case GF2N_V:
    case GF2N_C:
        if (s.ws != 2)
            return false;
        tot = 240 + (unsigned)rng.below(100);
        maxk = rng.chance(30) ? 150 : 50;
        break;
    case GF2NADD:
    case GF2NFFT:
        if (s.ws != 2)
            return false;
        tot = 260 + (unsigned)rng.below(900);
        maxk = 150;
        break;
    default: return false;
    }
    s.k = 1 + (unsigned)rng.below(std::min(maxk, tot - 1));
    s.m = tot - s.k;
    s.pkt = std::min<size_t>(s.pkt, 8);
    return true;
}

static size_t sample_words(const Spec& s, Path path, Rng& rng)
{
    size_t w;
    if (path == SH) {
        size_t lim = s.kind == GF2N_V || s.kind == GF2N_C ? 60 : 40;
        lim = std::max<size_t>(3, lim * 20 / (s.k + s.m + 10));
        if (s.ws >= 8)
            lim = std::max<size_t>(2, lim / 3);
        w = 1 + rng.below(lim);
        return w;
    }
    size_t lim = std::max<size_t>(4, 60000 / (s.k + s.m) / (s.kind == NF4K ? 8 : 1));
    switch (rng.below(8)) {
    case 0: w = 1; break;
    case 1: w = s.pkt - 1; break;
    case 2: w = s.pkt; break;
    case 3: w = s.pkt + 1; break;
    case 4: w = s.pkt * (2 + rng.below(3)); break;
    case 5: w = s.pkt * (1 + rng.below(4)) + rng.below(s.pkt); break;
    default: w = 1 + rng.below(4 * s.pkt + 8);
    }
    w = std::min(w, lim);
    return std::max<size_t>(1, w);
}

// A code small enough for fragments whose positions do not fit 16 bits, on any
// path.
static size_t make_long(Spec& s, Path path, Rng& rng)
{
    s.k = 1 + (unsigned)rng.below(path == SH ? 3 : 6);
    s.m = 1 + (unsigned)rng.below(path == SH ? 2 : 4);
    if (s.kind == GF2N_C || s.kind == GF2N_V)
        s.k = std::max(s.k, 2u);
    return 65537 + rng.below(path == SH || s.kind == NF4K ? 600 : rng.chance(30) ? 70000 : 5000);
}
static DataKind sample_dk(Rng& rng, bool prime)
{
    unsigned r = (unsigned)rng.below(100);
    if (r < 25) return D_RANDOM;
    if (r < 29) return D_ZERO;
    if (r < 34) return D_ONES;
    if (r < 40) return D_SPARSE;
    if (r < 45) return D_SMALL;
    if (r < 49) return D_CONST;
    if (r < 60) return D_EDGE;
    if (!prime) return D_RANDOM;
    return r < 82 ? D_OOR : D_OORDENSE;
}

static std::vector<bool> random_mask(unsigned n, unsigned ones, Rng& rng)
{
    std::vector<bool> v(n, false);
    std::vector<unsigned> idx(n);
    for (unsigned i = 0; i < n; i++)
        idx[i] = i;
    rng.shuffle(idx);
    for (unsigned i = 0; i < ones && i < n; i++)
        v[idx[i]] = true;
    return v;
}

// Structured survivor sets: a random set meets the interesting shapes rarely.
static std::vector<bool> sample_have(const Spec& s, Rng& rng, unsigned least)
{
    unsigned len = s.k + s.m;
    std::vector<bool> h(len, true);
    unsigned lose = len - least;
    switch (rng.below(9)) {
    case 0: // first ones lost
        for (unsigned i = 0; i < lose; i++)
            h[i] = false;
        return h;
    case 1: // last ones lost
        for (unsigned i = 0; i < lose; i++)
            h[len - 1 - i] = false;
        return h;
    case 2: { // contiguous run
        unsigned st = (unsigned)rng.below(len);
        for (unsigned i = 0; i < lose; i++)
            h[(st + i) % len] = false;
        return h;
    }
    case 3: { // every other
        unsigned c = 0;
        for (unsigned i = (unsigned)rng.below(2); i < len && c < lose; i += 2, c++)
            h[i] = false;
        for (unsigned i = 0; i < len && c < lose; i++)
            if (h[i]) {
                h[i] = false;
                c++;
            }
        return h;
    }
    case 4: { // exactly one data lost plus some parities
        h[rng.below(s.k)] = false;
        unsigned c = 1;
        for (unsigned i = s.k; i < len && c < lose; i++)
            if (rng.chance(60)) {
                h[i] = false;
                c++;
            }
        return h;
    }
    case 5: return random_mask(len, least + (unsigned)rng.below(lose + 1), rng);
    default: return random_mask(len, least, rng);
    }
}

static void check_one(ICodec& c, Path path, const std::vector<std::string>& data, const Encoded& e,
                      const std::vector<bool>& have, const std::vector<bool>& want, uint64_t choppy)
{
    const Spec& s = c.spec;
    Report& r = R();
    r.tick();
    Decoded d = decode(c, path, data, e, have, want, choppy);
    bool all_data = kind_sys(s.kind);
    for (unsigned i = 0; i < s.k; i++)
        all_data = all_data && have[i];
    std::string key = s.cls() + "/" + PNAME[path];
    if (!d.ok) {
        r.viol("decode-refused:" + key, fmt("%s have=%s: decode reported failure with at least k fragments", s.str().c_str(), mask_str(have).c_str()));
        return;
    }
    if (d.touched && path == BV)
        r.viol("decode-touched:" + key, fmt("%s have=%s want=%s: %s was modified", s.str().c_str(), mask_str(have).c_str(), mask_str(want).c_str(), d.touched_what.c_str()));
    for (unsigned i = 0; i < s.k; i++) {
        if (!want[i])
            continue;
        if (all_data && path != BV) // nothing to rebuild, streams are left alone
            continue;
        if (d.data[i] != data[i]) {
            size_t pos = 0;
            while (pos < d.data[i].size() && pos < data[i].size() && d.data[i][pos] == data[i][pos])
                pos++;
            if (all_data && !have[i])
                continue;
            r.viol("wrong-data:" + key, fmt("%s have=%s data %u differs at byte %zu (len %zu/%zu)", s.str().c_str(), mask_str(have).c_str(), i, pos, d.data[i].size(), data[i].size()));
            return;
        }
        r.obs("fragments_compared");
    }
    unsigned nh = 0;
    for (bool b : have)
        nh += b;
    r.obs("decodes");
    r.obs(nh == s.k ? "decodes_exactly_k" : "decodes_more_than_k");
    r.seen("patterns", fnvs(mask_str(have), fnvs(s.cls() + fmt("%u,%u", s.k, s.m))));
}

static void enc_checks(ICodec& c, const Encoded& e, size_t len, Path path)
{
    for (unsigned i = 0; i < e.frag.size(); i++)
        if (e.frag[i].size() != len)
            R().viol("fragment-length:" + c.spec.cls() + "/" + PNAME[path], fmt("%s fragment %u has %zu bytes instead of %zu", c.spec.str().c_str(), i, e.frag[i].size(), len));
}

static Path sample_path(Kind k, Rng& rng)
{
    while (true) {
        Path p = (Path)rng.below(NPATHS);
        if (kind_has(k, p))
            return p;
    }
}

static const RefCode& ref_for(ICodec& c)
{
    static std::map<std::string, RefCode> cache;
    std::string key = fmt("%d/%u/%u/%u/%u", c.spec.kind, c.spec.ws, c.spec.k, c.spec.m, c.code_n());
    auto it = cache.find(key);
    if (it != cache.end())
        return it->second;
    if (cache.size() > 64)
        cache.clear();
    return cache[key] = ref_code(c.spec, c.code_n(), c.n_outputs());
}

static bool exhaustive_ok(const Spec& s)
{
    double n = 1;
    for (unsigned i = 1; i <= s.m; i++)
        n = n * (s.k + i) / i;
    return n <= 130;
}

// C01 / C02
static void anyk(long, Rng& rng, bool fnt)
{
    Report& r = R();
    std::vector<Combo> cs;
    for (auto& c : combos())
        if (is_fnt(c.kind) == fnt)
            cs.push_back(c);
    Combo cb = cs[rng.below(cs.size())];
    bool big = fnt ? rng.chance(30) : rng.chance(20);
    Spec s = sample_spec(cb, rng, big);
    bool huge = rng.chance(5) && make_huge(s, rng);
    Path path = sample_path(s.kind, rng);
    // positions that do not fit 16 bits
    size_t longw = 0;
    if (!huge && rng.chance(1))
        longw = make_long(s, path, rng);
    r.set_case(s.cls() + "/" + PNAME[path], s.str() + " construct");
    auto c = make_codec(s);
    const RefCode* rc = nullptr;
    bool prime = fnt || s.kind == GFPFFT || s.kind == NF4K;
    DataKind dk = huge ? (rng.chance(50) ? D_EDGE : D_RANDOM) : sample_dk(rng, prime);
    if (longw)
        dk = rng.chance(50) ? D_EDGE : D_RANDOM;
    if (dk == D_OOR || dk == D_OORDENSE || (longw && prime))
        rc = &ref_for(*c);
    size_t words = longw ? longw : huge ? 1 + rng.below(path == SH ? 2 : 2 * s.pkt) : sample_words(s, path, rng);
    if (huge)
        r.obs("codes_of_more_than_200");
    auto data = gen_data(s, words, dk, rng, rc);
    if (longw) {
        if (rc)
            force_far(s, *rc, data, words, rng);
        r.obs("fragments_beyond_65536_words");
        r.obs(std::string("fragments_beyond_65536_words ") + PNAME[path]);
    }
    uint64_t choppy = rng.chance(25) ? rng.next() | 1 : 0;
    std::string d = s.str() + fmt(" %s words=%zu data=%s choppy=%d", PNAME[path], words, DNAME[dk], choppy != 0);
    r.set_case(s.cls() + "/" + PNAME[path], d + " encode");
    Encoded e = encode(*c, path, data, choppy);
    enc_checks(*c, e, data[0].size(), path);
    size_t marks = 0;
    for (auto& p : e.props)
        marks += p.get_map().size();
    if (marks)
        r.obs("encodes_with_oor_marks");
    r.obs("oor_marks", marks);
    r.seen("codes", fnvs(fmt("%s %u %u", s.cls().c_str(), s.k, s.m)));
    r.seen("classes", s.cls() + PNAME[path]);
    r.obs(std::string("kind ") + KNAME[s.kind]);
    if (rng.chance(30)) {
        // ship the properties through their text form, as the tools do
        for (auto& p : e.props) {
            std::stringstream ss;
            ss << p;
            Properties q;
            ss >> q;
            p = q;
        }
        r.obs("props_through_text");
    }
    unsigned len = s.k + s.m;
    std::vector<bool> all(s.k, true);
    r.sample(d);
    if (exhaustive_ok(s) && (path != SH || words <= 12) && words < 65536 && rng.chance(50)) {
        std::vector<bool> sel(len, false);
        std::fill(sel.begin(), sel.begin() + s.k, true);
        r.obs("exhaustive_codes");
        do {
            r.set_case(s.cls() + "/" + PNAME[path], d + " decode have=" + mask_str(sel));
            check_one(*c, path, data, e, sel, all, choppy);
        } while (std::prev_permutation(sel.begin(), sel.end()));
        return;
    }
    unsigned reps = huge || words > 65536 ? 2 : 6;
    for (unsigned t = 0; t < reps; t++) {
        auto have = sample_have(s, rng, s.k);
        auto want = all;
        if (rng.chance(30))
            for (unsigned i = 0; i < s.k; i++)
                want[i] = rng.chance(50);
        r.set_case(s.cls() + "/" + PNAME[path], d + " decode have=" + mask_str(have) + " want=" + mask_str(want));
        check_one(*c, path, data, e, have, want, choppy);
    }
}

// C03
static void toofew(long, Rng& rng)
{
    Report& r = R();
    Combo cb = combos()[rng.below(combos().size())];
    Spec s = sample_spec(cb, rng, false);
    Path path = sample_path(s.kind, rng);
    r.set_case(s.cls() + "/" + PNAME[path], s.str());
    auto c = make_codec(s);
    size_t words = std::min<size_t>(sample_words(s, path, rng), 300);
    auto data = gen_data(s, words, D_RANDOM, rng);
    Encoded e = encode(*c, path, data);
    unsigned len = s.k + s.m;
    for (int t = 0; t < 6; t++) {
        unsigned have_n = t == 0 ? s.k - 1 : (t == 1 ? 0 : (unsigned)rng.below(s.k));
        auto have = random_mask(len, have_n, rng);
        if (t == 3 && kind_sys(s.kind)) { // all but one data, no parity
            std::fill(have.begin(), have.end(), false);
            for (unsigned i = 0; i + 1 < s.k; i++)
                have[i] = true;
            have_n = s.k - 1;
        }
        std::vector<bool> want(s.k, true);
        r.set_case(s.cls() + "/" + PNAME[path], s.str() + fmt(" %s have=%s", PNAME[path], mask_str(have).c_str()));
        Decoded d = decode(*c, path, data, e, have, want);
        std::string key = s.cls() + "/" + PNAME[path];
        if (d.ok)
            r.viol("false-success:" + key, fmt("%s have=%s: success reported with %u < %u fragments", s.str().c_str(), mask_str(have).c_str(), have_n, s.k));
        if (d.touched)
            r.viol("failure-wrote:" + key, fmt("%s have=%s: %s", s.str().c_str(), mask_str(have).c_str(), d.touched_what.c_str()));
        r.obs("refusals_checked");
        r.seen("patterns", fnvs(mask_str(have), fnvs(s.str())));
        r.seen("classes", s.cls() + PNAME[path]);
        // the codec must stay usable: a full set still decodes
        if (t == 5 || rng.chance(30)) {
            auto h2 = sample_have(s, rng, s.k);
            check_one(*c, path, data, e, h2, want, 0);
            r.obs("recovered_after_refusal");
        }
    }
    r.sample(s.str());
}

// C07 and C09: every word and every mark against the reference code.
static void refcmp(long, Rng& rng, bool marks_only)
{
    Report& r = R();
    std::vector<Combo> cs;
    for (auto& c : combos())
        if (!marks_only || is_fnt(c.kind) || c.kind == GFPFFT || c.kind == NF4K)
            cs.push_back(c);
    Combo cb = cs[rng.below(cs.size())];
    Spec s = sample_spec(cb, rng, rng.chance(15));
    if (rng.chance(8)) {
        Spec s1 = s;
        bool lag = kind_sys(s.kind) || s.kind == GF2N_C;
        if (make_huge(s1, rng) && (uint64_t)s1.k * (s1.k + s1.m) * (lag ? s1.k : 10) < 15000000) {
            s = s1;
            r.obs("codes_of_more_than_200");
        }
    }
    Path path = sample_path(s.kind, rng);
    size_t longw = 0;
    if (marks_only && rng.chance(2)) // positions that do not fit 16 bits
        longw = make_long(s, path, rng);
    std::string key = s.cls() + "/" + PNAME[path];
    r.set_case(key, s.str());
    auto c = make_codec(s);
    const RefCode& rc = ref_for(*c);
    DataKind dk = longw ? D_SPARSE : marks_only ? (rng.chance(15) ? D_RANDOM : rng.chance(40) ? D_OORDENSE : D_OOR) : sample_dk(rng, rc.prime);
    size_t words = sample_words(s, path, rng);
    size_t lim = std::max<size_t>(3, 400000 / (s.k * c->n_outputs() * rc.lanes));
    if (!rc.prime)
        lim = std::max<size_t>(2, lim / (4 * s.ws));
    words = longw ? longw : std::min(words, lim);
    auto data = gen_data(s, words, dk, rng, &rc);
    if (longw) {
        force_far(s, rc, data, words, rng);
        r.obs(std::string("fragments_beyond_65536_words ") + PNAME[path]);
    } else if (words && rng.chance(20)) {
        // unit vector: isolates one column of the generator
        for (auto& x : data)
            std::fill(x.begin(), x.end(), '\0');
        put_word(data[rng.below(s.k)], rng.below(words), s.ws, 1);
    }
    std::string d = s.str() + fmt(" %s words=%zu data=%s", PNAME[path], words, DNAME[dk]);
    r.set_case(key, d);
    Encoded e = encode(*c, path, data);
    enc_checks(*c, e, data[0].size(), path);
    unsigned no = c->n_outputs();
    std::vector<u128> in(s.k);
    std::vector<std::vector<std::pair<size_t, uint32_t>>> exp(no);
    for (size_t w = 0; w < words; w++) {
        u128 any = 0;
        for (unsigned j = 0; j < s.k; j++)
            any |= in[j] = get_word(data[j], w, s.ws);
        if (longw && !any && w % 64) // zeros encode to zeros, without marks
            continue;
        for (unsigned o = 0; o < no; o++) {
            u128 word;
            uint32_t mark;
            ref_symbol(s, rc, o, in, word, mark);
            if (mark)
                exp[o].push_back({w, mark});
            if (e.frag[o].size() >= (w + 1) * s.ws) {
                u128 got = get_word(e.frag[o], w, s.ws);
                if (got != word && !marks_only) {
                    r.viol("not-reference:" + key, fmt("%s output %u word %zu is %s, the code defines %s", d.c_str(), o, w, str128(got).c_str(), str128(word).c_str()));
                    return;
                }
                // a marked symbol is stored as its value minus the limit
                if (marks_only && mark && got != word) {
                    r.viol("marked-value:" + key, fmt("%s output %u word %zu is stored as %s instead of %s", d.c_str(), o, w, str128(got).c_str(), str128(word).c_str()));
                    return;
                }
            }
            r.obs("symbols_compared");
        }
        r.tick();
    }
    for (unsigned o = 0; o < no; o++) {
        const auto& got = e.props[o].get_map();
        std::vector<std::pair<size_t, uint32_t>> g(got.begin(), got.end());
        // Positions past the end of the fragment belong to the zero padding of
        // the last packet: a zero word is never out of range.
        if (g != exp[o]) {
            std::string a = props_str(e.props[o]), b;
            for (auto& x : exp[o])
                b += fmt("%zu:%u ", x.first, x.second);
            r.viol("marks:" + key, fmt("%s output %u marks {%s} expected {%s}", d.c_str(), o, a.substr(0, 300).c_str(), b.substr(0, 300).c_str()));
            return;
        }
        r.obs("marks_expected", exp[o].size());
        r.obs("fragments_with_marks", exp[o].empty() ? 0 : 1);
    }
    r.seen("classes", key);
    r.seen("inputs", fnvs(data[0], fnvs(d)));
    r.sample(d);
}

// C08: identical bytes and marks whatever the processing mode; the digest lets
// the runner compare build configurations.
static uint64_t enc_digest(const Encoded& e)
{
    uint64_t h = 7;
    for (auto& f : e.frag)
        h = fnvs(f, h * 31 + f.size());
    for (auto& p : e.props)
        h = fnvs(props_str(p), h * 31 + 5);
    return h;
}
static bool same(const Encoded& a, const Encoded& b, std::string& why)
{
    for (size_t i = 0; i < a.frag.size(); i++) {
        if (a.frag[i] != b.frag[i]) {
            size_t p = 0;
            while (p < a.frag[i].size() && p < b.frag[i].size() && a.frag[i][p] == b.frag[i][p])
                p++;
            why = fmt("fragment %zu differs at byte %zu", i, p);
            return false;
        }
        if (a.props[i].get_map() != b.props[i].get_map()) {
            why = fmt("marks of fragment %zu differ: {%s} / {%s}", i, props_str(a.props[i]).substr(0, 200).c_str(), props_str(b.props[i]).substr(0, 200).c_str());
            return false;
        }
    }
    return true;
}
static void xcfg(long, Rng& rng)
{
    Report& r = R();
    Combo cb = combos()[rng.below(combos().size())];
    if (rng.chance(50)) { // the codecs with vector code paths get half of the cases
        static const Combo v[] = {{FNT_NS, 16, 1}, {FNT_NS, 32, 2}, {FNT_SYS, 16, 1}, {FNT_SYS, 32, 2}, {NF4K, 32, 2}, {NF4K, 64, 4}, {NF4K, 128, 8}};
        cb = v[rng.below(7)];
    }
    Spec s = sample_spec(cb, rng, rng.chance(25));
    r.set_case(s.cls(), s.str());
    auto c = make_codec(s);
    DataKind dk = sample_dk(rng, is_fnt(s.kind) || s.kind == GFPFFT || s.kind == NF4K);
    const RefCode* rc = (dk == D_OOR || dk == D_OORDENSE) ? &ref_for(*c) : nullptr;
    bool vert = kind_has(s.kind, BV);
    size_t words = sample_words(s, vert ? BV : SH, rng);
    auto data = gen_data(s, words, dk, rng, rc);
    std::string d = s.str() + fmt(" words=%zu data=%s", words, DNAME[dk]);
    Path p0 = vert ? BV : SH;
    r.set_case(s.cls(), d + " first");
    Encoded e0 = encode(*c, p0, data);
    enc_checks(*c, e0, data[0].size(), p0);
    r.digest("enc", enc_digest(e0));
    r.seen("inputs", fnvs(data[0], fnvs(d)));
    std::string why;
    // again on the same object, then every other mode
    std::vector<Path> ps;
    for (int p = 0; p < NPATHS; p++)
        if (kind_has(s.kind, (Path)p))
            ps.push_back((Path)p);
    for (Path p : ps) {
        if (p == SH && vert && words * (s.k + s.m) > 4000)
            continue;
        r.set_case(s.cls(), d + " " + PNAME[p]);
        Encoded e = encode(*c, p, data, rng.chance(50) ? rng.next() | 1 : 0);
        r.obs("mode_pairs");
        if (!same(e0, e, why)) {
            r.viol("mode-differs:" + s.cls() + "/" + PNAME[p0] + "/" + PNAME[p], d + ": " + why);
            return;
        }
    }
    if (vert) {
        // only some of the fragments: the same ones as when all are asked for
        unsigned no = c->n_outputs();
        std::vector<bool> w(no);
        std::vector<CallerBlock> db(s.k), ob(no);
        std::vector<uint8_t*> dp, op;
        std::vector<Properties> pp(no);
        const size_t len = data[0].size();
        for (unsigned i = 0; i < s.k; i++) {
            db[i].init(len, 0, rng.below(9));
            db[i].put(data[i]);
            dp.push_back(db[i].p());
        }
        for (unsigned i = 0; i < no; i++) {
            w[i] = rng.chance(50);
            ob[i].init(w[i] ? len : 0, 0x3C, rng.below(9));
            op.push_back(w[i] ? ob[i].p() : nullptr);
        }
        r.set_case(s.cls(), d + " subset of the fragments");
        c->enc_bv(dp, op, pp, w, len);
        for (unsigned i = 0; i < no; i++)
            if (w[i] && (ob[i].get() != e0.frag[i] || pp[i].get_map() != e0.props[i].get_map())) {
                r.viol("subset-differs:" + s.cls(), d + fmt(" fragment %u alone differs from itself among all", i));
                return;
            }
        r.obs("fragment_subsets");
        for (int t = 0; t < 3; t++) {
            Spec s2 = s;
            static const size_t pk[] = {1, 3, 8, 13, 16, 31, 64, 200, 1024};
            s2.pkt = pk[rng.below(s.kind == NF4K ? 6 : 9)];
            r.set_case(s.cls(), d + fmt(" packet %zu", s2.pkt));
            auto c2 = make_codec(s2);
            Path p = rng.chance(50) ? BV : SV;
            Encoded e = encode(*c2, p, data);
            r.obs("packet_pairs");
            if (!same(e0, e, why)) {
                r.viol("packet-size-differs:" + s.cls(), d + fmt(" packet %zu vs %zu: %s", s.pkt, s2.pkt, why.c_str()));
                return;
            }
            // decode with another packet size and mode than the encoder's
            auto have = sample_have(s, rng, s.k);
            check_one(*c2, rng.chance(50) ? BV : SV, data, e0, have, std::vector<bool>(s.k, true), 0);
        }
    }
    // the symbol type is an implementation choice
    for (auto& o : combos()) {
        if (o.kind == s.kind && o.ws == s.ws && o.tbits != s.tbits) {
            Spec s3 = s;
            s3.tbits = o.tbits;
            r.set_case(s.cls(), d + fmt(" type u%u", o.tbits));
            auto c3 = make_codec(s3);
            if (c3->code_n() != c->code_n()) {
                r.viol("code-length-differs:" + s.cls(), fmt("internal length %u with u%u, %u with u%u", c->code_n(), s.tbits, c3->code_n(), o.tbits));
                return;
            }
            Encoded e = encode(*c3, p0, data);
            r.obs("type_pairs");
            if (!same(e0, e, why)) {
                r.viol("type-differs:" + s.cls(), d + fmt(" u%u vs u%u: %s", s.tbits, o.tbits, why.c_str()));
                return;
            }
        }
    }
    // words are independent: encoding a prefix gives a prefix
    if (words > 1 && rng.chance(60)) {
        size_t pw = 1 + rng.below(words - 1);
        std::vector<std::string> pre;
        for (auto& x : data)
            pre.push_back(x.substr(0, pw * s.ws));
        r.set_case(s.cls(), d + fmt(" prefix %zu", pw));
        Encoded e = encode(*c, p0, pre);
        for (size_t i = 0; i < e.frag.size(); i++) {
            std::vector<std::pair<size_t, uint32_t>> a, b;
            for (auto& x : e0.props[i].get_map())
                if (x.first < pw)
                    a.push_back(x);
            for (auto& x : e.props[i].get_map())
                b.push_back(x);
            if (e.frag[i] != e0.frag[i].substr(0, pw * s.ws) || a != b) {
                r.viol("prefix-differs:" + s.cls(), d + fmt(" prefix %zu fragment %zu", pw, i));
                return;
            }
        }
        r.obs("prefix_pairs");
    }
    {
        auto have = sample_have(s, rng, s.k);
        r.set_case(s.cls(), d + " decode have=" + mask_str(have));
        Decoded dd = decode(*c, p0, data, e0, have, std::vector<bool>(s.k, true));
        uint64_t h = dd.ok;
        for (auto& x : dd.data)
            h = fnvs(x, h * 31);
        r.digest("dec", h);
    }
    r.obs(std::string("kind ") + KNAME[s.kind]);
    r.sample(d);
}

// C17: a long random history on one object, every result checked against a
// fresh object and the original data.
static void reuse(long, Rng& rng)
{
    Report& r = R();
    Combo cb = combos()[rng.below(combos().size())];
    Spec s = sample_spec(cb, rng, false);
    r.set_case(s.cls(), s.str());
    auto c = make_codec(s);
    const RefCode* rc = nullptr;
    bool prime = is_fnt(s.kind) || s.kind == GFPFFT || s.kind == NF4K;
    if (prime)
        rc = &ref_for(*c);
    struct Job {
        Path p;
        std::vector<std::string> data;
        Encoded e;
    };
    std::vector<Job> jobs;
    std::string hist;
    int steps = s.ws >= 8 ? 8 : 14;
    if (R().a.thorough())
        steps *= 3;
    std::vector<Properties> dirty;
    for (int t = 0; t < steps; t++) {
        if (jobs.empty() || rng.chance(35)) {
            Job j;
            j.p = sample_path(s.kind, rng);
            size_t words = std::min<size_t>(sample_words(s, j.p, rng), 400);
            j.data = gen_data(s, words, sample_dk(rng, prime), rng, rc);
            hist += fmt("E%zu ", words);
            r.set_case(s.cls(), s.str() + " " + hist);
            j.e = encode(*c, j.p, j.data);
            auto f = make_codec(s);
            Encoded e2 = encode(*f, j.p, j.data);
            std::string why;
            if (!same(j.e, e2, why)) {
                r.viol("history-encode:" + s.cls(), s.str() + " after " + hist + ": " + why);
                return;
            }
            // a caller may hand in properties left over from an earlier call
            if (rng.chance(50)) {
                Encoded e3;
                IStreams in;
                OStreams out;
                for (auto& x : j.data)
                    in.add(x);
                for (unsigned i = 0; i < c->n_outputs(); i++)
                    out.add();
                std::vector<Properties> pp = jobs.empty() ? j.e.props : jobs[rng.below(jobs.size())].e.props;
                if (j.p == SH)
                    c->enc_sh(in.p, out.p, pp);
                else if (j.p == SV)
                    c->enc_sv(in.p, out.p, pp);
                else {
                    std::vector<std::vector<uint8_t>> db, ob(c->n_outputs(), std::vector<uint8_t>(j.data[0].size()));
                    std::vector<uint8_t*> dp, op;
                    for (auto& x : j.data)
                        db.emplace_back(x.begin(), x.end());
                    for (auto& x : db)
                        dp.push_back(x.data());
                    for (auto& x : ob)
                        op.push_back(x.data());
                    std::vector<bool> w(c->n_outputs(), true);
                    c->enc_bv(dp, op, pp, w, j.data[0].size());
                }
                e3.props = pp;
                for (size_t i = 0; i < pp.size(); i++)
                    if (pp[i].get_map() != j.e.props[i].get_map()) {
                        r.viol("stale-properties:" + s.cls(), s.str() + fmt(" fragment %zu keeps marks of an earlier encode", i));
                        return;
                    }
                r.obs("stale_props_calls");
            }
            r.obs("encodes");
            jobs.push_back(j);
        } else {
            Job& j = jobs[rng.below(jobs.size())];
            if (rng.chance(20)) {
                // a refused decode in the middle of the history
                auto have = random_mask(s.k + s.m, (unsigned)rng.below(s.k), rng);
                hist += "F ";
                r.set_case(s.cls(), s.str() + " " + hist);
                Decoded d = decode(*c, j.p, j.data, j.e, have, std::vector<bool>(s.k, true));
                if (d.ok)
                    r.viol("false-success:" + s.cls(), s.str() + " after " + hist);
                r.obs("refusals");
                continue;
            }
            auto have = sample_have(s, rng, s.k);
            hist += "D" + mask_str(have) + " ";
            r.set_case(s.cls(), s.str() + " " + hist);
            uint64_t before = R().nviol;
            check_one(*c, j.p, j.data, j.e, have, std::vector<bool>(s.k, true), 0);
            if (R().nviol != before)
                return;
        }
        r.seen("histories", fnvs(hist, fnvs(s.str())));
    }
    r.seen("classes", s.cls());
    r.sample(s.str() + " " + hist.substr(0, 200));
}

// C19: lengths. Every length that is a multiple of the word size, empty included.
static void lengths(long, Rng& rng)
{
    Report& r = R();
    Combo cb = combos()[rng.below(combos().size())];
    if (rng.chance(50)) {
        static const Combo v[] = {{FNT_NS, 16, 1}, {FNT_NS, 32, 2}, {FNT_SYS, 16, 1}, {FNT_SYS, 32, 2}, {NF4K, 32, 2}, {NF4K, 64, 4}};
        cb = v[rng.below(6)];
    }
    Spec s = sample_spec(cb, rng, false);
    if (s.pkt > 64 && rng.chance(70))
        s.pkt = 1 + rng.below(40);
    if (!kind_has(s.kind, BV))
        s.pkt = 8;
    r.set_case(s.cls(), s.str());
    auto c = make_codec(s);
    bool prime = is_fnt(s.kind) || s.kind == GFPFFT || s.kind == NF4K;
    const RefCode* rc = prime ? &ref_for(*c) : nullptr;
    for (int t = 0; t < 6; t++) {
        Path p = sample_path(s.kind, rng);
        size_t words;
        switch (rng.below(7)) {
        case 0: words = 0; break;
        case 1: words = s.pkt * rng.below(4); break;
        case 2: words = s.pkt * (1 + rng.below(3)) - 1; break;
        case 3: words = s.pkt * (1 + rng.below(3)) + 1; break;
        default: words = rng.below(3 * s.pkt + 2);
        }
        if (p == SH)
            words = std::min<size_t>(words, 24);
        auto data = gen_data(s, words, sample_dk(rng, prime), rng, rc);
        uint64_t choppy = rng.chance(40) ? rng.next() | 1 : 0;
        std::string key = s.cls() + "/" + PNAME[p];
        std::string d = s.str() + fmt(" %s words=%zu", PNAME[p], words);
        r.set_case(key, d);
        Encoded e = encode(*c, p, data, choppy);
        enc_checks(*c, e, data[0].size(), p);
        for (unsigned i = 0; i < e.props.size(); i++)
            for (auto& x : e.props[i].get_map())
                if (x.first >= words) {
                    r.viol("mark-past-end:" + key, fmt("%s fragment %u carries a mark at word %zu", d.c_str(), i, x.first));
                    break;
                }
        auto have = sample_have(s, rng, s.k);
        Decoded dd = decode(*c, p, data, e, have, std::vector<bool>(s.k, true), choppy);
        bool all_data = kind_sys(s.kind);
        for (unsigned i = 0; i < s.k; i++)
            all_data = all_data && have[i];
        if (!dd.ok)
            r.viol("decode-refused:" + key, d);
        else if (!(all_data && p != BV)) {
            for (unsigned i = 0; i < s.k; i++) {
                if (dd.data[i].size() != data[i].size())
                    r.viol("decoded-length:" + key, fmt("%s data %u: %zu bytes instead of %zu", d.c_str(), i, dd.data[i].size(), data[i].size()));
                else if (dd.data[i] != data[i] && !(all_data && !have[i]))
                    r.viol("wrong-data:" + key, fmt("%s data %u", d.c_str(), i));
            }
        }
        r.obs("round_trips");
        r.obs(words == 0 ? "empty" : words % s.pkt == 0 ? "whole_packets" : "partial_last_packet");
        r.seen("lengths", fnvs(fmt("%s %zu %zu", key.c_str(), s.pkt, words)));
    }
    r.sample(s.str());
}

// C21: the operation counters of a codec tell how many words (or packets) the
// last operation processed.
static void stats(long, Rng& rng)
{
    Report& r = R();
    std::vector<Combo> cs;
    for (auto& c : combos())
        if (is_fnt(c.kind))
            cs.push_back(c);
    Combo cb = cs[rng.below(cs.size())];
    Spec s = sample_spec(cb, rng, false);
    auto c = make_codec(s);
    for (int t = 0; t < 4; t++) {
        Path p = sample_path(s.kind, rng);
        size_t words = rng.chance(20) ? 0 : sample_words(s, p, rng);
        std::string d = s.str() + fmt(" %s words=%zu", PNAME[p], words);
        r.set_case(s.cls(), d);
        auto data = gen_data(s, words, D_RANDOM, rng);
        Encoded e = encode(*c, p, data);
        size_t exp = p == SH ? words : (words + s.pkt - 1) / s.pkt;
        if (c->ops(0) != exp)
            r.viol(std::string("encode-operations:") + PNAME[p], d + fmt(": %llu operations counted instead of %zu", (unsigned long long)c->ops(0), exp));
        auto have = sample_have(s, rng, s.k);
        bool all_data = kind_sys(s.kind);
        for (unsigned i = 0; i < s.k; i++)
            all_data = all_data && have[i];
        if (all_data)
            have[0] = false, have[s.k] = true; // something to rebuild
        Decoded dd = decode(*c, p, data, e, have, std::vector<bool>(s.k, true));
        if (dd.ok && c->ops(1) != exp)
            r.viol(std::string("decode-operations:") + PNAME[p], d + fmt(": %llu operations counted instead of %zu", (unsigned long long)c->ops(1), exp));
        r.obs("operation_counts", 2);
        r.seen("texts", fnvs(d));
    }
}

int main(int argc, char** argv)
{
    R().parse(argc, argv);
    const std::string& m = R().a.mode;
    return run_cases([&](long i, Rng& rng) {
        if (m == "anyk-fnt") anyk(i, rng, true);
        else if (m == "anyk-other") anyk(i, rng, false);
        else if (m == "toofew") toofew(i, rng);
        else if (m == "ref") refcmp(i, rng, false);
        else if (m == "marks") refcmp(i, rng, true);
        else if (m == "xcfg") xcfg(i, rng);
        else if (m == "reuse") reuse(i, rng);
        else if (m == "stats") stats(i, rng);
        else if (m == "lengths") lengths(i, rng);
        else { fprintf(stderr, "bad mode\n"); exit(3); }
    });
}
