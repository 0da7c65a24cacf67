// Type-erased access to every codec of the library through its public API.
#ifndef HX_CODEC_H
#define HX_CODEC_H
#include "common.h"
#include "ref.h"
#include "property.h"

namespace hx {
using quadiron::Properties;

enum Kind { FNT_SYS, FNT_NS, GF2N_V, GF2N_C, GF2NFFT, GF2NADD, GFPFFT, NF4K, NKINDS };
static const char* const KNAME[] = {
    "fnt-sys", "fnt", "gf2n-v", "gf2n-c", "gf2n-fft", "gf2n-fft-add", "gfp-fft", "nf4"};

enum Path { SV, SH, BV, NPATHS }; // streams vertical / horizontal, blocks
static const char* const PNAME[] = {"streams-vertical", "streams-horizontal", "blocks-vertical"};

struct Spec {
    Kind kind;
    unsigned tbits;
    unsigned ws;
    unsigned k, m;
    size_t pkt;
    std::string cls() const { return fmt("%s/u%u/w%u", KNAME[kind], tbits, ws); }
    std::string str() const
    {
        return fmt("%s/u%u/w%u k=%u m=%u pkt=%zu", KNAME[kind], tbits, ws, k, m, pkt);
    }
};

inline bool kind_sys(Kind k) { return k == FNT_SYS || k == GF2N_V || k == GF2N_C; }
inline bool kind_has(Kind k, Path p)
{
    if (p == SH)
        return k != FNT_SYS;
    return k == FNT_SYS || k == FNT_NS || k == NF4K;
}

struct ICodec {
    Spec spec;
    virtual ~ICodec() {}
    virtual unsigned n_outputs() = 0;   // fragments produced
    virtual unsigned enc_width() = 0;   // get_n_outputs()
    virtual unsigned code_n() = 0;      // internal length
    virtual u128 card() = 0;
    virtual void enc_sv(std::vector<std::istream*>&, std::vector<std::ostream*>&, std::vector<Properties>&) = 0;
    virtual void enc_sh(std::vector<std::istream*>&, std::vector<std::ostream*>&, std::vector<Properties>&) = 0;
    virtual bool dec_sv(std::vector<std::istream*>&, std::vector<std::istream*>&, std::vector<Properties>&, std::vector<std::ostream*>&) = 0;
    virtual bool dec_sh(std::vector<std::istream*>&, std::vector<std::istream*>&, std::vector<Properties>&, std::vector<std::ostream*>&) = 0;
    virtual void enc_bv(std::vector<uint8_t*>&, std::vector<uint8_t*>&, std::vector<Properties>&, std::vector<bool>&, size_t) = 0;
    virtual bool dec_bv(std::vector<uint8_t*>&, std::vector<uint8_t*>&, std::vector<Properties>&, std::vector<int>&, std::vector<bool>&, size_t) = 0;
    // word level
    virtual void enc_words(const std::vector<u128>& in, std::vector<u128>& out, std::vector<Properties>& props, long off) = 0;
    virtual void dec_words(const std::vector<unsigned>& ids, const std::vector<std::vector<u128>>& in, std::vector<Properties>& props, std::vector<std::vector<u128>>& out) = 0;
    virtual uint64_t ops(int which) = 0; // 0: encode ops, 1: decode ops
};

// weak: a check links the codecs it needs
std::unique_ptr<ICodec> make_codec_fnt(const Spec&) __attribute__((weak)); 
std::unique_ptr<ICodec> make_codec_gf2n(const Spec&) __attribute__((weak)); 
std::unique_ptr<ICodec> make_codec_gf2nfft(const Spec&) __attribute__((weak)); 
std::unique_ptr<ICodec> make_codec_gf2nadd(const Spec&) __attribute__((weak)); 
std::unique_ptr<ICodec> make_codec_gfp(const Spec&) __attribute__((weak)); 
std::unique_ptr<ICodec> make_codec_nf4(const Spec&) __attribute__((weak)); 

inline std::unique_ptr<ICodec> make_codec(const Spec& s)
{
    switch (s.kind) {
    case FNT_SYS:
    case FNT_NS: return make_codec_fnt(s);
    case GF2N_V:
    case GF2N_C: return make_codec_gf2n(s);
    case GF2NFFT: return make_codec_gf2nfft(s);
    case GF2NADD: return make_codec_gf2nadd(s);
    case GFPFFT: return make_codec_gfp(s);
    case NF4K: return make_codec_nf4(s);
    default: abort();
    }
}

// ---------------------------------------------------------------- fragments
struct Encoded {
    std::vector<std::string> frag; // n_outputs
    std::vector<Properties> props;
};

// A stream buffer that hands out its content in small irregular pieces, as a
// pipe or a socket would.
class ChoppyBuf : public std::streambuf {
    const std::string& s;
    size_t pos = 0;
    Rng rng;

  public:
    ChoppyBuf(const std::string& s_, uint64_t seed) : s(s_), rng(seed) {}
    int_type underflow() override
    {
        if (pos >= s.size())
            return traits_type::eof();
        size_t n = std::min<size_t>(s.size() - pos, 1 + rng.below(37));
        char* p = const_cast<char*>(s.data()) + pos;
        setg(p, p, p + n);
        pos += n;
        return traits_type::to_int_type(*p);
    }
};

struct IStreams {
    std::vector<std::unique_ptr<std::streambuf>> bufs;
    std::vector<std::unique_ptr<std::istream>> own;
    std::vector<std::istream*> p;
    void add(const std::string& s, uint64_t choppy_seed = 0)
    {
        if (choppy_seed) {
            bufs.emplace_back(new ChoppyBuf(s, choppy_seed));
            own.emplace_back(new std::istream(bufs.back().get()));
        } else
            own.emplace_back(new std::istringstream(s));
        p.push_back(own.back().get());
    }
    void add_null() { p.push_back(nullptr); }
};
struct OStreams {
    std::vector<std::unique_ptr<std::ostringstream>> own;
    std::vector<std::ostream*> p;
    void add()
    {
        own.emplace_back(new std::ostringstream);
        p.push_back(own.back().get());
    }
    void add_null()
    {
        own.emplace_back(nullptr);
        p.push_back(nullptr);
    }
    std::string str(size_t i) { return own[i] ? own[i]->str() : std::string(); }
};

// A caller's block: bytes, at no particular alignment, up to the end of its
// allocation.
struct CallerBlock {
    std::vector<uint8_t> v;
    size_t off = 0;
    void init(size_t len, uint8_t fill, size_t off_)
    {
        off = off_ % 5;
        v.assign(len + off, fill);
    }
    uint8_t* p() { return v.data() + off; }
    void put(const std::string& s) { std::copy(s.begin(), s.end(), v.begin() + off); }
    std::string get() const { return std::string(v.begin() + off, v.end()); }
    bool operator!=(const CallerBlock& o) const { return v != o.v; }
};

inline Encoded encode(ICodec& c, Path path, const std::vector<std::string>& data, uint64_t choppy = 0)
{
    Encoded e;
    unsigned no = c.n_outputs();
    e.props.resize(no);
    if (path == BV) {
        size_t len = data.empty() ? 0 : data[0].size();
        std::vector<CallerBlock> din(data.size()), out(no);
        std::vector<uint8_t*> dp, op;
        for (size_t i = 0; i < data.size(); i++) {
            din[i].init(len, 0, len / 3 + i);
            din[i].put(data[i]);
            dp.push_back(din[i].p());
        }
        for (size_t i = 0; i < no; i++) {
            out[i].init(len, 0xA5, len / 5 + i);
            op.push_back(out[i].p());
        }
        std::vector<bool> w(no, true);
        c.enc_bv(dp, op, e.props, w, len);
        for (auto& o : out)
            e.frag.push_back(o.get());
        for (size_t i = 0; i < data.size(); i++)
            if (len && memcmp(din[i].p(), data[i].data(), len) != 0)
                R().viol("encode-modified-input:" + c.spec.cls(), fmt("data fragment %zu changed by encoding", i));
        return e;
    }
    IStreams in;
    OStreams out;
    for (auto& d : data)
        in.add(d, choppy ? choppy + in.p.size() : 0);
    for (unsigned i = 0; i < no; i++)
        out.add();
    if (path == SV)
        c.enc_sv(in.p, out.p, e.props);
    else
        c.enc_sh(in.p, out.p, e.props);
    for (unsigned i = 0; i < no; i++)
        e.frag.push_back(out.str(i));
    return e;
}

std::string mask_str(const std::vector<bool>& v);

struct Decoded {
    bool ok = false;
    std::vector<std::string> data; // only wanted entries
    bool touched = false;          // blocks: a byte outside the wanted outputs moved
    std::string touched_what;
};

// have[i]: fragment i (0..k+m-1) is supplied. want[i]: data i is requested.
// Lost fragments carry garbage or nothing, never their content.
inline Decoded decode(ICodec& c, Path path, const std::vector<std::string>& data, const Encoded& e,
                      const std::vector<bool>& have, const std::vector<bool>& want, uint64_t choppy = 0)
{
    Decoded d;
    const unsigned k = c.spec.k, no = c.n_outputs();
    const bool sys = kind_sys(c.spec.kind);
    const size_t len = data[0].size();
    std::vector<Properties> props(no);
    d.data.resize(k);
    auto frag_have = [&](unsigned o) { return have[sys ? k + o : o]; };
    const uint64_t dice = fnvs(mask_str(have), len + 17);
    const bool keep_props = dice % 3 == 0; // markers of lost fragments may still be around
    for (unsigned o = 0; o < no; o++)
        if (frag_have(o) || keep_props)
            props[o] = e.props[o];
    if (dice / 3 % 4 == 0) { // decoding sorts the markers it is given
        Rng mix(dice);
        for (auto& p : props) {
            auto m = p.get_map();
            if (m.size() < 2)
                continue;
            mix.shuffle(m);
            p.clear();
            for (auto& x : m)
                p.add(x.first, x.second);
            R().obs("markers_in_another_order");
        }
    }
    const std::vector<Properties> props0 = props;
    auto props_check = [&]() {
        auto sorted = [](std::vector<std::pair<size_t, uint32_t>> m) {
            std::sort(m.begin(), m.end());
            return m;
        };
        for (unsigned o = 0; o < no; o++)
            if (sorted(props[o].get_map()) != sorted(props0[o].get_map()))
                R().viol("decode-modified-markers:" + c.spec.cls(), fmt("%s markers of fragment %u changed by decoding", c.spec.str().c_str(), o));
    };
    if (path == BV) {
        std::vector<CallerBlock> db(k), pb(no);
        std::vector<uint8_t*> dp(k), pp(no);
        std::vector<int> missing(c.spec.k + c.spec.m);
        for (size_t i = 0; i < missing.size(); i++)
            missing[i] = have[i] ? 0 : 1;
        for (unsigned i = 0; i < k; i++) {
            db[i].init(len, (uint8_t)(0x5A + i), (dice >> 8) + i);
            if (sys && have[i])
                db[i].put(data[i]);
            dp[i] = db[i].p();
            if (!want[i] && !(sys && have[i]))
                dp[i] = nullptr; // neither supplied nor wanted
        }
        for (unsigned o = 0; o < no; o++) {
            if (frag_have(o)) {
                pb[o].init(e.frag[o].size(), 0, (dice >> 16) + o);
                pb[o].put(e.frag[o]);
                pp[o] = pb[o].p();
            } else
                pp[o] = nullptr;
        }
        auto db0 = db, pb0 = pb;
        std::vector<bool> w(want);
        d.ok = c.dec_bv(dp, pp, props, missing, w, len);
        props_check();
        for (unsigned i = 0; i < k; i++) {
            if (want[i])
                d.data[i] = db[i].get();
            if ((!want[i] || (sys && have[i])) && db[i] != db0[i]) {
                d.touched = true;
                d.touched_what = fmt("data %u", i);
            }
            if (!d.ok && db[i] != db0[i]) {
                d.touched = true;
                d.touched_what = fmt("data %u on failure", i);
            }
        }
        for (unsigned o = 0; o < no; o++)
            if (pb[o] != pb0[o]) {
                d.touched = true;
                d.touched_what = "a supplied parity";
            }
        return d;
    }
    IStreams di, pi;
    OStreams out;
    for (unsigned i = 0; i < k; i++) {
        if (sys && have[i])
            di.add(data[i], choppy ? choppy + i : 0);
        else
            di.add_null();
        if (want[i])
            out.add();
        else
            out.add_null();
    }
    for (unsigned o = 0; o < no; o++) {
        if (frag_have(o))
            pi.add(e.frag[o], choppy ? choppy + 1000 + o : 0);
        else
            pi.add_null();
    }
    if (path == SV)
        d.ok = c.dec_sv(di.p, pi.p, props, out.p);
    else
        d.ok = c.dec_sh(di.p, pi.p, props, out.p);
    props_check();
    for (unsigned i = 0; i < k; i++) {
        d.data[i] = out.str(i);
        if (!d.ok && !d.data[i].empty()) {
            d.touched = true;
            d.touched_what = fmt("output stream %u written on failure", i);
        }
    }
    return d;
}

// ------------------------------------------------------- reference encoders
// Generator matrix (n_outputs x k) over the codec's coefficient field.
struct RefCode {
    const ref::Field* f = nullptr;
    std::vector<std::vector<u128>> g;
    u128 limit = 0;   // prime fields: values >= limit do not fit a word
    unsigned lanes = 1;
    bool prime = false;
};

inline RefCode ref_code(const Spec& s, unsigned code_n, unsigned n_rows)
{
    RefCode rc;
    const unsigned k = s.k;
    switch (s.kind) {
    case FNT_SYS:
    case FNT_NS:
    case GFPFFT:
    case NF4K: {
        u128 p;
        if (s.kind == NF4K) {
            p = 65537;
            rc.lanes = s.ws / 2;
            rc.limit = 65536;
        } else if (s.ws == 4) {
            p = 4294991873ULL;
            rc.limit = (u128)1 << 32;
        } else {
            p = ((u128)1 << (8 * s.ws)) + 1;
            rc.limit = p - 1;
        }
        rc.prime = true;
        rc.f = &ref::gfp(p);
        u128 r = rc.f->pow(ref::primitive(*rc.f), (p - 1) / code_n);
        if (s.kind == FNT_SYS) {
            std::vector<u128> xs;
            for (unsigned j = 0; j < k; j++)
                xs.push_back(rc.f->pow(r, j));
            for (unsigned i = 0; i < n_rows; i++)
                rc.g.push_back(ref::lagrange_row(*rc.f, xs, rc.f->pow(r, k + i)));
        } else {
            for (unsigned i = 0; i < n_rows; i++) {
                std::vector<u128> row(k);
                u128 x = rc.f->pow(r, i), v = 1;
                for (unsigned j = 0; j < k; j++) {
                    row[j] = v;
                    v = rc.f->mul(v, x);
                }
                rc.g.push_back(row);
            }
        }
        break;
    }
    case GF2NFFT: {
        rc.f = &ref::gf2n(8 * s.ws);
        u128 r = rc.f->pow(ref::primitive(*rc.f), rc.f->order() / code_n);
        for (unsigned i = 0; i < n_rows; i++) {
            std::vector<u128> row(k);
            u128 x = rc.f->pow(r, i), v = 1;
            for (unsigned j = 0; j < k; j++) {
                row[j] = v;
                v = rc.f->mul(v, x);
            }
            rc.g.push_back(row);
        }
        break;
    }
    case GF2NADD: {
        rc.f = &ref::gf2n(8 * s.ws);
        unsigned mm = 0;
        while ((1u << mm) < code_n)
            mm++;
        u128 gpr = ref::primitive(*rc.f);
        std::vector<u128> basis(mm);
        for (unsigned i = 0; i + 1 < mm; i++)
            basis[i] = rc.f->pow(gpr, i + 1);
        if (mm)
            basis[mm - 1] = 1;
        for (unsigned i = 0; i < n_rows; i++) {
            u128 x = 0, v = 1;
            for (unsigned b = 0; b < mm; b++)
                if (i >> b & 1)
                    x ^= basis[b];
            std::vector<u128> row(k);
            for (unsigned j = 0; j < k; j++) {
                row[j] = v;
                v = rc.f->mul(v, x);
            }
            rc.g.push_back(row);
        }
        break;
    }
    case GF2N_V: {
        rc.f = &ref::gf2n(8 * s.ws);
        std::vector<u128> xs;
        for (unsigned j = 0; j < k; j++)
            xs.push_back(j);
        for (unsigned i = 0; i < n_rows; i++)
            rc.g.push_back(ref::lagrange_row(*rc.f, xs, k + i));
        break;
    }
    case GF2N_C: {
        // Cauchy matrix 1/(i + (j+m)), columns scaled so that the first row is
        // all ones, then rows so that the first column is all ones.
        rc.f = &ref::gf2n(8 * s.ws);
        for (unsigned i = 0; i < n_rows; i++) {
            std::vector<u128> row(k);
            for (unsigned j = 0; j < k; j++)
                row[j] = rc.f->inv((u128)i ^ (u128)(j + s.m));
            rc.g.push_back(row);
        }
        for (unsigned j = 0; j < k; j++) {
            u128 d = rc.f->inv(rc.g[0][j]);
            for (unsigned i = 0; i < n_rows; i++)
                rc.g[i][j] = rc.f->mul(rc.g[i][j], d);
        }
        for (unsigned i = 1; i < n_rows; i++) {
            u128 d = rc.f->inv(rc.g[i][0]);
            for (unsigned j = 0; j < k; j++)
                rc.g[i][j] = rc.f->mul(rc.g[i][j], d);
        }
        break;
    }
    default: abort();
    }
    return rc;
}

inline u128 get_word(const std::string& s, size_t w, unsigned ws)
{
    u128 v = 0;
    memcpy(&v, s.data() + w * ws, ws);
    return v;
}
inline void put_word(std::string& s, size_t w, unsigned ws, u128 v) { memcpy(&s[w * ws], &v, ws); }
inline u128 lane_of(u128 w, unsigned l) { return (w >> (16 * l)) & 0xffff; }

// One output symbol of the reference code: stored word and mark (0: none).
inline void ref_symbol(const Spec& s, const RefCode& rc, unsigned row, const std::vector<u128>& in, u128& word, uint32_t& mark)
{
    word = 0;
    mark = 0;
    const ref::Field& f = *rc.f;
    for (unsigned l = 0; l < rc.lanes; l++) {
        u128 acc = 0;
        for (unsigned j = 0; j < s.k; j++) {
            u128 d = s.kind == NF4K ? lane_of(in[j], l) : in[j];
            if (d)
                acc = f.add(acc, f.mul(rc.g[row][j], d));
        }
        if (rc.prime && acc >= rc.limit) {
            mark |= 1u << l;
            acc -= rc.limit;
        }
        word |= acc << (16 * l);
    }
}

// Overwrites one data symbol of word w so that output `row` becomes a value
// that does not fit in a word. Returns false when impossible.
inline bool force_oor(const Spec& s, const RefCode& rc, unsigned row, size_t w, std::vector<std::string>& data, Rng& rng)
{
    if (!rc.prime)
        return false;
    const ref::Field& f = *rc.f;
    bool done = false;
    for (unsigned l = 0; l < rc.lanes; l++) {
        if (l && rng.chance(50))
            continue;
        for (int tries = 0; tries < 6; tries++) {
            unsigned j = (unsigned)rng.below(s.k);
            if (rc.g[row][j] == 0)
                continue;
            u128 acc = 0;
            for (unsigned t = 0; t < s.k; t++) {
                if (t == j)
                    continue;
                u128 d = get_word(data[t], w, s.ws);
                if (s.kind == NF4K)
                    d = lane_of(d, l);
                acc = f.add(acc, f.mul(rc.g[row][t], d));
            }
            u128 p = f.order() + 1;
            u128 target = rc.limit + rng.below128(p - rc.limit);
            u128 need = f.mul(f.sub(target, acc), f.inv(rc.g[row][j]));
            if (need >= rc.limit)
                continue;
            u128 cur = get_word(data[j], w, s.ws);
            if (s.kind == NF4K)
                cur = (cur & ~((u128)0xffff << (16 * l))) | (need << (16 * l));
            else
                cur = need;
            put_word(data[j], w, s.ws, cur);
            done = true;
            break;
        }
    }
    return done;
}

enum DataKind { D_RANDOM, D_ZERO, D_ONES, D_SPARSE, D_SMALL, D_CONST, D_OOR, D_OORDENSE, D_EDGE, D_NKINDS };
static const char* const DNAME[] = {"random", "zero", "ones", "sparse", "small", "const", "oor", "oor-dense", "edge"};

inline std::vector<std::string> gen_data(const Spec& s, size_t words, DataKind dk, Rng& rng, const RefCode* rc = nullptr)
{
    const size_t len = words * s.ws;
    std::vector<std::string> d(s.k, std::string(len, '\0'));
    for (unsigned i = 0; i < s.k; i++) {
        std::string& b = d[i];
        switch (dk) {
        case D_ZERO: break;
        case D_ONES: b.assign(len, '\xff'); break;
        case D_CONST: b.assign(len, (char)rng.below(256)); break;
        case D_SPARSE:
            for (size_t j = 0; j < 1 + len / 40; j++)
                if (len)
                    b[rng.below(len)] = (char)rng.next();
            break;
        case D_SMALL:
            for (auto& ch : b)
                ch = (char)rng.below(2);
            break;
        case D_EDGE:
            for (size_t w = 0; w < words; w++) {
                static const int e[] = {0, 1, 2, 3, -1, -2, -3};
                u128 v = (u128)(i128)e[rng.below(7)];
                if (rng.chance(20))
                    v = (u128)1 << rng.below(8 * s.ws);
                put_word(b, w, s.ws, v);
            }
            break;
        default:
            for (size_t j = 0; j + 8 <= len; j += 8) {
                uint64_t v = rng.next();
                memcpy(&b[j], &v, 8);
            }
            for (size_t j = len & ~(size_t)7; j < len; j++)
                b[j] = (char)rng.next();
        }
    }
    if (rc && rc->prime && words && !rc->g.empty() && (dk == D_OOR || dk == D_OORDENSE)) {
        size_t n = dk == D_OOR ? 1 + rng.below(6) : words / 2 + 1;
        for (size_t t = 0; t < n; t++) {
            size_t w = rng.below(words);
            // bias towards the places where bookkeeping can go wrong
            switch (rng.below(7)) {
            case 0: w = 0; break;
            case 1: w = words - 1; break;
            case 2: w = std::min(words - 1, s.pkt - 1); break;
            case 3: w = std::min(words - 1, s.pkt); break;
            case 4: w = (words - 1) / s.pkt * s.pkt; break;
            default: break;
            }
            force_oor(s, *rc, (unsigned)rng.below(rc->g.size()), w, d, rng);
        }
    }
    return d;
}

// Marks on both sides of position 65536.
inline void force_far(const Spec& s, const RefCode& rc, std::vector<std::string>& data, size_t words, Rng& rng)
{
    for (unsigned t = 0; t < 8; t++)
        force_oor(s, rc, (unsigned)rng.below(rc.g.size()), 65536 + rng.below(words - 65536), data, rng);
    for (unsigned t = 0; t < 3; t++)
        force_oor(s, rc, (unsigned)rng.below(rc.g.size()), rng.below(65536), data, rng);
}

inline std::string props_str(const Properties& p)
{
    std::string s;
    for (auto& x : p.get_map())
        s += fmt("%zu:%u ", x.first, x.second);
    return s;
}

inline std::string mask_str(const std::vector<bool>& v)
{
    std::string s;
    for (bool b : v)
        s += b ? '1' : '0';
    return s;
}

// ------------------------------------------------------------ spec sampling
// Every (field, word size, symbol type) combination the library supports.
struct Combo {
    Kind kind;
    unsigned tbits, ws;
};
inline const std::vector<Combo>& combos()
{
    static const std::vector<Combo> c = {
        {FNT_NS, 16, 1}, {FNT_NS, 32, 2}, {FNT_SYS, 16, 1}, {FNT_SYS, 32, 2},
        {GF2N_V, 32, 1}, {GF2N_V, 32, 2}, {GF2N_V, 32, 4}, {GF2N_V, 64, 8}, {GF2N_V, 128, 16},
        {GF2N_C, 32, 1}, {GF2N_C, 32, 2}, {GF2N_C, 32, 4}, {GF2N_C, 64, 8}, {GF2N_C, 128, 16},
        {GF2NFFT, 32, 1}, {GF2NFFT, 32, 2}, {GF2NFFT, 32, 4}, {GF2NFFT, 64, 8}, {GF2NFFT, 128, 16},
        {GF2NADD, 32, 1}, {GF2NADD, 32, 2}, {GF2NADD, 32, 4}, {GF2NADD, 64, 8}, {GF2NADD, 128, 16},
        {GFPFFT, 64, 1}, {GFPFFT, 64, 2}, {GFPFFT, 64, 4},
        {NF4K, 32, 2}, {NF4K, 64, 2}, {NF4K, 64, 4}, {NF4K, 128, 2}, {NF4K, 128, 4}, {NF4K, 128, 8}};
    return c;
}
} // namespace hx
#endif
