// Fields, transforms, matrices and the C interface, used by one thread alone.
#include "thread_jobs.h"
#include "fields.h"
#include "quadiron_c.h"
#include "fft_2n.h"
#include "fft_add.h"
#include "fft_ct.h"
#include "fft_naive.h"
#include "vec_buffers.h"
#include "vec_matrix.h"
#include "vec_poly.h"
#include "vec_vector.h"
namespace hx {
namespace vec = quadiron::vec;
namespace fft = quadiron::fft;
typedef std::function<void(int)> J;

struct Dig {
    uint64_t h = 1469598103934665603ULL;
    template <typename T> void add(T v) { h = fnv(&v, sizeof v, h); }
    template <typename T> void addv(const vec::Vector<T>& v)
    {
        for (int i = 0; i < v.get_n(); i++)
            add(v.get(i));
    }
    template <typename T> void addb(vec::Buffers<T>& b)
    {
        for (int i = 0; i < b.get_n(); i++)
            h = fnv(b.get(i), b.get_size() * sizeof(T), h);
    }
};

template <typename T> static void work(const Spec<T>& s, Rng& rng, const J& jit, Dig& d)
{
    Fld<T> f = make_field<T>(s);
    jit(1);
    const gf::Field<T>& g = *f.gf;
    d.add(g.card());
    // scalars
    for (int i = 0; i < 30; i++) {
        T a = (T)f.elem(rng), b = (T)f.elem(rng, true);
        d.add(g.add(a, b));
        d.add(g.mul(a, b));
        d.add(g.div(a, b));
        d.add(g.exp(b, (T)rng.below(1000)));
    }
    jit(2);
    if (s.kind != NF4 && f.rf->order() < ((u128)1 << 33)) {
        d.add(g.get_primitive_root());
        for (int i = 0; i < 3; i++) {
            unsigned n = 1 + (unsigned)rng.below(40);
            d.add(g.get_code_len((T)n));
            d.add(g.get_code_len_high_compo((T)n));
            d.add(g.get_order((T)f.elem(rng, true)));
        }
    }
    jit(3);
    // bulk
    unsigned n = 1 + (unsigned)rng.below(40);
    vec::Vector<T> u(g, n), v(g, n);
    for (unsigned i = 0; i < n; i++) {
        u.set(i, (T)f.elem(rng));
        v.set(i, (T)f.elem(rng));
    }
    u.add(&v);
    d.addv(u);
    if (s.kind != NF4) {
        u.mul_scalar((T)f.elem(rng));
        d.addv(u);
    }
    jit(4);
    // transforms
    if (s.kind != BINEXT) {
        u128 p = s.kind == NF4 ? 65537 : s.p;
        unsigned two = 1;
        while ((p - 1) % (two * 2) == 0 && two < 64)
            two *= 2;
        if (two >= 2) {
            unsigned len = 2;
            while (len < two && rng.chance(70))
                len *= 2;
            if (p > len) {
                const size_t pkt = 1 + rng.below(20);
                fft::Radix2<T> x(g, (int)len, (int)len, pkt);
                vec::Vector<T> in(g, (int)len), out(g, (int)len), back(g, (int)len);
                for (unsigned i = 0; i < len; i++)
                    in.set(i, (T)f.elem(rng));
                x.fft(out, in);
                d.addv(out);
                x.ifft(back, out);
                d.addv(back);
                jit(5);
                vec::Buffers<T> bi((int)len, pkt), bo((int)len, pkt);
                for (unsigned i = 0; i < len; i++)
                    for (size_t j = 0; j < pkt; j++)
                        bi.get((int)i)[j] = (T)f.elem(rng);
                x.fft(bo, bi);
                d.addb(bo);
            }
        }
    } else if (s.n >= 4) {
        unsigned m = 1 + (unsigned)rng.below(s.n >= 8 ? 5 : 3);
        fft::Additive<T> x(g, (T)m);
        unsigned len = 1u << m;
        vec::Vector<T> in(g, (int)len), out(g, (int)len), back(g, (int)len);
        for (unsigned i = 0; i < len; i++)
            in.set(i, (T)f.elem(rng));
        x.fft(out, in);
        d.addv(out);
        x.ifft(back, out);
        d.addv(back);
    }
    jit(6);
    // matrices
    if (s.kind != NF4 && f.rf->order() > 20) {
        unsigned k = 1 + (unsigned)rng.below(5);
        vec::Matrix<T> m(g, (int)k, (int)k);
        m.cauchy();
        m.inv();
        for (unsigned i = 0; i < k; i++)
            for (unsigned j = 0; j < k; j++)
                d.add(m.get((int)i, (int)j));
    }
    if (s.kind == PRIME) {
        vec::Poly<T> a(g, 30), b(g, 30);
        for (int i = 0; i < 6; i++) {
            a.set(i, (T)f.elem(rng));
            b.set(i, (T)f.elem(rng));
        }
        a.mul(&b, 10);
        for (int i = 0; i < 11; i++)
            d.add(a.get(i));
    }
}

struct Cls {
    unsigned tb, idx;
};
template <typename T> static void refs()
{
    for (auto& s : field_specs<T>()) // the reference side only, never the library
        s.kind == BINEXT ? (void)ref::gf2n(s.n) : (void)ref::gfp(s.p);
}
static std::vector<Cls> classes()
{
    refs<uint16_t>();
    refs<uint32_t>();
    refs<uint64_t>();
    refs<u128>();
    std::vector<Cls> c;
    auto add = [&](unsigned tb, size_t n) {
        for (unsigned i = 0; i < n; i++)
            c.push_back({tb, i});
    };
    add(16, field_specs<uint16_t>().size());
    add(32, field_specs<uint32_t>().size());
    add(64, field_specs<uint64_t>().size());
    add(128, field_specs<u128>().size());
    return c;
}
static const std::vector<Cls> CLS = classes(); // before any thread starts
const unsigned n_field_cls = (unsigned)CLS.size();

template <typename T> static std::string nm(unsigned i)
{
    const Spec<T>& s = field_specs<T>()[i];
    return fmt("%s%s/%s", s.kind == PRIME ? "GF" : s.kind == BINEXT ? "GF2^" : "NF4-", s.kind == PRIME ? str128(s.p).c_str() : fmt("%u", s.n).c_str(), tname<T>());
}
std::string field_cls_name(unsigned c)
{
    const Cls& k = CLS[c % CLS.size()];
    switch (k.tb) {
    case 16: return nm<uint16_t>(k.idx);
    case 32: return nm<uint32_t>(k.idx);
    case 64: return nm<uint64_t>(k.idx);
    default: return nm<u128>(k.idx);
    }
}
uint64_t field_job(unsigned c, Rng rng, const J& jit)
{
    const Cls& k = CLS[c % CLS.size()];
    Dig d;
    switch (k.tb) {
    case 16: work<uint16_t>(field_specs<uint16_t>()[k.idx], rng, jit, d); break;
    case 32: work<uint32_t>(field_specs<uint32_t>()[k.idx], rng, jit, d); break;
    case 64: work<uint64_t>(field_specs<uint64_t>()[k.idx], rng, jit, d); break;
    default: work<u128>(field_specs<u128>()[k.idx], rng, jit, d); break;
    }
    jit(7);
    return d.h;
}

uint64_t capi_job(unsigned cls, Rng rng, const J& jit)
{
    Dig d;
    const int ws = 1 + (cls & 1), sys = (cls >> 1) & 1;
    const int k = 1 + (int)rng.below(6), m = 1 + (int)rng.below(5);
    const size_t block = (size_t)ws * (1 + rng.below(300));
    QuadironFnt32* h = quadiron_fnt32_new(ws, k, m, sys);
    jit(1);
    const size_t md = (size_t)quadiron_fnt32_get_metadata_size(h, block);
    const int npar = sys ? m : k + m;
    std::vector<std::vector<uint8_t>> db(k, std::vector<uint8_t>(block + md)), pb(npar, std::vector<uint8_t>(block + md));
    for (auto& b : db)
        for (auto& x : b)
            x = rng.chance(30) ? 0xff : (uint8_t)rng.next();
    std::vector<uint8_t*> dp(k), pp(npar);
    for (int i = 0; i < k; i++)
        dp[i] = db[i].data();
    for (int i = 0; i < npar; i++)
        pp[i] = pb[i].data();
    std::vector<int> wanted(npar, 1);
    auto dig = [&](const std::vector<uint8_t>& b) { d.h = fnv(b.data(), b.size(), d.h); };
    d.add(quadiron_fnt32_encode(h, dp.data(), pp.data(), wanted.data(), block));
    for (auto& b : pb)
        dig(b);
    jit(2);
    auto orig = db;
    std::vector<int> missing(k + m, 0);
    std::vector<int> ids(k + m);
    for (int i = 0; i < k + m; i++)
        ids[i] = i;
    rng.shuffle(ids);
    for (int i = 0; i < m; i++)
        missing[ids[i]] = 1;
    if (!sys)
        for (auto& b : db)
            std::fill(b.begin(), b.end(), 0);
    else
        for (int i = 0; i < k; i++)
            if (missing[i])
                std::fill(db[i].begin(), db[i].end(), 0);
    d.add(quadiron_fnt32_decode(h, dp.data(), pp.data(), missing.data(), block));
    for (auto& b : db)
        d.h = fnv(b.data() + md, block, d.h);
    jit(3);
    for (int i = 0; i < k + m; i++)
        if (missing[i]) {
            std::vector<std::vector<uint8_t>> d2 = db, p2 = pb;
            std::vector<uint8_t*> dp2(k), pp2(npar);
            for (int j = 0; j < k; j++)
                dp2[j] = d2[j].data();
            for (int j = 0; j < npar; j++)
                pp2[j] = p2[j].data();
            d.add(quadiron_fnt32_reconstruct(h, dp2.data(), pp2.data(), missing.data(), (unsigned)i, block));
            dig(sys && i < k ? d2[i] : p2[sys ? i - k : i]);
            break;
        }
    quadiron_fnt32_delete(h);
    jit(4);
    return d.h;
}
} // namespace hx
