// Every supported field of the library next to its reference.
#ifndef HX_FIELDS_H
#define HX_FIELDS_H
#include "common.h"
#include "ref.h"
#include "quadiron.h"

namespace hx {
namespace gf = quadiron::gf;

template <typename T> inline const char* tname();
template <> inline const char* tname<uint8_t>() { return "u8"; }
template <> inline const char* tname<uint16_t>() { return "u16"; }
template <> inline const char* tname<uint32_t>() { return "u32"; }
template <> inline const char* tname<uint64_t>() { return "u64"; }
template <> inline const char* tname<u128>() { return "u128"; }

enum Kind { PRIME, BINEXT, NF4 };

template <typename T> struct Fld {
    Kind kind;
    u128 p;        // characteristic (prime) or 2
    unsigned n;    // degree, or number of lanes
    std::unique_ptr<gf::Field<T>> gf;
    const ref::Field* rf; // of one lane for NF4
    std::string name;
    u128 q() const { return rf->order() + 1; } // 0 for 2^128

    u128 lane(u128 v, unsigned i) const { return (v >> (32 * i)) & 0xffffffffu; }
    template <typename F> u128 lanes(u128 a, u128 b, F f) const
    {
        if (kind != NF4)
            return f(a, b);
        u128 r = 0;
        for (unsigned i = 0; i < n; i++)
            r |= f(lane(a, i), lane(b, i)) << (32 * i);
        return r;
    }
    u128 add(u128 a, u128 b) const { return lanes(a, b, [&](u128 x, u128 y) { return rf->add(x, y); }); }
    u128 sub(u128 a, u128 b) const { return lanes(a, b, [&](u128 x, u128 y) { return rf->sub(x, y); }); }
    u128 mul(u128 a, u128 b) const { return lanes(a, b, [&](u128 x, u128 y) { return rf->mul(x, y); }); }
    u128 neg(u128 a) const { return sub(0, a); }
    u128 inv(u128 a) const { return lanes(a, 0, [&](u128 x, u128) { return rf->inv(x); }); }
    u128 pow(u128 a, u128 e) const { return lanes(a, e, [&](u128 x, u128 y) { return rf->pow(x, y); }); }
    // the same exponent for every lane
    u128 powi(u128 a, u128 e) const { return lanes(a, 0, [&](u128 x, u128) { return rf->pow(x, e); }); }
    u128 rep(u128 a) const { return lanes(0, 0, [&](u128, u128) { return a; }); }
    bool inside(u128 a) const
    {
        if (kind != NF4)
            return rf->order() >= a;
        for (unsigned i = 0; i < n; i++)
            if (lane(a, i) > 65536)
                return false;
        return n == 4 || (a >> (32 * n)) == 0;
    }
    u128 elem1(Rng& r, bool nonzero) const
    {
        u128 h = rf->order(); // largest element
        switch (r.below(14)) {
        case 0: return nonzero ? 1 : 0;
        case 1: return 1;
        case 2: return h;
        case 3: return h > 1 ? h - 1 : h;
        case 4: return std::min<u128>(h, r.range(1, 3));
        case 5: {
            u128 v = (u128)1 << r.below(128);
            return v <= h ? v : h;
        }
        case 6: { // of any bit length
            u128 v = r.next128() >> r.below(128);
            return v <= h && (v || !nonzero) ? v : h;
        }
        case 7: { // a run of ones, or two single ones
            u128 v = (~(u128)0 >> r.below(128)) << r.below(128);
            if (r.chance(50))
                v = (u128)1 << r.below(128) | (u128)1 << r.below(128);
            if (h != ~(u128)0 && (h & (h + 1)) == 0)
                v &= h; // binary fields: stays in range
            return v <= h && (v || !nonzero) ? v : h;
        }
        default: {
            u128 v = h == ~(u128)0 ? r.next128() : r.below128(h + 1);
            return v == 0 && nonzero ? 1 : v;
        }
        }
    }
    u128 elem(Rng& r, bool nonzero = false) const
    {
        return lanes(0, 0, [&](u128, u128) { return elem1(r, nonzero); });
    }
};

template <typename T> struct Spec {
    Kind kind;
    u128 p;
    unsigned n;
};

template <typename T> std::vector<Spec<T>> prime_specs();
inline bool fits(u128 p, unsigned bits) { return p >> (bits - 1) == 0; } // sums of two elements fit

template <typename T> const std::vector<Spec<T>>& field_specs()
{
    static std::vector<Spec<T>> v;
    if (!v.empty())
        return v;
    const unsigned bits = sizeof(T) * 8;
    if (bits < 128) {
        static const uint64_t ps[] = {257, 65537, 2, 3, 5, 7, 11, 13, 17, 31, 97, 193, 251, 509, 3329, 7681, 12289, 32749, 40961, 786433,
                                      998244353, 2013265921, 2147483647, 4294967291ull, 4294967311ull, 2305843009213693951ull};
        for (uint64_t p : ps)
            if (fits(p, bits))
                v.push_back({PRIME, p, 1});
    }
    static const unsigned ns[] = {1, 2, 3, 4, 8, 16, 32, 64, 128};
    for (unsigned n : ns)
        if (n <= bits && (n > 16 || n < bits))
            v.push_back({BINEXT, 2, n});
    if (bits >= 32)
        for (unsigned n = 1; n <= bits / 32; n++)
            v.push_back({NF4, 65537, n});
    return v;
}

template <typename T> std::unique_ptr<gf::Field<T>> make_prime(u128 p, std::false_type) { return gf::alloc<gf::Field<T>, gf::Prime<T>>((T)p); }
template <typename T> std::unique_ptr<gf::Field<T>> make_prime(u128, std::true_type) { return nullptr; }
template <typename T> std::unique_ptr<gf::Field<T>> make_nf4(unsigned n, std::false_type) { return gf::alloc<gf::Field<T>, gf::NF4<T>>(n); }
template <typename T> std::unique_ptr<gf::Field<T>> make_nf4(unsigned, std::true_type) { return nullptr; }

template <typename T> Fld<T> make_field(const Spec<T>& s)
{
    Fld<T> f;
    f.kind = s.kind;
    f.p = s.p;
    f.n = s.n;
    switch (s.kind) {
    case PRIME:
        f.name = fmt("GF(%s)/%s", str128(s.p).c_str(), tname<T>());
        f.rf = &ref::gfp(s.p);
        f.gf = make_prime<T>(s.p, std::integral_constant<bool, sizeof(T) == 16>());
        break;
    case BINEXT:
        f.name = fmt("GF(2^%u)/%s", s.n, tname<T>());
        f.rf = &ref::gf2n(s.n);
        f.gf = gf::alloc<gf::Field<T>, gf::BinExtension<T>>((T)s.n);
        break;
    case NF4:
        f.name = fmt("NF4[%u]/%s", s.n, tname<T>());
        f.rf = &ref::gfp(65537);
        f.gf = make_nf4<T>(s.n, std::integral_constant<bool, sizeof(T) == 2>());
        break;
    }
    return f;
}

// Fields are built once per process and destroyed at exit.
template <typename T> const Fld<T>& field(size_t idx)
{
    static std::map<size_t, Fld<T>> cache;
    auto it = cache.find(idx);
    if (it == cache.end())
        it = cache.emplace(idx, make_field<T>(field_specs<T>()[idx])).first;
    return it->second;
}
} // namespace hx
#endif
