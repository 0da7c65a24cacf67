// Independent reference arithmetic: nothing here comes from /repo.
#ifndef HX_REF_H
#define HX_REF_H
#include "common.h"
#include <tuple>

namespace ref {
using hx::u128;

// ---- 256-bit helpers for modular multiplication of 128-bit values
inline u128 addmod(u128 a, u128 b, u128 m)
{
    a %= m;
    b %= m;
    return (a >= m - b && b != 0) ? a - (m - b) : a + b;
}
inline u128 mulmod(u128 a, u128 b, u128 m)
{
    a %= m;
    b %= m;
    if (a <= UINT64_MAX && b <= UINT64_MAX)
        return (a * b) % m;
    u128 r = 0;
    while (b) {
        if (b & 1)
            r = addmod(r, a, m);
        a = addmod(a, a, m);
        b >>= 1;
    }
    return r;
}
inline u128 powmod(u128 a, u128 e, u128 m)
{
    u128 r = 1 % m;
    a %= m;
    while (e) {
        if (e & 1)
            r = mulmod(r, a, m);
        a = mulmod(a, a, m);
        e >>= 1;
    }
    return r;
}
inline u128 gcd(u128 a, u128 b)
{
    while (b) {
        u128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
inline std::vector<uint64_t> prime_divs64(uint64_t n)
{
    std::vector<uint64_t> v;
    for (uint64_t p = 2; p * p <= n; p += (p == 2 ? 1 : 2)) {
        if (n % p == 0) {
            v.push_back(p);
            while (n % p == 0)
                n /= p;
        }
    }
    if (n > 1)
        v.push_back(n);
    return v;
}

// ---- fields
struct Field {
    virtual ~Field() {}
    virtual u128 add(u128 a, u128 b) const = 0;
    virtual u128 sub(u128 a, u128 b) const = 0;
    virtual u128 mul(u128 a, u128 b) const = 0;
    virtual u128 order() const = 0; // q-1
    virtual std::vector<u128> order_primes() const = 0;
    u128 neg(u128 a) const { return sub(0, a); }
    u128 pow(u128 a, u128 e) const
    {
        u128 r = 1;
        while (e) {
            if (e & 1)
                r = mul(r, a);
            a = mul(a, a);
            e >>= 1;
        }
        return r;
    }
    u128 inv(u128 a) const { return pow(a, order() - 1); }
    bool is_primitive(u128 g) const
    {
        if (g == 0)
            return false;
        for (u128 p : order_primes())
            if (pow(g, order() / p) == 1)
                return false;
        return true;
    }
    u128 smallest_primitive() const
    {
        for (u128 g = 2;; g++)
            if (is_primitive(g))
                return g;
    }
    u128 elem_order(u128 a) const
    {
        u128 o = order();
        for (u128 p : order_primes())
            while (o % p == 0 && pow(a, o / p) == 1)
                o /= p;
        return o;
    }
};

struct GFp : Field {
    u128 p;
    std::vector<u128> pr;
    explicit GFp(u128 p_) : p(p_)
    {
        for (auto q : prime_divs64((uint64_t)(p - 1)))
            pr.push_back(q);
    }
    u128 add(u128 a, u128 b) const override { return addmod(a, b, p); }
    u128 sub(u128 a, u128 b) const override { return addmod(a, b % p == 0 ? 0 : p - b % p, p); }
    u128 mul(u128 a, u128 b) const override { return mulmod(a, b, p); }
    u128 order() const override { return p - 1; }
    std::vector<u128> order_primes() const override { return pr; }
};

// GF(2^n), n <= 128, reduction polynomial x^n + low
struct GF2n : Field {
    unsigned n;
    u128 low, top, mask;
    GF2n(unsigned n_, u128 low_) : n(n_), low(low_)
    {
        top = (u128)1 << (n - 1);
        mask = n == 128 ? ~(u128)0 : (((u128)1 << n) - 1);
    }
    u128 add(u128 a, u128 b) const override { return a ^ b; }
    u128 sub(u128 a, u128 b) const override { return a ^ b; }
    u128 mul(u128 a, u128 b) const override
    {
        u128 r = 0;
        while (b) {
            if (b & 1)
                r ^= a;
            b >>= 1;
            a = (a & top) ? (((a ^ top) << 1) ^ low) : (a << 1);
        }
        return r & mask;
    }
    u128 order() const override { return mask; }
    std::vector<u128> order_primes() const override
    {
        switch (n) {
        case 1: return {};
        case 2: return {3};
        case 3: return {7};
        case 4: return {3, 5};
        case 8: return {3, 5, 17};
        case 16: return {3, 5, 17, 257};
        case 32: return {3, 5, 17, 257, 65537};
        case 64: return {3, 5, 17, 257, 65537, 641, 6700417};
        case 128:
            return {3, 5, 17, 257, 65537, 641, 6700417, 274177, 67280421310721ULL};
        }
        abort();
    }
    // The representation the format is defined over.
    static u128 poly_low(unsigned n)
    {
        switch (n) {
        case 1: return 0x1;
        case 2: return 0x3;
        case 3: return 0x3;
        case 4: return 0x3;
        case 8: return 0x1d;
        case 16: return 0x100b;
        case 32: return 0x8d;
        case 64: return 0x1b;
        case 128: return 0x87;
        }
        abort();
    }
};

inline const GFp& gfp(u128 p)
{
    static auto& c = *new std::map<uint64_t, GFp*>;
    auto*& x = c[(uint64_t)p];
    if (!x)
        x = new GFp(p);
    return *x;
}
inline const GF2n& gf2n(unsigned n)
{
    static auto& c = *new std::map<unsigned, GF2n*>;
    auto*& x = c[n];
    if (!x)
        x = new GF2n(n, GF2n::poly_low(n));
    return *x;
}
inline u128 primitive(const Field& f)
{
    static auto& c = *new std::map<const Field*, u128>;
    auto it = c.find(&f);
    if (it != c.end())
        return it->second;
    return c[&f] = f.smallest_primitive();
}

// Rank over a field; true if the square matrix is invertible.
inline bool invertible(const Field& f, std::vector<std::vector<u128>> m)
{
    size_t n = m.size();
    for (size_t c = 0; c < n; c++) {
        size_t p = c;
        while (p < n && m[p][c] == 0)
            p++;
        if (p == n)
            return false;
        std::swap(m[c], m[p]);
        u128 iv = f.inv(m[c][c]);
        for (size_t r = c + 1; r < n; r++) {
            if (m[r][c] == 0)
                continue;
            u128 k = f.mul(m[r][c], iv);
            for (size_t j = c; j < n; j++)
                m[r][j] = f.sub(m[r][j], f.mul(k, m[c][j]));
        }
    }
    return true;
}

// Lagrange: rows of coefficients that map values at points xs to the value at x
inline std::vector<u128> lagrange_row(const Field& f, const std::vector<u128>& xs, u128 x)
{
    size_t k = xs.size();
    std::vector<u128> row(k);
    for (size_t j = 0; j < k; j++) {
        u128 num = 1, den = 1;
        for (size_t t = 0; t < k; t++) {
            if (t == j)
                continue;
            num = f.mul(num, f.sub(x, xs[t]));
            den = f.mul(den, f.sub(xs[j], xs[t]));
        }
        row[j] = f.mul(num, f.inv(den));
    }
    return row;
}
} // namespace ref
#endif
