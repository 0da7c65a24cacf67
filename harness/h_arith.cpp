// C14: number-theoretic helpers against independent oracles.
#include "common.h"
#include "ref.h"
#include "fields.h"
using namespace hx;
namespace ar = quadiron::arith;

static bool mr_prime(u128 n)
{
    if (n < 2)
        return false;
    static const unsigned ps[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
    for (unsigned p : ps)
        if (n % p == 0)
            return n == p;
    u128 d = n - 1;
    int s = 0;
    while (d % 2 == 0)
        d /= 2, s++;
    for (unsigned p : ps) {
        u128 x = ref::powmod(p, d, n);
        if (x == 1 || x == n - 1)
            continue;
        bool ok = false;
        for (int i = 1; i < s && !ok; i++) {
            x = ref::mulmod(x, x, n);
            ok = x == n - 1;
        }
        if (!ok)
            return false;
    }
    return true;
}


static u128 any(Rng& r, unsigned bits)
{
    unsigned b = r.range(1, bits);
    u128 v = r.next128();
    if (b < 128)
        v &= ((u128)1 << b) - 1;
    const u128 top = bits == 128 ? ~(u128)0 : ((u128)1 << bits) - 1;
    switch (r.below(10)) {
    case 0: return b == 128 ? ~(u128)0 : ((u128)1 << b) - 1;
    case 1: return (u128)1 << (b - 1);
    case 2: return r.below(4);
    case 3: // just below the largest value of the type
        return top - (top >> 1 < 70000 ? r.below128(top / 2 + 1) : r.below(r.chance(50) ? 5 : 70000));
    default: return v;
    }
}
static uint64_t rand_prime(Rng& r, unsigned maxbits)
{
    while (true) {
        uint64_t v = r.next() >> (64 - r.range(2, maxbits));
        if (v == 2 || v == 3)
            return v;
        v |= 1;
        for (int i = 0; i < 200; i++, v += 2)
            if ((maxbits == 64 || v >> maxbits == 0) && mr_prime(v))
                return v;
    }
}

struct Factored {
    u128 n = 1;
    std::map<uint64_t, int> f;
    std::string str() const
    {
        std::string s = str128(n) + "=";
        for (auto& x : f)
            s += fmt("%lu^%d ", (unsigned long)x.first, x.second);
        return s;
    }
};
// a number below 2^bits with known factorisation; all its primes but the
// largest below 2^18, so that trial division stays affordable
static Factored factored(Rng& r, unsigned bits)
{
    Factored x;
    if (bits <= 32 && r.chance(35)) { // any number, the largest ones included
        x.n = any(r, bits);
        if (r.chance(50))
            x.n = ((u128)1 << bits) - 1 - r.below(r.chance(30) ? 20 : 140000);
        if (x.n == 0)
            x.n = 1;
        uint64_t m = (uint64_t)x.n;
        for (uint64_t p = 2; p * p <= m; p++)
            while (m % p == 0)
                m /= p, x.f[p]++;
        if (m > 1)
            x.f[m]++;
        return x;
    }
    u128 lim = bits == 128 ? ~(u128)0 : ((u128)1 << bits) - 1;
    int style = r.below(5);
    while (true) {
        uint64_t p;
        if (style == 0)
            p = 2;
        else if (style == 1)
            p = rand_prime(r, 4);
        else
            p = rand_prime(r, r.chance(70) ? 6 : 14);
        if (x.n > lim / p)
            break;
        x.n *= p;
        x.f[p]++;
        if (r.chance(style == 2 ? 40 : 8))
            break;
    }
    if (style >= 3 && r.chance(60)) {
        uint64_t p = rand_prime(r, 30);
        if (x.n <= lim / p) {
            x.n *= p;
            x.f[p]++;
        }
    }
    return x;
}

#define CHECK(cond, key, ...)                                                                                                              \
    do {                                                                                                                                   \
        R().obs("facts_checked");                                                                                                          \
        if (!(cond))                                                                                                                       \
            R().viol(key, fmt(__VA_ARGS__));                                                                                               \
    } while (0)

template <typename T> void basic(Rng& r)
{
    const unsigned bits = sizeof(T) * 8;
    const std::string tn = tname<T>();
    // integer square root
    {
        T n = (T)any(r, bits);
        if (r.chance(40)) {
            u128 s = any(r, bits / 2);
            n = (T)(s * s);
            if (r.chance(50) && n > 0)
                n += r.chance(50) ? 1 : -1;
        }
        if (n == 0)
            n = 1;
        R().set_case("sqrt:" + tn, str128(n));
        u128 s = ar::sqrt<T>(n);
        u128 root_max = (u128)1 << (bits / 2);
        CHECK(s < root_max && s * s <= n && (s + 1 == root_max || (s + 1) * (s + 1) > n), "sqrt:" + tn, "sqrt(%s)=%s", str128(n).c_str(), str128(s).c_str());
        R().seen("facts", "sqrt" + tn + str128(n));
    }
    // gcd
    {
        u128 g = any(r, bits / 2), a = any(r, bits / 2), b = any(r, bits / 2);
        T u = (T)(g * a), v = (T)(g * b);
        if (r.chance(30))
            u = (T)any(r, bits), v = (T)any(r, bits);
        R().set_case("gcd:" + tn, str128(u) + " " + str128(v));
        CHECK((u128)ar::gcd<T>(u, v) == ref::gcd(u, v), "gcd:" + tn, "gcd(%s,%s)=%s", str128(u).c_str(), str128(v).c_str(), str128(ar::gcd<T>(u, v)).c_str());
        R().seen("facts", "gcd" + tn + str128(u) + "," + str128(v));
    }
    // Bezout; the 128-bit type has no wider one, so its operands stay below 2^64
    {
        unsigned bb = bits == 128 ? 64 : bits;
        u128 g = any(r, bb / 2), a = any(r, bb / 2), b = any(r, bb / 2);
        u128 u = g * a, v = g * b;
        if (r.chance(40))
            u = any(r, bb), v = any(r, bb);
        R().set_case("extended_gcd:" + tn, str128(u) + " " + str128(v));
        typedef quadiron::SignedDoubleSizeVal<T> S;
        S bz[2], q[2];
        u128 d = (u128)ar::extended_gcd<T>((S)u, (S)v, bz, q);
        u128 d2 = (u128)ar::extended_gcd<T>((S)u, (S)v, nullptr, nullptr);
        CHECK(d == ref::gcd(u, v) && d2 == d, "extended_gcd:" + tn, "gcd(%s,%s)=%s", str128(u).c_str(), str128(v).c_str(), str128(d).c_str());
        u128 x = (u128)bz[0], y = (u128)bz[1];
        if (sizeof(T) < 16) {
            x = (u128)(i128)bz[0];
            y = (u128)(i128)bz[1];
        }
        CHECK(u * x + v * y == d, "bezout:" + tn, "%s*%s+%s*%s != %s", str128(u).c_str(), str128(x).c_str(), str128(v).c_str(), str128(y).c_str(), str128(d).c_str());
        auto mag = [](u128 z) { return (z >> 127) ? (u128)0 - z : z; };
        if (d) {
            u128 q0 = mag((u128)q[0]), q1 = mag((u128)q[1]);
            CHECK(q0 == u / d && q1 == v / d, "gcd-quotients:" + tn, "(%s,%s) quotients %s %s", str128(u).c_str(), str128(v).c_str(), str128(q0).c_str(), str128(q1).c_str());
            CHECK(mag(x) <= std::max<u128>(1, v / d) && mag(y) <= std::max<u128>(1, u / d), "bezout-size:" + tn, "coefficients too large");
        }
        R().seen("facts", "egcd" + tn + str128(u) + "," + str128(v));
    }
    // plain powers that fit
    {
        T b = (T)any(r, r.chance(50) ? 4 : bits / 2);
        u128 v = 1, lim = bits == 128 ? ~(u128)0 : ((u128)1 << bits) - 1;
        unsigned e = 0, want = r.below(b <= 1 ? 50 : bits + 1);
        while (e < want && (b == 0 || v <= lim / b)) {
            v *= b;
            e++;
        }
        R().set_case("exp:" + tn, fmt("%s^%u", str128(b).c_str(), e));
        CHECK((u128)ar::exp<T>(b, (T)e) == v, "exp:" + tn, "%s^%u=%s", str128(b).c_str(), e, str128(ar::exp<T>(b, (T)e)).c_str());
        R().seen("facts", "exp" + tn + fmt("%s^%u", str128(b).c_str(), e));
    }
    // modular powers
    {
        unsigned mb = bits == 128 ? 64 : bits;
        T m = (T)any(r, mb), b = (T)any(r, bits), e = (T)any(r, bits);
        if (m == 0)
            m = 1;
        R().set_case("exp_mod:" + tn, str128(b) + "^" + str128(e) + " mod " + str128(m));
        u128 got = ar::exp_mod<T>(b, e, m);
        CHECK(got == ref::powmod(b, e, m), "exp_mod:" + tn, "got %s", str128(got).c_str());
        R().seen("facts", "expmod" + tn + R().st->desc);
    }
}

static u128 grand(Rng* set, u128 n)
{
    static Rng* g = nullptr;
    if (set) {
        g = set;
        return 0;
    }
    return g->below128(n);
}
template <typename T> static T rand_below(T n) { return (T)grand(nullptr, n); }

static int legendre(u128 n, u128 p)
{
    n %= p;
    if (n == 0)
        return 0;
    return ref::powmod(n, (p - 1) / 2, p) == 1 ? 1 : -1;
}

template <typename T> void residues(Rng& r)
{
    const std::string tn = tname<T>();
    typedef quadiron::SignedDoubleSizeVal<T> S;
    // Jacobi symbols of products of known primes
    {
        u128 m = 1;
        std::vector<uint64_t> ps;
        unsigned cnt = r.below(5);
        for (unsigned i = 0; i < cnt; i++) {
            uint64_t p = rand_prime(r, r.chance(50) ? 5 : sizeof(T) == 4 ? 32 : 60);
            if (p == 2 || m * p >> (sizeof(T) == 4 ? 32 : 62))
                continue;
            m *= p;
            ps.push_back(p);
        }
        u128 n = any(r, sizeof(T) == 4 ? 32 : 62);
        bool negative = sizeof(T) < 16 && r.chance(30);
        int want = 1;
        for (uint64_t p : ps)
            want *= legendre(negative ? (p - n % p) % p : n % p, p);
        R().set_case("jacobi:" + tn, (negative ? "-" : "") + str128(n) + "/" + str128(m));
        S sn = (S)n;
        if (negative)
            sn = (S)((S)0 - sn);
        int got = ar::jacobi<T>(sn, (S)m);
        CHECK(got == want, "jacobi:" + tn, "got %d want %d", got, want);
        R().seen("facts", "jac" + tn + R().st->desc);
        // refused moduli
        int refused = 0;
        S bad = (S)(m + 1);
        if (sizeof(T) < 16 && r.chance(50))
            bad = (S)((S)0 - (S)m);
        R().set_case("jacobi-bad:" + tn, R().st->desc);
        try {
            ar::jacobi<T>(sn, bad);
        } catch (const quadiron::DomainError&) {
            refused = 1;
        }
        CHECK(refused, "jacobi-bad-modulus:" + tn, "an even or negative modulus was accepted");
    }
    // probabilistic primality
    {
        u128 n;
        if (r.chance(50))
            n = rand_prime(r, sizeof(T) == 4 ? 32 : 62);
        else if (r.chance(50))
            n = (u128)rand_prime(r, sizeof(T) == 4 ? 16 : 31) * rand_prime(r, sizeof(T) == 4 ? 16 : 31);
        else
            n = any(r, sizeof(T) == 4 ? 32 : 62);
        static const uint64_t carmichael[] = {561, 1105, 1729, 2465, 2821, 6601, 8911, 41041, 825265};
        if (r.chance(15))
            n = carmichael[r.below(9)];
        n |= 1;
        if (n < 3)
            n = 3;
        bool want = mr_prime(n);
        R().set_case("solovay:" + tn, str128(n));
        grand(&r, 0);
        bool got = ar::solovay_strassen<T>((T)n, rand_below<T>);
        CHECK(got == want, std::string("solovay:") + tn, "%s prime=%d, test says %d", str128(n).c_str(), want, got);
        R().obs(want ? "primes_tested" : "composites_tested");
        R().seen("facts", "ss" + tn + str128(n));
    }
    // trial division
    for (int rep = 0; rep < 4; rep++) {
        u128 n;
        const unsigned tb = sizeof(T) * 8;
        switch (r.below(7)) {
        case 3: // the largest numbers that have two factors of half the size
            n = (u128)(65535 - r.below(400)) * (65535 - r.below(400));
            break;
        case 4: // primes and others at the upper end of 32 bits
            n = 0xffffffffULL - r.below(r.chance(30) ? 20 : 140000);
            break;
        case 5: // the upper end of the type, with a factor that is found soon
            n = (tb == 128 ? ~(u128)0 : ((u128)1 << tb) - 1) - r.below(100000);
            n -= n % (u128)(2 + r.below(60000));
            break;
        case 6: { // around the square of a prime
            uint64_t p = rand_prime(r, 16);
            n = (u128)p * p + r.below(5);
            if (n > 2)
                n -= 2;
            break;
        }
        case 0: n = r.below(200); break;
        case 1: n = rand_prime(r, 32); break;
        case 2: {
            uint64_t p = rand_prime(r, 16);
            n = (u128)p * p;
            break;
        }
        default: n = (u128)rand_prime(r, 16) * rand_prime(r, 16);
        }
        bool want = mr_prime(n);
        R().set_case("is_prime:" + tn, str128(n));
        CHECK(ar::is_prime<T>((T)n) == want, "is_prime:" + tn, "%s prime=%d", str128(n).c_str(), want);
        R().seen("facts", "ip" + tn + str128(n));
    }
}

// Chinese remaindering with coprime moduli whose product fits the type
template <typename T> void crt(Rng& r)
{
    const std::string tn = tname<T>();
        unsigned bits = sizeof(T) * 8;
        int k = r.range(1, 5);
        u128 prod = 1, lim = ((u128)1 << bits) - 1;
        std::vector<T> mod;
        for (int i = 0; i < k; i++) {
            u128 m = any(r, r.chance(50) ? bits / k : bits);
            if (m < 1 || prod > lim / m || ref::gcd(prod, m) != 1)
                continue;
            mod.push_back((T)m);
            prod *= m;
        }
        if (mod.empty())
            mod.push_back(7), prod = 7;
        u128 x = r.below128(prod);
        if (r.chance(20))
            x = prod - 1;
        std::vector<T> a;
        std::string d;
        for (auto m : mod) {
            a.push_back((T)(x % m));
            d += str128(x % m) + "%" + str128(m) + " ";
        }
        R().set_case("chinese_remainder:" + tn, d);
        u128 got = ar::chinese_remainder<T>((int)mod.size(), a.data(), mod.data());
        CHECK(got == x, "chinese_remainder:" + tn, "got %s want %s", str128(got).c_str(), str128(x).c_str());
        R().seen("facts", "crt" + tn + d);
}

template <typename T> void factors(Rng& r)
{
    const unsigned bits = sizeof(T) == 16 ? 90 : sizeof(T) * 8;
    const std::string tn = tname<T>();
    Factored x = factored(r, bits);
    if (r.chance(20)) { // small numbers completely
        x = Factored();
        uint64_t n = r.range(1, 600), m = n;
        x.n = n;
        for (uint64_t p = 2; m > 1; p++)
            while (m % p == 0)
                m /= p, x.f[p]++;
    }
    T n = (T)x.n;
    std::string d = x.str();
    R().seen("facts", "fac" + tn + d);
    std::vector<T> dist, all, prop, cop;
    std::vector<int> ex;
    for (auto& f : x.f) {
        dist.push_back((T)f.first);
        ex.push_back(f.second);
        T q = 1;
        for (int i = 0; i < f.second; i++) {
            all.push_back((T)f.first);
            q *= (T)f.first;
        }
        cop.push_back(q);
        if (f.first < x.n)
            prop.push_back((T)(x.n / f.first));
    }
    auto sorted = [](std::vector<T> v) {
        std::sort(v.begin(), v.end());
        return v;
    };
    R().set_case("factors:" + tn, d);
    CHECK(sorted(ar::factor_distinct_prime<T>(n)) == dist, "factor_distinct_prime:" + tn, "%s", d.c_str());
    std::vector<T> pr;
    std::vector<int> e2;
    ar::factor_prime<T>(n, &pr, &e2);
    CHECK(pr == dist && e2 == ex, "factor_prime:" + tn, "%s", d.c_str());
    CHECK(sorted(ar::get_prime_factors<T>(n)) == all, "get_prime_factors:" + tn, "%s", d.c_str());
    CHECK(sorted(ar::get_prime_factors<T>(dist, ex)) == all, "get_prime_factors2:" + tn, "%s", d.c_str());
    CHECK(sorted(ar::get_coprime_factors<T>(n)) == sorted(cop), "get_coprime_factors:" + tn, "%s", d.c_str());
    CHECK(sorted(ar::get_proper_divisors<T>(n)) == sorted(prop), "get_proper_divisors:" + tn, "%s", d.c_str());
    CHECK(sorted(ar::get_proper_divisors<T>(n, dist)) == sorted(prop), "get_proper_divisors2:" + tn, "%s", d.c_str());
    R().obs("numbers_factored");
    // all divisors, from the factorisation
    std::vector<T> divs(1, 1);
    if (x.n < ((u128)1 << 34)) {
        for (auto& f : x.f) {
            size_t m = divs.size();
            T q = 1;
            for (int i = 0; i < f.second; i++) {
                q *= (T)f.first;
                for (size_t j = 0; j < m; j++)
                    divs.push_back(divs[j] * q);
            }
        }
        std::sort(divs.begin(), divs.end());
        R().set_case("divisors:" + tn, d);
        std::vector<T> got = ar::get_all_divisors<T>(n);
        CHECK(sorted(got) == divs, "get_all_divisors:" + tn, "%s: %zu divisors, %zu returned", d.c_str(), divs.size(), got.size());
        R().obs("divisor_lists");
        // code lengths
        for (int i = 0; i < 6; i++) {
            T lo = r.chance(25) ? divs[r.below(divs.size())] : (T)(1 + r.below128(x.n));
            if (r.chance(20))
                lo = (T)r.range(1, std::min<uint64_t>(6, (uint64_t)x.n));
            if (r.chance(30))
                lo = (T)std::min<u128>(x.n, divs[r.below(divs.size())] + (u128)1);
            T want = *std::lower_bound(divs.begin(), divs.end(), lo);
            R().set_case("get_code_len:" + tn, d + " at least " + str128(lo));
            T g = ar::get_code_len<T>(n, lo);
            CHECK(g == want, "get_code_len:" + tn, "got %s want %s", str128(g).c_str(), str128(want).c_str());
            // composite lengths: a divisor >= lo none of whose maximal proper
            // divisors is still >= lo
            R().set_case("get_code_len_high_compo:" + tn, d + " at least " + str128(lo));
            for (int v = 0; v < 2; v++) {
                T h = v ? ar::get_code_len_high_compo<T>(all, lo) : ar::get_code_len_high_compo<T>(n, lo);
                bool ok = h >= lo && h > 0 && n % h == 0;
                for (auto p : dist)
                    if (ok && h % p == 0 && h / p >= lo)
                        ok = false;
                CHECK(ok, "get_code_len_high_compo:" + tn, "got %s for at least %s", str128(h).c_str(), str128(lo).c_str());
            }
            R().obs("code_lengths");
        }
    }
}

static void ints(Rng& r)
{
    int n = (int)(r.next() >> r.range(33, 63));
    if (r.chance(40)) {
        n = 1 << r.below(31);
        n += (int)r.below(3) - 1;
    }
    R().set_case("ints", fmt("%d", n));
    bool p2 = false;
    int lg = -1;
    for (int i = 0; i < 31; i++) {
        if (n == 1 << i)
            p2 = true;
        if (n >= 1 << i)
            lg = i;
    }
    CHECK(ar::is_power_of_2<uint32_t>(n) == p2, "is_power_of_2", "%d", n);
    CHECK(!ar::is_power_of_2<uint64_t>(-n), "is_power_of_2", "%d", -n);
    if (n > 0) {
        CHECK(ar::log2<uint32_t>(n) == lg && ar::log2<uint64_t>(n) == lg, "log2", "%d: %d", n, ar::log2<uint32_t>(n));
        if (n <= 1 << 30) {
            int want = p2 ? n : 1 << (lg + 1);
            CHECK((int)ar::ceil2<uint32_t>(n) == want && (int)ar::ceil2<uint64_t>(n) == want, "ceil2", "%d", n);
        }
    } else {
        int refused = 0;
        try {
            ar::log2<uint32_t>(0);
        } catch (const quadiron::DomainError&) {
            refused = 1;
        }
        CHECK(refused, "log2-of-zero", "accepted");
    }
    int e = r.below(31);
    CHECK(ar::exp2<uint32_t>(e) == 1 << e && ar::exp2<uint64_t>(e) == 1 << e, "exp2", "%d", e);
    R().seen("facts", fmt("int%d", n));
}

static void one(long i, Rng& r)
{
    switch (i % 3) {
    case 0:
        for (int k = 0; k < 10; k++)
            basic<uint32_t>(r), basic<uint64_t>(r), basic<u128>(r), ints(r);
        break;
    case 1: residues<uint32_t>(r), residues<uint64_t>(r), residues<u128>(r), crt<uint32_t>(r), crt<uint64_t>(r); break;
    default: factors<uint32_t>(r), factors<uint64_t>(r), factors<u128>(r);
    }
}

int main(int argc, char** argv)
{
    R().parse(argc, argv);
    return run_cases(one);
}
