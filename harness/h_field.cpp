// C10, C11, C12: field arithmetic, bulk operations, roots of unity.
#include "fields.h"
#include "parts.h"
#include "vec_vector.h"
#include "vec_buffers.h"
using namespace hx;
namespace vec = quadiron::vec;

#define S(x) str128((u128)(x)).c_str()
#define EXPECT(got, want, key, ...)                                                                                                        \
    do {                                                                                                                                   \
        R().obs("results_compared");                                                                                                       \
        u128 g_ = (u128)(got), w_ = (u128)(want);                                                                                          \
        if (g_ != w_)                                                                                                                      \
            R().viol(std::string(key) + ":" + f.name, fmt(__VA_ARGS__) + " = " + str128(g_) + ", expected " + str128(w_));                \
    } while (0)
#define TRUE_(cond, key, ...)                                                                                                              \
    do {                                                                                                                                   \
        R().obs("results_compared");                                                                                                       \
        if (!(cond))                                                                                                                       \
            R().viol(std::string(key) + ":" + f.name, fmt(__VA_ARGS__));                                                                   \
    } while (0)

// ------------------------------------------------------------------ C10
template <typename T> void pair_ops(const Fld<T>& f, u128 a, u128 b)
{
    const gf::Field<T>& g = *f.gf;
    EXPECT(g.add((T)a, (T)b), f.add(a, b), "add", "%s+%s", S(a), S(b));
    EXPECT(g.sub((T)a, (T)b), f.sub(a, b), "sub", "%s-%s", S(a), S(b));
    EXPECT(g.mul((T)a, (T)b), f.mul(a, b), "mul", "%s*%s", S(a), S(b));
    bool bz = false;
    for (unsigned i = 0; i < (f.kind == NF4 ? f.n : 1); i++)
        bz |= (f.kind == NF4 ? f.lane(b, i) : b) == 0;
    if (!bz)
        EXPECT(g.div((T)a, (T)b), f.mul(a, f.inv(b)), "div", "%s/%s", S(a), S(b));
}
template <typename T> void unary_ops(const Fld<T>& f, u128 a)
{
    const gf::Field<T>& g = *f.gf;
    EXPECT(g.neg((T)a), f.neg(a), "neg", "-%s", S(a));
    TRUE_(g.check((T)a), "check", "element %s not recognised", S(a));
    bool z = false;
    for (unsigned i = 0; i < (f.kind == NF4 ? f.n : 1); i++)
        z |= (f.kind == NF4 ? f.lane(a, i) : a) == 0;
    if (!z) {
        u128 iv = f.inv(a);
        EXPECT(g.inv((T)a), iv, "inv", "1/%s", S(a));
    }
}
template <typename T> void exp_ops(const Fld<T>& f, Rng& r, u128 a, u128 e)
{
    const gf::Field<T>& g = *f.gf;
    EXPECT(g.exp((T)a, (T)e), f.pow(a, e), "exp", "%s^%s", S(a), S(e));
    if (f.kind != NF4) {
        EXPECT(g.exp_quick((T)a, (T)e), f.pow(a, e), "exp_quick", "%s^%s", S(a), S(e));
        u128 s = r.below(40);
        EXPECT(g.exp_naive((T)a, (T)s), f.pow(a, s), "exp_naive", "%s^%s", S(a), S(s));
    }
}
template <typename T> void prime_only(const Fld<T>& f, u128 a, std::true_type)
{
    if (f.kind != PRIME)
        return;
    auto& g = dynamic_cast<gf::Prime<T>&>(*f.gf);
    if (a)
        EXPECT(g.inv_exp((T)a), f.inv(a), "inv_exp", "1/%s", S(a));
    if (a)
        EXPECT(g.inv_bezout((T)a), f.inv(a), "inv_bezout", "1/%s", S(a));
}
template <typename T> void prime_only(const Fld<T>&, u128, std::false_type) {}

template <typename T> void logs(const Fld<T>& f, Rng& r)
{
    const gf::Field<T>& g = *f.gf;
    u128 h = f.rf->order();
    bool small = h < 70000;
    if (h >= 5000 && r.chance(60))
        return; // the search is linear in the group order
    u128 base = f.elem(r, true), want;
    bool solvable = true;
    if (small && r.chance(40)) {
        want = f.elem(r, true);
        for (unsigned i = 0; i < (f.kind == NF4 ? f.n : 1); i++) {
            u128 b1 = f.kind == NF4 ? f.lane(base, i) : base, w1 = f.kind == NF4 ? f.lane(want, i) : want;
            // w is a power of b iff its order divides that of b (cyclic group)
            if (f.rf->elem_order(b1) % f.rf->elem_order(w1) != 0)
                solvable = false;
        }
    } else {
        // the search is linear in the answer, and the exponent 0 has none before the whole order
        u128 e = small ? r.below128(h) : 1 + r.below(300);
        want = f.powi(base, e);
    }
    R().set_case("log:" + f.name, fmt("log base %s of %s solvable=%d", S(base), S(want), solvable));
    try {
        u128 l = g.log((T)base, (T)want);
        TRUE_(solvable, "log-without-solution", "log_%s(%s) = %s", S(base), S(want), S(l));
        EXPECT(f.pow(base, l), want, "log", "%s^%s", S(base), S(l));
        TRUE_(f.inside(l), "log-range", "log_%s(%s) = %s", S(base), S(want), S(l));
    } catch (const quadiron::NoSolution&) {
        TRUE_(!solvable, "log-refused", "log_%s(%s)", S(base), S(want));
        R().obs("unsolvable_logs_refused");
    }
    R().obs("logs");
}

template <typename T> void scalar_case(size_t idx, Rng& r)
{
    const Fld<T>& f = field<T>(idx);
    const gf::Field<T>& g = *f.gf;
    R().set_case("scalar:" + f.name, f.name);
    u128 q = f.q();
    R().obs("field " + f.name);
    // constants
    if (f.kind != NF4) {
        EXPECT(g.card_minus_one(), f.rf->order(), "card_minus_one", "card-1");
        if (q >> 1 && (q >> (sizeof(T) * 8 - 1)) == 0)
            EXPECT(g.card(), q, "card", "card");
        EXPECT(g.get_unit(), 1, "unit", "unit");
        EXPECT(g.replicate((T)1), 1, "replicate", "replicate(1)");
    } else {
        EXPECT(g.card(), f.rep(65537), "card", "card");
        EXPECT(g.card_minus_one(), f.rep(65536), "card_minus_one", "card-1");
        EXPECT(g.get_unit(), f.rep(1), "unit", "unit");
        u128 x = r.below(65537);
        EXPECT(g.replicate((T)x), f.rep(x), "replicate", "replicate(%s)", S(x));
    }
    EXPECT(g.get_p(), f.p, "characteristic", "p");
    EXPECT(g.get_n(), f.n, "degree", "n");
    bool tiny = f.kind != NF4 && q && q <= 17;
    if (tiny) {
        for (u128 a = 0; a < q; a++) {
            unary_ops(f, a);
            for (u128 b = 0; b < q; b++) {
                pair_ops(f, a, b);
                exp_ops(f, r, a, b);
                R().seen("operands", f.name + str128(a) + "," + str128(b));
            }
        }
        R().obs("fields_exhausted");
    }
    bool vast = f.kind == BINEXT && f.n >= 64;
    int cnt = tiny ? 4 : vast ? 300 : 40;
    if (vast)
        R().obs(fmt("operands_in_GF(2^%u)", f.n), cnt);
    for (int i = 0; i < cnt; i++) {
        u128 a = f.elem(r), b = f.elem(r), e = f.elem(r);
        if (r.chance(10))
            b = a;
        if (r.chance(10))
            b = f.neg(a);
        R().set_case("scalar:" + f.name, fmt("%s a=%s b=%s e=%s", f.name.c_str(), S(a), S(b), S(e)));
        pair_ops(f, a, b);
        unary_ops(f, a);
        exp_ops(f, r, a, e);
        prime_only(f, a, std::integral_constant<bool, sizeof(T) != 16>());
        R().seen("operands", f.name + str128(a) + "," + str128(b));
        u128 x = g.rand();
        TRUE_(f.inside(x) && x != 0, "rand", "rand()=%s", S(x));
    }
    if (f.kind == PRIME) {
        for (int i = 0; i < 3; i++) {
            u128 n = 1 + r.below((uint64_t)std::min<u128>(q - 1, 2000000000));
            EXPECT(g.get_inv_n_mod_p((int)n), f.inv(n), "get_inv_n_mod_p", "%s", S(n));
        }
    } else if (f.kind == NF4) {
        u128 n = 1 + r.below(65536);
        EXPECT(g.get_inv_n_mod_p((int)n), f.rep(f.rf->inv(n)), "get_inv_n_mod_p", "%s", S(n));
    }
    // membership of what is outside
    if (f.kind == PRIME)
        TRUE_(!g.check((T)q), "check-outside", "%s accepted", S(q));
    else if (f.kind == BINEXT && f.n < sizeof(T) * 8)
        TRUE_(!g.check((T)q), "check-outside", "%s accepted", S(q));
    if (f.kind != NF4 && q && q <= 300 && r.chance(30)) {
        u128 a = f.elem(r);
        bool sq = false;
        for (u128 x = 0; x < q && !sq; x++)
            sq = f.mul(x, x) == a;
        if (q > 2)
            TRUE_(g.is_quadratic_residue((T)a) == sq, "quadratic-residue", "%s", S(a));
    }
    if (r.chance(f.kind == NF4 ? 15 : 60))
        logs(f, r);
}

// NF4 packing
template <typename T> void packing(Rng& r)
{
    const auto& sp = field_specs<T>();
    for (size_t i = 0; i < sp.size(); i++) {
        if (sp[i].kind != NF4)
            continue;
        const Fld<T>& f = field<T>(i);
        const auto& g = dynamic_cast<const gf::NF4<T>&>(*f.gf);
        u128 v = f.elem(r);
        u128 vals = 0;
        uint32_t flag = 0;
        for (unsigned j = 0; j < f.n; j++) {
            u128 x = f.lane(v, j);
            if (x == 65536)
                flag |= 1u << j;
            else
                vals |= x << (16 * j);
        }
        R().set_case("pack:" + f.name, fmt("%s flag=%x", S(v), flag));
        auto u = g.unpack((T)v);
        EXPECT(u.values, vals, "unpack-values", "unpack(%s)", S(v));
        EXPECT(u.flag, flag, "unpack-flag", "unpack(%s)", S(v));
        quadiron::GroupedValues<T> w;
        g.unpack((T)v, w);
        EXPECT(w.values, vals, "unpack2-values", "unpack(%s)", S(v));
        EXPECT(w.flag, flag, "unpack2-flag", "unpack(%s)", S(v));
        EXPECT(g.pack((T)vals, flag), v, "pack-flag", "pack(%s,%x)", S(vals), flag);
        // without a flag every lane is the plain word
        u128 words = r.next128() & (f.n == 4 ? ~(u128)0 >> 64 : (((u128)1 << (16 * f.n)) - 1));
        u128 want = 0;
        for (unsigned j = 0; j < f.n; j++)
            want |= ((words >> (16 * j)) & 0xffff) << (32 * j);
        EXPECT(g.pack((T)words), want, "pack", "pack(%s)", S(words));
        EXPECT(g.unpack((T)want).values, words, "pack-unpack", "unpack(pack(%s))", S(words));
        u128 ur = g.unpacked_rand();
        TRUE_(f.n == 4 ? (ur >> 64) == 0 : (ur >> (16 * f.n)) == 0, "unpacked_rand", "%s", S(ur));
        EXPECT(g.get_sub_field().card(), 65537, "sub-field", "card");
        R().obs("packings");
        R().seen("operands", "pack" + f.name + str128(v));
    }
}

// A field that was moved still is the same field.
template <typename G, typename T> void moved(const Fld<T>& f, G&& a, Rng& r)
{
    R().set_case("moved:" + f.name, f.name);
    G b(std::move(a));
    for (int i = 0; i < 8; i++) {
        u128 x = f.elem(r), y = f.elem(r, true);
        EXPECT(b.mul((T)x, (T)y), f.mul(x, y), "moved-mul", "%s*%s", S(x), S(y));
        EXPECT(b.add((T)x, (T)y), f.add(x, y), "moved-add", "%s+%s", S(x), S(y));
        EXPECT(b.div((T)x, (T)y), f.mul(x, f.inv(y)), "moved-div", "%s/%s", S(x), S(y));
    }
    R().obs("moved_fields");
}

template <typename T> size_t pick_field(long i, Rng& r)
{
    const auto& sp = field_specs<T>();
    size_t n = sp.size();
    size_t idx = (size_t)i % n;
    // building GF(2^64) and GF(2^128) takes seconds: only some cases pay it
    auto vast = [&](size_t k) { return sp[k].kind == BINEXT && sp[k].n >= 64; };
    if (i % 40 == 20)
        for (size_t k = 0; k < n; k++)
            if (vast(k) && (sp[k].n == 128 || sizeof(T) == 8 || i % 80 == 20)) {
                idx = k;
                if (sp[k].n == 64 && sizeof(T) == 16)
                    break;
            }
    if (i % 40 != 20)
        while (vast(idx))
            idx = r.below(n);
    return idx;
}

#ifdef HX_M_scalar
HX_SPLIT(scalar_case, (size_t, Rng&))
#ifndef HX_HI
static void scalar(long i, Rng& r)
{
    switch (i % 5) {
    case 0: scalar_case<uint16_t>(i / 5 % field_specs<uint16_t>().size(), r); break;
    case 1: scalar_case<uint32_t>(i / 5 % field_specs<uint32_t>().size(), r); break;
    case 2: scalar_case<uint64_t>(pick_field<uint64_t>(i / 5, r), r); break;
    case 3: scalar_case<u128>(pick_field<u128>(i / 5, r), r); break;
    default:
        packing<uint32_t>(r);
        packing<uint64_t>(r);
        packing<u128>(r);
        if (r.chance(40)) {
            const auto& sp = field_specs<uint32_t>();
            size_t k = r.below(sp.size());
            const auto& f = field<uint32_t>(k);
            if (sp[k].kind == BINEXT)
                moved(f, gf::create<gf::BinExtension<uint32_t>>((uint32_t)sp[k].n), r);
            else if (sp[k].kind == PRIME)
                moved(f, gf::create<gf::Prime<uint32_t>>((uint32_t)sp[k].p), r);
            else
                moved(f, gf::create<gf::NF4<uint32_t>>(sp[k].n), r);
            const auto& sp2 = field_specs<u128>();
            k = r.below(sp2.size());
            if (sp2[k].kind == NF4)
                moved(field<u128>(k), gf::create<gf::NF4<u128>>(sp2[k].n), r);
        }
    }
}

static Mode m_scalar("scalar", scalar);
#endif
#endif

// ------------------------------------------------------------------ C11
#ifdef HX_M_bulk
// n elements, aligned as the library's buffers are, between guard zones or
// filling a heap block exactly
template <typename T> struct Arr {
    size_t n;
    bool exact;
    T* base;
    T* p;
    size_t g;
    Arr(size_t n_, bool exact_) : n(n_), exact(exact_)
    {
        g = exact ? 0 : 128 / sizeof(T);
        void* m = nullptr;
        if (posix_memalign(&m, 64, std::max<size_t>(1, (n + 2 * g) * sizeof(T))))
            abort();
        base = (T*)m;
        p = base + g;
        for (size_t i = 0; i < g; i++)
            base[i] = base[g + n + i] = (T)0x5a5a5a5a5a5a5a5aull;
    }
    ~Arr() { free(base); }
    Arr(const Arr&) = delete;
    bool intact() const
    {
        for (size_t i = 0; i < g; i++)
            if (base[i] != (T)0x5a5a5a5a5a5a5a5aull || base[g + n + i] != (T)0x5a5a5a5a5a5a5a5aull)
                return false;
        return true;
    }
};

template <typename T> void fill(const Fld<T>& f, Rng& r, T* p, size_t n)
{
    int style = r.below(4);
    for (size_t i = 0; i < n; i++)
        p[i] = (T)(style == 0 ? f.lanes(0, 0, [&](u128, u128) { return r.chance(50) ? f.rf->order() : f.rf->order() - 1; }) : f.elem(r));
}

template <typename T>
void cmp(const Fld<T>& f, const char* op, const T* got, const std::vector<u128>& want, const std::string& d)
{
    R().obs("elements_compared", want.size());
    for (size_t i = 0; i < want.size(); i++)
        if ((u128)got[i] != want[i]) {
            R().viol(std::string(op) + ":" + f.name, fmt("element %zu of %zu is %s, expected %s; %s", i, want.size(), S(got[i]), S(want[i]), d.c_str()));
            return;
        }
}

template <typename T> void bulk_case(size_t idx, Rng& r)
{
    const Fld<T>& f = field<T>(idx);
    const gf::Field<T>& g = *f.gf;
    R().obs("field " + f.name);
    size_t n = r.chance(60) ? r.below(40) : r.chance(80) ? r.below(160) : r.below(1100);
    if (f.kind == BINEXT && f.n >= 64)
        n = std::min<size_t>(n, 60);
    bool exact = r.chance(50);
    std::string d = fmt("n=%zu exact=%d", n, exact);
    R().seen("shapes", f.name + d);
    auto guard = [&](const char* op, std::initializer_list<const Arr<T>*> l) {
        for (auto* a : l)
            if (!a->intact())
                R().viol(std::string(op) + "-writes-outside:" + f.name, d);
        R().obs("guards_checked");
    };
    auto unchanged = [&](const char* op, const Arr<T>& a, const std::vector<T>& old) {
        if (!std::equal(old.begin(), old.end(), a.p))
            R().viol(std::string(op) + "-changes-source:" + f.name, d);
    };
    Arr<T> a(n, exact), b(n, exact), c(n, exact);
    std::vector<u128> want(n);
    auto fresh = [&]() {
        fill(f, r, a.p, n);
        fill(f, r, b.p, n);
        fill(f, r, c.p, n);
    };
    // element-wise product
    fresh();
    R().set_case("hadamard:" + f.name, d);
    std::vector<T> ob(b.p, b.p + n);
    for (size_t i = 0; i < n; i++)
        want[i] = f.mul(a.p[i], b.p[i]);
    g.hadamard_mul((int)n, a.p, b.p);
    cmp(f, "hadamard_mul", a.p, want, d);
    guard("hadamard_mul", {&a, &b});
    unchanged("hadamard_mul", b, ob);
    // addition into the second
    fresh();
    R().set_case("add_two_bufs:" + f.name, d);
    std::vector<T> oa(a.p, a.p + n);
    for (size_t i = 0; i < n; i++)
        want[i] = f.add(a.p[i], b.p[i]);
    g.add_two_bufs(a.p, b.p, n);
    cmp(f, "add_two_bufs", b.p, want, d);
    guard("add_two_bufs", {&a, &b});
    unchanged("add_two_bufs", a, oa);
    // subtraction
    fresh();
    R().set_case("sub_two_bufs:" + f.name, d);
    oa.assign(a.p, a.p + n);
    ob.assign(b.p, b.p + n);
    for (size_t i = 0; i < n; i++)
        want[i] = f.sub(a.p[i], b.p[i]);
    g.sub_two_bufs(a.p, b.p, c.p, n);
    cmp(f, "sub_two_bufs", c.p, want, d);
    guard("sub_two_bufs", {&a, &b, &c});
    unchanged("sub_two_bufs", a, oa);
    unchanged("sub_two_bufs", b, ob);
    g.sub_two_bufs(a.p, b.p, a.p, n); // in place
    cmp(f, "sub_two_bufs-in-place", a.p, want, d);
    // scaling; the coefficients 0, 1 and -1 are left to mul_vec_to_vecp
    fresh();
    u128 coef = f.elem(r, true);
    u128 one = f.rep(1), mone = f.neg(one);
    bool trivial = false;
    for (unsigned i = 0; i < (f.kind == NF4 ? f.n : 1); i++) {
        u128 l = f.kind == NF4 ? f.lane(coef, i) : coef;
        trivial |= l <= 1 || (f.kind != BINEXT && l == f.rf->order());
    }
    if (!trivial) {
        d += fmt(" coef=%s", S(coef));
        R().set_case("mul_coef:" + f.name, d);
        oa.assign(a.p, a.p + n);
        for (size_t i = 0; i < n; i++)
            want[i] = f.mul(coef, a.p[i]);
        g.mul_coef_to_buf((T)coef, a.p, b.p, n);
        cmp(f, "mul_coef_to_buf", b.p, want, d);
        guard("mul_coef_to_buf", {&a, &b});
        unchanged("mul_coef_to_buf", a, oa);
        g.mul_coef_to_buf((T)coef, a.p, a.p, n);
        cmp(f, "mul_coef_to_buf-in-place", a.p, want, d);
        R().obs("scalings");
    }
    // negation
    fresh();
    R().set_case("neg:" + f.name, d);
    for (size_t i = 0; i < n; i++)
        want[i] = f.neg(a.p[i]);
    g.neg(n, a.p);
    cmp(f, "neg-buf", a.p, want, d);
    guard("neg-buf", {&a});

    // ---- whole sets of packets
    int cnt = r.range(1, 6);
    std::vector<std::unique_ptr<Arr<T>>> as, bs, cs;
    std::vector<T*> pa, pb, pc;
    for (int i = 0; i < cnt; i++) {
        as.emplace_back(new Arr<T>(n, exact));
        bs.emplace_back(new Arr<T>(n, exact));
        cs.emplace_back(new Arr<T>(n, exact));
        pa.push_back(as.back()->p);
        pb.push_back(bs.back()->p);
        pc.push_back(cs.back()->p);
    }
    vec::Buffers<T> A(cnt, n, pa), B(cnt, n, pb), C(cnt, n, pc);
    auto freshv = [&]() {
        for (int i = 0; i < cnt; i++) {
            fill(f, r, pa[i], n);
            fill(f, r, pb[i], n);
            fill(f, r, pc[i], n);
        }
    };
    auto guards = [&](const char* op) {
        for (int i = 0; i < cnt; i++)
            if (!as[i]->intact() || !bs[i]->intact() || !cs[i]->intact())
                R().viol(std::string(op) + "-writes-outside:" + f.name, d);
    };
    freshv();
    R().set_case("add_vecp:" + f.name, d);
    std::vector<std::vector<u128>> w(cnt, std::vector<u128>(n));
    for (int i = 0; i < cnt; i++)
        for (size_t j = 0; j < n; j++)
            w[i][j] = f.add(pa[i][j], pb[i][j]);
    g.add_vecp_to_vecp(A, B);
    for (int i = 0; i < cnt; i++)
        cmp(f, "add_vecp_to_vecp", pb[i], w[i], d);
    guards("add_vecp_to_vecp");
    freshv();
    R().set_case("sub_vecp:" + f.name, d);
    for (int i = 0; i < cnt; i++)
        for (size_t j = 0; j < n; j++)
            w[i][j] = f.sub(pa[i][j], pb[i][j]);
    g.sub_vecp_to_vecp(A, B, C);
    for (int i = 0; i < cnt; i++)
        cmp(f, "sub_vecp_to_vecp", pc[i], w[i], d);
    guards("sub_vecp_to_vecp");
    freshv();
    R().set_case("neg_vecp:" + f.name, d);
    for (int i = 0; i < cnt; i++)
        for (size_t j = 0; j < n; j++)
            w[i][j] = f.neg(pa[i][j]);
    g.neg(A);
    for (int i = 0; i < cnt; i++)
        cmp(f, "neg_vecp", pa[i], w[i], d);
    guards("neg_vecp");
    freshv();
    vec::Vector<T> u(g, cnt);
    std::string us;
    for (int i = 0; i < cnt; i++) {
        u128 x = f.elem(r);
        switch (r.below(6)) {
        case 0: x = 0; break;
        case 1: x = one; break;
        case 2: x = mone; break;
        case 3:
            if (f.kind == NF4)
                x = r.chance(50) ? 1 : f.sub(0, f.rep(2));
            break;
        }
        // lanes that are 0, 1 or -1 next to others are the packed field's own case
        u.set(i, (T)x);
        us += " " + str128(x);
    }
    R().set_case("mul_vec_to_vecp:" + f.name, d + us);
    for (int i = 0; i < cnt; i++)
        for (size_t j = 0; j < n; j++)
            w[i][j] = f.mul(u.get(i), pa[i][j]);
    g.mul_vec_to_vecp(u, A, B);
    for (int i = 0; i < cnt; i++)
        cmp(f, "mul_vec_to_vecp", pb[i], w[i], d + us);
    guards("mul_vec_to_vecp");
    g.mul_vec_to_vecp(u, A, A);
    for (int i = 0; i < cnt; i++)
        cmp(f, "mul_vec_to_vecp-in-place", pa[i], w[i], d + us);
    R().obs("packet_sets");

    // ---- vectors
    if (n > 0 && n < 200) {
        auto mk = [&](size_t len) {
            vec::Vector<T> v(g, (int)len);
            fill(f, r, v.get_mem(), len);
            return v;
        };
        auto snap = [&](const vec::Vector<T>& v) {
            std::vector<u128> s;
            for (int i = 0; i < v.get_n(); i++)
                s.push_back((u128)v.get(i));
            return s;
        };
        R().set_case("vector:" + f.name, d);
        vec::Vector<T> x = mk(n), y = mk(n);
        auto sx = snap(x), sy = snap(y);
        std::vector<u128> e(n);
        x.hadamard_mul(&y);
        for (size_t i = 0; i < n; i++)
            e[i] = f.mul(sx[i], sy[i]);
        cmp(f, "Vector::hadamard_mul", x.get_mem(), e, d);
        sx = snap(x);
        x.add(&y);
        for (size_t i = 0; i < n; i++)
            e[i] = f.add(sx[i], sy[i]);
        cmp(f, "Vector::add", x.get_mem(), e, d);
        u128 k = f.elem(r);
        sx = snap(x);
        x.mul_scalar((T)k);
        for (size_t i = 0; i < n; i++)
            e[i] = f.mul(sx[i], k);
        cmp(f, "Vector::mul_scalar", x.get_mem(), e, d);
        sx = snap(x);
        x.mul_beta((T)k);
        u128 pw = f.rep(1);
        for (size_t i = 0; i < n; i++) {
            e[i] = f.mul(sx[i], pw);
            pw = f.mul(pw, k);
        }
        cmp(f, "Vector::mul_beta", x.get_mem(), e, d);
        sx = snap(x);
        x.neg();
        for (size_t i = 0; i < n; i++)
            e[i] = f.neg(sx[i]);
        cmp(f, "Vector::neg", x.get_mem(), e, d);
        size_t m = r.range(1, n), off = r.below(n - m + 1);
        vec::Vector<T> z = mk(m);
        auto sz = snap(z);
        for (int v = 0; v < 4; v++) {
            sx = snap(x);
            e = sx;
            size_t len = m, o = off;
            switch (v) {
            case 0: x.add(&z, (int)off); break;
            case 1: x.add_mutual(&z); o = 0; break;
            case 2: x.add_mutual(&z, (int)off); break;
            default: len = r.below(m + 1); x.add_mutual(&z, (int)off, (int)len);
            }
            for (size_t i = 0; i < len; i++)
                e[o + i] = f.add(sx[o + i], sz[i]);
            cmp(f, v == 0 ? "Vector::add-offset" : "Vector::add_mutual", x.get_mem(), e, d + fmt(" v=%d m=%zu off=%zu", v, m, off));
        }
        if (snap(y) != sy || snap(z) != sz)
            R().viol("vector-op-changes-source:" + f.name, d);
        R().obs("vector_ops", 9);
        // powers of a root
        int wn = (int)std::min<u128>(n, f.rf->order());
        u128 root = f.elem(r, true);
        vec::Vector<T> W(g, wn);
        g.compute_omegas(W, wn, (T)root);
        e.assign(wn, 0);
        for (int i = 0; i < wn; i++)
            e[i] = f.powi(root, i);
        cmp(f, "compute_omegas", W.get_mem(), e, d);
    }
}

HX_SPLIT(bulk_case, (size_t, Rng&))
#ifndef HX_HI
static void bulk(long i, Rng& r)
{
    // half of the cases on the vectorised fields
    if (r.chance(50)) {
        switch (i % 3) {
        case 0: bulk_case<uint16_t>(0, r); return;                                             // 257
        case 1: bulk_case<uint32_t>(r.below(2), r); return;                                    // 257, 65537
        default: bulk_case<u128>(field_specs<u128>().size() - 1 - r.below(4), r); return;      // NF4
        }
    }
    switch (i % 4) {
    case 0: bulk_case<uint16_t>(i / 4 % field_specs<uint16_t>().size(), r); break;
    case 1: bulk_case<uint32_t>(i / 4 % field_specs<uint32_t>().size(), r); break;
    case 2: bulk_case<uint64_t>(pick_field<uint64_t>(i / 4, r), r); break;
    default: bulk_case<u128>(pick_field<u128>(i / 4, r), r); break;
    }
}

static Mode m_bulk("bulk", bulk);
#endif
#endif

// ------------------------------------------------------------------ C12
#ifdef HX_M_roots
static std::vector<u128> divisors(const ref::Field& f)
{
    u128 h = f.order();
    std::vector<u128> d(1, 1);
    for (u128 p : f.order_primes()) {
        size_t m = d.size();
        u128 q = 1, hh = h;
        while (hh % p == 0) {
            hh /= p;
            q *= p;
            for (size_t j = 0; j < m; j++)
                d.push_back(d[j] * q);
        }
    }
    std::sort(d.begin(), d.end());
    return d;
}

template <typename T> void roots_case(size_t idx, Rng& r)
{
    const Fld<T>& f = field<T>(idx);
    const gf::Field<T>& g = *f.gf;
    R().obs("field " + f.name);
    R().set_case("roots:" + f.name, f.name);
    static std::map<std::string, std::vector<u128>> dc;
    auto& ds = dc[f.name];
    if (ds.empty())
        ds = divisors(*f.rf);
    u128 h = f.rf->order();
    bool vast = f.kind == BINEXT && f.n >= 64;
    if (f.kind == NF4) {
        for (int i = 0; i < 6; i++) {
            u128 n = ds[r.below(ds.size())];
            u128 w = g.get_nth_root((T)n);
            for (unsigned l = 0; l < f.n; l++)
                EXPECT(f.rf->elem_order(f.lane(w, l)), n, "nth-root-order", "order of lane %u of the %s-th root", l, S(n));
            EXPECT(g.get_nth_root((T)n), w, "nth-root-repeat", "%s-th root", S(n));
            R().seen("roots", f.name + str128(n));
        }
        return;
    }
    u128 root = g.get_root();
    TRUE_(f.rf->is_primitive(root) || h == 1, "root-not-primitive", "%s", S(root));
    EXPECT(g.get_primitive_root(), root, "primitive-root-repeat", "get_primitive_root");
    TRUE_(g.is_primitive_root((T)root) && g.check_primitive_root((T)root), "root-not-recognised", "%s", S(root));
    R().obs("generators_checked");
    for (int i = 0; i < (vast ? 2 : 10); i++) {
        u128 n = ds[r.below(ds.size())];
        R().set_case("nth-root:" + f.name, fmt("%s n=%s", f.name.c_str(), S(n)));
        u128 w = g.get_nth_root((T)n);
        EXPECT(f.rf->elem_order(w), n, "nth-root-order", "order of the %s-th root %s", S(n), S(w));
        EXPECT(g.get_nth_root((T)n), w, "nth-root-repeat", "%s-th root", S(n));
        R().seen("roots", f.name + str128(n));
        // orders
        u128 x = r.chance(40) ? w : f.elem(r, true);
        R().set_case("order:" + f.name, fmt("%s x=%s", f.name.c_str(), S(x)));
        u128 o = f.rf->elem_order(x);
        EXPECT(g.get_order((T)x), o, "order", "order of %s", S(x));
        EXPECT(g.get_order((T)x), o, "order-repeat", "order of %s", S(x));
        bool prim = o == h;
        TRUE_(g.is_primitive_root((T)x) == prim, "is_primitive_root", "%s of order %s", S(x), S(o));
        TRUE_(g.check_primitive_root((T)x) == prim, "check_primitive_root", "%s of order %s", S(x), S(o));
        R().obs(prim ? "primitive_elements" : "other_elements");
        u128 claim = r.chance(40) ? o : ds[r.below(ds.size())];
        if (claim < 3000)
            TRUE_(g.check_order_naive((T)x, (T)claim) == (claim == o), "check_order_naive", "%s has order %s, asked %s", S(x), S(o), S(claim));
        R().seen("roots", f.name + "o" + str128(x));
    }
    // code lengths
    for (int i = 0; i < 8; i++) {
        u128 n = r.chance(50) ? ds[r.below(ds.size())] : h == ~(u128)0 ? r.next128() : 1 + r.below128(h);
        if (r.chance(50))
            n = std::min<u128>(h, 1 + r.below(2000));
        if (n == 0)
            n = 1;
        R().set_case("code-length:" + f.name, fmt("%s n=%s", f.name.c_str(), S(n)));
        u128 want = *std::lower_bound(ds.begin(), ds.end(), n);
        if (h >> 34 == 0 || n < 100000) {
            if (!(h >> 34) || want < 100000 || n <= 1000) {
                // larger orders are searched linearly up to the square root
                if (h >> 44 == 0)
                    EXPECT(g.get_code_len((T)n), want, "code_len", "length for at least %s", S(n));
            }
        }
        u128 c = g.get_code_len_high_compo((T)n);
        bool ok = c >= n && h % c == 0;
        for (u128 p : f.rf->order_primes())
            if (ok && c % p == 0 && c / p >= n)
                ok = false;
        TRUE_(ok, "code_len_high_compo", "length %s for at least %s", S(c), S(n));
        R().seen("roots", f.name + "l" + str128(n));
        R().obs("code_lengths");
    }
}

HX_SPLIT(roots_case, (size_t, Rng&))
#ifndef HX_HI
static void roots(long i, Rng& r)
{
    switch (i % 4) {
    case 0: roots_case<uint16_t>(i / 4 % field_specs<uint16_t>().size(), r); break;
    case 1: roots_case<uint32_t>(i / 4 % field_specs<uint32_t>().size(), r); break;
    case 2: roots_case<uint64_t>(pick_field<uint64_t>(i / 4, r), r); break;
    default: roots_case<u128>(pick_field<u128>(i / 4, r), r); break;
    }
}
static Mode m_roots("roots", roots);
#endif
#endif
