// C13: every transform against the defining sum, computed by an independent
// mixed-radix evaluation over the reference field.
#include "fields.h"
#include "parts.h"
#include "fft_2.h"
#include "fft_2n.h"
#include "fft_add.h"
#include "fft_ct.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_naive.h"
#include "fft_single.h"
#include "vec_buffers.h"
#include "vec_slice.h"
#include "vec_vector.h"
#include "vec_view.h"
#include "vec_zero_ext.h"
using namespace hx;
namespace vec = quadiron::vec;
namespace fft = quadiron::fft;
typedef std::vector<u128> V;

#define S(x) str128((u128)(x)).c_str()

enum Variant { NAIVE, SINGLE, SIZE2, RADIX2, CT, GT, LARGE, ADDITIVE };
static const char* VN[] = {"naive", "single", "size2", "radix2", "cooley-tukey", "good-thomas", "large", "additive"};

// X[k] = sum_j x[j] w^(jk)
template <typename F> static V dft(const F& f, const V& x, u128 w)
{
    size_t n = x.size();
    if (n == 1)
        return x;
    size_t p = 2;
    while (n % p)
        p++;
    size_t m = n / p;
    // x[j1 + p j2]: inner transforms of length m with root w^p
    std::vector<V> in(p);
    u128 wp = f.powi(w, p);
    for (size_t j = 0; j < p; j++) {
        V s(m);
        for (size_t i = 0; i < m; i++)
            s[i] = x[j + p * i];
        in[j] = dft(f, s, wp);
    }
    V out(n);
    u128 wk = f.rep(1); // w^k
    for (size_t k = 0; k < n; k++) {
        u128 acc = 0, t = f.rep(1);
        for (size_t j = 0; j < p; j++) {
            acc = f.add(acc, f.mul(in[j][k % m], t));
            t = f.mul(t, wk);
        }
        out[k] = acc;
        wk = f.mul(wk, w);
    }
    return out;
}

template <typename T> static std::vector<unsigned> lens(const Fld<T>& f, Variant v, unsigned maxn, unsigned maxprime)
{
    std::vector<unsigned> o;
    u128 q = f.rf->order();
    for (unsigned n = 1; n <= maxn; n++) {
        if (q % n)
            continue;
        bool ok = true;
        unsigned m = n, pp = 1, big = 1;
        for (unsigned p = 2; p <= m; p++) {
            unsigned e = 1;
            while (m % p == 0) {
                m /= p;
                e *= p;
            }
            if (e > 1) {
                pp = std::max(pp, e);
                big = std::max(big, p);
            }
        }
        bool p2 = (n & (n - 1)) == 0;
        switch (v) {
        case NAIVE: ok = n <= 96; break;
        case SINGLE: ok = n <= 200; break;
        case SIZE2: ok = n == 2 && f.kind != BINEXT; break;
        case RADIX2: ok = p2 && f.kind != BINEXT; break;
        case CT: ok = n >= 2 && big <= maxprime; break;
        case GT: ok = n >= 2 && pp <= maxprime; break;
        case LARGE: ok = p2 && n >= 2 && n <= 256 && f.kind == PRIME; break;
        default: ok = false;
        }
        if (ok)
            o.push_back(n);
    }
    return o;
}

template <typename T> static std::string shape(const Fld<T>& f, const char* what, unsigned n, unsigned in, unsigned extra)
{
    return f.name + "|" + what + fmt("|%u|%u|%u", n, in, extra);
}

template <typename T> static void cmp(const Fld<T>& f, const char* key, const V& got, const V& want, const std::string& what)
{
    R().obs("transforms_compared");
    R().obs("values_compared", want.size());
    for (size_t i = 0; i < want.size(); i++)
        if (got[i] != want[i]) {
            R().viol(std::string(key) + ":" + f.name, fmt("%s: element %zu of %zu is %s, expected %s", what.c_str(), i, want.size(), S(got[i]), S(want[i])));
            return;
        }
}
template <typename T> static V vals(const vec::Vector<T>& v)
{
    V o(v.get_n());
    for (int i = 0; i < v.get_n(); i++)
        o[i] = v.get(i);
    return o;
}
template <typename T> static V content(const Fld<T>& f, Rng& r, unsigned n)
{
    V x(n);
    unsigned style = r.below(6);
    for (unsigned i = 0; i < n; i++)
        switch (style) {
        case 0: x[i] = f.rep(f.rf->order()); break;
        case 1: x[i] = r.chance(85) ? 0 : f.elem(r); break;
        case 2: x[i] = i == n - 1 ? f.elem(r, true) : 0; break;
        default: x[i] = f.elem(r);
        }
    return x;
}

template <typename T> struct Xf {
    std::unique_ptr<fft::FourierTransform<T>> t;
    u128 w = 0;
    unsigned data_len = 0;
};

template <typename T> static std::unique_ptr<fft::FourierTransform<T>> mk_large(const gf::Field<T>& g, unsigned n, u128 w, std::false_type)
{
    unsigned l = 0;
    while ((1u << l) < n)
        l++;
    return std::make_unique<fft::Large<T>>(g, l, (T)w);
}
template <typename T> static std::unique_ptr<fft::FourierTransform<T>> mk_large(const gf::Field<T>&, unsigned, u128, std::true_type) { return nullptr; }

// returns false if the root the library provides is not of order n
template <typename T> static bool make(const Fld<T>& f, Variant v, unsigned n, Rng& r, size_t pkt, Xf<T>& x)
{
    const gf::Field<T>& g = *f.gf;
    x.w = g.get_nth_root((T)n);
    u128 wl = f.kind == NF4 ? f.lane(x.w, 0) : x.w;
    if (f.rf->elem_order(wl) != n || (f.kind == NF4 && x.w != f.rep(wl))) {
        R().viol("nth-root:" + f.name, fmt("the %u-th root %s has order %s", n, S(x.w), S(f.rf->elem_order(wl))));
        return false;
    }
    if ((v == NAIVE || v == LARGE) && r.chance(50)) { // another root of the same order
        for (int i = 0; i < 20; i++) {
            unsigned e = 1 + r.below(n);
            if (ref::gcd(e, n) == 1) {
                x.w = f.powi(x.w, e);
                break;
            }
        }
    }
    switch (v) {
    case NAIVE: x.t = std::make_unique<fft::Naive<T>>(g, n, (T)x.w, pkt); break;
    case SINGLE: x.t = std::make_unique<fft::Single<T>>(g, n); break;
    case SIZE2: x.t = std::make_unique<fft::Size2<T>>(g); break;
    case RADIX2:
        x.data_len = r.chance(25) ? 0 : r.below(n + 1);
        x.t = std::make_unique<fft::Radix2<T>>(g, n, x.data_len, pkt);
        break;
    case CT: x.t = std::make_unique<fft::CooleyTukey<T>>(g, (T)n); break;
    case GT: x.t = std::make_unique<fft::GoodThomas<T>>(g, (T)n); break;
    case LARGE: x.t = mk_large<T>(g, n, x.w, std::integral_constant<bool, sizeof(T) == 16>()); break;
    default: break;
    }
    return true;
}

template <typename T> static V padded(V x, unsigned n)
{
    x.resize(n, 0);
    return x;
}
template <typename T> static u128 inv_n(const Fld<T>& f, unsigned n)
{
    if (f.kind == BINEXT)
        return 1;
    return f.rep(f.rf->inv(n % f.p));
}

// an input vector of `len` values, presented in one of several ways as a
// sequence of `n` (zeros beyond len)
template <typename T> struct Input {
    std::unique_ptr<vec::Vector<T>> base, top;
    vec::Vector<T>* v = nullptr;
    const char* how = "plain";
};
template <typename T> static void mk_input(const Fld<T>& f, Rng& r, const V& x, unsigned n, bool plain_short, Input<T>& in)
{
    unsigned len = x.size();
    const gf::Field<T>& g = *f.gf;
    unsigned k = r.below(4);
    if (len < n && (!plain_short || k == 1) && k != 2) {
        in.how = "zero-extended";
        in.base = std::make_unique<vec::Vector<T>>(g, len);
        for (unsigned i = 0; i < len; i++)
            in.base->set(i, (T)x[i]);
        in.top = std::make_unique<vec::ZeroExtended<T>>(*in.base, n);
        in.v = in.top.get();
        return;
    }
    V y = plain_short ? x : padded<T>(x, n);
    if (k == 2) {
        in.how = "slice";
        unsigned off = r.below(5), tail = r.below(5);
        in.base = std::make_unique<vec::Vector<T>>(g, off + y.size() + tail);
        for (unsigned i = 0; i < off + y.size() + tail; i++)
            in.base->set(i, i >= off && i < off + y.size() ? (T)y[i - off] : (T)f.elem(r));
        in.top = std::make_unique<vec::Slice<T>>(in.base.get(), y.size(), off);
        in.v = in.top.get();
        return;
    }
    in.top = std::make_unique<vec::Vector<T>>(g, y.size());
    for (unsigned i = 0; i < y.size(); i++)
        in.top->set(i, (T)y[i]);
    in.v = in.top.get();
}

template <typename T> static void vector_case(const Fld<T>& f, Variant v, unsigned n, Rng& r)
{
    std::string what = std::string(VN[v]) + fmt(" n=%u", n);
    R().set_case(std::string("transform:") + VN[v] + ":" + f.name, f.name + " " + what);
    Xf<T> x;
    if (!make(f, v, n, r, 0, x))
        return;
    V wt;
    const gf::Field<T>& g = *f.gf;
    if (v == SINGLE) {
        V a{f.elem(r)};
        vec::Vector<T> in(g, n), out(g, n), back(g, n);
        in.zero_fill();
        in.set(0, (T)a[0]);
        for (unsigned i = 0; i < n; i++) {
            out.set(i, (T)f.elem(r));
            back.set(i, (T)f.elem(r));
        }
        V want(n, a[0]);
        x.t->fft(out, in);
        cmp(f, "single-fft", vals(out), want, what);
        x.t->ifft(back, out);
        cmp(f, "single-ifft", vals(back), vals(in), what);
        x.t->fft_inv(back, in);
        cmp(f, "single-fft_inv", vals(back), want, what);
        R().seen("shapes", shape(f, "single", n, 1, 0));
        return;
    }
    u128 wi = f.powi(x.w, n - 1);
    for (int rep = 0; rep < 3; rep++) {
        bool ps = v == RADIX2;
        unsigned len = r.chance(40) ? n : 1 + r.below(n);
        if (v == RADIX2 && x.data_len && r.chance(50))
            len = std::min<unsigned>(n, std::max<unsigned>(1, x.data_len + r.below(3) - 1));
        V a = content(f, r, len);
        Input<T> in;
        mk_input(f, r, a, n, ps, in);
        V before = vals(*in.v);
        std::string ww = what + fmt(" len=%u data_len=%u %s", len, x.data_len, in.how);
        R().set_case(std::string("transform:") + VN[v] + ":" + f.name, f.name + " " + ww);
        vec::Vector<T> out(g, n), back(g, n);
        for (unsigned i = 0; i < n; i++) {
            out.set(i, (T)f.elem(r));
            back.set(i, (T)f.elem(r));
        }
        V want = dft(f, padded<T>(a, n), x.w);
        x.t->fft(out, *in.v);
        cmp(f, (std::string(VN[v]) + "-fft").c_str(), vals(out), want, ww);
        cmp(f, (std::string(VN[v]) + "-input-changed").c_str(), vals(*in.v), before, ww);
        x.t->ifft(back, out);
        cmp(f, (std::string(VN[v]) + "-ifft-of-fft").c_str(), vals(back), padded<T>(a, n), ww);
        // inverse of an arbitrary input
        V wi_ = dft(f, padded<T>(a, n), wi);
        for (unsigned i = 0; i < n; i++)
            back.set(i, (T)f.elem(r));
        x.t->fft_inv(back, *in.v);
        cmp(f, (std::string(VN[v]) + "-fft_inv").c_str(), vals(back), wi_, ww);
        cmp(f, (std::string(VN[v]) + "-input-changed").c_str(), vals(*in.v), before, ww);
        u128 ni = inv_n(f, n);
        for (auto& e : wi_)
            e = f.mul(e, ni);
        x.t->ifft(back, *in.v);
        cmp(f, (std::string(VN[v]) + "-ifft").c_str(), vals(back), wi_, ww);
        R().seen("shapes", shape(f, VN[v], n, len, x.data_len));
        R().obs(std::string("inputs_") + in.how);
    }
    R().obs(std::string("variant_") + VN[v]);
}

// ---- packet buffers: every row followed by a guard zone
template <typename T> struct Rows {
    std::vector<void*> own;
    std::vector<T*> p;
    size_t size, guard;
    Rng g;
    Rows(unsigned n, size_t size_, Rng& r) : size(size_), guard(64 / sizeof(T)), g(r.next())
    {
        for (unsigned i = 0; i < n; i++) {
            void* m = aligned_alloc(64, ((size + 2 * guard) * sizeof(T) + 63) / 64 * 64);
            own.push_back(m);
            p.push_back((T*)m + guard);
            for (size_t k = 0; k < guard; k++) {
                ((T*)m)[k] = (T)0xa5a5a5a5u;
                p.back()[size + k] = (T)0xa5a5a5a5u;
            }
            for (size_t k = 0; k < size; k++)
                p.back()[k] = (T)g.next();
        }
    }
    bool intact() const
    {
        for (size_t i = 0; i < own.size(); i++)
            for (size_t k = 0; k < guard; k++)
                if (((T*)own[i])[k] != (T)0xa5a5a5a5u || ((T*)own[i])[guard + size + k] != (T)0xa5a5a5a5u)
                    return false;
        return true;
    }
    ~Rows()
    {
        for (auto m : own)
            free(m);
    }
};

template <typename T> static void buffer_case(const Fld<T>& f, Variant v, unsigned n, size_t pkt, Rng& r)
{
    std::string what = std::string(VN[v]) + fmt(" buffers n=%u size=%zu", n, pkt);
    R().set_case(std::string("buffers:") + VN[v] + ":" + f.name, f.name + " " + what);
    Xf<T> x;
    if (!make(f, v, n, r, pkt, x))
        return;
    u128 wi = f.powi(x.w, n - 1), ni = inv_n(f, n);
    unsigned len = v == RADIX2 && r.chance(60) ? 1 + r.below(n) : n;
    if (v == RADIX2 && x.data_len && r.chance(40))
        len = std::min<unsigned>(n, std::max<unsigned>(1, x.data_len + r.below(3) - 1));
    Rows<T> ri(len, pkt, r), ro(n, pkt, r);
    std::vector<V> cols(pkt);
    for (size_t k = 0; k < pkt; k++) {
        cols[k] = content(f, r, len);
        if (v == SINGLE)
            for (unsigned i = 1; i < len; i++)
                cols[k][i] = 0;
        for (unsigned i = 0; i < len; i++)
            ri.p[i][k] = (T)cols[k][i];
    }
    vec::Buffers<T> in(len, pkt, ri.p), out(n, pkt, ro.p);
    std::string ww = what + fmt(" rows=%u data_len=%u", len, x.data_len);
    R().set_case(std::string("buffers:") + VN[v] + ":" + f.name, f.name + " " + ww);
    auto check = [&](const char* op, u128 w, u128 sc, bool ident) {
        // columns checked: all of a short packet, its ends and a sample otherwise
        std::set<size_t> ks;
        for (size_t k = 0; k < pkt; k++)
            if (pkt * n <= 300 || k < 2 || k + 3 > pkt || r.below(pkt) < 6)
                ks.insert(k);
        for (size_t k : ks) {
            V want = ident ? padded<T>(cols[k], n) : dft(f, padded<T>(cols[k], n), w);
            if (sc != f.rep(1))
                for (auto& e : want)
                    e = f.mul(e, sc);
            V got(n);
            for (unsigned i = 0; i < n; i++)
                got[i] = out.get(i)[k];
            cmp(f, (std::string(VN[v]) + "-buf-" + op).c_str(), got, want, ww + fmt(" column %zu", k));
        }
        // every element of every column is an element of the field
        for (unsigned i = 0; i < n; i++)
            for (size_t k = 0; k < pkt; k++)
                if (!f.inside(out.get(i)[k])) {
                    R().viol(std::string(VN[v]) + "-buf-range:" + f.name, fmt("%s %s row %u column %zu: %s", ww.c_str(), op, i, k, S(out.get(i)[k])));
                    i = n;
                    break;
                }
        if (!ri.intact() || !ro.intact())
            R().viol(std::string(VN[v]) + "-buf-guard:" + f.name, ww + " " + op + " wrote outside the packets");
        for (unsigned i = 0; i < len; i++)
            for (size_t k = 0; k < pkt; k++)
                if ((u128)in.get(i)[k] != cols[k][i]) {
                    R().viol(std::string(VN[v]) + "-buf-input-changed:" + f.name, ww + " " + op);
                    return;
                }
    };
    auto dirty = [&]() {
        for (unsigned i = 0; i < n; i++)
            for (size_t k = 0; k < pkt; k++)
                out.get(i)[k] = (T)f.elem(r);
    };
    x.t->fft(out, in);
    check("fft", x.w, f.rep(1), false);
    if (v == SINGLE) {
        dirty();
        x.t->ifft(out, in);
        check("ifft", x.w, f.rep(1), true);
        R().seen("shapes", shape(f, "single-buf", n, len, pkt));
        return;
    }
    // undo
    Rows<T> rb(n, pkt, r);
    vec::Buffers<T> back(n, pkt, rb.p);
    x.t->ifft(back, out);
    for (unsigned i = 0; i < n; i++)
        for (size_t k = 0; k < pkt; k++)
            if ((u128)back.get(i)[k] != (i < len ? cols[k][i] : 0)) {
                R().viol(std::string(VN[v]) + "-buf-ifft-of-fft:" + f.name, fmt("%s row %u column %zu is %s", ww.c_str(), i, k, S(back.get(i)[k])));
                i = n;
                break;
            }
    R().obs("transforms_compared");
    R().obs("values_compared", n * pkt);
    dirty();
    x.t->fft_inv(out, in);
    check("fft_inv", wi, f.rep(1), false);
    dirty();
    x.t->ifft(out, in);
    check("ifft", wi, ni, false);
    R().seen("shapes", shape(f, (std::string(VN[v]) + "-buf").c_str(), n, len * 512 + x.data_len, pkt));
    R().obs(std::string("variant_buf_") + VN[v]);
}

// ---- additive transform
template <typename T> static u128 horner(const Fld<T>& f, const V& c, u128 x)
{
    u128 a = 0;
    for (size_t i = c.size(); i-- > 0;)
        a = f.add(f.mul(a, x), c[i]);
    return a;
}
template <typename T> static void additive_case(const Fld<T>& f, unsigned m, Rng& r)
{
    const gf::Field<T>& g = *f.gf;
    unsigned n = 1u << m;
    bool own = r.chance(60);
    std::string what = fmt("additive m=%u %s basis", m, own ? "given" : "default");
    R().set_case("additive:" + f.name, f.name + " " + what);
    std::shared_ptr<vec::Vector<T>> betas;
    V b;
    if (own) {
        // independent over GF(2)
        std::vector<u128> red;
        while (b.size() < m) {
            u128 c = f.elem(r, true), t = c;
            for (u128 e : red)
                t = std::min(t, t ^ e);
            if (t == 0)
                continue;
            red.push_back(t);
            std::sort(red.rbegin(), red.rend());
            b.push_back(c);
        }
        betas = std::make_shared<vec::Vector<T>>(g, m);
        for (unsigned i = 0; i < m; i++)
            betas->set(i, (T)b[i]);
    } else {
        u128 p = g.get_primitive_root();
        for (unsigned i = 0; i + 1 < m; i++)
            b.push_back(f.powi(p, i + 1));
        b.push_back(1);
    }
    fft::Additive<T> t(g, (T)m, betas);
    V pts(n, 0);
    for (unsigned i = 0; i < n; i++)
        for (unsigned k = 0; k < m; k++)
            if (i >> k & 1)
                pts[i] ^= b[k];
    vec::Vector<T> B(g, n);
    t.compute_B(B);
    cmp(f, "additive-points", vals(B), pts, what);
    for (int rep = 0; rep < 2; rep++) {
        unsigned len = m > 1 && r.chance(40) ? 1 + r.below(n) : n;
        V a = content(f, r, len);
        vec::Vector<T> in(g, len), out(g, n), back(g, n);
        for (unsigned i = 0; i < len; i++)
            in.set(i, (T)a[i]);
        for (unsigned i = 0; i < n; i++) {
            out.set(i, (T)f.elem(r));
            back.set(i, (T)f.elem(r));
        }
        // of long transforms, some points only
        std::vector<unsigned> at;
        for (unsigned i = 0; i < n; i++)
            if (m <= 7 || (i & (i - 1)) == 0 || i == n - 1)
                at.push_back(i);
        for (unsigned q = 0; m > 7 && q < 40; q++)
            at.push_back((unsigned)r.below(n));
        auto points = [&](const V& x) {
            V o;
            for (unsigned i : at)
                o.push_back(x[i]);
            return o;
        };
        V want;
        for (unsigned i : at)
            want.push_back(horner(f, a, pts[i]));
        std::string ww = what + fmt(" len=%u", len);
        t.fft(out, in);
        V got = vals(out);
        cmp(f, "additive-fft", points(got), want, ww);
        cmp(f, "additive-input-changed", vals(in), a, ww);
        if (r.chance(50))
            t.ifft(back, out);
        else
            t.fft_inv(back, out);
        cmp(f, "additive-ifft", vals(back), padded<T>(a, n), ww);
        cmp(f, "additive-input-changed", vals(out), got, ww);
        // inverse of an arbitrary input interpolates it
        V y = content(f, r, n);
        for (unsigned i = 0; i < n; i++)
            out.set(i, (T)y[i]);
        t.ifft(back, out);
        V c = vals(back), ev;
        for (unsigned i : at)
            ev.push_back(horner(f, c, pts[i]));
        cmp(f, "additive-interpolation", ev, points(y), ww);
        R().seen("shapes", shape(f, "additive", n, len, own));
    }
    // Taylor expansions at x^t - x
    if (m >= 2) {
        unsigned tt = 2 + r.below(std::min(n - 1, 9u)), len = 2 + r.below(3 * n);
        V a = content(f, r, len);
        vec::Vector<T> in(g, len), out(g, len);
        for (unsigned i = 0; i < len; i++)
            in.set(i, (T)a[i]);
        std::string ww = what + fmt(" taylor t=%u len=%u", tt, len);
        R().set_case("taylor:" + f.name, f.name + " " + ww);
        t.taylor_expand(out, in, len, tt);
        // sum h_i (x^t + x)^i
        V h = vals(out), acc(len + tt, 0);
        unsigned blocks = (len + tt - 1) / tt;
        for (unsigned bi = blocks; bi-- > 0;) {
            V nx(len + tt, 0);
            for (unsigned i = 0; i < len; i++) {
                if (i + tt < nx.size())
                    nx[i + tt] ^= acc[i];
                nx[i + 1] ^= acc[i];
            }
            for (unsigned i = 0; i < tt && bi * tt + i < len; i++)
                nx[i] ^= h[bi * tt + i];
            acc = nx;
        }
        acc.resize(len);
        cmp(f, "taylor", acc, a, ww);
        unsigned l2 = (1 + r.below(std::max(1u, n / tt))) * tt;
        if (l2 >= 2 && l2 <= n) {
            V c = content(f, r, l2);
            vec::Vector<T> ci(g, l2), co(g, l2), cb(g, l2);
            for (unsigned i = 0; i < l2; i++)
                ci.set(i, (T)c[i]);
            R().set_case("taylor:" + f.name, f.name + " " + what + fmt(" inverse taylor t=%u len=%u", tt, l2));
            t.taylor_expand(co, ci, l2, tt);
            t.inv_taylor_expand(cb, co, tt);
            cmp(f, "inverse-taylor", vals(cb), c, ww);
        }
        R().obs("taylor_expansions");
        R().seen("shapes", shape(f, "taylor", tt, len, l2));
    }
    R().obs("variant_additive");
    if (m > 7)
        R().obs("additive_of_more_than_128");
}

// ---- lengths the radix-2 transform must refuse
template <typename T> static void refuse_case(const Fld<T>& f, Rng& r)
{
    // the length must be an element of the field
    unsigned n = (unsigned)std::min<u128>(f.p - 1, 2 + r.below(5000));
    if (n < 2 || (f.p - 1) % n == 0)
        return;
    R().set_case("refusal:" + f.name, f.name + fmt(" radix2 n=%u", n));
    bool threw = false;
    try {
        fft::Radix2<T> t(*f.gf, n);
    } catch (const quadiron::InvalidArgument&) {
        threw = true;
    }
    if (!threw)
        R().viol("radix2-refusal:" + f.name, fmt("length %u accepted", n));
    R().obs("refusals");
}

template <typename T> static std::vector<size_t> usable()
{
    std::vector<size_t> o;
    auto& s = field_specs<T>();
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].kind == BINEXT && s[i].n > 32)
            continue;
        if (s[i].kind == PRIME && s[i].p >> 40)
            continue;
        o.push_back(i);
    }
    return o;
}

#ifdef HX_M_vector
template <typename T> void one_vector(Rng& r, long i)
{
    static const std::vector<size_t> u = usable<T>();
    if (sizeof(T) >= 8 && r.chance(2)) { // the largest fields
        auto& all = field_specs<T>();
        for (size_t k = 0; k < all.size(); k++)
            if (all[k].kind == BINEXT && all[k].n > 32 && r.chance(50)) {
                additive_case<T>(field<T>(k), 1 + r.below(8), r);
                R().obs("additive_in_large_fields");
                return;
            }
    }
    const Fld<T>& f = field<T>(u[i % u.size()]);
    std::vector<Variant> vs;
    if (f.kind == BINEXT)
        vs = {NAIVE, CT, CT, GT, GT, ADDITIVE, ADDITIVE, ADDITIVE, ADDITIVE, SINGLE};
    else if (f.kind == NF4)
        vs = {NAIVE, NAIVE, RADIX2, RADIX2, RADIX2, RADIX2, SIZE2, SINGLE};
    else
        vs = {NAIVE, NAIVE, RADIX2, RADIX2, RADIX2, CT, CT, CT, GT, GT, GT, LARGE, LARGE, SIZE2, SINGLE};
    Variant v = vs[r.below(vs.size())];
    if (v == ADDITIVE) {
        unsigned mx = std::min(f.n, r.chance(R().a.thorough() ? 30 : 20) ? 11u : 7u);
        additive_case<T>(f, 1 + r.below(mx), r);
        return;
    }
    bool big = R().a.thorough();
    std::vector<unsigned> L = lens(f, v, v == RADIX2 ? (big ? 8192 : 2048) : big ? 1200 : 400, 41);
    if (v == RADIX2 && r.chance(20) && f.kind == PRIME)
        refuse_case<T>(f, r);
    if (L.empty())
        return;
    vector_case<T>(f, v, L[r.below(L.size())], r);
}
HX_SPLIT(one_vector, (Rng&, long))
#endif
#ifdef HX_M_buffer
template <typename T> void one_buffer(Rng& r, long i)
{
    static const std::vector<size_t> u = usable<T>();
    // every other case on a field with vector kernels
    size_t idx = u[(i / 2) % u.size()];
    if (i % 2 == 0) {
        for (size_t k : u) {
            auto& s = field_specs<T>()[k];
            if (s.kind == PRIME && ((sizeof(T) == 2 && s.p == 257) || (sizeof(T) == 4 && s.p == 65537)))
                idx = k;
            if (sizeof(T) == 16 && s.kind == NF4 && (unsigned)(i / 2 % 4) + 1 == s.n)
                idx = k;
        }
    }
    const Fld<T>& f = field<T>(idx);
    std::vector<Variant> vs;
    if (f.kind == BINEXT)
        vs = {NAIVE, SINGLE};
    else if (f.kind == NF4)
        vs = {RADIX2, NAIVE, SIZE2, RADIX2, SINGLE};
    else
        vs = {RADIX2, NAIVE, RADIX2, SIZE2, RADIX2, SINGLE};
    Variant v = i % 2 == 0 && r.chance(70) && f.kind != BINEXT ? RADIX2 : vs[r.below(vs.size())];
    bool big = R().a.thorough();
    std::vector<unsigned> L = lens(f, v, v == RADIX2 ? (big ? 2048 : 512) : 40, 41);
    if (L.empty())
        return;
    unsigned n = L[r.below(L.size())];
    size_t pkt;
    unsigned lanes = std::max<size_t>(1, 32 / sizeof(T));
    switch (r.below(4)) {
    case 0: pkt = 1 + r.below(lanes + 2); break;
    case 1: pkt = lanes * (1 + r.below(3)) + r.below(3) - 1; break;
    case 2: pkt = 1 + r.below(4 * lanes); break;
    default: pkt = lanes * (1 + r.below(4)); break;
    }
    if (pkt == 0)
        pkt = 1;
    if (n > 128)
        pkt = std::min<size_t>(pkt, 2 * lanes + 1);
    buffer_case<T>(f, v, n, pkt, r);
}

HX_SPLIT(one_buffer, (Rng&, long))
#endif

#ifndef HX_HI
#ifdef HX_M_vector
static void vectors(long i, Rng& r)
{
    switch (i % 4) {
    case 0: one_vector<uint16_t>(r, i / 4); break;
    case 1: one_vector<uint32_t>(r, i / 4); break;
    case 2: one_vector<uint64_t>(r, i / 4); break;
    default: one_vector<u128>(r, i / 4); break;
    }
}
static Mode m_vector("vector", vectors);
#endif
#ifdef HX_M_buffer
static void buffers(long i, Rng& r)
{
    switch (i % 5) {
    case 0: one_buffer<uint16_t>(r, i / 5); break;
    case 1:
    case 2: one_buffer<uint32_t>(r, (i / 5) * 2 + i % 5 - 1); break;
    case 3: one_buffer<uint64_t>(r, i / 5); break;
    default: one_buffer<u128>(r, i / 5); break;
    }
}
static Mode m_buffer("buffer", buffers);
#endif
#endif
