// C20: matrices and polynomials against independent linear algebra.
#include "fields.h"
#include "parts.h"
#include "vec_matrix.h"
#include "vec_poly.h"
#include "vec_vector.h"
#include "vec_zero_ext.h"
using namespace hx;
namespace vec = quadiron::vec;
#define S(x) str128((u128)(x)).c_str()
typedef std::vector<u128> V;
typedef std::vector<V> M;

template <typename T> static size_t pick_idx(Rng& r, bool nf4, u128 minq = 0)
{
    auto& s = field_specs<T>();
    for (;;) {
        size_t i = r.below(s.size());
        if (s[i].kind == NF4 && !nf4)
            continue;
        if (s[i].kind == BINEXT && (s[i].n > 64 || (s[i].n > 32 && r.chance(70))))
            continue;
        if (s[i].kind == PRIME && s[i].p < minq)
            continue;
        if (s[i].kind == BINEXT && (u128)1 << s[i].n < minq)
            continue;
        return i;
    }
}
template <typename T> static M rd(vec::Matrix<T>& m)
{
    M o(m.get_n_rows(), V(m.get_n_cols()));
    for (int i = 0; i < m.get_n_rows(); i++)
        for (int j = 0; j < m.get_n_cols(); j++)
            o[i][j] = m.get(i, j);
    return o;
}
template <typename T> static void wr(vec::Matrix<T>& m, const M& a)
{
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < a[i].size(); j++)
            m.set(i, j, (T)a[i][j]);
}
static std::string show(const M& m)
{
    std::string s;
    for (auto& r : m) {
        for (auto x : r)
            s += str128(x) + " ";
        s += "/ ";
    }
    return s.substr(0, 1500);
}
template <typename F> static M mulm(const F& f, const M& a, const M& b)
{
    size_t n = a.size(), m = b[0].size(), k = b.size();
    M o(n, V(m, 0));
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < m; j++)
            for (size_t t = 0; t < k; t++)
                o[i][j] = f.add(o[i][j], f.mul(a[i][t], b[t][j]));
    return o;
}
// Gauss-Jordan inverse; false if singular
template <typename F> static bool invm(const F& f, M a, M& out)
{
    size_t n = a.size();
    out.assign(n, V(n, 0));
    for (size_t i = 0; i < n; i++)
        out[i][i] = 1;
    for (size_t c = 0; c < n; c++) {
        size_t p = c;
        while (p < n && a[p][c] == 0)
            p++;
        if (p == n)
            return false;
        std::swap(a[p], a[c]);
        std::swap(out[p], out[c]);
        u128 iv = f.inv(a[c][c]);
        for (size_t j = 0; j < n; j++) {
            a[c][j] = f.mul(a[c][j], iv);
            out[c][j] = f.mul(out[c][j], iv);
        }
        for (size_t i = 0; i < n; i++) {
            u128 k = a[i][c];
            if (i == c || k == 0)
                continue;
            for (size_t j = 0; j < n; j++) {
                a[i][j] = f.sub(a[i][j], f.mul(k, a[c][j]));
                out[i][j] = f.sub(out[i][j], f.mul(k, out[c][j]));
            }
        }
    }
    return true;
}

#ifdef HX_M_matrix
template <typename T> void inv_case(Rng& r)
{
    const Fld<T>& f = field<T>(pick_idx<T>(r, false));
    unsigned n = 1 + r.below(r.chance(80) ? 7 : 14);
    M a(n, V(n, 0));
    unsigned style = r.below(7);
    for (unsigned i = 0; i < n; i++)
        for (unsigned j = 0; j < n; j++)
            a[i][j] = style == 0 ? (r.chance(60) ? 0 : f.elem(r)) : style == 1 ? f.elem(r) % 2 : f.elem(r);
    if (style == 2) { // a permuted diagonal: every pivot needs a swap
        std::vector<unsigned> p(n);
        for (unsigned i = 0; i < n; i++)
            p[i] = i;
        r.shuffle(p);
        for (unsigned i = 0; i < n; i++)
            for (unsigned j = 0; j < n; j++)
                a[i][j] = p[i] == j ? f.elem(r, true) : r.chance(85) ? 0 : f.elem(r);
    } else if (style == 3 && n > 1) { // a row that depends on the others
        unsigned d = r.below(n);
        a[d].assign(n, 0);
        for (unsigned i = 0; i < n; i++)
            if (i != d && r.chance(70)) {
                u128 k = f.elem(r);
                for (unsigned j = 0; j < n; j++)
                    a[d][j] = f.add(a[d][j], f.mul(k, a[i][j]));
            }
    } else if (style == 4 && n > 1) { // a column that depends on the others
        unsigned d = r.below(n);
        for (unsigned i = 0; i < n; i++) {
            u128 x = 0;
            for (unsigned j = 0; j < n; j++)
                if (j != d)
                    x = f.add(x, f.mul((j * 7 + 3) % 3 ? 1 : 0, a[i][j]));
            a[i][d] = x;
        }
    } else if (style == 5) { // singular until the last entry
        for (unsigned j = 0; j < n && n > 1; j++)
            a[n - 1][j] = a[0][j];
        if (r.chance(50))
            a[n - 1][n - 1] = f.add(a[n - 1][n - 1], f.elem(r, true));
    }
    R().set_case("matrix-inverse:" + f.name, f.name + fmt(" n=%u: ", n) + show(a));
    M want;
    bool ok = invm(f, a, want);
    vec::Matrix<T> m(*f.gf, n, n);
    wr(m, a);
    bool threw = false;
    try {
        m.inv();
    } catch (const quadiron::Exception&) {
        threw = true;
    }
    if (threw == ok)
        R().viol("matrix-inverse-refusal:" + f.name, fmt("%s matrix %s: ", ok ? "invertible" : "singular", threw ? "refused" : "accepted") + show(a));
    else if (ok && rd(m) != want)
        R().viol("matrix-inverse:" + f.name, "inverse of " + show(a) + " is " + show(rd(m)) + ", expected " + show(want));
    R().obs(ok ? "inverted" : "singular_refused");
    R().seen("operands", fnvs(f.name + show(a)));
    if (ok) { // inverting twice
        m.inv();
        if (rd(m) != a)
            R().viol("matrix-inverse-twice:" + f.name, show(a));
    }
}
template <typename T> void mulv_case(Rng& r)
{
    const Fld<T>& f = field<T>(pick_idx<T>(r, true));
    unsigned n = 1 + r.below(12), c = 1 + r.below(12);
    M a(n, V(c)), b(c, V(1));
    for (auto& x : a)
        for (auto& y : x)
            y = f.elem(r);
    for (auto& x : b)
        x[0] = f.elem(r);
    R().set_case("matrix-product:" + f.name, f.name + fmt(" %ux%u: ", n, c) + show(a));
    vec::Matrix<T> m(*f.gf, n, c);
    m.zero_fill();
    for (unsigned i = 0; i < n; i++)
        for (unsigned j = 0; j < c; j++)
            if (m.get(i, j) != 0)
                R().viol("matrix-zero:" + f.name, "zero_fill");
    wr(m, a);
    if (rd(m) != a || m.get_n_rows() != (int)n || m.get_n_cols() != (int)c)
        R().viol("matrix-entries:" + f.name, "entries read back differ");
    vec::Vector<T> v(*f.gf, c), o(*f.gf, n);
    unsigned shortlen = r.chance(30) ? r.below(c) : c; // zero-extended operand
    vec::Vector<T> sv(*f.gf, shortlen ? shortlen : 1);
    for (unsigned i = 0; i < c; i++) {
        v.set(i, (T)b[i][0]);
        if (i < shortlen)
            sv.set(i, (T)b[i][0]);
    }
    M want;
    if (shortlen && shortlen < c) {
        vec::ZeroExtended<T> z(sv, c);
        for (unsigned i = shortlen; i < c; i++)
            b[i][0] = 0;
        m.mul(&o, &z);
    } else
        m.mul(&o, &v);
    want = mulm(f, a, b);
    for (unsigned i = 0; i < n; i++)
        if ((u128)o.get(i) != want[i][0])
            R().viol("matrix-product:" + f.name, fmt("row %u is %s, expected %s", i, S(o.get(i)), S(want[i][0])));
    R().obs("products");
    R().seen("operands", fnvs(f.name + show(a) + show(b)));
}

// every k x k submatrix of [I; G] taken by rows is invertible
template <typename T> static void mds(const Fld<T>& f, Rng& r, const M& g, unsigned k, const char* what)
{
    unsigned m = g.size(), n = m + k;
    M full(n, V(k, 0));
    for (unsigned i = 0; i < n; i++)
        for (unsigned j = 0; j < k; j++)
            full[i][j] = i < k ? i == j : g[i - k][j];
    double cnt = 1;
    for (unsigned i = 0; i < k; i++)
        cnt = cnt * (n - i) / (i + 1);
    auto test = [&](const std::vector<unsigned>& rows) {
        M s;
        std::string d;
        for (unsigned i : rows) {
            s.push_back(full[i]);
            d += fmt("%u ", i);
        }
        if (!ref::invertible(*f.rf, s))
            R().viol(std::string(what) + "-subset:" + f.name, fmt("k=%u m=%u rows %sdo not determine the data", k, m, d.c_str()));
        R().obs("subsets");
    };
    if (cnt <= (R().a.thorough() ? 2000 : 130)) {
        std::vector<bool> sel(n, false);
        std::fill(sel.begin(), sel.begin() + k, true);
        do {
            std::vector<unsigned> rows;
            for (unsigned i = 0; i < n; i++)
                if (sel[i])
                    rows.push_back(i);
            test(rows);
        } while (std::prev_permutation(sel.begin(), sel.end()));
        R().obs("generators_exhausted");
    } else
        for (int t = 0; t < 12; t++) {
            std::vector<unsigned> p(n);
            for (unsigned i = 0; i < n; i++)
                p[i] = i;
            r.shuffle(p);
            // favour parities
            if (t % 2)
                std::stable_sort(p.begin(), p.end(), [&](unsigned x, unsigned y) { return (x >= k) > (y >= k); });
            p.resize(k);
            std::sort(p.begin(), p.end());
            test(p);
        }
}
template <typename T> void gen_case(Rng& r)
{
    const Fld<T>& f = field<T>(pick_idx<T>(r, false, 8));
    u128 q = f.q();
    if (q == 0)
        q = ~(u128)0;
    unsigned lim = (unsigned)std::min<u128>(q, 40);
    unsigned tot = r.chance(30) ? lim : 2 + r.below(lim - 1);
    unsigned k = 1 + r.below(tot - 1), m = tot - k;
    if (k > 12 && q < 300) {
        k = 12;
        m = std::min(m, tot - k);
    }
    if (r.chance(15) && m > 3)
        m = 1 + r.below(3);
    bool cauchy = r.chance(50);
    const char* what = cauchy ? "cauchy" : "vandermonde-ec";
    R().set_case(std::string(what) + ":" + f.name, f.name + fmt(" %s k=%u m=%u", what, k, m));
    if (cauchy && f.kind == PRIME && 2 * m + k > q) // points i + j + m must be non zero
        return;
    vec::Matrix<T> g(*f.gf, m, k);
    M want(m, V(k));
    if (cauchy) {
        g.cauchy();
        for (unsigned i = 0; i < m; i++)
            for (unsigned j = 0; j < k; j++)
                want[i][j] = f.inv(f.add(i, j + m));
        for (unsigned j = 0; j < k; j++) {
            u128 d = f.inv(want[0][j]);
            for (unsigned i = 0; i < m; i++)
                want[i][j] = f.mul(want[i][j], d);
        }
        for (unsigned i = 1; i < m; i++) {
            u128 d = f.inv(want[i][0]);
            for (unsigned j = 0; j < k; j++)
                want[i][j] = f.mul(want[i][j], d);
        }
    } else {
        g.vandermonde_suitable_for_ec();
        // bottom of the Vandermonde matrix times the inverse of its top
        M top(k, V(k)), bot(m, V(k)), ti;
        for (unsigned i = 0; i < k + m; i++)
            for (unsigned j = 0; j < k; j++)
                (i < k ? top[i] : bot[i - k])[j] = f.powi(i, j);
        if (!invm(f, top, ti))
            return; // more rows than field elements
        want = mulm(f, bot, ti);
    }
    M got = rd(g);
    if (got != want)
        R().viol(std::string(what) + ":" + f.name, fmt("k=%u m=%u: ", k, m) + show(got) + "expected " + show(want));
    mds(f, r, got, k, what);
    R().obs(cauchy ? "cauchy" : "vandermonde_ec");
    // the plain Vandermonde matrix
    unsigned rows = 1 + r.below(lim), cols = 1 + r.below(std::min(lim, 12u));
    vec::Matrix<T> v(*f.gf, rows, cols);
    R().set_case("vandermonde:" + f.name, f.name + fmt(" %ux%u", rows, cols));
    v.vandermonde();
    for (unsigned i = 0; i < rows; i++)
        for (unsigned j = 0; j < cols; j++)
            if ((u128)v.get(i, j) != f.powi(i, j))
                R().viol("vandermonde:" + f.name, fmt("[%u,%u] is %s", i, j, S(v.get(i, j))));
    R().obs("vandermonde");
    R().seen("operands", fnvs(f.name + fmt("%s %u %u", what, k, m)));
}

// ------------------------------------------------------------------ polynomials
#endif
#ifdef HX_M_poly
static void trim(V& a)
{
    while (!a.empty() && a.back() == 0)
        a.pop_back();
}
template <typename T> struct PM {
    std::unique_ptr<vec::Poly<T>> p;
    V c; // as long as the polynomial
};
template <typename T> void poly_case(Rng& r)
{
    const Fld<T>& f = field<T>(pick_idx<T>(r, true));
    std::vector<PM<T>> ps;
    std::string hist;
    auto say = [&](const std::string& s) {
        hist += s + "; ";
        if (hist.size() > 2500)
            hist = "..." + hist.substr(hist.size() - 2300);
        R().set_case("polynomial:" + f.name, f.name + " " + hist);
        R().obs("polynomial_operations");
        R().seen("operands", fnvs(hist, fnvs(f.name)));
    };
    auto verify = [&]() {
        for (size_t k = 0; k < ps.size(); k++) {
            auto& x = ps[k];
            V t = x.c;
            trim(t);
            // the degree is an upper bound, and coefficients beyond it are zero
            if (x.p->get_deg() < (int)t.size() - 1 || x.p->get_deg() >= x.p->get_n()) {
                R().viol("polynomial-degree:" + f.name, fmt("p%zu has degree %zu, reported %d after %s", k, t.size() - 1, x.p->get_deg(), hist.c_str()));
                return false;
            }
            for (size_t i = 0; i < x.c.size(); i++)
                if ((u128)x.p->get(i) != x.c[i]) {
                    R().viol("polynomial-content:" + f.name,
                             fmt("p%zu coefficient %zu is %s, expected %s after %s", k, i, S(x.p->get(i)), S(x.c[i]), hist.c_str()));
                    return false;
                }
            R().obs("coefficients_compared", x.c.size());
        }
        return true;
    };
    auto fresh = [&]() {
        PM<T> x;
        int n = 1 + r.below(24);
        x.p = std::make_unique<vec::Poly<T>>(*f.gf, n);
        x.p->zero_fill();
        x.c.assign(n, 0);
        say(fmt("p%zu(n=%d)", ps.size(), n));
        if (r.chance(80)) {
            int d = r.below(n);
            std::string s;
            // coefficients in any order
            std::vector<int> o(d + 1);
            for (int i = 0; i <= d; i++)
                o[i] = i;
            if (r.chance(50))
                r.shuffle(o);
            for (int i : o) {
                u128 v = r.chance(25) ? 0 : f.elem(r);
                x.p->set(i, (T)v);
                x.c[i] = v;
                s += str128(v) + "x^" + std::to_string(i) + " ";
            }
            say(fmt("p%zu=", ps.size()) + s);
        }
        ps.push_back(std::move(x));
    };
    fresh();
    int steps = R().a.thorough() ? 60 : 30;
    for (int st = 0; st < steps; st++) {
        if (!verify())
            return;
        if (ps.size() < 2 || (ps.size() < 6 && r.chance(15))) {
            fresh();
            continue;
        }
        size_t k = r.below(ps.size());
        PM<T>& x = ps[k];
        int n = x.c.size();
        switch (r.below(11)) {
        case 0: {
            int i = r.below(n);
            u128 v = r.chance(25) ? 0 : f.elem(r);
            say(fmt("p%zu.set(%d,%s)", k, i, S(v)));
            x.p->set(i, (T)v);
            x.c[i] = v;
            break;
        }
        case 1: {
            bool nf = f.kind == NF4;
            say(fmt("p%zu.derivative()", k));
            if (nf || r.chance(30))
                x.p->derivative_nf4();
            else
                x.p->derivative();
            for (int i = 1; i < n; i++)
                x.c[i - 1] = f.mul(f.rep((u128)i % f.p), x.c[i]);
            x.c[n - 1] = 0;
            R().obs("derivatives");
            break;
        }
        case 2:
        case 3:
        case 4: {
            u128 at = f.elem(r), w = 0;
            say(fmt("p%zu.eval(%s)", k, S(at)));
            for (int i = n; i-- > 0;)
                w = f.add(f.mul(w, at), x.c[i]);
            u128 g = x.p->eval((T)at);
            if (g != w)
                R().viol("polynomial-eval:" + f.name, fmt("value %s, expected %s after %s", S(g), S(w), hist.c_str()));
            R().obs("evaluations_compared");
            break;
        }
        case 5:
        case 6: {
            size_t b = r.below(ps.size());
            if (b == k)
                break;
            V p2(n + ps[b].c.size(), 0);
            for (int i = 0; i < n; i++)
                for (size_t j = 0; j < ps[b].c.size(); j++)
                    p2[i + j] = f.add(p2[i + j], f.mul(x.c[i], ps[b].c[j]));
            int d = r.below(n);
            say(fmt("p%zu.mul(p%zu,%d)", k, b, d));
            x.p->mul(ps[b].p.get(), d);
            for (int i = 0; i < n; i++)
                x.c[i] = i <= d ? p2[i] : 0;
            R().obs("multiplications");
            break;
        }
        case 7: {
            V t = x.c;
            trim(t);
            if (x.p->get_deg() + 1 >= n)
                break;
            u128 a = f.elem(r);
            say(fmt("p%zu.mul_to_x_plus_coef(%s)", k, S(a)));
            x.p->mul_to_x_plus_coef((T)a);
            for (int i = n; i-- > 0;)
                x.c[i] = f.add(f.mul(x.c[i], a), i ? x.c[i - 1] : 0);
            R().obs("linear_factors");
            break;
        }
        case 8: {
            say(fmt("p%zu.neg()", k));
            x.p->neg();
            for (auto& v : x.c)
                v = f.neg(v);
            break;
        }
        case 9: {
            if (ps.size() > 7)
                break;
            say(fmt("p%zu=copy of p%zu", ps.size(), k));
            PM<T> y;
            y.p = std::make_unique<vec::Poly<T>>(*x.p);
            y.c = x.c;
            ps.push_back(std::move(y));
            R().obs("polynomial_copies");
            break;
        }
        default: {
            if (!r.chance(30))
                break;
            say(fmt("p%zu.zero_fill()", k));
            x.p->zero_fill();
            x.c.assign(n, 0);
        }
        }
    }
    verify();
}

#endif
#ifdef HX_M_matrix
HX_SPLIT(inv_case, (Rng&))
HX_SPLIT(mulv_case, (Rng&))
HX_SPLIT(gen_case, (Rng&))
#ifndef HX_HI
static void matrix(long i, Rng& r)
{
    switch (i % 3) {
    case 0: inv_case<uint16_t>(r); inv_case<uint32_t>(r); inv_case<uint64_t>(r); inv_case<u128>(r); break;
    case 1: mulv_case<uint16_t>(r); mulv_case<uint32_t>(r); mulv_case<uint64_t>(r); mulv_case<u128>(r); break;
    default: gen_case<uint16_t>(r); gen_case<uint32_t>(r); gen_case<uint64_t>(r); gen_case<u128>(r);
    }
}
static Mode m_matrix("matrix", matrix);
#endif
#endif
#ifdef HX_M_poly
HX_SPLIT(poly_case, (Rng&))
#ifndef HX_HI
static void poly(long i, Rng& r)
{
    switch (i % 4) {
    case 0: poly_case<uint16_t>(r); break;
    case 1: poly_case<uint32_t>(r); break;
    case 2: poly_case<uint64_t>(r); break;
    default: poly_case<u128>(r);
    }
}
static Mode m_poly("poly", poly);
#endif
#endif
