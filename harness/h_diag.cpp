// C21: text and diagnostic output tells what is there.
#include "fields.h"
#include "fft_2n.h"
#include "misc.h"
#include "quadiron_c.h"
#include "vec_buffers.h"
#include "vec_matrix.h"
#include "vec_poly.h"
#include "vec_slice.h"
#include "vec_vector.h"
#include "vec_view.h"
#include "vec_zero_ext.h"
using namespace hx;
namespace vec = quadiron::vec;

// what is written to `s` while f runs
template <typename F> static std::string capture(std::ostream& s, F f)
{
    std::ostringstream o;
    std::streambuf* old = s.rdbuf(o.rdbuf());
    try {
        f();
    } catch (...) {
        s.rdbuf(old);
        throw;
    }
    s.rdbuf(old);
    return o.str();
}

// accepts only so many characters
struct Limited : std::streambuf {
    size_t room;
    std::string got;
    explicit Limited(size_t n) : room(n) {}
    int_type overflow(int_type c) override
    {
        if (!room || c == traits_type::eof())
            return traits_type::eof();
        room--;
        got += (char)c;
        return c;
    }
};

static u128 value(Rng& r)
{
    switch (r.below(7)) {
    case 0: return r.below(300);
    case 1: return ~(u128)0 - r.below(12);
    case 2: return ((u128)1 << r.below(128)) + r.below(3) - 1;
    case 3: { // around powers of ten
        u128 v = 1;
        for (unsigned i = (unsigned)r.below(39); i; i--)
            v *= 10;
        return v * (1 + r.below(3)) + r.below(3) - 1;
    }
    case 4: return (u128)1 << 127;
    default: return r.next128() >> r.below(128);
    }
}

static void decimal(long, Rng& r)
{
    Report& R_ = R();
    for (int t = 0; t < 40; t++) {
        u128 v = value(r);
        std::string exp = str128(v);
        R_.set_case("decimal", "unsigned " + exp);
        std::ostringstream o;
        o << "a" << (unsigned __int128)v << "b";
        if (o.str() != "a" + exp + "b" || !o)
            R_.viol("decimal:unsigned", exp + " printed as " + o.str());
        i128 sv = (i128)v;
        exp = sv < 0 ? "-" + str128(-v) : str128(v);
        R_.set_case("decimal", "signed " + exp);
        std::ostringstream q;
        q << (__int128)sv << ";";
        if (q.str() != exp + ";" || !q)
            R_.viol("decimal:signed", exp + " printed as " + q.str());
        if (r.chance(20)) {
            size_t room = r.below(exp.size() + 2);
            Limited l(room);
            std::ostream os(&l);
            os << (__int128)sv;
            if (l.got != exp.substr(0, room) || os.good() != (room >= exp.size()))
                R_.viol("decimal:full", fmt("%s into a stream that takes %zu characters: state %d", exp.c_str(), room, (int)os.rdstate()));
            os.clear();
            os.setstate(std::ios::failbit);
            l.room = 100;
            std::string before = l.got;
            os << (unsigned __int128)v;
            if (l.got != before)
                R_.viol("decimal:failed-stream", "written to a stream in a failed state");
            R_.obs("streams_that_fill_up");
        }
        R_.obs("values_printed", 2);
        R_.seen("texts", fnvs(exp));
    }
}

static void hexdump(long, Rng& r)
{
    Report& R_ = R();
    size_t n = r.chance(15) ? r.below(3) : r.chance(50) ? 32 * (1 + r.below(4)) + r.below(3) - 1 : r.below(200);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]); // exact, for the sanitizer
    for (size_t i = 0; i < n; i++)
        b[i] = r.chance(40) ? (uint8_t)r.range(32, 126) : r.chance(20) ? (uint8_t)(r.chance(50) ? 127 : 31) : (uint8_t)r.next();
    bool chars = r.chance(60), viac = r.chance(30);
    std::string out;
    R_.set_case("hexdump", fmt("%zu bytes chars=%d", n, chars));
    if (viac) {
        chars = true;
        out = capture(std::cerr, [&] { quadiron_hex_dump(b.get(), n); });
    } else {
        std::ostringstream o;
        o.fill('#');
        if (r.chance(50))
            o << std::oct;
        auto fl = o.flags();
        quadiron::hex_dump(o, b.get(), n, chars);
        if (o.flags() != fl || o.fill() != '#')
            R_.viol("hexdump:state", "formatting state of the stream not restored");
        out = o.str();
        std::ostringstream z;
        quadiron::hex_dump(z, nullptr, n, chars);
        if (!z.str().empty())
            R_.viol("hexdump:null", "output without a buffer");
    }
    // read it back
    std::string bytes, text;
    size_t lines = 0, last = 0;
    bool bad = !out.empty() && out.back() != '\n';
    std::istringstream in(out);
    for (std::string l; std::getline(in, l); lines++) {
        std::string h = l;
        size_t bar = chars ? l.find(" | ") : std::string::npos;
        if (chars && bar == std::string::npos)
            bad = true;
        if (bar != std::string::npos) {
            h = l.substr(0, bar);
            text += l.substr(bar + 3);
            if (lines && bar != last)
                bad = true; // columns line up
            last = bar;
        }
        std::istringstream hs(h);
        size_t c = 0;
        for (std::string w; hs >> w; c++) {
            char* e;
            unsigned long x = strtoul(w.c_str(), &e, 16);
            if (w.size() != 2 || *e || x > 255)
                bad = true;
            bytes += (char)x;
        }
        if (c > 32 || (c < 32 && bytes.size() != n))
            bad = true;
    }
    std::string exp((const char*)b.get(), n), et;
    for (char c : exp)
        et += c >= 32 && c < 127 ? c : '.';
    if (bad || bytes != exp || (chars && text != et))
        R_.viol("hexdump:content", fmt("%zu bytes chars=%d:\n%s", n, chars, out.substr(0, 1500).c_str()));
    R_.obs("hex_dumps");
    R_.seen("texts", fnvs(out));
}

static std::vector<u128> numbers(const std::string& s)
{
    std::vector<u128> v;
    for (size_t i = 0; i < s.size();) {
        if (s[i] < '0' || s[i] > '9') {
            i++;
            continue;
        }
        u128 x = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9')
            x = x * 10 + (unsigned)(s[i++] - '0');
        v.push_back(x);
    }
    return v;
}

template <typename T> static T elem(Rng& r)
{
    return (T)(r.chance(30) ? ~(u128)0 - r.below(3) : r.chance(30) ? r.below(11) : r.next128());
}
static void expect(const char* what, const std::string& out, const std::vector<u128>& exp)
{
    Report& R_ = R();
    if (numbers(out) != exp)
        R_.viol(std::string("dump:") + what, fmt("%zu elements shown as %s", exp.size(), out.substr(0, 600).c_str()));
    R_.obs(std::string("dumps_of_") + what);
    R_.obs("dumps");
    R_.seen("texts", fnvs(out));
}

template <typename T> static void dumps_t(Rng& r)
{
    Report& R_ = R();
    size_t fi;
    do
        fi = r.below(field_specs<T>().size());
    while (field_specs<T>()[fi].kind == NF4);
    auto& gf = *field<T>(fi).gf;
    int n = 1 + (int)r.below(r.chance(20) ? 80 : 9);
    std::vector<u128> cells;
    vec::Vector<T> v(gf, n);
    for (int i = 0; i < n; i++) {
        T x = elem<T>(r);
        v.set(i, x);
        cells.push_back(x);
    }
    R_.set_case("dump", fmt("vector %d", n));
    expect("vectors", capture(std::cout, [&] { v.dump(); }), cells);
    {
        int len = 1 + (int)r.below(n), off = (int)r.below(n - len + 1);
        vec::Slice<T> sl(&v, len, off);
        expect("slices", capture(std::cout, [&] { sl.dump(); }), std::vector<u128>(cells.begin() + off, cells.begin() + off + len));
        int m = n + (int)r.below(10);
        vec::ZeroExtended<T> ze(v, m);
        auto c2 = cells;
        c2.resize(m, 0);
        expect("zero_extensions", capture(std::cout, [&] { ze.dump(); }), c2);
    }
    {
        int rows = 1 + (int)r.below(6), cols = 1 + (int)r.below(6);
        vec::Matrix<T> m(gf, rows, cols);
        std::vector<u128> all;
        for (int i = 0; i < rows; i++)
            for (int j = 0; j < cols; j++) {
                T x = (T)r.below128(field<T>(fi).q() ? field<T>(fi).q() : ~(u128)0);
                m.set(i, j, x);
                all.push_back(x);
            }
        R_.set_case("dump", fmt("matrix %d x %d", rows, cols));
        expect("matrices", capture(std::cout, [&] { m.dump(); }), all);
        int row = (int)r.below(rows);
        expect("rows", capture(std::cout, [&] { m.dump_row(row); }), std::vector<u128>(all.begin() + row * cols, all.begin() + (row + 1) * cols));
    }
    {
        int cnt = 1 + (int)r.below(5);
        size_t size = r.below(20);
        vec::Buffers<T> b(cnt, size);
        std::vector<u128> all;
        for (int i = 0; i < cnt; i++) {
            all.push_back(i);
            for (size_t j = 0; j < size; j++)
                all.push_back(b.get(i)[j] = elem<T>(r));
        }
        R_.set_case("dump", fmt("buffers %d x %zu", cnt, size));
        expect("buffers", capture(std::cout, [&] { b.dump(); }), all);
    }
    {
        int deg = (int)r.below(8);
        vec::Poly<T> p(gf, deg + 2 + (int)r.below(4));
        p.zero_fill();
        std::vector<u128> all;
        for (int i = 0; i <= deg; i++) {
            T x = (T)(i == deg ? 1 : r.below128(field<T>(fi).q() ? field<T>(fi).q() : ~(u128)0));
            p.set(i, x);
            all.push_back(x);
            all.push_back(i);
        }
        R_.set_case("dump", fmt("polynomial of degree %d", deg));
        // terms as "c x^i"
        expect("polynomials", capture(std::cout, [&] { p.dump(); }), all);
    }
}
static void dumps(long, Rng& r)
{
    switch (r.below(3)) {
    case 0: dumps_t<uint32_t>(r); break;
    case 1: dumps_t<uint64_t>(r); break;
    default: dumps_t<u128>(r);
    }
}

// The counters announce the operations a radix-2 transform performs: every
// level of the transform that is not a plain copy has n/2 butterflies, and a
// butterfly multiplies unless its factor is 1 (or -1, which negates).
static void counters(long, Rng& r)
{
    Report& R_ = R();
    auto& gf = *field<uint32_t>([] {
        for (size_t i = 0; i < field_specs<uint32_t>().size(); i++)
            if (field_specs<uint32_t>()[i].kind == PRIME && field_specs<uint32_t>()[i].p == 65537)
                return i;
        abort();
    }()).gf;
    unsigned lg = 1 + (unsigned)r.below(11);
    size_t n = (size_t)1 << lg;
    size_t dl = 1 + r.below(n), in = 1 + r.below(n);
    if (r.chance(30))
        in = n;
    if (r.chance(30))
        dl = n;
    R_.set_case("counters", fmt("n=%zu data_len=%zu input=%zu", n, dl, in));
    quadiron::fft::Radix2<uint32_t> fft(gf, (int)n, (int)dl, 4);
    auto c2 = [](size_t x) {
        size_t p = 1;
        while (p < x)
            p *= 2;
        return p;
    };
    size_t padded = std::max(c2(in), c2(dl));
    uint64_t but = 0, mul = 0, add = 0, neg = 0;
    for (size_t m = n / padded; m < n; m *= 2) {
        but += n / 2;
        add += n / 2;
        mul += n / 2 - n / (2 * m); // all but the first of each group
    }
    // the group of a padded input starts with copies: only its factor 1 is skipped
    auto a = fft.fft_op_counter(in);
    auto say = [&](const char* what, uint64_t b, uint64_t ad, uint64_t su, uint64_t mu, uint64_t ne, uint64_t xb, uint64_t xa, uint64_t xm, uint64_t xn) {
        R_.obs("counters_compared");
        if (b != xb || ad != xa || su != xa || mu != xm || ne != xn)
            R_.viol(std::string("counter:") + what, fmt("n=%zu data_len=%zu input=%zu: butterflies %llu additions %llu/%llu products %llu negations %llu, expected %llu %llu %llu %llu",
                                                        n, dl, in, (unsigned long long)b, (unsigned long long)ad, (unsigned long long)su, (unsigned long long)mu, (unsigned long long)ne,
                                                        (unsigned long long)xb, (unsigned long long)xa, (unsigned long long)xm, (unsigned long long)xn));
    };
    if (padded <= n)
        say("fft", a.butterfly, a.add, a.sub, a.mul, a.neg, but, add, mul, 0);
    auto b = fft.ifft_op_counter(n);
    uint64_t lv = lg;
    mul = 0;
    for (size_t m = n / 2; m >= 1; m /= 2)
        mul += n / 2 - n / (2 * m);
    say("ifft", b.butterfly, b.add, b.sub, b.mul, b.neg, lv * (n / 2), lv * (n / 2), mul, 0);
    // a short input of the inverse: its first layers only scale
    size_t p2 = 1;
    while (p2 < in)
        p2 *= 2;
    if (in && in < n) {
        uint64_t xb = 0, xa = 0, xm = 0;
        for (size_t m = n / 2; m >= 1; m /= 2)
            if (m >= in) {
                xb += p2 * (n / (2 * m));
                xm += (p2 - 1) * (n / (2 * m));
            } else {
                xb += n / 2;
                xa += n / 2;
                xm += n / 2 - n / (2 * m);
            }
        auto c = fft.ifft_op_counter(in);
        say("short ifft", c.butterfly, c.add, c.sub, c.mul, c.neg, xb, xa, xm, 0);
    }
    R_.seen("texts", fnvs(fmt("%zu %zu %zu", n, dl, in)));
}

int main(int argc, char** argv)
{
    R().parse(argc, argv);
    const std::string& m = R().a.mode;
    if (m == "decimal") return run_cases(decimal);
    if (m == "hexdump") return run_cases(hexdump);
    if (m == "dumps") return run_cases(dumps);
    if (m == "counters") return run_cases(counters);
    return 3;
}
