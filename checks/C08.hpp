// C08: reductions and norms against their definitions.
#include "gen.hpp"

namespace c08
{
template <typename T>
Flavor flavor(Source &s, bool &exact)
{
    exact = true;
    if (!std::is_integral_v<T> && s.draw(3) == 2) {
        exact = false;
        return (std::is_same_v<real_of<T>, float> || s.draw(2)) ? REAL : WIDE;
    }
    return gen_exact_flavor(s);
}
/// Within the rounding of n operations on a total of the given magnitude.
template <typename T>
void agree(const T &got, cl want, long double magnitude, std::size_t n, bool exact, const std::string &what)
{
    long double d = abs_l(sub_l(to_cl(got), want));
    using R       = real_of<T>;
    if constexpr (std::is_integral_v<R>) exact = true;
    else if (magnitude >= std::ldexp(1.0L, std::numeric_limits<R>::digits - 7)) exact = false;
    long double bound = exact ? 0 : 2 * (static_cast<long double>(n) + 4) * eps_of<T>() * magnitude;
    CHECK(d <= bound, << what << " is " << show(got) << " instead of " << show(want) << (exact ? " exactly" : " within " + show(bound)));
}
/// The relative error of a norm.
template <typename T>
void agree_norm(const T &got, long double want, std::size_t n, const std::string &what)
{
    long double eps = std::is_same_v<T, float> ? 1.2e-7L : 2.3e-16L, d = std::fabs(static_cast<long double>(got) - want);
    CHECK(d <= (static_cast<long double>(n) + 6) * eps * want, << what << " is " << show(got) << " instead of " << show(want));
    CHECK((want == 0) == (got == 0), << what << " of " << (want == 0 ? "zeros" : "non-zeros") << " is " << show(got));
}
inline long double norm_l(cl v)
{
    return v.real() * v.real() + v.imag() * v.imag();
}
template <typename T>
struct NormType {
    using type = std::conditional_t<std::is_same_v<real_of<T>, float>, float, double>;
};

template <typename T>
void vectors(Source &s)
{
    bool exact;
    Flavor f         = flavor<T>(s, exact);
    std::size_t n    = s.draw(10) == 9 ? 0 : gen_len(s, 1, 300);
    if (std::is_integral_v<T> && n > 1500) f = SMALL; // the squares fit
    std::vector<T> v = gen_vec<T>(s, n, f);
    s.nontrivial(n >= 2 && varied(v));
    s.note() << tname<T>() << " " << show(v) << "\n";
    malg::Vector<T> x = to_malg(v);
    cl total          = 0;
    long double mag = 0, sq = 0, inf = 0;
    for (auto &e : v) {
        cl c  = to_cl(e);
        total = add_l(total, c);
        mag += std::fabs(c.real()) + std::fabs(c.imag());
        sq += norm_l(c);
        inf = std::max(inf, abs_l(c));
    }
    auto sum = malg::sum(x);
    static_assert(std::is_same_v<decltype(sum), T>, "sum has the wrong type");
    agree(sum, total, mag, n, exact, "sum");
    auto sn = malg::square_norm(x);
    static_assert(std::is_same_v<decltype(sn), typename NormType<T>::type>, "square_norm has the wrong type");
    agree_norm(sn, std::sqrt(sq), n, "square_norm");
    auto in = malg::infinity_norm(x);
    static_assert(std::is_same_v<decltype(in), real_of<T>>, "infinity_norm has the wrong type");
    agree_norm(in, inf, is_cplx<T> ? 4 : 0, "infinity_norm");
    if constexpr (!is_cplx<T>) {
        CHECK(static_cast<long double>(in) == inf, << "infinity_norm is " << show(in) << " instead of " << show(inf));
        auto mn = malg::min(x);
        auto mx = malg::max(x);
        static_assert(std::is_same_v<decltype(mn), std::pair<T, std::size_t>>, "min has the wrong type");
        static_assert(std::is_same_v<decltype(mx), std::pair<T, std::size_t>>, "max has the wrong type");
        std::size_t lo = 0, hi = 0;
        for (std::size_t i = 1; i < n; ++i) {
            if (v[i] < v[lo]) lo = i;
            if (v[i] > v[hi]) hi = i;
        }
        CHECK(mn.second == lo && mn.first == (n ? v[lo] : T(0)), << "min is " << show(mn.first) << " at " << mn.second << " instead of " << lo);
        CHECK(mx.second == hi && mx.first == (n ? v[hi] : T(0)), << "max is " << show(mx.first) << " at " << mx.second << " instead of " << hi);
    }
    expect_eq(x, v, "reductions: operand");
    // The accumulation functions over parts of the storage.
    if (n > 0) {
        std::size_t a = s.draw(n + 1), b = a + s.draw(n - a + 1), c = s.draw(n - (b - a) + 1);
        T init = gen_value<T>(s, f);
        std::unique_ptr<T[]> p(new T[b - a]), q(new T[b - a]); // tight bounds
        for (std::size_t i = a; i < b; ++i) p[i - a] = v[i], q[i - a] = v[c + i - a];
        cl ip = to_cl(init), ac = to_cl(init);
        long double mi = abs_l(ip), ma = abs_l(ac);
        for (std::size_t i = a; i < b; ++i) {
            cl t = mul_l(to_cl(v[i]), to_cl(v[c + i - a]));
            ip   = add_l(ip, t);
            ac   = add_l(ac, to_cl(v[i]));
            mi += 2 * abs_l(to_cl(v[i])) * abs_l(to_cl(v[c + i - a]));
            ma += 2 * abs_l(to_cl(v[i]));
        }
        agree(malg::utility::inner_product(p.get(), p.get() + (b - a), q.get(), init), ip, mi, n, exact, "inner_product of " + std::to_string(b - a) + " elements");
        agree(malg::utility::accumulate(p.get(), p.get() + (b - a), init), ac, ma, n, exact, "accumulate of " + std::to_string(b - a) + " elements");
    }
    // Laws of the norms.
    if constexpr (!std::is_integral_v<T>) {
        std::vector<T> w  = gen_vec<T>(s, n, f);
        malg::Vector<T> y = to_malg(w);
        long double slack = (static_cast<long double>(n) + 10) * 8 * eps_of<T>();
        long double a = malg::square_norm(x), b = malg::square_norm(y), c = malg::square_norm(x + y);
        CHECK(c <= (a + b) * (1 + slack), << "square_norm: triangle inequality " << show(c) << " > " << show(a) << " + " << show(b));
        a = malg::infinity_norm(x), b = malg::infinity_norm(y), c = malg::infinity_norm(x + y);
        CHECK(c <= (a + b) * (1 + slack), << "infinity_norm: triangle inequality " << show(c) << " > " << show(a) << " + " << show(b));
        using R = real_of<T>;
        R k     = static_cast<R>(s.draw(2) ? -4 : 0.5);
        auto scales = [&](long double big, long double one) { return std::fabs(big - std::fabs(static_cast<long double>(k)) * one) <= slack * one; };
        CHECK(scales(malg::square_norm(x * k), malg::square_norm(x)), << "square_norm does not scale");
        CHECK(scales(malg::infinity_norm(x * k), malg::infinity_norm(x)), << "infinity_norm does not scale");
    }
}

template <typename T, typename F>
void on_operand(Source &s, const Mod<T> &m, F &&f)
{
    switch (s.draw(3)) {
    case 0: {
        malg::Matrix<T> x = to_malg(m);
        f(x, std::string(" of a matrix"));
        expect_eq(x, m, "reductions: operand");
        break;
    }
    case 1: {
        ConstOperand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        break;
    }
    default: {
        Operand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        x.check_unchanged(m, "reductions");
    }
    }
}

template <typename T>
void matrices(Source &s)
{
    bool exact;
    Flavor f = flavor<T>(s, exact);
    Shape sh = gen_shape_any(s, 24);
    if (std::is_integral_v<T> && sh.r * sh.c > 1500) f = SMALL; // the squares fit
    Mod<T> m = gen_mod<T>(s, sh.r, sh.c, f);
    s.nontrivial(m.size() >= 2 && varied(m.d));
    s.note() << tname<T>() << " " << show(m) << "\n";
    cl tr = 0;
    long double tmag = 0, sq = 0, inf = 0, sub = 0;
    for (std::size_t i = 0; i < sh.r; ++i) {
        long double row = 0;
        for (std::size_t j = 0; j < sh.c; ++j) {
            cl v = to_cl(m(i, j));
            sq += norm_l(v);
            row += abs_l(v);
            if (i == j) tr = add_l(tr, v), tmag += std::fabs(v.real()) + std::fabs(v.imag());
            if (j < i) sub += norm_l(v);
        }
        inf = std::max(inf, row);
    }
    std::size_t col = s.draw(sh.c), a = s.draw(sh.r + 2), b = s.draw(4) == 3 ? static_cast<std::size_t>(-1) : a + s.draw(sh.r + 2);
    bool whole      = s.draw(3) == 2;
    long double len = 0;
    for (std::size_t i = a; i < sh.r && (whole || i < b); ++i) len += norm_l(to_cl(m(i, col)));
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto t = malg::trace(x);
        static_assert(std::is_same_v<decltype(t), T>, "trace has the wrong type");
        agree(t, tr, tmag, sh.r, exact, "trace" + w);
        auto n = malg::square_norm(x);
        static_assert(std::is_same_v<decltype(n), typename NormType<T>::type>, "square_norm has the wrong type");
        agree_norm(n, std::sqrt(sq), m.size(), "square_norm" + w);
        auto i = malg::infinity_norm(x);
        static_assert(std::is_same_v<decltype(i), real_of<T>>, "infinity_norm has the wrong type");
        agree_norm(i, inf, sh.c, "infinity_norm" + w);
        auto l = whole ? malg::vector_length(x, col, a) : malg::vector_length(x, col, a, b);
        agree_norm(l, std::sqrt(len), sh.r, "vector_length" + w + " column " + std::to_string(col) + " rows " + std::to_string(a) + " to " + (whole ? "the end" : std::to_string(b)));
        if (sh.r == sh.c) agree_norm(malg::sub_norm(x), std::sqrt(sub), m.size(), "sub_norm" + w);
        else expect_rejected([&] { malg::sub_norm(x); }, "sub_norm" + w + " that is not square");
    });
    if constexpr (!is_cplx<T>) {
        malg::Matrix<T> x = to_malg(m);
        std::vector<T> lo, hi;
        for (std::size_t j = 0; j < sh.c; ++j) {
            T l = m(0, j), h = m(0, j);
            for (std::size_t i = 1; i < sh.r; ++i) l = std::min(l, m(i, j)), h = std::max(h, m(i, j));
            lo.push_back(l), hi.push_back(h);
        }
        expect_eq(malg::min(x), lo, "min by column");
        expect_eq(malg::max(x), hi, "max by column");
        expect_eq(x, m, "min and max: operand");
    }
    if constexpr (!std::is_integral_v<T>) {
        malg::Matrix<T> x = to_malg(m), y = to_malg(gen_mod<T>(s, sh.r, sh.c, f));
        long double slack = (static_cast<long double>(m.size()) + 10) * 8 * eps_of<T>();
        long double p = malg::square_norm(x), q = malg::square_norm(y), r = malg::square_norm(x + y);
        CHECK(r <= (p + q) * (1 + slack), << "square_norm: triangle inequality");
        p = malg::infinity_norm(x), q = malg::infinity_norm(y), r = malg::infinity_norm(x + y);
        CHECK(r <= (p + q) * (1 + slack), << "infinity_norm: triangle inequality");
    }
}

/// Neighbours that a double does not tell apart: the order is that of the type.
template <typename T>
void neighbours(Source &s)
{
    const std::size_t r = 1 + s.draw(6), c = 1 + s.draw(6);
    const unsigned sign = static_cast<unsigned>(s.draw(2));
    const T base        = static_cast<T>((sign ? -1L : 1L) * (1L << (54 + s.draw(8))));
    Mod<T> m(r, c);
    for (auto &x : m.d) x = base + static_cast<T>(static_cast<long>(s.draw(9)) - 4);
    if (s.draw(4) == 3) m.d[s.draw(m.d.size())] = T(0);
    s.note() << tname<T>() << " " << show(m) << "\n";
    malg::Matrix<T> x = to_malg(m);
    malg::Vector<T> v = to_malg(m.d);
    std::size_t lo = 0, hi = 0;
    T total = 0;
    for (std::size_t i = 0; i < m.d.size(); ++i) {
        if (m.d[i] < m.d[lo]) lo = i;
        if (m.d[i] > m.d[hi]) hi = i;
    }
    CHECK(malg::min(v).first == m.d[lo] && malg::min(v).second == lo, << "min is " << show(malg::min(v).first) << " at " << malg::min(v).second << " instead of " << show(m.d[lo]) << " at " << lo);
    CHECK(malg::max(v).first == m.d[hi] && malg::max(v).second == hi, << "max is " << show(malg::max(v).first) << " at " << malg::max(v).second << " instead of " << show(m.d[hi]) << " at " << hi);
    std::vector<T> ls, hs;
    for (std::size_t j = 0; j < c; ++j) {
        T l = m(0, j), h = m(0, j);
        for (std::size_t i = 1; i < r; ++i) l = std::min(l, m(i, j)), h = std::max(h, m(i, j));
        ls.push_back(l), hs.push_back(h);
    }
    expect_eq(malg::min(x), ls, "min by column");
    expect_eq(malg::max(x), hs, "max by column");
    // Two elements of opposite sign leave a sum that is exact.
    malg::Vector<T> pair = { base, T(1), static_cast<T>(-base + T(2)) };
    total                = base + T(1) + (-base + T(2));
    CHECK(malg::sum(pair) == total, << "sum is " << show(malg::sum(pair)) << " instead of " << show(total));
    s.nontrivial(m.d[lo] != m.d[hi]);
}

template <typename T>
void empties(Source &s)
{
    malg::Matrix<T> m;
    malg::Vector<T> v;
    s.draw(2);
    CHECK(malg::sum(v) == T(0) && malg::trace(m) == T(0), << "sum or trace of nothing");
    CHECK(malg::square_norm(v) == 0 && malg::square_norm(m) == 0, << "square_norm of nothing");
    CHECK(malg::infinity_norm(v) == 0 && malg::infinity_norm(m) == 0 && malg::sub_norm(m) == 0, << "infinity_norm or sub_norm of nothing");
    if constexpr (!is_cplx<T>) {
        CHECK(malg::min(m).size() == 0 && malg::max(m).size() == 0, << "min or max of an empty matrix");
        CHECK(malg::min(v).first == T(0) && malg::max(v).first == T(0) && malg::min(v).second == 0 && malg::max(v).second == 0, << "min or max of an empty vector");
    }
    T x = gen_value<T>(s, SMALL);
    CHECK(malg::utility::accumulate(static_cast<T *>(nullptr), static_cast<T *>(nullptr), x) == x, << "accumulate of nothing");
}

template <typename T>
void scaling(Source &s)
{
    using R  = real_of<T>;
    Shape sh = gen_shape_any(s, 12);
    Mod<T> m = gen_mod<T>(s, sh.r, sh.c, s.draw(3) ? REAL : SMALL);
    R k      = std::ldexp(R(1), static_cast<int>(s.sint(20)));
    if (s.draw(4) == 3) { // the norm is exactly a power of two
        for (auto &v : m.d) v = T(0);
        for (std::size_t i = 0; i < sh.r; ++i) m(i, s.draw(sh.c)) = T(static_cast<R>(s.draw(2) ? 1 : -1));
    }
    for (auto &v : m.d) v = T(v * k);
    long double inf = 0;
    for (std::size_t i = 0; i < sh.r; ++i) {
        long double row = 0;
        for (std::size_t j = 0; j < sh.c; ++j) row += abs_l(to_cl(m(i, j)));
        inf = std::max(inf, row);
    }
    s.nontrivial(inf > 1);
    s.note() << tname<T>() << " " << show(m) << " norm " << show(inf) << "\n";
    long double slack = (static_cast<long double>(sh.c) + 6) * eps_of<T>();
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto p = malg::log2_ceil(x);
        static_assert(std::is_same_v<decltype(p), std::pair<std::size_t, R>>, "log2_ceil has the wrong type");
        CHECK(p.first < 200, << "log2_ceil" << w << ": " << p.first << " iterations");
        CHECK(static_cast<long double>(p.second) == std::ldexp(1.0L, -static_cast<int>(p.first)), << "log2_ceil" << w << ": scale " << show(p.second) << " for " << p.first << " iterations");
        long double scaled = inf * static_cast<long double>(p.second);
        CHECK(scaled <= 1 + slack, << "log2_ceil" << w << ": the scaled norm is " << show(scaled));
        CHECK(p.first == 0 || 2 * scaled > 1 - slack, << "log2_ceil" << w << ": the scaled norm is " << show(scaled) << " after " << p.first << " halvings");
    });
}
} // namespace c08

#define TYPE(n, T)              \
    PROP(vectors_##n, 3)        \
    {                           \
        c08::vectors<T>(s);     \
    }                           \
    PROP(matrices_##n, 4)       \
    {                           \
        c08::matrices<T>(s);    \
    }                           \
    PROP(empties_##n, 1)        \
    {                           \
        if (s.draw(8) == 0)     \
            c08::empties<T>(s); \
        else                    \
            c08::vectors<T>(s); \
    }
#define FLOATING(n, T)          \
    PROP(scaling_##n, 1)        \
    {                           \
        c08::scaling<T>(s);     \
    }
