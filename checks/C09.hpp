// C09: element-wise functions.
#include "gen.hpp"

namespace c09
{
template <typename T, typename F>
void on_operand(Source &s, const Mod<T> &m, F &&f)
{
    switch (s.draw(3)) {
    case 0: {
        malg::Matrix<T> x = to_malg(m);
        f(x, std::string(" of a matrix"));
        expect_eq(x, m, "element-wise function: operand");
        break;
    }
    case 1: {
        ConstOperand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        break;
    }
    default: {
        Operand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        x.check_unchanged(m, "element-wise function");
    }
    }
}
template <typename T>
Flavor flavor(Source &s)
{
    if (!std::is_integral_v<T> && s.draw(3) == 2) return std::is_same_v<real_of<T>, float> || s.draw(2) ? REAL : WIDE;
    return gen_exact_flavor(s);
}
/// Compares numerically, whatever the complexity of the two types.
template <typename G, typename W>
void element(const G &got, const W &want, long double rel, const std::string &what)
{
    cl g = to_cl(got), w = to_cl(want);
    bool same_value = g == w || abs_l(sub_l(g, w)) <= rel * abs_l(w);
    CHECK(same_value, << what << " is " << show(got) << " instead of " << show(want));
}
template <typename G, typename T, typename F>
void each(const malg::MatrixBase<G> &got, const Mod<T> &m, F &&want, long double rel, const std::string &what)
{
    CHECK(got.rows() == m.r && got.cols() == m.c && got.size() == m.size(), << what << ": the result is " << got.rows() << "x" << got.cols());
    for (std::size_t i = 0; i < m.r; ++i)
        for (std::size_t j = 0; j < m.c; ++j) element(got(i, j), want(m(i, j)), rel, what + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") for " + show(m(i, j)));
}
template <typename G, typename T, typename F>
void each(const malg::Vector<G> &got, const std::vector<T> &m, F &&want, long double rel, const std::string &what)
{
    CHECK(got.size() == m.size(), << what << ": the result has " << got.size() << " elements");
    for (std::size_t i = 0; i < m.size(); ++i) element(got[i], want(m[i]), rel, what + ": element " + std::to_string(i) + " for " + show(m[i]));
}

/// An arbitrary function of the value.
template <typename R, typename T>
R hash_fn(const T &v, unsigned salt)
{
    cl c            = to_cl(v);
    double a        = static_cast<double>(c.real()), b = static_cast<double>(c.imag());
    pbt::u64 x = salt, y = 0;
    if (a == 0) a = 0; // -0 as 0
    if (b == 0) b = 0;
    std::memcpy(&y, &a, 8);
    x ^= y;
    pbt::splitmix(x);
    std::memcpy(&y, &b, 8);
    x ^= y * 31;
    pbt::u64 h = pbt::splitmix(x);
    if constexpr (is_cplx<R>) return R(static_cast<real_of<R>>(h % 97) - 48, static_cast<real_of<R>>((h >> 8) % 97) - 48);
    else if constexpr (std::is_same_v<R, bool>) return h & 1;
    else return static_cast<R>(h % 199) - static_cast<R>(99);
}

/// Records its calls.
template <typename K>
struct Calls {
    std::vector<K> seen;
    void same_as(std::vector<K> want, const std::string &what)
    {
        CHECK(seen.size() == want.size(), << what << ": the function was called " << seen.size() << " times for " << want.size() << " elements");
        std::sort(seen.begin(), seen.end());
        std::sort(want.begin(), want.end());
        CHECK(seen == want, << what << ": the function was called with other values");
    }
};
typedef std::pair<long double, long double> Key;
template <typename T>
Key key(const T &v)
{
    cl c = to_cl(v);
    return Key(c.real(), c.imag());
}

/// Any function, of one element, returning R.
template <typename T, typename R>
void unary(Source &s)
{
    Shape sh      = gen_shape_any(s, 20);
    Mod<T> m      = gen_mod<T>(s, sh.r, sh.c, flavor<T>(s));
    unsigned salt = static_cast<unsigned>(s.draw(1000));
    s.nontrivial(m.size() >= 2 && varied(m.d));
    s.note() << tname<T>() << " to " << tname<R>() << " " << show(m) << "\n";
    std::vector<Key> keys;
    for (auto &v : m.d) keys.push_back(key(v));
    auto want = [&](const T &v) { return hash_fn<R>(v, salt); };
    using C   = common_of<T, R>;
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        Calls<Key> calls;
        auto r = malg::element_wise_function(x, [&calls, salt](const T &v) {
            calls.seen.push_back(key(v));
            return hash_fn<R>(v, salt);
        });
        static_assert(std::is_same_v<decltype(r), malg::Matrix<C>>, "element_wise_function has the wrong type");
        each(r, m, want, 0, "element_wise_function" + w);
        calls.same_as(keys, "element_wise_function" + w);
    });
    {
        std::vector<T> e = s.draw(8) == 7 ? std::vector<T>() : m.d;
        if (e.empty()) keys.clear();
        malg::Vector<T> x = to_malg(e);
        Calls<Key> calls;
        auto r = malg::element_wise_function(x, [&calls, salt](const T &v) {
            calls.seen.push_back(key(v));
            return hash_fn<R>(v, salt);
        });
        static_assert(std::is_same_v<decltype(r), malg::Vector<C>>, "element_wise_function has the wrong type");
        each(r, e, want, 0, "element_wise_function of a vector");
        calls.same_as(keys, "element_wise_function of a vector");
        expect_eq(x, e, "element_wise_function: operand");
    }
}

template <typename A, typename B, typename R>
void binary(Source &s)
{
    Shape sh      = gen_shape_any(s, 20);
    Flavor fa = flavor<A>(s), fb = flavor<B>(s);
    Mod<A> a      = gen_mod<A>(s, sh.r, sh.c, fa);
    Mod<B> b      = gen_mod<B>(s, sh.r, sh.c, fb);
    unsigned salt = static_cast<unsigned>(s.draw(1000));
    s.nontrivial(a.size() >= 2 && varied(a.d) && varied(b.d));
    s.note() << show(a) << " and " << show(b) << "\n";
    using C = common_of<common_of<A, B>, R>;
    auto fn = [salt](const A &x, const B &y) { return static_cast<R>(hash_fn<R>(x, salt) + hash_fn<R>(y, salt + 1)); };
    std::vector<std::pair<Key, Key>> keys;
    for (std::size_t i = 0; i < a.d.size(); ++i) keys.push_back(std::make_pair(key(a.d[i]), key(b.d[i])));
    Calls<std::pair<Key, Key>> calls;
    auto fun = [&calls, fn](const A &x, const B &y) {
        calls.seen.push_back(std::make_pair(key(x), key(y)));
        return fn(x, y);
    };
    auto check = [&](const auto &r, const std::string &w) {
        static_assert(std::is_same_v<std::decay_t<decltype(r)>, malg::Matrix<C>>, "element_wise_binary_function has the wrong type");
        CHECK(r.rows() == sh.r && r.cols() == sh.c && r.size() == a.size(), << w << ": the result is " << r.rows() << "x" << r.cols());
        for (std::size_t i = 0; i < sh.r; ++i)
            for (std::size_t j = 0; j < sh.c; ++j) element(r(i, j), fn(a(i, j), b(i, j)), 0, w + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
        calls.same_as(keys, w);
    };
    switch (s.draw(3)) {
    case 0: {
        ConstOperand<A> x(s, a);
        ConstOperand<B> y(s, b);
        check(malg::element_wise_binary_function(x.cref(), y.cref(), fun), "element_wise_binary_function of constant views");
        break;
    }
    case 1: {
        Operand<A> x(s, a);
        Operand<B> y(s, b);
        check(malg::element_wise_binary_function(x.cref(), y.cref(), fun), std::string("element_wise_binary_function of a ") + x.form() + " and a " + y.form());
        x.check_unchanged(a, "element_wise_binary_function");
        y.check_unchanged(b, "element_wise_binary_function");
        break;
    }
    default: {
        malg::Vector<A> x = to_malg(a.d);
        malg::Vector<B> y = to_malg(b.d);
        auto r            = malg::element_wise_binary_function(x, y, fun);
        static_assert(std::is_same_v<decltype(r), malg::Vector<C>>, "element_wise_binary_function has the wrong type");
        CHECK(r.size() == a.d.size(), << "element_wise_binary_function of vectors: size " << r.size());
        for (std::size_t i = 0; i < a.d.size(); ++i) element(r[i], fn(a.d[i], b.d[i]), 0, "element_wise_binary_function of vectors: element " + std::to_string(i));
        calls.same_as(keys, "element_wise_binary_function of vectors");
        expect_eq(x, a.d, "element_wise_binary_function: left operand");
        expect_eq(y, b.d, "element_wise_binary_function: right operand");
    }
    }
}

/// real, imag, abs, sign, exp
template <typename T>
void parts(Source &s)
{
    Shape sh = gen_shape_any(s, 20);
    Mod<T> m = gen_mod<T>(s, sh.r, sh.c, flavor<T>(s));
    s.nontrivial(m.size() >= 2 && varied(m.d));
    if constexpr (!std::is_integral_v<T>) {
        if (m.size() && s.draw(6) == 5) { // as far as the magnitudes can go
            using R = real_of<T>;
            int top = std::numeric_limits<R>::max_exponent - 8;
            for (auto &x : m.d)
                if (s.draw(3) == 2) {
                    T y = T(x * std::ldexp(R(1), static_cast<int>(s.sint(top - 40))));
                    if (abs_l(to_cl(y)) < std::ldexp(1.0L, top)) x = y;
                }
        }
    }
    malg::Vector<T> v = to_malg(m.d);
    auto sgn          = [](const T &x) {
        cl c = to_cl(x);
        return is_cplx<T> ? cl(c.real() > 0 ? 1 : -1, c.imag() > 0 ? 1 : -1) : cl(c.real() > 0 ? 1 : -1, 0);
    };
    auto mag = [](const T &x) { return abs_l(to_cl(x)); };
    long double e = is_cplx<T> ? 4 * eps_of<T>() : 0;
    // The exponential needs moderate exponents.
    Mod<T> small = m;
    for (auto &x : small.d)
        while (abs_l(to_cl(x)) > 60) x = T(x / real_of<T>(16));
    s.note() << tname<T>() << " " << show(m) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        each(malg::abs(x), m, mag, e, "abs" + w);
        each(malg::sign(x), m, sgn, 0, "sign" + w);
        if constexpr (is_cplx<T>) {
            each(malg::real(x), m, [](const T &y) { return y.real(); }, 0, "real" + w);
            each(malg::imag(x), m, [](const T &y) { return y.imag(); }, 0, "imag" + w);
        }
    });
    each(malg::abs(v), m.d, mag, e, "abs of a vector");
    each(malg::sign(v), m.d, sgn, 0, "sign of a vector");
    if constexpr (is_cplx<T>) {
        each(malg::real(v), m.d, [](const T &y) { return y.real(); }, 0, "real of a vector");
        each(malg::imag(v), m.d, [](const T &y) { return y.imag(); }, 0, "imag of a vector");
    }
    expect_eq(v, m.d, "element-wise function: operand");
    if constexpr (!std::is_integral_v<T>) {
        on_operand<T>(s, small, [&](const auto &x, const std::string &w) {
            auto r = malg::linalg::exp(x);
            static_assert(std::is_same_v<decltype(r), malg::Matrix<T>>, "exp has the wrong type");
            each(r, small, [](const T &y) {
                cl c          = to_cl(y);
                long double k = std::exp(c.real());
                return cl(k * std::cos(c.imag()), k * std::sin(c.imag()));
            }, 16 * eps_of<T>(), "exp" + w);
        });
    }
}

template <typename A, typename B>
void combine(Source &s)
{
    using C  = common_of<A, B>;
    Shape sh = gen_shape_any(s, 20);
    Flavor f = s.draw(2) ? SMALL : s.draw(2) ? DYADIC : FEW;
    Mod<A> a = gen_mod<A>(s, sh.r, sh.c, f);
    Mod<B> b = gen_mod<B>(s, sh.r, sh.c, f);
    A ka     = gen_value<A>(s, SMALL);
    B kb     = gen_value<B>(s, SMALL);
    s.nontrivial(a.size() >= 2 && varied(a.d) && varied(b.d));
    s.note() << show(a) << " and " << show(b) << " by " << show(ka) << " and " << show(kb) << "\n";
    auto go = [&](const auto &x, const auto &y, const std::string &w) {
        auto p = malg::element_wise_product(x, y);
        auto q = malg::linear_combination(x, ka, y, kb);
        static_assert(std::is_same_v<decltype(p), malg::Matrix<C>> && std::is_same_v<decltype(q), malg::Matrix<C>>, "the result has the wrong type");
        CHECK(p.rows() == sh.r && p.cols() == sh.c && q.rows() == sh.r && q.cols() == sh.c, << w << ": wrong shape");
        for (std::size_t i = 0; i < sh.r; ++i)
            for (std::size_t j = 0; j < sh.c; ++j) {
                cl u = to_cl(a(i, j)), v = to_cl(b(i, j));
                element(p(i, j), mul_l(u, v), 0, "element_wise_product" + w + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
                element(q(i, j), add_l(mul_l(u, to_cl(ka)), mul_l(v, to_cl(kb))), 0, "linear_combination" + w + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
            }
    };
    if (s.draw(3) == 2) {
        ConstOperand<A> x(s, a);
        ConstOperand<B> y(s, b);
        go(x.cref(), y.cref(), " of constant views");
    } else {
        Operand<A> x(s, a);
        Operand<B> y(s, b);
        go(x.cref(), y.cref(), std::string(" of a ") + x.form() + " and a " + y.form());
        x.check_unchanged(a, "linear_combination");
        y.check_unchanged(b, "linear_combination");
    }
}

template <typename A, typename B>
void project(Source &s)
{
    using C          = common_of<A, B>;
    std::size_t n    = gen_len(s, 1, 60);
    Flavor f         = s.draw(2) ? SMALL : REAL;
    std::vector<A> a = gen_vec<A>(s, n, f);
    std::vector<B> b = gen_vec<B>(s, n, f);
    if constexpr (!std::is_integral_v<A> && !std::is_integral_v<B> && !std::is_same_v<real_of<A>, float> && !std::is_same_v<real_of<B>, float>)
        if (s.draw(6) == 5) { // neither dot product, nor their ratio, nor the projection leaves the range
            const int i = static_cast<int>(s.sint(550)), j = static_cast<int>(s.sint(400));
            if (std::abs(i + j) < 900) {
                for (auto &v : a) v = A(v * static_cast<real_of<A>>(std::ldexp(1.0, i)));
                for (auto &v : b) v = B(v * static_cast<real_of<B>>(std::ldexp(1.0, j)));
                s.label("far from one");
            }
        }
    cl ab = 0, bb = 0;
    long double mab = 0, mbb = 0;
    for (std::size_t i = 0; i < n; ++i) {
        ab = add_l(ab, mul_l(to_cl(a[i]), to_cl(b[i])));
        bb = add_l(bb, mul_l(to_cl(b[i]), to_cl(b[i])));
        mab += abs_l(to_cl(a[i])) * abs_l(to_cl(b[i]));
        mbb += abs_l(to_cl(b[i])) * abs_l(to_cl(b[i]));
    }
    s.discard(mbb == 0 || abs_l(bb) < mbb * 0.1L);
    s.nontrivial(n >= 2 && varied(a) && varied(b));
    s.note() << show(a) << " on " << show(b) << "\n";
    malg::Vector<A> x = to_malg(a);
    malg::Vector<B> y = to_malg(b);
    auto r            = malg::projection(x, y);
    static_assert(std::is_same_v<decltype(r), malg::Vector<C>>, "projection has the wrong type");
    CHECK(r.size() == n, << "projection: size " << r.size());
    long double k = 100 * (static_cast<long double>(n) + 10) * eps_of<C>();
    for (std::size_t i = 0; i < n; ++i) {
        cl want = mul_l(to_cl(b[i]), div_l(ab, bb));
        CHECK(abs_l(sub_l(to_cl(r[i]), want)) <= k * abs_l(to_cl(b[i])) * mab / mbb, << "projection: element " << i << " is " << show(r[i]) << " instead of " << show(want));
    }
    expect_eq(x, a, "projection: left operand");
    expect_eq(y, b, "projection: right operand");
    // Projecting again changes nothing.
    auto q = malg::projection(r, y);
    for (std::size_t i = 0; i < n; ++i) CHECK(abs_l(sub_l(to_cl(q[i]), to_cl(r[i]))) <= 2 * k * abs_l(to_cl(b[i])) * mab / mbb * 4, << "projection is not idempotent");
}
} // namespace c09

#define UN(n, T, R)                \
    PROP(unary_##n, 2)             \
    {                              \
        c09::unary<T, R>(s);       \
    }
#define BIN(n, A, B, R)            \
    PROP(binary_##n, 2)            \
    {                              \
        c09::binary<A, B, R>(s);   \
    }
#define PARTS(n, T)                \
    PROP(parts_##n, 3)             \
    {                              \
        c09::parts<T>(s);          \
    }
#define COMB(n, A, B)              \
    PROP(combine_##n, 2)           \
    {                              \
        c09::combine<A, B>(s);     \
    }
#define PRJ(n, A, B)               \
    PROP(projection_##n, 1)        \
    {                              \
        c09::project<A, B>(s);     \
    }
