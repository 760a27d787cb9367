// C23: generators.
#include "forms.hpp"

namespace c23
{
namespace ut = malg::utility;

template <typename T>
T end_value(Source &s)
{
    switch (s.draw(4)) {
    case 0: return static_cast<T>(s.sint(9));
    case 1: return gen_value<T>(s, DYADIC);
    case 2: return gen_value<T>(s, REAL);
    default: return gen_value<T>(s, WIDE);
    }
}
inline std::size_t count(Source &s)
{
    switch (s.draw(4)) {
    case 0: return s.draw(4);
    case 1: return 2 + s.draw(20);
    case 2: return 2 + s.draw(200);
    default: return 2 + s.draw(3000);
    }
}
template <typename T>
long double ideal(T a, T b, std::size_t i, std::size_t n)
{
    return n == 1 ? b : static_cast<long double>(a) + (static_cast<long double>(b) - a) * static_cast<long double>(i) / static_cast<long double>(n - 1);
}
/// The ends coincide for the library within the tolerance of the comparisons.
template <typename T>
bool coincide(T a, T b)
{
    return std::abs(static_cast<long double>(a) - b) <= 1.001e-6L * std::max(std::abs(static_cast<long double>(a)), std::abs(static_cast<long double>(b)));
}

template <typename T>
void linspace(Source &s)
{
    T a = end_value<T>(s), b = end_value<T>(s);
    switch (s.draw(8)) {
    case 6: b = a; break;
    case 7: b = a + a * static_cast<T>(s.sint(40)) / T(1 << 20); break; // close
    default: break;
    }
    std::size_t n = count(s);
    bool dflt     = s.draw(8) == 7;
    if (dflt) n = 100;
    auto x = dflt ? ut::linspace(a, b) : ut::linspace(a, b, static_cast<unsigned>(n));
    static_assert(std::is_same_v<decltype(x), malg::Vector<T>>);
    std::string what = "linspace(" + show(a) + ", " + show(b) + ", " + std::to_string(n) + ")";
    CHECK(x.size() == n, << what << ": " << x.size() << " points");
    long double eps = std::numeric_limits<T>::epsilon(), scale = std::abs(static_cast<long double>(a)) + std::abs(static_cast<long double>(b));
    long double span = std::abs(static_cast<long double>(a) - b);
    long double tol  = 4 * eps * scale + std::numeric_limits<T>::denorm_min() * static_cast<long double>(n);
    if (n == 1) {
        CHECK(x[0] == b, << what << ": the point is " << show(x[0]));
    } else if (n > 0) {
        if (a == b)
            for (std::size_t i = 0; i < n; ++i) CHECK(x[i] == b, << what << ": point " << i << " is " << show(x[i]));
        if (coincide(a, b)) {
            for (std::size_t i = 0; i < n; ++i) CHECK(std::abs(x[i] - ideal(a, b, i, n)) <= span + tol, << what << ": point " << i << " is " << show(x[i]));
        } else {
            CHECK(x[0] == a, << what << ": starts at " << show(x[0]));
            for (std::size_t i = 0; i < n; ++i) CHECK(std::abs(x[i] - ideal(a, b, i, n)) <= tol, << what << ": point " << i << " is " << show(x[i]) << " instead of " << static_cast<double>(ideal(a, b, i, n)));
        }
    }
    s.nontrivial(n >= 3 && a != b);
    s.label(a < b ? "rising" : a > b ? "falling" : "equal ends");
}
template <typename T>
void linspace_integral(Source &s)
{
    std::size_t n = count(s);
    T step        = static_cast<T>(s.draw(30)), low = gen_value<T>(s, MEDIUM);
    T high        = static_cast<T>(low + step * static_cast<T>(n > 1 ? n - 1 : s.draw(5)));
    bool falling  = s.draw(2);
    T a = falling ? high : low, b = falling ? low : high;
    auto x = ut::linspace(a, b, static_cast<unsigned>(n));
    std::string what = "linspace(" + show(a) + ", " + show(b) + ", " + std::to_string(n) + ")";
    CHECK(x.size() == n, << what << ": " << x.size() << " points");
    for (std::size_t i = 0; i < n; ++i) {
        T w = n == 1 ? b : falling ? static_cast<T>(high - step * static_cast<T>(i)) : static_cast<T>(low + step * static_cast<T>(i));
        CHECK(x[i] == w, << what << ": point " << i << " is " << show(x[i]) << " instead of " << show(w));
    }
    s.nontrivial(n >= 3 && step > 0);
}
template <typename T>
void logspace(Source &s)
{
    auto expo = [&]() -> T { return s.draw(2) ? static_cast<T>(s.sint(10)) : static_cast<T>(s.sint(1000)) / T(128); };
    T a = expo(), b = s.draw(8) == 7 ? a : expo();
    T base        = s.draw(2) ? T(10) : s.draw(2) ? static_cast<T>(2 + s.draw(15)) : static_cast<T>(1 + s.draw(400)) / T(32);
    std::size_t n = count(s);
    int form      = static_cast<int>(s.draw(6));
    if (form == 5) n = 50;
    if (form >= 4) base = T(10);
    auto x = form == 5 ? ut::logspace(a, b) : form == 4 ? ut::logspace(a, b, n) : ut::logspace(a, b, n, base);
    static_assert(std::is_same_v<decltype(x), malg::Vector<T>>);
    std::string what = "logspace(" + show(a) + ", " + show(b) + ", " + std::to_string(n) + ", " + show(base) + ")";
    CHECK(x.size() == n, << what << ": " << x.size() << " points");
    long double eps = std::numeric_limits<T>::epsilon(), lb = std::log(static_cast<long double>(base));
    long double scale = std::abs(static_cast<long double>(a)) + std::abs(static_cast<long double>(b));
    long double tol   = std::expm1(std::abs(lb) * (4 * eps * scale + (a != b && coincide(a, b) ? std::abs(static_cast<long double>(a) - b) : 0))) + 8 * eps;
    for (std::size_t i = 0; i < n; ++i) {
        long double w = std::exp(lb * ideal(a, b, i, n));
        CHECK(std::abs(x[i] - w) <= tol * w, << what << ": point " << i << " is " << show(x[i]) << " instead of " << static_cast<double>(w));
    }
    s.nontrivial(n >= 3 && a != b);
    s.label(a < b ? "rising" : a > b ? "falling" : "equal ends");
}

template <typename T>
void fixed(Source &s)
{
    Shape sh = s.draw(6) == 5 ? Shape{ s.draw(2), s.draw(2) } : gen_shape_any(s, 30);
    T v      = gen_value<T>(s, DYADIC);
    bool bad = sh.r == 0 || sh.c == 0;
    std::string at = std::to_string(sh.r) + "x" + std::to_string(sh.c);
    auto diagonal  = [](std::size_t r, std::size_t c, T x) {
        Mod<T> m(r, c, T(0));
        for (std::size_t i = 0; i < std::min(r, c); ++i) m(i, i) = x;
        return m;
    };
    switch (s.draw(7)) {
    case 0:
        if (bad) expect_rejected([&] { ut::eye<T>(sh.r, sh.c, v); }, "eye " + at);
        else expect_eq(ut::eye<T>(sh.r, sh.c, v), diagonal(sh.r, sh.c, v), "eye " + at);
        break;
    case 1:
        if (sh.r == 0) expect_rejected([&] { ut::identity<T>(0, v); }, "identity 0");
        else expect_eq(ut::identity<T>(sh.r, v), diagonal(sh.r, sh.r, v), "identity with a value");
        if (sh.r == 0) expect_rejected([&] { ut::identity<T>(0); }, "identity 0");
        else expect_eq(ut::identity<T>(sh.r), diagonal(sh.r, sh.r, T(1)), "identity");
        break;
    case 2:
        if (bad) expect_rejected([&] { ut::zeros<T>(sh.r, sh.c); }, "zeros " + at);
        else expect_eq(ut::zeros<T>(sh.r, sh.c), Mod<T>(sh.r, sh.c, T(0)), "zeros " + at);
        break;
    case 3:
        if (bad) expect_rejected([&] { ut::ones<T>(sh.r, sh.c); }, "ones " + at);
        else expect_eq(ut::ones<T>(sh.r, sh.c), Mod<T>(sh.r, sh.c, T(1)), "ones " + at);
        break;
    case 4:
        if (sh.r == 0) expect_rejected([&] { ut::zeros<T>(std::size_t(0)); }, "zeros of no elements");
        else expect_eq(ut::zeros<T>(sh.r), std::vector<T>(sh.r, T(0)), "zeros");
        if (sh.r == 0) expect_rejected([&] { ut::ones<T>(std::size_t(0)); }, "ones of no elements");
        else expect_eq(ut::ones<T>(sh.r), std::vector<T>(sh.r, T(1)), "ones");
        break;
    case 5: {
        std::vector<T> d = gen_vec<T>(s, sh.r, gen_exact_flavor(s));
        Mod<T> m(sh.r, sh.r, T(0));
        for (std::size_t i = 0; i < sh.r; ++i) m(i, i) = d[i];
        malg::Vector<T> x = to_malg(d);
        expect_eq(ut::diag(x), m, "diag of a vector");
        expect_eq(x, d, "diag of a vector: operand");
        break;
    }
    default: {
        Mod<T> m = gen_mod<T>(s, sh.r, sh.c, gen_exact_flavor(s));
        std::vector<T> d;
        for (std::size_t i = 0; i < std::min(sh.r, sh.c); ++i) d.push_back(m(i, i));
        on_operand(s, m, [&](const auto &x, const std::string &of) { expect_eq(ut::diag(x), d, "diag" + of); });
    }
    }
    s.nontrivial(!bad && sh.r * sh.c >= 4);
}

/// The components of random elements.
template <typename T>
void components(std::vector<real_of<T>> &out, const T &v)
{
    if constexpr (is_cplx<T>) {
        out.push_back(v.real());
        out.push_back(v.imag());
    } else {
        out.push_back(v);
    }
}
/// The errors of these tests are below 1e-15.
template <typename R>
void looks_random(const std::vector<R> &v, R lo, R hi, const std::string &what)
{
    for (std::size_t i = 0; i < v.size(); ++i) CHECK(v[i] >= lo && v[i] <= hi, << what << ": component " << i << " is " << show(v[i]) << ", not in [" << show(lo) << ", " << show(hi) << "]");
    if (!(lo < hi)) return;
    bool integral = std::is_integral_v<R>;
    double width  = static_cast<double>(hi) - static_cast<double>(lo);
    if (v.size() >= 60) CHECK(varied(v), << what << ": all the components are " << show(v[0]));
    if (v.size() >= 400) {
        std::size_t low = 0;
        double mid      = static_cast<double>(lo) + width / 2;
        bool bottom = false, top = false;
        for (R x : v) {
            low += static_cast<double>(x) < mid;
            bottom = bottom || static_cast<double>(x) <= static_cast<double>(lo) + width / 10;
            top    = top || static_cast<double>(x) >= static_cast<double>(hi) - width / 10;
        }
        CHECK(bottom && top, << what << ": the components do not cover the range");
        if (!integral) {
            double n = static_cast<double>(v.size());
            CHECK(std::abs(static_cast<double>(low) - n / 2) <= 5 * std::sqrt(n), << what << ": " << low << " of " << v.size() << " components are in the lower half");
        }
    }
}
template <typename T>
void random(Source &s)
{
    using R = real_of<T>;
    R lo, hi;
    if constexpr (std::is_integral_v<R>) {
        lo = gen_value<R>(s, MEDIUM);
        hi = static_cast<R>(lo + static_cast<R>(s.draw(s.draw(2) ? 3 : 40)));
    } else {
        lo = gen_value<R>(s, s.draw(2) ? SMALL : REAL);
        hi = lo + static_cast<R>(s.draw(160)) / R(8);
    }
    std::vector<R> all, again;
    std::vector<R> re, im;
    bool matrix = s.draw(2);
    std::string what = std::string(matrix ? "rand_matrix of " : "rand_vector of ") + tname<T>();
    std::size_t n = 0;
    if (matrix) {
        Shape sh = s.draw(10) == 9 ? Shape{ s.draw(2), 0 } : s.draw(4) == 3 ? Shape{ 20 + s.draw(10), 20 + s.draw(10) } : gen_shape_any(s, 30);
        auto x   = ut::rand_matrix<T>(sh.r, sh.c, lo, hi);
        auto y   = ut::rand_matrix<T>(sh.r, sh.c, lo, hi);
        static_assert(std::is_same_v<decltype(x), malg::Matrix<T>>);
        CHECK(x.rows() == sh.r && x.cols() == sh.c && x.size() == sh.r * sh.c, << what << ": " << x.rows() << "x" << x.cols() << " instead of " << sh.r << "x" << sh.c);
        for (std::size_t i = 0; i < sh.r; ++i)
            for (std::size_t j = 0; j < sh.c; ++j) components<T>(all, x(i, j)), components<T>(again, y(i, j));
        n = sh.r * sh.c;
        // Neither the rows nor the columns repeat.
        if (!std::is_integral_v<R> && lo < hi && sh.r >= 2 && sh.c >= 8) {
            bool rows = false;
            for (std::size_t j = 0; j < sh.c; ++j) rows = rows || x(0, j) != x(1, j);
            CHECK(rows, << what << ": the rows repeat");
        }
        if (!std::is_integral_v<R> && lo < hi && sh.c >= 2 && sh.r >= 8) {
            bool cols = false;
            for (std::size_t i = 0; i < sh.r; ++i) cols = cols || x(i, 0) != x(i, 1);
            CHECK(cols, << what << ": the columns repeat");
        }
    } else {
        n      = s.draw(4) == 3 ? 400 + s.draw(400) : s.draw(60);
        auto x = ut::rand_vector<T>(n, lo, hi);
        auto y = ut::rand_vector<T>(n, lo, hi);
        static_assert(std::is_same_v<decltype(x), malg::Vector<T>>);
        CHECK(x.size() == n, << what << ": " << x.size() << " elements instead of " << n);
        for (std::size_t i = 0; i < n; ++i) components<T>(all, x[i]), components<T>(again, y[i]);
    }
    looks_random(all, lo, hi, what);
    looks_random(again, lo, hi, what);
    if (is_cplx<T>) {
        for (std::size_t i = 0; i < all.size(); i += 2) re.push_back(all[i]), im.push_back(all[i + 1]);
        looks_random(re, lo, hi, what + ", real parts");
        looks_random(im, lo, hi, what + ", imaginary parts");
        if (n >= 60 && lo < hi) CHECK(re != im, << what << ": the two parts are the same");
    }
    if (n >= 60 && lo < hi) CHECK(all != again, << what << ": two calls give the same");
    s.nontrivial(n >= 16 && lo < hi);
}
} // namespace c23
