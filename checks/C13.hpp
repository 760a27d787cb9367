// C13: determinant, adjugate, inverse and division.
#include "forms.hpp"

namespace c13
{
using namespace malg;

/// Leibniz, or expansion along the first row for larger ones: exact on small
/// integers. The second value bounds the magnitude of what is summed.
struct Det {
    cl v;
    long double mag;
};
inline Det exact_det(const L &m)
{
    std::size_t n = m.r;
    if (n == 0) return Det{ cl(1), 1 };
    // Over the subsets of columns, row by row.
    static std::vector<cl> d;
    static std::vector<long double> g;
    d.assign(std::size_t(1) << n, cl(0)), g.assign(d.size(), 0);
    d[0] = 1, g[0] = 1;
    for (std::size_t set = 0; set + 1 < d.size(); ++set) {
        std::size_t row = static_cast<std::size_t>(__builtin_popcountll(set));
        for (std::size_t j = 0; j < n; ++j) {
            if (set >> j & 1) continue;
            std::size_t after = static_cast<std::size_t>(__builtin_popcountll(set >> j)); // taken columns after j
            cl t              = mul_l(d[set], m(row, j));
            std::size_t to    = set | std::size_t(1) << j;
            d[to]             = after & 1 ? sub_l(d[to], t) : add_l(d[to], t);
            g[to] += g[set] * (std::fabs(m(row, j).real()) + std::fabs(m(row, j).imag()));
        }
    }
    return Det{ d.back(), g.back() };
}
template <typename T>
Det exact_det(const Mod<T> &m)
{
    return exact_det(to_l(m));
}
inline L minor_of(const L &m, std::size_t p, std::size_t q)
{
    L o(m.r - 1, m.c - 1);
    for (std::size_t i = 0; i < o.r; ++i)
        for (std::size_t j = 0; j < o.c; ++j) o(i, j) = m(i + (i >= p), j + (j >= q));
    return o;
}
inline L exact_adjugate(const L &m)
{
    L o(m.r, m.c);
    for (std::size_t i = 0; i < m.r; ++i)
        for (std::size_t j = 0; j < m.c; ++j) {
            cl v    = exact_det(minor_of(m, i, j)).v;
            o(j, i) = (i + j) & 1 ? cl(-v.real(), -v.imag()) : v;
        }
    return o;
}
template <typename T>
long double mantissa()
{
    using R = real_of<T>;
    if constexpr (std::is_integral_v<R>) return 2e9L;
    else return std::ldexp(1.0L, std::numeric_limits<R>::digits);
}
/// The rounding of a determinant of size n by closed formula or elimination
/// with partial pivoting: first and second order of a backward error.
template <typename T>
long double det_bound(const L &m, const Det &d)
{
    std::size_t n   = m.r;
    long double eps = eps_of<T>(), N = static_cast<long double>(n);
    if (n <= 4) return 16 * N * eps * d.mag;
    long double adj = 0;
    L a             = exact_adjugate(m);
    for (auto &v : a.d) adj += abs_l(v);
    long double top = max_abs(m), e = 4 * N * N * std::ldexp(1.0L, static_cast<int>(n) - 1) * eps * top;
    return e * adj + N * N * N * N * e * e * std::pow(N * top, N - 2) + N * 16 * eps * abs_l(d.v);
}
/// Whether the elimination of an integral matrix only makes exact divisions.
template <typename T>
bool divides(Mod<T> a)
{
    for (std::size_t c = 0; c < a.r; ++c) {
        std::size_t k = c;
        while (k < a.r && a(k, c) == 0) ++k;
        if (k == a.r) return true;
        if (k != c)
            for (std::size_t j = 0; j < a.c; ++j) std::swap(a(k, j), a(c, j));
        for (std::size_t r = c + 1; r < a.r; ++r) {
            if (a(r, c) % a(c, c) != 0) return false;
            T q = a(r, c) / a(c, c);
            for (std::size_t j = c; j < a.c; ++j) a(r, j) -= q * a(c, j);
        }
    }
    return true;
}

/// Integers: the arithmetic of the closed formulas is exact.
template <typename T>
Mod<T> gen_integers(Source &s, std::size_t n)
{
    Mod<T> m = gen_mod<T>(s, n, n, s.draw(3) == 0 ? SMALL : s.draw(2) ? FEW : SPARSE);
    if (s.draw(4) == 3) { // some rows are as large as the type allows
        static const long most[] = { 0, 2000000000L, 20000, 600, 90, 9, 9, 9, 9 };
        for (std::size_t i = 0; i < n; ++i) {
            const long top = s.draw(4) ? most[n] : 3;
            for (std::size_t j = 0; j < n; ++j)
                if (s.draw(6)) m(i, j) = T(static_cast<int>(s.sint(top)));
        }
    }
    gen_structure(s, m);
    std::size_t a = s.draw(n), b = s.draw(n);
    switch (s.draw(6)) {
    case 4:
        for (std::size_t j = 0; j < n; ++j) m(a, j) = (a == b) ? T(0) : m(b, j);
        break;
    case 5: // dependent rows
        if (n >= 3)
            for (std::size_t j = 0; j < n; ++j) m(0, j) = T(m(1, j) + m(2, j) * T(2));
        break;
    default: break;
    }
    return m;
}
template <typename T>
void integers(Source &s)
{
    Quiet quiet(std::cerr);
    std::size_t n = 1 + s.draw(4);
    Mod<T> m      = gen_integers<T>(s, n);
    L l           = to_l(m);
    Det d         = exact_det(l);
    // Bounds every product along the way, those by zero too.
    auto cover = [](L x) {
        for (auto &v : x.d) v = cl(std::max(1.0L, std::fabs(v.real()) + std::fabs(v.imag())));
        return x;
    };
    const L most = cover(l);
    s.discard(exact_det(most).mag >= mantissa<T>());
    L adj = n == 1 ? L(1, 1, cl(1)) : exact_adjugate(l);
    s.nontrivial(n >= 2 && varied(m.d));
    s.label(d.v == cl(0) ? "singular" : "regular");
    s.note() << tname<T>() << " " << show(m) << " det " << show(d.v) << "\n";
    auto is = [](const auto &got, cl want) { return to_cl(got) == want; };
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto dt = linalg::determinant(x);
        static_assert(std::is_same_v<decltype(dt), T>, "determinant has the wrong type");
        CHECK(is(dt, d.v), << "determinant" << w << " is " << show(dt) << " instead of " << show(d.v));
        auto ad = linalg::adjoint(x);
        static_assert(std::is_same_v<decltype(ad), Matrix<T>>, "adjoint has the wrong type");
        CHECK(ad.rows() == n && ad.cols() == n, << "adjoint" << w << " is " << ad.rows() << "x" << ad.cols());
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) CHECK(is(ad(i, j), adj(i, j)), << "adjoint" << w << ": element (" << i << "," << j << ") is " << show<T>(ad(i, j)) << " instead of " << show(adj(i, j)));
        auto inv = linalg::inverse(x);
        using C  = common_of<T, double>;
        static_assert(std::is_same_v<decltype(inv), Matrix<C>>, "inverse has the wrong type");
        if (d.v == cl(0)) {
            CHECK(inv.rows() == 0 && inv.cols() == 0 && inv.size() == 0, << "inverse" << w << " that is singular is " << inv.rows() << "x" << inv.cols());
            return;
        }
        CHECK(inv.rows() == n && inv.cols() == n, << "inverse" << w << " is " << inv.rows() << "x" << inv.cols());
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                cl want = div_l(adj(i, j), d.v);
                CHECK(abs_l(sub_l(to_cl(C(inv(i, j))), want)) <= 16 * eps_of<double>() * abs_l(want), << "inverse" << w << ": element (" << i << "," << j << ") is " << show<C>(inv(i, j)) << " instead of " << show(want));
            }
    });
    // Laws, on the real code.
    Matrix<T> x = to_malg(m);
    T dx        = linalg::determinant(x);
    CHECK(is(linalg::determinant(linalg::transpose(x)), d.v), << "the determinant of the transposed matrix differs");
    if (n >= 2) {
        std::size_t i = s.draw(n), j = s.draw(n);
        Matrix<T> y = x;
        utility::swap_rows(y, i, j);
        CHECK(is(linalg::determinant(y), i == j ? d.v : cl(-d.v.real(), -d.v.imag())), << "a row swap does not change the sign of the determinant");
    }
    Mod<T> o = gen_mod<T>(s, n, n, FEW);
    if (max_abs(most) * static_cast<long double>(2 * n) >= mantissa<T>()) return;
    Matrix<T> y = to_malg(o);
    if (exact_det(cover(to_l(model_of(x * y)))).mag < mantissa<T>()) {
        T dy = linalg::determinant(y), dxy = linalg::determinant(x * y);
        CHECK(is(dxy, mul_l(to_cl(dx), to_cl(dy))), << "the determinant of the product is " << show(dxy) << " instead of " << show(dx) << " * " << show(dy));
    }
}

/// Larger matrices of integers.
template <typename T>
void large_integers(Source &s)
{
    std::size_t n = 5 + s.draw(3);
    Mod<T> m      = gen_integers<T>(s, n);
    if (s.draw(2))
        for (auto &v : m.d) v = v == T(0) || s.draw(2) == 0 ? T(0) : v;
    if (s.draw(2)) { // the product of unit triangular factors
        Mod<T> l(n, n, T(0)), u(n, n, T(0)), p(n, n, T(0));
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                T v = static_cast<T>(s.sint(2));
                if (j < i) l(i, j) = v;
                if (j > i) u(i, j) = v;
                if (i == j) l(i, j) = T(1), u(i, j) = static_cast<T>(s.draw(8) ? s.draw(2) ? 1 : -1 : s.sint(3));
            }
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                for (std::size_t k = 0; k < n; ++k) p(i, j) += l(i, k) * u(k, j);
        m = p;
    }
    L l   = to_l(m);
    Det d = exact_det(l);
    s.discard(d.mag > 1e8L);
    s.nontrivial(true);
    s.note() << tname<T>() << " " << show(m) << " det " << show(d.v) << "\n";
    bool exact = true;
    if constexpr (std::is_integral_v<T>) exact = divides(m);
    s.label(exact ? "exact divisions" : "inexact divisions");
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto dt = linalg::determinant(x);
        cl g    = to_cl(dt);
        if constexpr (std::is_integral_v<T>) {
            if (g == d.v) return;
            CHECK(!exact, << "determinant" << w << " is " << show(dt) << " instead of " << show(d.v));
            s.known("integral-elimination");
        } else {
            long double b = det_bound<T>(l, d);
            CHECK(abs_l(sub_l(g, d.v)) <= b, << "determinant" << w << " is " << show(dt) << " instead of " << show(d.v) << " within " << show(b));
        }
    });
    if constexpr (std::is_integral_v<T>) {
        if (n != 5) return;
        // Cofactors of size four: the adjugate is still exact.
        L adj = exact_adjugate(l);
        on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
            auto ad = linalg::adjoint(x);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j) CHECK(to_cl(T(ad(i, j))) == adj(i, j), << "adjoint" << w << ": element (" << i << "," << j << ") is " << show<T>(ad(i, j)) << " instead of " << show(adj(i, j)));
        });
    }
}

/// A matrix with any mantissa, of any conditioning.
template <typename T>
void determinants(Source &s)
{
    std::size_t n = 1 + s.draw(8);
    Mod<T> m      = gen_mod<T>(s, n, n, s.draw(3) ? REAL : DYADIC);
    std::size_t a = s.draw(n), b = s.draw(n);
    bool zero = false;
    gen_structure(s, m);
    switch (s.draw(8)) {
    case 3: // tiny leading elements
        for (std::size_t k = 0; k < n; ++k) m(k, k) = T(m(k, k) * static_cast<real_of<T>>(std::ldexp(1.0, -static_cast<int>(s.draw(30)))));
        break;
    case 4: // zero leading elements
        for (std::size_t k = 0; k < n; ++k) m(k, k) = T(0);
        break;
    case 5:
        for (std::size_t j = 0; j < n; ++j) m(a, j) = (a == b) ? T(0) : m(b, j);
        zero = a == b || !is_cplx<T>;
        break;
    case 6: // upper triangular
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < i; ++j) m(i, j) = T(0);
        break;
    case 7: // lower triangular
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = i + 1; j < n; ++j) m(i, j) = T(0);
        break;
    default: break;
    }
    L l   = to_l(m);
    Det d = exact_det(l);
    s.nontrivial(n >= 2);
    s.label(zero ? "singular" : n > 4 ? "elimination" : "formula");
    s.note() << tname<T>() << " " << show(m) << " det " << show(d.v) << "\n";
    long double bound = det_bound<T>(l, d);
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto dt = linalg::determinant(x);
        static_assert(std::is_same_v<decltype(dt), T>, "determinant has the wrong type");
        CHECK(abs_l(sub_l(to_cl(dt), d.v)) <= bound, << "determinant" << w << " is " << show(dt) << " instead of " << show(d.v) << " within " << show(bound));
        if (zero && n >= 5) CHECK(to_cl(dt) == cl(0), << "determinant" << w << " with " << (a == b ? "an empty row" : "two equal rows") << " is " << show(dt));
        auto dtt = linalg::determinant(linalg::transpose(x));
        CHECK(abs_l(sub_l(to_cl(dtt), d.v)) <= bound, << "determinant of the transposed" << w << " is " << show(dtt) << " instead of " << show(d.v) << " within " << show(bound));
    });
    if (n == 1 || (n > 6 && s.draw(16))) return;
    L adj              = exact_adjugate(l);
    long double abound = 0, top = max_abs(l);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            L mn   = minor_of(l, i, j);
            abound = std::max(abound, det_bound<T>(mn, exact_det(mn)));
        }
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto ad = linalg::adjoint(x);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                CHECK(abs_l(sub_l(to_cl(T(ad(i, j))), adj(i, j))) <= abound, << "adjoint" << w << ": element (" << i << "," << j << ") is " << show<T>(ad(i, j)) << " instead of " << show(adj(i, j)) << " within " << show(abound));
        // The adjugate times the matrix is the determinant times the identity.
        L p = mul(to_l(model_of(ad)), l);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                CHECK(abs_l(sub_l(p(i, j), i == j ? d.v : cl(0))) <= static_cast<long double>(n) * abound * top * 2 + bound + eps_of<T>() * d.mag * 64, << "adjoint" << w << " times the matrix: element (" << i << "," << j << ") is " << show(p(i, j)));
    });
}

/// A well-conditioned matrix: a dominant diagonal, permuted and scaled.
template <typename T>
Mod<T> gen_regular(Source &s, std::size_t n)
{
    using R  = real_of<T>;
    Mod<T> m = gen_mod<T>(s, n, n, std::is_integral_v<R> ? SMALL : s.draw(3) ? REAL : DYADIC);
    bool structured = gen_structure(s, m);
    if constexpr (std::is_integral_v<R>) {
        for (std::size_t i = 0; i < n; ++i) m(i, i) += static_cast<T>(s.draw(2) ? 12 : -12);
    } else {
        for (std::size_t i = 0; i < n; ++i) {
            R t = 0;
            for (std::size_t j = 0; j < n; ++j)
                if (j != i) t += std::abs(m(i, j));
            m(i, i) = T((t + R(1)) * R(s.draw(2) ? 1 : -1) * R(1.25));
        }
        R k = std::ldexp(R(1), static_cast<int>(s.sint(8)));
        for (auto &v : m.d) v = T(v * k);
    }
    if (structured && s.draw(3)) return m;
    for (std::size_t i = n; i > 1; --i) {
        std::size_t j = s.draw(i);
        for (std::size_t c = 0; c < n && j != i - 1; ++c) std::swap(m(i - 1, c), m(j, c));
    }
    return m;
}
/// Bounds the error of each element of the inverse computed from cofactors.
template <typename T>
long double inverse_error(const L &l, const Det &d, const L &inv, bool integral)
{
    std::size_t n    = l.r;
    long double eps  = integral ? 2.3e-16L : std::max<long double>(eps_of<T>(), 2.3e-16L), a = 0;
    if (n == 1) a = 0;
    else
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                L mn = minor_of(l, i, j);
                a    = std::max(a, integral ? 0 : det_bound<T>(mn, exact_det(mn)));
            }
    long double b = integral ? 0 : det_bound<T>(l, d), det = abs_l(d.v);
    if (b > det * 0.01L) return std::numeric_limits<long double>::infinity();
    return 2 * (a / det + max_abs(inv) * (b / det + 32 * eps));
}
template <typename T>
void inverses(Source &s)
{
    Quiet quiet(std::cerr);
    constexpr bool integral = std::is_integral_v<T>;
    std::size_t n           = 1 + s.draw(integral ? 4 : std::is_same_v<real_of<T>, float> ? 5 : s.draw(32) == 31 ? 7 : 6);
    Mod<T> m                = gen_regular<T>(s, n);
    using C                 = common_of<T, double>;
    L l                     = to_l(m), inv;
    Det d                   = exact_det(l);
    s.discard(d.v == cl(0) || !inverse_l(l, inv));
    if (integral) s.discard(d.mag > 2e9L);
    long double err = inverse_error<T>(l, d, inv, integral);
    s.discard(!(err * max_abs(l) * static_cast<long double>(n) < 0.01L));
    s.nontrivial(n >= 2);
    s.note() << tname<T>() << " " << show(m) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto r = linalg::inverse(x);
        static_assert(std::is_same_v<decltype(r), Matrix<C>>, "inverse has the wrong type");
        CHECK(r.rows() == n && r.cols() == n, << "inverse" << w << " is " << r.rows() << "x" << r.cols());
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                CHECK(abs_l(sub_l(to_cl(C(r(i, j))), inv(i, j))) <= err, << "inverse" << w << ": element (" << i << "," << j << ") is " << show<C>(r(i, j)) << " instead of " << show(inv(i, j)) << " within " << show(err));
    });
    // Dividing by the matrix undoes multiplying by it.
    std::size_t k = 1 + s.draw(5);
    Mod<T> o      = gen_mod<T>(s, k, n, SMALL);
    Matrix<T> y   = to_malg(o);
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto p = y * x;
        auto q = linalg::div(p, x);
        static_assert(std::is_same_v<decltype(q), Matrix<C>>, "div has the wrong type");
        CHECK(q.rows() == k && q.cols() == n, << "div" << w << " is " << q.rows() << "x" << q.cols());
        L lp = to_l(model_of(p)), exact = mul(lp, inv);
        long double N = static_cast<long double>(n), top = max_abs(lp);
        long double slack = N * top * (err + (N + 4) * 4 * 2.3e-16L * max_abs(inv));
        for (std::size_t i = 0; i < k; ++i)
            for (std::size_t j = 0; j < n; ++j)
                CHECK(abs_l(sub_l(to_cl(C(q(i, j))), exact(i, j))) <= slack, << "div" << w << ": element (" << i << "," << j << ") is " << show<C>(q(i, j)) << " instead of " << show(exact(i, j)) << " within " << show(slack));
        L back            = to_l(o);
        long double round = integral ? 0 : N * (N + 4) * 2 * eps_of<T>() * max_abs(back) * max_abs(l) * N * max_abs(inv);
        for (std::size_t i = 0; i < k; ++i)
            for (std::size_t j = 0; j < n; ++j)
                CHECK(abs_l(sub_l(to_cl(C(q(i, j))), back(i, j))) <= slack + round, << "div" << w << " does not undo the product: element (" << i << "," << j << ") is " << show<C>(q(i, j)) << " instead of " << show(back(i, j)));
    });
    expect_eq(y, o, "div: left operand");
}

/// A matrix of any size with a dominant diagonal of elements between 1 and 2, in
/// any order of rows and columns: eliminating it is stable.
template <typename T>
Mod<T> gen_stable(Source &s, std::size_t n)
{
    using R = real_of<T>;
    Mod<T> m(n, n, T(0));
    auto one = [&](long double top) { return static_cast<R>(static_cast<long double>(s.sint(1000)) * top / 1000); };
    const bool sparse = s.draw(3) == 2;
    for (auto &v : m.d) {
        if (sparse && s.draw(4)) continue;
        if constexpr (is_cplx<T>) v = T(one(0.15L / n), one(0.15L / n));
        else v = one(0.3L / n);
    }
    for (std::size_t i = 0; i < n; ++i) m(i, i) += static_cast<R>((s.draw(2) ? 1 : -1) * (1.0 + static_cast<double>(s.draw(9)) / 8));
    const bool order = s.draw(4);
    for (std::size_t i = n; order && i > 1; --i) {
        std::size_t j = s.draw(i), k = s.draw(i);
        for (std::size_t c = 0; c < n && j != i - 1; ++c) std::swap(m(i - 1, c), m(j, c));
        for (std::size_t c = 0; c < n && k != i - 1; ++c) std::swap(m(c, i - 1), m(c, k));
    }
    return m;
}
/// The determinant by elimination in extended precision.
inline cl det_l(L a)
{
    cl d = 1;
    for (std::size_t k = 0; k < a.r; ++k) {
        std::size_t p = k;
        for (std::size_t i = k; i < a.r; ++i)
            if (abs_l(a(i, k)) > abs_l(a(p, k))) p = i;
        if (a(p, k) == cl(0)) return 0;
        if (p != k) {
            d = cl(-d.real(), -d.imag());
            for (std::size_t j = 0; j < a.c; ++j) std::swap(a(k, j), a(p, j));
        }
        d = mul_l(d, a(k, k));
        for (std::size_t i = k + 1; i < a.r; ++i) {
            cl f = div_l(a(i, k), a(k, k));
            if (f == cl(0)) continue;
            for (std::size_t j = k; j < a.c; ++j) a(i, j) = sub_l(a(i, j), mul_l(f, a(k, j)));
        }
    }
    return d;
}
/// Matrices past any block size.
template <typename T>
void large(Source &s)
{
    Quiet quiet(std::cerr);
    using C       = common_of<T, double>;
    std::size_t n = 8 + (s.draw(8) == 7 ? s.draw(60) : s.draw(6));
    Mod<T> m      = gen_stable<T>(s, n);
    L l = to_l(m), inv;
    cl d = det_l(l);
    s.nontrivial(true);
    s.label(n < 14 ? "large" : "larger");
    s.note() << tname<T>() << " " << show(m) << " det " << show(d) << "\n";
    long double bound = 64 * std::pow(static_cast<long double>(n), 3) * eps_of<T>() * abs_l(d);
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto dt = linalg::determinant(x);
        CHECK(abs_l(sub_l(to_cl(dt), d)) <= bound, << "determinant" << w << " of size " << n << " is " << show(dt) << " instead of " << show(d) << " within " << show(bound));
    });
    if (n > 13 && !(n < 20 && s.draw(4) == 0)) return;
    CHECK(inverse_l(l, inv), << "no reference inverse");
    const long double err = eps_of<T>() > 1e-10L ? 2e-3L : 1e-8L;
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto r = linalg::inverse(x);
        CHECK(r.rows() == n && r.cols() == n, << "inverse" << w << " is " << r.rows() << "x" << r.cols());
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                CHECK(abs_l(sub_l(to_cl(C(r(i, j))), inv(i, j))) <= err, << "inverse" << w << " of size " << n << ": element (" << i << "," << j << ") is " << show<C>(r(i, j)) << " instead of " << show(inv(i, j)));
    });
    Mod<T> o = gen_mod<T>(s, 1 + s.draw(n), n, SMALL);
    auto q   = linalg::div(to_malg(o), to_malg(m));
    L want   = mul(to_l(o), inv);
    CHECK(q.rows() == o.r && q.cols() == n, << "div is " << q.rows() << "x" << q.cols());
    for (std::size_t i = 0; i < o.r; ++i)
        for (std::size_t j = 0; j < n; ++j)
            CHECK(abs_l(sub_l(to_cl(C(q(i, j))), want(i, j))) <= 10 * static_cast<long double>(n) * err, << "div by a matrix of size " << n << ": element (" << i << "," << j << ") is " << show<C>(q(i, j)) << " instead of " << show(want(i, j)));
}

template <typename T>
void refused(Source &s)
{
    Quiet quiet(std::cerr);
    std::size_t r = gen_dim(s, 1, 8), c = gen_dim(s, 1, 8);
    if (r == c) ++c;
    Mod<T> m = gen_mod<T>(s, r, c, SMALL);
    s.nontrivial(true);
    s.note() << show(m) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        expect_rejected([&] { linalg::determinant(x); }, "determinant" + w + " that is not square");
        expect_rejected([&] { linalg::adjoint(x); }, "adjoint" + w + " that is not square");
        expect_rejected([&] { linalg::inverse(x); }, "inverse" + w + " that is not square");
        expect_rejected([&] { linalg::div(x, x); }, "div by a matrix that is not square");
    });
}
} // namespace c13

#define TYPE(n, T)                     \
    PROP(integers_##n, 4)              \
    {                                  \
        c13::integers<T>(s);           \
    }                                  \
    PROP(large_integers_##n, 1)        \
    {                                  \
        c13::large_integers<T>(s);     \
    }                                  \
    PROP(inverses_##n, 3)              \
    {                                  \
        c13::inverses<T>(s);           \
    }                                  \
    PROP(refused_##n, 1)               \
    {                                  \
        if (s.draw(4) == 0)            \
            c13::refused<T>(s);        \
        else                           \
            c13::integers<T>(s);       \
    }
#define FLOATING(n, T)                 \
    PROP(large_##n, 1)                 \
    {                                  \
        c13::large<T>(s);              \
    }                                  \
    PROP(determinants_##n, 3)          \
    {                                  \
        c13::determinants<T>(s);       \
    }
