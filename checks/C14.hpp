// C14: QR and LU factorizations.
#include "forms.hpp"

namespace c14
{
using namespace malg;

/// A scale for a row or column: mostly one.
template <typename T>
T gen_scale(Source &s, long range)
{
    if constexpr (std::is_floating_point_v<T>) return std::ldexp(T(1), static_cast<int>(s.sint(range)));
    else return T(1);
}

template <typename T>
Mod<T> gen_rectangular(Source &s, std::string &kind)
{
    using R       = real_of<T>;
    Shape sh      = gen_shape(s, 16);
    sh.r          = std::min<std::size_t>(sh.r, 20);
    sh.c          = std::min<std::size_t>(sh.c, 20);
    if (s.draw(200) == 199) sh = Shape{ 1 + s.draw(68), 1 + s.draw(68) }; // past any block size
    Flavor f      = std::is_integral_v<T> ? gen_exact_flavor(s) : s.draw(3) ? REAL : gen_exact_flavor(s);
    Mod<T> m      = gen_mod<T>(s, sh.r, sh.c, f);
    std::size_t a = s.draw(sh.c), b = s.draw(sh.c), r = s.draw(sh.r);
    kind = "any";
    gen_structure(s, m);
    if (std::is_integral_v<T>)
        for (auto &v : m.d)
            if (std::abs(to_cl(v).real()) > 2000) v = T(7);
    switch (s.draw(12)) {
    case 4: // zero columns
        for (std::size_t j = 0; j < sh.c; ++j)
            if (j == a || s.draw(4) == 0)
                for (std::size_t i = 0; i < sh.r; ++i) m(i, j) = T(0);
        kind = "zero column";
        break;
    case 5: // equal or proportional columns
        for (std::size_t i = 0; i < sh.r; ++i) m(i, a) = T(m(i, b) * T(2));
        kind = "dependent columns";
        break;
    case 6: { // rank one
        Mod<T> o = m;
        for (std::size_t i = 0; i < sh.r; ++i)
            for (std::size_t j = 0; j < sh.c; ++j) m(i, j) = T(o(i, 0) * o(0, j));
    }
        kind = "rank one";
        break;
    case 7: // already triangular
        for (std::size_t i = 0; i < sh.r; ++i)
            for (std::size_t j = 0; j < std::min(i, sh.c); ++j) m(i, j) = T(0);
        kind = "triangular";
        break;
    case 8: // zero below a row, or above it: columns that vanish during the elimination
        for (std::size_t i = 0; i < sh.r; ++i)
            for (std::size_t j = 0; j < sh.c; ++j)
                if (i > r) m(i, j) = T(0);
        kind = "zero rows";
        break;
    case 9:
        for (std::size_t i = 0; i < sh.r; ++i)
            for (std::size_t j = 0; j < sh.c; ++j)
                if (i < r) m(i, j) = T(0);
        kind = "zero leading rows";
        break;
    case 10: { // badly scaled columns
        for (std::size_t j = 0; j < sh.c; ++j) {
            T k = gen_scale<T>(s, std::is_same_v<R, float> ? 25 : 180);
            for (std::size_t i = 0; i < sh.r; ++i) m(i, j) = T(m(i, j) * k);
        }
        kind = "scaled columns";
        break;
    }
    case 11: { // badly scaled rows
        for (std::size_t i = 0; i < sh.r; ++i) {
            T k = gen_scale<T>(s, std::is_same_v<R, float> ? 20 : 40);
            for (std::size_t j = 0; j < sh.c; ++j) m(i, j) = T(m(i, j) * k);
        }
        kind = "scaled rows";
        break;
    }
    default: break;
    }
    return m;
}

/// An orthogonal Q and a triangular R such that QR is the matrix.
template <typename T>
void qr(Source &s)
{
    std::string kind;
    Mod<T> m = gen_rectangular<T>(s, kind);
    s.nontrivial(m.r >= 2 && m.c >= 1);
    s.label(kind), s.label(m.r > m.c ? "tall" : m.r < m.c ? "wide" : "square");
    s.note() << tname<T>() << " " << show(m) << "\n";
    L l                 = to_l(m);
    const Matrix<T> x   = to_malg(m);
    auto [q, r]         = linalg::qr_decomposition(x);
    using C             = common_of<T, double>;
    static_assert(std::is_same_v<std::decay_t<decltype(q)>, Matrix<C>> && std::is_same_v<std::decay_t<decltype(r)>, Matrix<C>>, "qr_decomposition has the wrong types");
    expect_eq(x, m, "qr_decomposition: operand");
    CHECK(q.rows() == m.r && q.cols() == m.r, << "Q is " << q.rows() << "x" << q.cols());
    CHECK(r.rows() == m.r && r.cols() == m.c, << "R is " << r.rows() << "x" << r.cols());
    for (std::size_t i = 0; i < m.r; ++i)
        for (std::size_t j = 0; j < std::min(i, m.c); ++j) CHECK(r(i, j) == C(0), << "R is not upper triangular: element (" << i << "," << j << ") is " << show<C>(r(i, j)));
    L lq = to_l(model_of(q)), lr = to_l(model_of(r));
    long double N   = static_cast<long double>(m.r);
    long double eps = eps_of<double>() * 16 * N * (2 + static_cast<long double>(std::min(m.r, m.c)));
    L g             = sub(mul(herm(lq), lq), eye_l(m.r));
    CHECK(max_abs(g) <= eps, << "Q is not orthogonal: Q'Q differs from the identity by " << show(max_abs(g)) << ", bound " << show(eps));
    g = sub(mul(lq, herm(lq)), eye_l(m.r));
    CHECK(max_abs(g) <= eps, << "Q is not orthogonal: QQ' differs from the identity by " << show(max_abs(g)) << ", bound " << show(eps));
    L p = mul(lq, lr);
    for (std::size_t j = 0; j < m.c; ++j) {
        long double n = 0;
        for (std::size_t i = 0; i < m.r; ++i) n = std::hypot(n, abs_l(l(i, j)));
        for (std::size_t i = 0; i < m.r; ++i)
            CHECK(abs_l(sub_l(p(i, j), l(i, j))) <= eps * n, << "QR: element (" << i << "," << j << ") is " << show(p(i, j)) << " instead of " << show(l(i, j)) << " within " << show(eps * n));
    }
    // The same call again gives the same factors.
    if (s.draw(4) == 0) {
        Mod<T> o = gen_mod<T>(s, 1 + s.draw(4), 1 + s.draw(4), SMALL);
        (void)linalg::qr_decomposition(to_malg(o));
        auto again = linalg::qr_decomposition(x);
        expect_eq(again.first, model_of(q), "Q computed again");
        expect_eq(again.second, model_of(r), "R computed again");
    }
}

template <typename T>
void lu(Source &s)
{
    const bool large = s.draw(200) == 199; // past any block size
    std::size_t n    = large ? 14 + s.draw(60) : gen_dim(s, 1, 14);
    Mod<T> m(n, n);
    std::string kind;
    switch (large ? s.draw(2) : s.draw(5)) {
    case 0: // dominant diagonal
    case 1:
        m = gen_mod<T>(s, n, n, s.draw(3) ? REAL : gen_exact_flavor(s));
        gen_structure(s, m);
        for (std::size_t i = 0; i < n; ++i) {
            real_of<T> t = 0;
            for (std::size_t j = 0; j < n; ++j)
                if (i != j) t += std::abs(m(i, j));
            m(i, i) = T((s.draw(2) ? t : -t) + real_of<T>(1));
        }
        kind = "dominant";
        break;
    case 2: // a product of given factors
        kind = "product";
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) m(i, j) = T(0);
        {
            Mod<T> a = gen_mod<T>(s, n, n, FEW), b = gen_mod<T>(s, n, n, FEW);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j)
                    for (std::size_t k = 0; k <= std::min(i, j); ++k) m(i, j) += T((k == i ? T(static_cast<real_of<T>>(1 + (i * 7) % 5)) : a(i, k)) * (k == j ? T(1) : b(k, j)));
        }
        break;
    case 3: // triangular already
        kind = "triangular";
        m    = gen_mod<T>(s, n, n, REAL);
        {
            bool up = s.draw(2);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j)
                    if (i != j && up == (i > j)) m(i, j) = T(0);
        }
        break;
    default:
        kind = "any";
        m    = gen_mod<T>(s, n, n, s.draw(2) ? REAL : DYADIC);
        gen_structure(s, m);
    }
    // The pivots, in extended precision.
    L w = to_l(m), l = w;
    long double top = max_abs(w);
    for (std::size_t k = 0; k < n; ++k) {
        s.discard(!(abs_l(w(k, k)) > 1e-3L * (1 + top)*eps_of<T>() * 1e4L));
        for (std::size_t i = k + 1; i < n; ++i) {
            cl f = div_l(w(i, k), w(k, k));
            for (std::size_t j = k; j < n; ++j) w(i, j) = sub_l(w(i, j), mul_l(f, w(k, j)));
            top = std::max(top, abs_l(w(i, i)));
        }
    }
    long double least = top;
    for (std::size_t k = 0; k < n; ++k) least = std::min(least, abs_l(w(k, k)));
    long double growth = max_abs(w) / (least > 0 ? least : 1);
    s.discard(!(growth * growth * eps_of<T>() < 1e-2L));
    s.nontrivial(n >= 2);
    s.label(kind);
    s.note() << tname<T>() << " " << show(m) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &form) {
        auto [a, b] = linalg::lu_decomposition(x);
        static_assert(std::is_same_v<std::decay_t<decltype(a)>, Matrix<T>> && std::is_same_v<std::decay_t<decltype(b)>, Matrix<T>>, "lu_decomposition has the wrong types");
        CHECK(a.rows() == n && a.cols() == n && b.rows() == n && b.cols() == n, << "the factors" << form << " are " << a.rows() << "x" << a.cols() << " and " << b.rows() << "x" << b.cols());
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                if (j > i) CHECK(a(i, j) == T(0), << "L" << form << " is not lower triangular: element (" << i << "," << j << ") is " << show<T>(a(i, j)));
                if (j < i) CHECK(b(i, j) == T(0), << "U" << form << " is not upper triangular: element (" << i << "," << j << ") is " << show<T>(b(i, j)));
                if (j == i) CHECK(b(i, j) == T(1), << "U" << form << " has not a unit diagonal: element (" << i << "," << j << ") is " << show<T>(b(i, j)));
            }
        L la = to_l(model_of(a)), lb = to_l(model_of(b));
        L p = mul(la, lb), q = mul(abs_m(la), abs_m(lb));
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                long double bound = 8 * static_cast<long double>(n + 2) * eps_of<T>() * (q(i, j).real() + abs_l(l(i, j)));
                CHECK(abs_l(sub_l(p(i, j), l(i, j))) <= bound, << "LU" << form << ": element (" << i << "," << j << ") is " << show(p(i, j)) << " instead of " << show(l(i, j)) << " within " << show(bound));
            }
    });
}

/// Integers whose factors are integers: exact.
template <typename T>
void exact_lu(Source &s)
{
    std::size_t n = gen_dim(s, 1, 10);
    Mod<T> a = gen_mod<T>(s, n, n, FEW), b = gen_mod<T>(s, n, n, FEW), m(n, n);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            if (j > i) a(i, j) = T(0);
            if (j < i) b(i, j) = T(0);
            if (j == i) b(i, j) = T(1), a(i, j) = s.draw(2) ? T(-1) : T(1);
        }
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j)
            for (std::size_t k = 0; k < n; ++k) m(i, j) += T(a(i, k) * b(k, j));
    s.nontrivial(n >= 2);
    s.note() << tname<T>() << " " << show(m) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &form) {
        auto [l, u] = linalg::lu_decomposition(x);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                CHECK(l(i, j) == a(i, j), << "L" << form << ": element (" << i << "," << j << ") is " << show<T>(l(i, j)) << " instead of " << show(a(i, j)));
                CHECK(u(i, j) == b(i, j), << "U" << form << ": element (" << i << "," << j << ") is " << show<T>(u(i, j)) << " instead of " << show(b(i, j)));
            }
    });
    // And a matrix that is not square is refused.
    Mod<T> o = gen_mod<T>(s, n, n + 1 + s.draw(3), SMALL);
    if (s.draw(2)) {
        Mod<T> t(o.c, o.r, T(1));
        o = t;
    }
    on_operand<T>(s, o, [&](const auto &x, const std::string &form) { expect_rejected([&] { linalg::lu_decomposition(x); }, "lu_decomposition" + form + " that is not square"); });
}
} // namespace c14
