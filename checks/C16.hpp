// C16: linear systems.
#include "C13.hpp"

namespace c16
{
using namespace malg;

inline L transposed(const L &a)
{
    L o(a.c, a.r);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < a.c; ++j) o(j, i) = a(i, j);
    return o;
}
/// The pseudo-inverse of a full-rank matrix.
inline bool pinv(const L &a, L &out)
{
    L at = transposed(a), g;
    if (a.r == a.c) return inverse_l(a, out);
    if (a.r > a.c) {
        if (!inverse_l(mul(at, a), g)) return false;
        out = mul(g, at);
    } else {
        if (!inverse_l(mul(a, at), g)) return false;
        out = mul(at, g);
    }
    return true;
}

template <typename T>
Mod<T> gen_system(Source &s, std::string &kind)
{
    using R       = real_of<T>;
    constexpr bool integral = std::is_integral_v<R>;
    std::size_t n = 1 + s.draw(integral ? 4 : std::is_same_v<R, float> ? 4 : s.draw(16) == 15 ? 8 : 6), extra = 0;
    switch (s.draw(3)) {
    case 0: kind = "square"; break;
    case 1: kind = "overdetermined", extra = 1 + s.draw(5); break;
    default: kind = "underdetermined", extra = 1 + s.draw(5); break;
    }
    Mod<T> q = c13::gen_regular<T>(s, n), m(kind == "underdetermined" ? n : n + extra, kind == "underdetermined" ? n + extra : n);
    long double top = max_abs(to_l(q));
    Mod<T> e        = gen_mod<T>(s, m.r, m.c, integral ? FEW : s.draw(3) ? REAL : DYADIC);
    R k             = 1;
    if constexpr (!integral) {
        int x = 0;
        std::frexp(top / (1 + max_abs(to_l(e))), &x);
        k = static_cast<R>(std::ldexp(1.0, x));
    }
    for (auto &v : e.d) v = T(v * k);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) e(i, j) = q(i, j);
    m = e;
    // Any order of rows and columns, or as they are.
    const bool order = s.draw(2);
    for (std::size_t i = m.r; order && i > 1; --i) {
        std::size_t o = s.draw(i);
        for (std::size_t j = 0; j < m.c && o != i - 1; ++j) std::swap(m(i - 1, j), m(o, j));
    }
    for (std::size_t i = m.c; order && i > 1; --i) {
        std::size_t o = s.draw(i);
        for (std::size_t j = 0; j < m.r && o != i - 1; ++j) std::swap(m(j, i - 1), m(j, o));
    }
    if (!integral && s.draw(3) == 2) // badly scaled rows
        for (std::size_t i = 0; i < m.r; ++i) {
            R f = static_cast<R>(std::ldexp(1.0, static_cast<int>(s.sint(4))));
            for (std::size_t j = 0; j < m.c; ++j) m(i, j) = T(m(i, j) * f);
        }
    return m;
}

template <typename T>
void solving(Source &s)
{
    std::string kind;
    Mod<T> m = gen_system<T>(s, kind);
    L a      = to_l(m), inv;
    s.discard(!pinv(a, inv));
    if constexpr (std::is_integral_v<T>) // What is computed with integers is representable.
        s.discard(m.r <= m.c && c13::exact_det(m.r < m.c ? mul(a, transposed(a)) : a).mag > 2e9L);
    std::vector<T> b;
    bool consistent = s.draw(3) == 0;
    if (consistent) { // a known solution
        std::vector<T> x = gen_vec<T>(s, m.c, std::is_integral_v<T> ? FEW : SMALL);
        for (std::size_t i = 0; i < m.r; ++i) {
            T v = T(0);
            for (std::size_t j = 0; j < m.c; ++j) v += T(m(i, j) * x[j]);
            b.push_back(v);
        }
    } else {
        b = gen_vec<T>(s, m.r, s.draw(2) ? SMALL : std::is_integral_v<T> ? MEDIUM : REAL);
        if (s.draw(8) == 0)
            for (auto &v : b) v = T(0);
    }
    L lb(m.r, 1);
    for (std::size_t i = 0; i < m.r; ++i) lb(i, 0) = to_cl(b[i]);
    L want          = mul(inv, lb);
    long double n   = static_cast<long double>(std::min(m.r, m.c)), N = static_cast<long double>(std::max(m.r, m.c)), bound;
    long double eps = kind == "overdetermined" ? eps_of<double>() : std::max(eps_of<T>(), eps_of<double>());
    if (kind == "square") {
        c13::Det d = c13::exact_det(a);
        bound      = n * (c13::inverse_error<T>(a, d, inv, std::is_integral_v<T>) + 2 * n * eps_of<double>() * max_abs(inv));
        s.discard(!(bound <= 0.01L * fro(inv)));
        bound *= max_abs(lb);
    } else {
        long double k = fro(a) * fro(inv);
        bound         = 64 * std::pow(2.0L, n) * n * n * N * eps * k * k * fro(inv);
        s.discard(!(bound <= 0.01L * fro(inv)));
        bound *= fro(lb);
    }
    s.nontrivial(m.size() >= 2 && max_abs(lb) > 0);
    s.label(kind);
    s.note() << tname<T>() << " " << show(m) << " b " << show(b) << " bound " << show(bound) << "\n";
    const Matrix<T> x = to_malg(m);
    const Vector<T> y = to_malg(b);
    auto r            = linalg::solve(x, y);
    expect_eq(x, m, "solve: matrix");
    expect_eq(y, b, "solve: vector");
    CHECK(r.size() == m.c, << "the solution has " << r.size() << " elements instead of " << m.c);
    for (std::size_t i = 0; i < m.c; ++i)
        CHECK(abs_l(sub_l(to_cl(r[i]), want(i, 0))) <= bound, << kind << " system: element " << i << " of the solution is " << show(r[i]) << " instead of " << show(want(i, 0)) << " within " << show(bound));
    // Scaling the right-hand side.
    std::vector<T> b2 = b;
    T f               = T(s.draw(2) ? 2 : -4);
    for (auto &v : b2) v = T(v * f);
    auto r2 = linalg::solve(x, to_malg(b2));
    CHECK(r2.size() == m.c, << "the scaled solution has " << r2.size() << " elements instead of " << m.c);
    for (std::size_t i = 0; i < m.c; ++i)
        CHECK(abs_l(sub_l(to_cl(r2[i]), mul_l(to_cl(r[i]), to_cl(f)))) <= 2 * bound * abs_l(to_cl(f)), << kind << " system with the right-hand side times " << show(f) << ": element " << i << " of the solution is " << show(r2[i]) << " and was " << show(r[i]));
    // A right-hand side of another size.
    std::vector<T> bad(b);
    if (s.draw(2) || bad.size() == 1) bad.push_back(T(1));
    else bad.pop_back();
    const Vector<T> z = to_malg(bad);
    expect_rejected([&] { linalg::solve(x, z); }, "solve with a right-hand side of " + std::to_string(bad.size()) + " elements for " + std::to_string(m.r) + " rows");
    expect_eq(x, m, "refused solve: matrix");
    expect_eq(z, bad, "refused solve: vector");
}

/// Systems past any block size.
template <typename T>
void large(Source &s)
{
    std::size_t n = 8 + (s.draw(8) == 7 ? s.draw(12) : s.draw(5)), extra = s.draw(3) ? 1 + s.draw(s.draw(4) == 3 ? 40 : 6) : 0;
    const bool wide = extra && s.draw(2);
    Mod<T> m = c13::gen_stable<T>(s, n);
    if (extra) { // small elements in the additional rows or columns
        Mod<T> e(wide ? n : n + extra, wide ? n + extra : n);
        for (auto &v : e.d) v = static_cast<T>(s.sint(100)) / T(400);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) e(i, j) = m(i, j);
        m = e;
    }
    std::vector<T> b = gen_vec<T>(s, m.r, SMALL);
    L a = to_l(m), inv, lb(m.r, 1);
    s.discard(!pinv(a, inv) || fro(a) * fro(inv) > 1e3L);
    for (std::size_t i = 0; i < m.r; ++i) lb(i, 0) = to_cl(b[i]);
    L want = mul(inv, lb);
    s.nontrivial(max_abs(lb) > 0);
    s.label(extra ? wide ? "large underdetermined" : "large overdetermined" : "large square");
    s.note() << tname<T>() << " " << show(m) << " b " << show(b) << "\n";
    const long double k = fro(a) * fro(inv), bound = (eps_of<T>() > 1e-10L ? 2e-5L : 1e-11L) * k * k * fro(inv) * fro(lb);
    auto r = linalg::solve(to_malg(m), to_malg(b));
    CHECK(r.size() == m.c, << "the solution has " << r.size() << " elements instead of " << m.c);
    for (std::size_t i = 0; i < m.c; ++i)
        CHECK(abs_l(sub_l(to_cl(r[i]), want(i, 0))) <= bound, << "system of size " << m.r << "x" << m.c << ": element " << i << " of the solution is " << show(r[i]) << " instead of " << show(want(i, 0)) << " within " << show(bound));
}

/// A square system without a unique solution, whose determinant is exactly zero
/// whatever way it is computed: there is no solution to return.
template <typename T>
void refusing(Source &s)
{
    constexpr bool integral = std::is_integral_v<T>;
    std::size_t n = integral ? 1 + s.draw(4) : gen_dim(s, 1, 8);
    Mod<T> m      = gen_mod<T>(s, n, n, FEW);
    std::size_t p = s.draw(n), q = s.draw(n);
    int how       = n == 1 ? 0 : static_cast<int>(s.draw(n <= 3 ? 5 : 3));
    for (std::size_t j = 0; j < n; ++j) {
        if (how == 0) m(p, j) = T(0);
        if (how == 1) m(j, p) = T(0);
        if (how == 2 && p != q) m(p, j) = m(q, j);
        if (how == 3 && p != q) m(j, p) = m(j, q);
        if (how == 4 && p != q) m(p, j) = T(m(q, j) * T(2));
    }
    s.discard(how >= 2 && p == q);
    std::vector<T> b = gen_vec<T>(s, n, FEW);
    s.nontrivial(n >= 2);
    s.label("singular");
    s.note() << tname<T>() << " " << show(m) << " b " << show(b) << "\n";
    const Matrix<T> x = to_malg(m);
    const Vector<T> y = to_malg(b);
    expect_rejected([&] { linalg::solve(x, y); }, "solve with a singular matrix");
    expect_eq(x, m, "refused solve: matrix"), expect_eq(y, b, "refused solve: vector");
}
} // namespace c16
