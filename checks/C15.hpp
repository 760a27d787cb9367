// C15: the matrix exponential.
#include "forms.hpp"

namespace c15
{
using namespace malg;

/// The exponential, in extended precision.
inline L exact_exp(const L &a)
{
    std::size_t n = a.r;
    int k         = 0;
    long double t = inf_norm(a);
    while (t > 1.0L / 64) t /= 2, ++k;
    L x = scaled(a, std::ldexp(1.0L, -k)), p = eye_l(n), r = eye_l(n);
    for (int i = 1; i < 16; ++i) {
        p = scaled(mul(p, x), 1.0L / i);
        r = add(r, p);
    }
    for (int i = 0; i < k; ++i) r = mul(r, r);
    return r;
}
/// The error (largest row sum) of a scaled and squared exponential whose
/// series is accurate to acc relative to the scaling.
template <typename T>
long double error_bound(const L &a, double acc)
{
    long double t = inf_norm(a), scale = 1, n = static_cast<long double>(a.r), eps = std::max(eps_of<T>(), eps_of<double>());
    int its = 0;
    while (t * scale > 1) scale /= 2, ++its;
    L r           = exact_exp(scaled(a, scale));
    long double e = (4 * static_cast<long double>(acc) * scale + 16 * (n + 4) * eps) * std::max(1.0L, inf_norm(r)) * std::sqrt(n);
    for (int i = 0; i < its; ++i) {
        long double m = inf_norm(r);
        e             = 2 * e * m + e * e + 4 * n * eps * m * m;
        r             = mul(r, r);
    }
    return e + 8 * eps * inf_norm(r);
}

template <typename T>
Mod<T> gen_square(Source &s, std::string &kind)
{
    using R       = real_of<T>;
    std::size_t n = s.draw(100) == 99 ? 9 + s.draw(6) : s.draw(8) == 7 ? 6 + s.draw(3) : 1 + s.draw(5);
    Mod<T> m      = gen_mod<T>(s, n, n, s.draw(3) ? REAL : gen_exact_flavor(s));
    kind          = "any";
    gen_structure(s, m);
    switch (s.draw(9)) {
    case 2:
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                if (i != j) m(i, j) = T(0);
        kind = "diagonal";
        break;
    case 3:
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j <= i; ++j) m(i, j) = T(0);
        if (s.draw(2))
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < i; ++j) std::swap(m(i, j), m(j, i));
        kind = "nilpotent";
        break;
    case 4: // one eigenvalue
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) m(i, j) = (i == j) ? m(0, 0) : (j == i + 1) ? T(1) : T(0);
        kind = "defective";
        break;
    case 5: // skew symmetric: a rotation
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j <= i; ++j) m(i, j) = (i == j) ? T(0) : T(-m(j, i));
        kind = "skew";
        break;
    case 6: // stable
        for (std::size_t i = 0; i < n; ++i) {
            R t = 0;
            for (std::size_t j = 0; j < n; ++j) t += std::abs(m(i, j));
            m(i, i) = T(-t);
        }
        kind = "stable";
        break;
    case 7: // symmetric
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < i; ++j) m(i, j) = m(j, i);
        kind = "symmetric";
        break;
    case 8: // singular
        for (std::size_t j = 0; j < n; ++j) m(n - 1, j) = T(0);
        kind = "singular";
        break;
    default: break;
    }
    // The norm.
    long double t = inf_norm(to_l(m));
    if (t > 0) {
        long double want = std::array<long double, 8>{ 0.9L, 0.001L, 1.0L, 2.5L, 5.0L, 10.0L, 20.0L, 1e-6L }[s.draw(8)];
        int e            = 0;
        std::frexp(want / t, &e);
        for (auto &v : m.d) v = T(v * static_cast<R>(std::ldexp(1.0, e)));
    }
    return m;
}
inline double gen_accuracy(Source &s)
{
    return std::array<double, 6>{ 1e-05, 1e-03, 1e-08, 1e-10, 1e-12, 1e-04 }[s.draw(6)];
}
inline void close(const L &got, const L &want, long double bound, const std::string &what)
{
    CHECK(got.r == want.r && got.c == want.c, << what << " is " << got.r << "x" << got.c << " instead of " << want.r << "x" << want.c);
    for (std::size_t i = 0; i < want.r; ++i)
        for (std::size_t j = 0; j < want.c; ++j)
            CHECK(abs_l(sub_l(got(i, j), want(i, j))) <= bound, << what << ": element (" << i << "," << j << ") is " << show(got(i, j)) << " instead of " << show(want(i, j)) << " within " << show(bound));
}

/// Against the exact exponential, and against those of related matrices.
template <typename T>
void exponential(Source &s)
{
    std::string kind;
    Mod<T> m      = gen_square<T>(s, kind);
    double acc    = gen_accuracy(s);
    L a           = to_l(m);
    std::size_t n = m.r;
    L e           = exact_exp(a);
    long double b = error_bound<T>(a, acc);
    s.nontrivial(max_abs(a) > 0);
    s.label(kind);
    s.note() << tname<T>() << " " << show(m) << " accuracy " << acc << " bound " << show(b) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto r = linalg::expm(x, acc);
        static_assert(std::is_same_v<decltype(r), Matrix<T>>, "expm has the wrong type");
        close(to_l(model_of(r)), e, b, "the exponential" + w);
        if (kind == "diagonal")
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j)
                    if (i != j) CHECK(r(i, j) == T(0), << "the exponential" << w << " that is diagonal is not: element (" << i << "," << j << ") is " << show<T>(r(i, j)));
    });
    Matrix<T> x = to_malg(m);
    L r         = to_l(model_of(linalg::expm(x, acc)));
    long double bi, nr = inf_norm(r);
    switch (s.draw(5)) {
    case 0: { // the opposite
        bi  = error_bound<T>(scaled(a, -1), acc);
        L i = to_l(model_of(linalg::expm(x * real_of<T>(-1), acc)));
        close(mul(r, i), eye_l(n), b * inf_norm(i) + bi * nr + b * bi, "exp(A) exp(-A)");
        break;
    }
    case 1: { // the transposed
        L l;
        l = to_l(model_of(linalg::expm(linalg::transpose(x), acc)));
        L at(n, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) at(i, j) = r(j, i);
        bi = error_bound<T>(to_l(model_of(linalg::transpose(x))), acc);
        close(l, at, b + bi, "the exponential of the transposed matrix");
        break;
    }
    case 2: { // a commuting matrix: twice the matrix
        s.discard(inf_norm(a) > 8);
        bi  = error_bound<T>(scaled(a, 2), acc);
        L d = to_l(model_of(linalg::expm(x * real_of<T>(2), acc)));
        close(d, mul(r, r), bi + 2 * b * nr + b * b, "exp(2A)");
        break;
    }
    case 3: { // the rows and columns in another order
        std::vector<std::size_t> p(n);
        for (std::size_t i = 0; i < n; ++i) p[i] = i;
        for (std::size_t i = n; i > 1; --i) std::swap(p[i - 1], p[s.draw(i)]);
        Mod<T> q(n, n);
        L want(n, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) q(i, j) = m(p[i], p[j]), want(i, j) = r(p[i], p[j]);
        close(to_l(model_of(linalg::expm(to_malg(q), acc))), want, 2 * b, "the exponential of the permuted matrix");
        break;
    }
    default: { // a block diagonal matrix
        s.discard(n > 4);
        Mod<T> q(n + 1, n + 1, T(0));
        T k = gen_value<T>(s, DYADIC);
        s.discard(abs_l(to_cl(k)) > 20);
        q(0, 0) = k;
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) q(i + 1, j + 1) = m(i, j);
        bi  = error_bound<T>(to_l(q), acc);
        L l = to_l(model_of(linalg::expm(to_malg(q), acc)));
        close(l, exact_exp(to_l(q)), bi, "the exponential of a block diagonal matrix");
        break;
    }
    }
}

/// Zero, and the scaling it uses.
template <typename T>
void special(Source &s)
{
    using R       = real_of<T>;
    std::size_t n = gen_dim(s, 1, 8);
    Mod<T> z(n, n, T(0));
    double acc = gen_accuracy(s);
    s.nontrivial(n >= 2);
    s.note() << tname<T>() << " " << n << "x" << n << " accuracy " << acc << "\n";
    on_operand<T>(s, z, [&](const auto &x, const std::string &w) { close(to_l(model_of(linalg::expm(x, acc))), eye_l(n), 4 * eps_of<T>(), "the exponential of zero" + w); });
    Shape sh = gen_shape(s, 10);
    Mod<T> m = gen_mod<T>(s, sh.r, sh.c, s.draw(2) ? WIDE : SMALL);
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto [its, scale] = log2_ceil(x);
        long double t     = inf_norm(to_l(m)) * static_cast<long double>(scale);
        CHECK(std::ldexp(R(1), -static_cast<int>(its)) == scale, << "log2_ceil" << w << ": " << its << " halvings and a scale of " << show(scale));
        CHECK(t <= 1 + 64 * eps_of<T>(), << "log2_ceil" << w << ": the scaled norm is " << show(t));
        CHECK(its == 0 || t > 0.25L, << "log2_ceil" << w << ": the scaled norm is " << show(t) << " after " << its << " halvings");
    });
}
} // namespace c15
