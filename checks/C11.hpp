// C11: predicates against their definitions.
#include "gen.hpp"

namespace c11
{
template <typename T>
T one(Source &s)
{
    T v = gen_value<T>(s, SMALL);
    return to_cl(v) == cl(0) ? T(1) : v;
}
template <typename T>
T gen_elem(Source &s)
{
    T v = gen_value<T>(s, s.draw(2) ? FEW : s.draw(2) ? SMALL : DYADIC);
    if constexpr (std::is_floating_point_v<T>)
        if (v == 0 && s.draw(2)) v = -v; // a negative zero is a zero
    return v;
}
enum Structure { ANY, SYMMETRIC, SKEW, DIAGONAL, LOWER, UPPER, ZERO, CONSTANT, IDENTITY, STRUCTURES };
inline const char *structure_name(std::size_t k)
{
    static const char *n[] = { "any", "symmetric", "skew-symmetric", "diagonal", "lower triangular", "upper triangular", "zero", "constant", "identity" };
    return n[k];
}
template <typename T>
Mod<T> gen_structured(Source &s, std::size_t r, std::size_t c, std::size_t st)
{
    Mod<T> m(r, c, T(0));
    T k = gen_elem<T>(s);
    for (std::size_t i = 0; i < r; ++i)
        for (std::size_t j = 0; j < c; ++j) {
            T v = T(0);
            switch (st) {
            case ANY: v = gen_elem<T>(s); break;
            case SYMMETRIC: v = (j < i && i < c && j < r) ? m(j, i) : gen_elem<T>(s); break;
            case SKEW: v = i == j ? T(0) : (j < i && i < c && j < r) ? T(-m(j, i)) : gen_elem<T>(s); break;
            case DIAGONAL: v = i == j ? gen_elem<T>(s) : T(0); break;
            case LOWER: v = j <= i ? gen_elem<T>(s) : T(0); break;
            case UPPER: v = j >= i ? gen_elem<T>(s) : T(0); break;
            case ZERO: break;
            case CONSTANT: v = k; break;
            default: v = i == j ? T(1) : T(0);
            }
            m(i, j) = v;
        }
    return m;
}
template <typename T>
struct Truth {
    bool square, row, col, symmetric, skew, diagonal, lower, upper, zero, constant, identity;
    explicit Truth(const Mod<T> &m)
    {
        square = m.r == m.c, row = m.r == 1, col = m.c == 1;
        symmetric = skew = diagonal = lower = upper = identity = square;
        zero = constant = true;
        for (std::size_t i = 0; i < m.r; ++i)
            for (std::size_t j = 0; j < m.c; ++j) {
                cl v = to_cl(m(i, j));
                if (!(v == cl(0))) zero = false;
                if (!(v == to_cl(m(0, 0)))) constant = false;
                if (!square) continue;
                cl w = to_cl(m(j, i));
                if (!(v == w)) symmetric = false;
                if (!(add_l(v, w) == cl(0))) skew = false;
                if (!(v == cl(0))) {
                    if (i != j) diagonal = false;
                    if (j > i) lower = false;
                    if (j < i) upper = false;
                }
                if (!(v == cl(i == j ? 1 : 0))) identity = false;
            }
    }
};
template <typename T, typename F>
void on_operand(Source &s, const Mod<T> &m, F &&f)
{
    switch (s.draw(3)) {
    case 0: {
        malg::Matrix<T> x = to_malg(m);
        f(x, std::string(" of a matrix"));
        expect_eq(x, m, "predicate: operand");
        break;
    }
    case 1: {
        ConstOperand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        break;
    }
    default: {
        Operand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        x.check_unchanged(m, "predicate");
    }
    }
}
template <typename T>
void structures(Source &s)
{
    Shape sh;
    if (s.draw(4)) {
        std::size_t n = gen_dim(s, 1, s.draw(20) == 19 ? 70 : 16);
        sh            = Shape{ n, n };
    } else sh = gen_shape_any(s, 16);
    std::size_t st = s.draw(STRUCTURES);
    Mod<T> m       = gen_structured<T>(s, sh.r, sh.c, st);
    bool broken    = s.draw(3) != 0;
    if (broken) { // one element violates the structure
        T &v = m.d[s.draw(m.d.size())];
        T d  = one<T>(s);
        if constexpr (is_cplx<T>) {
            if (s.draw(2)) d = T(0, static_cast<real_of<T>>(1 + s.draw(3)));
        } else if constexpr (std::is_floating_point_v<T>) {
            if (s.draw(3) == 2) d = std::ldexp(T(1), -static_cast<int>(s.draw(20)));
        }
        if constexpr (std::is_floating_point_v<real_of<T>>) {
            if (s.draw(3) == 2) { // by as little as the type can express
                using R = real_of<T>;
                auto barely = [&](R x) {
                    switch (s.draw(3)) {
                    case 0: return std::nextafter(x, R(10));
                    case 1: return std::nextafter(x, R(-10));
                    default: return x != 0 ? R(x + x * R(1e-6)) : R(s.draw(2) ? 1 : -1) * std::ldexp(R(1), -static_cast<int>(30 + s.draw(90)));
                    }
                };
                if constexpr (is_cplx<T>) {
                    if (s.draw(2)) v = T(barely(v.real()), v.imag());
                    else v = T(v.real(), barely(v.imag()));
                } else v = barely(v);
                d = T(0);
            }
        }
        v = T(v + d);
    }
    s.nontrivial(m.size() >= 2);
    Truth<T> t(m);
    s.label(std::string(structure_name(st)) + (broken ? ", one element changed" : ""));
    s.note() << tname<T>() << " " << show(m) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        using namespace malg::utility;
#define IS(fn, want) CHECK(fn(x) == (want), << #fn << w << " is " << fn(x))
        IS(is_square, t.square);
        IS(is_row_vector, t.row);
        IS(is_column_vector, t.col);
        IS(is_symmetric, t.symmetric);
        IS(is_skew_symmetric, t.skew);
        IS(is_diagonal, t.diagonal);
        IS(is_lower_triangular, t.lower);
        IS(is_upper_triangular, t.upper);
        IS(is_zero, t.zero);
        IS(is_constant, t.constant);
        IS(is_identity, t.identity);
#undef IS
    });
}

/// The exact determinant of a small matrix of small integers.
template <typename T>
cl leibniz(const Mod<T> &m)
{
    std::vector<std::size_t> p(m.r);
    for (std::size_t i = 0; i < m.r; ++i) p[i] = i;
    cl det = 0;
    do {
        cl t     = 1;
        bool odd = false;
        for (std::size_t i = 0; i < m.r; ++i) {
            t = mul_l(t, to_cl(m(i, p[i])));
            for (std::size_t j = 0; j < i; ++j)
                if (p[j] > p[i]) odd = !odd;
        }
        det = odd ? sub_l(det, t) : add_l(det, t);
    } while (std::next_permutation(p.begin(), p.end()));
    return det;
}
template <typename T>
void dependence(Source &s)
{
    bool large    = s.draw(3) == 2;
    std::size_t n = large ? 5 + s.draw(4) : 1 + s.draw(4);
    Mod<T> m      = gen_mod<T>(s, n, n, s.draw(2) ? FEW : SMALL);
    int known     = -1; // whether it is known to be invertible
    std::size_t a = s.draw(n), b = s.draw(n);
    std::size_t how = s.draw(4);
    if (n > 4 && how == 0) how = 1 + s.draw(3);
    if (std::is_integral_v<T> && n > 4) how = 4; // see C13
    switch (how) {
    case 1: // two equal rows, or an empty one
        for (std::size_t j = 0; j < n; ++j) m(a, j) = (a == b) ? T(0) : m(b, j);
        // Complex quotients are rounded, even of a number by itself.
        if (!is_cplx<T> || a == b) known = 0;
        break;
    case 2: // dominant diagonal, with the rows in some order
        for (std::size_t i = 0; i < n; ++i) m(i, i) = T(static_cast<real_of<T>>(20 * static_cast<int>(n)));
        for (std::size_t j = 0; j < n; ++j) std::swap(m(a, j), m(b, j));
        known = 1;
        break;
    case 3: // empty column
        for (std::size_t i = 0; i < n; ++i) m(i, a) = T(0);
        known = 0;
        break;
    case 4: // triangular
        known = 1;
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j <= i; ++j) {
                m(i, j) = j < i ? T(0) : T(static_cast<int>(1 + s.draw(2)));
                if (j == i && s.draw(8) == 7) m(i, j) = T(0), known = 0;
            }
        break;
    default: break;
    }
    if (n <= 4) known = leibniz(m) == cl(0) ? 0 : 1;
    s.nontrivial(n >= 2);
    s.label(std::string(n > 4 ? "large " : "small ") + (known == 1 ? "invertible" : known == 0 ? "singular" : "unknown"));
    s.note() << tname<T>() << " " << show(m) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        using namespace malg::utility;
        bool inv = is_invertible(x), dep = is_linearly_dependent(x), ind = is_linearly_independent(x);
        CHECK(inv == ind, << "is_invertible" << w << " is " << inv << " and is_linearly_independent is " << ind);
        CHECK(dep != ind, << "is_linearly_dependent" << w << " is " << dep << " and is_linearly_independent is " << ind);
        if (known >= 0) CHECK(inv == (known == 1), << "is_invertible" << w << " is " << inv);
    });
}

template <typename T>
void orthogonal(Source &s)
{
    std::size_t n = 1 + s.draw(8);
    Mod<T> m(n, n, T(0));
    // A signed permutation.
    std::vector<std::size_t> p(n);
    for (std::size_t i = 0; i < n; ++i) p[i] = i;
    for (std::size_t i = n; i > 1; --i) std::swap(p[i - 1], p[s.draw(i)]);
    for (std::size_t i = 0; i < n; ++i) m(i, p[i]) = s.draw(2) ? T(-1) : T(1);
    if constexpr (std::is_floating_point_v<T>) {
        // Rotations.
        for (std::size_t k = s.draw(2 * n); k > 0 && n >= 2; --k) {
            std::size_t i = s.draw(n), j = s.draw(n);
            if (i == j) continue;
            double ang = static_cast<double>(s.draw(6283)) / 1000;
            T c = static_cast<T>(std::cos(ang)), q = static_cast<T>(std::sin(ang));
            for (std::size_t x = 0; x < n; ++x) {
                T u = m(i, x), v = m(j, x);
                m(i, x) = c * u - q * v;
                m(j, x) = q * u + c * v;
            }
        }
    }
    std::size_t how = s.draw(4);
    if (how >= 2) {
        if constexpr (std::is_integral_v<T>) m.d[s.draw(m.d.size())] += static_cast<T>(s.draw(2) ? 1 : -1);
        else {
            static const double d[] = { 1e-9, 1e-7, 3e-6, 1e-4, 0.1, 1 };
            m.d[s.draw(m.d.size())] += static_cast<T>(d[s.draw(6)]);
        }
    }
    bool nonsquare = s.draw(16) == 15 && n >= 2;
    if (nonsquare) { // orthonormal rows are not enough
        Mod<T> o(n - 1, n);
        for (std::size_t i = 0; i + 1 < n; ++i)
            for (std::size_t j = 0; j < n; ++j) o(i, j) = m(i, j);
        m = o;
    }
    long double worst = 0, tol = malg::feq::tolerance();
    L l = to_l(m);
    for (std::size_t i = 0; i < m.r; ++i)
        for (std::size_t j = 0; j < m.r; ++j) {
            long double v = i == j ? -1 : 0;
            for (std::size_t k = 0; k < m.c; ++k) v += l(i, k).real() * l(j, k).real();
            worst = std::max(worst, std::fabs(v));
        }
    long double band = 1e-12L * tol + 8 * (static_cast<long double>(n) + 2) * eps_of<T>();
    int want         = nonsquare ? 0 : worst > tol + band ? 0 : worst < tol - band ? 1 : -1;
    s.nontrivial(n >= 2);
    s.label(want == 1 ? "orthogonal" : want == 0 ? "not orthogonal" : "either");
    s.note() << tname<T>() << " " << show(m) << " distance from orthogonality " << show(worst) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        bool got = malg::utility::is_orthogonal(x);
        CHECK(want < 0 || got == (want == 1), << "is_orthogonal" << w << " is " << got << " at a distance of " << show(worst));
    });
}
} // namespace c11

#define TYPE(n, T)                  \
    PROP(structures_##n, 4)         \
    {                               \
        c11::structures<T>(s);      \
    }                               \
    PROP(dependence_##n, 2)         \
    {                               \
        c11::dependence<T>(s);      \
    }
#define REAL_TYPE(n, T)             \
    PROP(orthogonal_##n, 1)         \
    {                               \
        c11::orthogonal<T>(s);      \
    }
