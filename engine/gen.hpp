// Generators, reference containers and comparison helpers shared by the checks.
#pragma once
#include "malg_all.hpp"
#include "pbt.hpp"

#include <complex>
#include <array>
#include <memory>
#include <type_traits>

using pbt::Source;
typedef std::complex<double> cd;
typedef std::complex<float> cf;

#ifdef VERIF_COL_MAJOR
constexpr bool row_major = false;
#else
constexpr bool row_major = true;
#endif

template <typename T>
const char *tname()
{
    if (std::is_same_v<T, int>) return "int";
    if (std::is_same_v<T, long>) return "long";
    if (std::is_same_v<T, unsigned>) return "unsigned";
    if (std::is_same_v<T, bool>) return "bool";
    if (std::is_same_v<T, float>) return "float";
    if (std::is_same_v<T, double>) return "double";
    if (std::is_same_v<T, cd>) return "complex<double>";
    if (std::is_same_v<T, cf>) return "complex<float>";
    if (std::is_same_v<T, std::size_t>) return "size_t";
    if (std::is_same_v<T, long long>) return "long long";
    if (std::is_same_v<T, long double>) return "long double";
    if (std::is_same_v<T, std::complex<long double>>) return "complex<long double>";
    return "?";
}

template <typename T>
struct Tag {
    using type = T;
};

/// Calls f with one of the types.
template <typename F>
void with_type_i(std::size_t, F &&)
{
}
template <typename T, typename... Ts, typename F>
void with_type_i(std::size_t i, F &&f)
{
    if (i == 0) f(Tag<T>());
    else if constexpr (sizeof...(Ts) > 0) with_type_i<Ts...>(i - 1, f);
}
template <typename... Ts, typename F>
void with_type(Source &s, F &&f)
{
    with_type_i<Ts...>(s.draw(sizeof...(Ts)), f);
}
template <typename A, typename B>
struct Pair {
    using first  = A;
    using second = B;
};

template <typename T>
constexpr bool is_cplx = malg::is_complex_v<T>;
template <typename T>
using real_of = malg::is_complex_t<T>;

/// The common type the operations promise.
template <typename A, typename B>
using common_of = std::conditional_t<is_cplx<A> || is_cplx<B>, std::complex<std::common_type_t<real_of<A>, real_of<B>>>, std::common_type_t<A, B>>;

// ---------------------------------------------------------------- comparison

template <typename T>
bool same(const T &a, const T &b)
{
    if constexpr (is_cplx<T>) return same(a.real(), b.real()) && same(a.imag(), b.imag());
    else if constexpr (std::is_floating_point_v<T>) return a == b || (a != a && b != b);
    else return a == b;
}

template <typename T>
std::string show(const T &v)
{
    std::ostringstream o;
    if constexpr (is_cplx<T>) {
        o << "(" << show(v.real()) << "," << show(v.imag()) << ")";
    } else {
        o.precision(std::is_same_v<T, float> ? 9 : 17);
        o << v;
    }
    return o.str();
}

// ------------------------------------------------------------------- models

/// A plain dense matrix, the reference for malg::Matrix. Always row by row.
template <typename T>
struct Mod {
    std::size_t r = 0, c = 0;
    std::vector<T> d;
    Mod() {}
    Mod(std::size_t rows, std::size_t cols, T v = T())
        : r(rows), c(cols), d(rows * cols, v)
    {
    }
    T &operator()(std::size_t i, std::size_t j)
    {
        return d[i * c + j];
    }
    const T &operator()(std::size_t i, std::size_t j) const
    {
        return d[i * c + j];
    }
    std::size_t size() const
    {
        return r * c;
    }
    /// The element at the given position of the storage order.
    const T &lin(std::size_t p) const
    {
        return row_major ? (*this)(p / c, p % c) : (*this)(p % r, p / r);
    }
    T &lin(std::size_t p)
    {
        return row_major ? (*this)(p / c, p % c) : (*this)(p % r, p / r);
    }
};

template <typename T>
std::string show(const Mod<T> &m)
{
    std::string o = std::to_string(m.r) + "x" + std::to_string(m.c) + " {";
    for (std::size_t i = 0; i < m.r; ++i) {
        o += i ? " ; " : "";
        for (std::size_t j = 0; j < m.c; ++j) {
            o += (j ? " " : "") + show(m(i, j));
            if (o.size() > 3000) return o + "...";
        }
    }
    return o + "}";
}
template <typename T>
std::string show(const std::vector<T> &v)
{
    std::string o = "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        o += (i ? " " : "") + show(v[i]);
        if (o.size() > 3000) return o + "...";
    }
    return o + "]";
}

template <typename T>
Mod<std::remove_const_t<T>> model_of(const malg::MatrixBase<T> &m)
{
    Mod<std::remove_const_t<T>> o(m.rows(), m.cols());
    for (std::size_t i = 0; i < o.r; ++i)
        for (std::size_t j = 0; j < o.c; ++j) o(i, j) = m(i, j);
    return o;
}
template <typename T>
std::vector<T> model_of(const malg::Vector<T> &v)
{
    std::vector<T> o(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) o[i] = v[i];
    return o;
}
template <typename T>
malg::Matrix<T> to_malg(const Mod<T> &m)
{
    malg::Matrix<T> o(m.r, m.c, T(0));
    for (std::size_t i = 0; i < m.r; ++i)
        for (std::size_t j = 0; j < m.c; ++j) o.at(i, j) = m(i, j);
    return o;
}
template <typename T>
malg::Vector<T> to_malg(const std::vector<T> &m)
{
    malg::Vector<T> o(m.size());
    for (std::size_t i = 0; i < m.size(); ++i) o[i] = m[i];
    return o;
}

/// Exact agreement of a result with its reference: shape, type and elements,
/// through both ways of reading it.
template <typename T, typename U>
void expect_eq(const malg::MatrixBase<T> &got, const Mod<U> &want, const std::string &what)
{
    static_assert(std::is_same_v<std::remove_const_t<T>, U>, "the operation has the wrong element type");
    CHECK(got.rows() == want.r && got.cols() == want.c, << what << ": the result is " << got.rows() << "x" << got.cols() << " instead of " << want.r << "x" << want.c);
    CHECK(got.size() == want.size(), << what << ": size " << got.size());
    for (std::size_t i = 0; i < want.r; ++i)
        for (std::size_t j = 0; j < want.c; ++j)
            CHECK(same<U>(got(i, j), want(i, j)), << what << ": element (" << i << "," << j << ") is " << show<U>(got(i, j)) << " instead of " << show(want(i, j)));
    for (std::size_t p = 0; p < want.size(); ++p)
        CHECK(same<U>(got[p], want.lin(p)), << what << ": linear element " << p << " is " << show<U>(got[p]) << " instead of " << show(want.lin(p)));
}
template <typename T, typename U>
void expect_eq(const malg::Vector<T> &got, const std::vector<U> &want, const std::string &what)
{
    static_assert(std::is_same_v<T, U>, "the operation has the wrong element type");
    CHECK(got.size() == want.size(), << what << ": the result has " << got.size() << " elements instead of " << want.size());
    for (std::size_t i = 0; i < want.size(); ++i)
        CHECK(same<U>(got[i], want[i]), << what << ": element " << i << " is " << show<U>(got[i]) << " instead of " << show<U>(want[i]));
}

// A complex of long double with a scale to compare against.
typedef std::complex<long double> cl;
template <typename T>
cl to_cl(const T &v)
{
    if constexpr (is_cplx<T>) return cl(static_cast<long double>(v.real()), static_cast<long double>(v.imag()));
    else return cl(static_cast<long double>(v), 0);
}
inline cl conj_l(cl a)
{
    return cl(a.real(), -a.imag());
}
/// Products without the special cases of std::complex (and without the
/// operators that complex_math.hpp adds).
inline cl mul_l(cl a, cl b)
{
    return cl(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real());
}
inline cl add_l(cl a, cl b)
{
    return cl(a.real() + b.real(), a.imag() + b.imag());
}
inline cl sub_l(cl a, cl b)
{
    return cl(a.real() - b.real(), a.imag() - b.imag());
}
inline cl scale_l(cl a, long double f)
{
    return cl(a.real() * f, a.imag() * f);
}
inline long double abs_l(cl a)
{
    return std::hypot(a.real(), a.imag());
}
inline cl div_l(cl a, cl b)
{
    long double n = b.real() * b.real() + b.imag() * b.imag();
    cl p          = mul_l(a, conj_l(b));
    return cl(p.real() / n, p.imag() / n);
}
template <typename T>
constexpr long double eps_of()
{
    using R = real_of<std::remove_const_t<T>>;
    if constexpr (std::is_floating_point_v<R>) return static_cast<long double>(std::numeric_limits<R>::epsilon());
    else return 0;
}
template <typename T>
bool finite(const T &v)
{
    if constexpr (is_cplx<T>) return std::isfinite(v.real()) && std::isfinite(v.imag());
    else if constexpr (std::is_floating_point_v<T>) return std::isfinite(v);
    else return true;
}
template <typename T>
bool finite(const Mod<T> &m)
{
    for (auto &v : m.d)
        if (!finite(v)) return false;
    return true;
}

// ------------------------------------------------------- long double algebra

typedef Mod<cl> L;
template <typename T>
L to_l(const Mod<T> &m)
{
    L o(m.r, m.c);
    for (std::size_t i = 0; i < m.d.size(); ++i) o.d[i] = to_cl(m.d[i]);
    return o;
}
inline L mul(const L &a, const L &b)
{
    L o(a.r, b.c);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t k = 0; k < a.c; ++k)
            for (std::size_t j = 0; j < b.c; ++j) o(i, j) = add_l(o(i, j), mul_l(a(i, k), b(k, j)));
    return o;
}
inline L sub(const L &a, const L &b)
{
    L o(a.r, a.c);
    for (std::size_t i = 0; i < a.d.size(); ++i) o.d[i] = sub_l(a.d[i], b.d[i]);
    return o;
}
inline L add(const L &a, const L &b)
{
    L o(a.r, a.c);
    for (std::size_t i = 0; i < a.d.size(); ++i) o.d[i] = add_l(a.d[i], b.d[i]);
    return o;
}
inline L scaled(const L &a, long double f)
{
    L o(a.r, a.c);
    for (std::size_t i = 0; i < a.d.size(); ++i) o.d[i] = scale_l(a.d[i], f);
    return o;
}
inline L eye_l(std::size_t n)
{
    L o(n, n);
    for (std::size_t i = 0; i < n; ++i) o(i, i) = 1;
    return o;
}
inline L herm(const L &a)
{
    L o(a.c, a.r);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < a.c; ++j) o(j, i) = conj_l(a(i, j));
    return o;
}
inline L abs_m(const L &a)
{
    L o(a.r, a.c);
    for (std::size_t i = 0; i < a.d.size(); ++i) o.d[i] = abs_l(a.d[i]);
    return o;
}
inline long double max_abs(const L &a)
{
    long double m = 0;
    for (auto &v : a.d) {
        long double x = abs_l(v);
        if (!(x <= m)) m = x; // Keeps NaN.
    }
    return m;
}
inline long double fro(const L &a)
{
    long double m = 0;
    for (auto &v : a.d) m += v.real() * v.real() + v.imag() * v.imag();
    return std::sqrt(m);
}
/// Largest row sum.
inline long double inf_norm(const L &a)
{
    long double m = 0;
    for (std::size_t i = 0; i < a.r; ++i) {
        long double t = 0;
        for (std::size_t j = 0; j < a.c; ++j) t += abs_l(a(i, j));
        m = std::max(m, t);
    }
    return m;
}
/// Inverse with complete pivoting; false if it is numerically singular.
inline bool inverse_l(L a, L &out)
{
    std::size_t n = a.r;
    out           = eye_l(n);
    std::vector<std::size_t> colp(n);
    for (std::size_t i = 0; i < n; ++i) colp[i] = i;
    long double scale = max_abs(a);
    if (scale == 0) return n == 0;
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t pr = k, pc = k;
        for (std::size_t i = k; i < n; ++i)
            for (std::size_t j = k; j < n; ++j)
                if (abs_l(a(i, j)) > abs_l(a(pr, pc))) pr = i, pc = j;
        if (abs_l(a(pr, pc)) <= scale * 1e-17L) return false;
        for (std::size_t j = 0; j < n; ++j) std::swap(a(k, j), a(pr, j)), std::swap(out(k, j), out(pr, j));
        for (std::size_t i = 0; i < n; ++i) std::swap(a(i, k), a(i, pc));
        std::swap(colp[k], colp[pc]);
        cl p = a(k, k);
        for (std::size_t j = 0; j < n; ++j) a(k, j) = div_l(a(k, j), p), out(k, j) = div_l(out(k, j), p);
        for (std::size_t i = 0; i < n; ++i) {
            if (i == k) continue;
            cl f = a(i, k);
            if (f == cl(0)) continue;
            for (std::size_t j = 0; j < n; ++j) {
                a(i, j)   = sub_l(a(i, j), mul_l(f, a(k, j)));
                out(i, j) = sub_l(out(i, j), mul_l(f, out(k, j)));
            }
        }
    }
    L fin(n, n);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) fin(colp[i], j) = out(i, j);
    out = fin;
    return true;
}

// --------------------------------------------------------------- generators

/// A dimension, at least lo: mostly small, now and then large.
inline std::size_t gen_dim(Source &s, std::size_t lo = 1, std::size_t big = 40)
{
    switch (s.pick({ 60, 25, 10, 5 })) {
    case 0: return lo + s.draw(4);
    case 1: return lo + 3 + s.draw(5);
    case 2: return lo + 7 + s.draw(big > 14 ? 12 : 2);
    default: return lo + s.draw(big);
    }
}
struct Shape {
    std::size_t r, c;
};
inline Shape gen_shape(Source &s, std::size_t big = 40)
{
    switch (s.pick({ 40, 30, 10, 10, 10 })) {
    case 0: return Shape{ gen_dim(s, 1, big), gen_dim(s, 1, std::min<std::size_t>(big, 20)) };
    case 1: {
        std::size_t n = gen_dim(s, 1, std::min<std::size_t>(big, 20));
        return Shape{ n, n };
    }
    case 2: return Shape{ 1, gen_dim(s, 1, 2 * big) };
    case 3: return Shape{ gen_dim(s, 1, 2 * big), 1 };
    default: {
        std::size_t a = gen_dim(s, 1, big), b = s.draw(4);
        return s.draw(2) ? Shape{ a, a + b } : Shape{ a + b, a };
    }
    }
}
/// The same, and once in a while much larger: past any block or buffer size.
inline Shape gen_shape_any(Source &s, std::size_t big = 40)
{
    if (s.draw(250) != 249) return gen_shape(s, big);
    switch (s.draw(5)) {
    case 0: return Shape{ 1 + s.draw(140), 1 + s.draw(140) };
    case 1: {
        std::size_t n = 1 + s.draw(140);
        return Shape{ n, n };
    }
    case 2: return Shape{ 1 + s.draw(4), 1 + s.draw(1200) };
    case 3: return Shape{ 1 + s.draw(1200), 1 + s.draw(4) };
    default: {
        static const std::size_t near[] = { 16, 32, 64, 128 };
        return Shape{ near[s.draw(4)] + s.draw(3) - 1, near[s.draw(4)] + s.draw(3) - 1 };
    }
    }
}
inline std::size_t gen_len(Source &s, std::size_t lo, std::size_t big)
{
    if (s.draw(100) != 99) return gen_dim(s, lo, big);
    if (s.draw(2)) return (std::size_t(16) << s.draw(8)) + s.draw(3) - 1;
    return lo + s.draw(3000);
}

/// The kind of values of a case.
enum Flavor {
    SMALL,  // integers in [-9, 9]
    SPARSE, // mostly zeros
    FEW,    // a handful of values, many duplicates
    MEDIUM, // integers in [-1000, 1000]
    DYADIC, // multiples of 1/8 (integers for integral types)
    REAL,   // any mantissa, moderate exponent
    WIDE,   // any mantissa, exponents in [-60, 60]
    EXTREME // limits of the type, signed zeros, subnormals, infinities, NaN
};
inline Flavor gen_exact_flavor(Source &s)
{
    return std::array<Flavor, 5>{ SMALL, SPARSE, FEW, MEDIUM, DYADIC }[s.draw(5)];
}

template <typename T>
T gen_value(Source &s, Flavor f)
{
    if constexpr (is_cplx<T>) {
        using R = typename T::value_type;
        switch (s.pick({ 7, 1, 1 })) {
        case 0: {
            R a = gen_value<R>(s, f);
            R b = gen_value<R>(s, f);
            return T(a, b);
        }
        case 1: return T(gen_value<R>(s, f), R(0));
        default: return T(R(0), gen_value<R>(s, f));
        }
    } else if constexpr (std::is_same_v<T, bool>) {
        return s.draw(2) != 0;
    } else {
        constexpr bool uns = std::is_unsigned_v<T>;
        auto I             = [&](long m) { return static_cast<T>(uns ? static_cast<long>(s.draw(static_cast<pbt::u64>(m) + 1)) : s.sint(m)); };
        switch (f) {
        case SMALL: return I(9);
        case SPARSE: return s.draw(4) == 0 ? I(9) : T(0);
        case FEW: return uns ? static_cast<T>(s.draw(3)) : I(2);
        case MEDIUM: return I(1000);
        case DYADIC:
            if constexpr (std::is_floating_point_v<T>) return static_cast<T>(s.sint(800)) / T(8);
            else return I(200);
        case REAL:
        case WIDE:
            if constexpr (std::is_floating_point_v<T>) {
                T m  = static_cast<T>(1) + static_cast<T>(s.draw(1u << 22)) / static_cast<T>(1u << 22);
                long e = s.sint(f == REAL ? 4 : 60);
                m      = std::ldexp(m, static_cast<int>(e));
                return s.draw(2) ? -m : m;
            } else return I(1000);
        case EXTREME:
            if constexpr (std::is_floating_point_v<T>) {
                using N = std::numeric_limits<T>;
                switch (s.draw(14)) {
                case 0: return T(0);
                case 1: return -T(0);
                case 2: return T(1);
                case 3: return T(-1);
                case 4: return N::max();
                case 5: return N::lowest();
                case 6: return N::min();
                case 7: return N::denorm_min();
                case 8: return -N::denorm_min();
                case 9: return N::infinity();
                case 10: return -N::infinity();
                case 11: return N::quiet_NaN();
                case 12: return T(1) + N::epsilon();
                default: return gen_value<T>(s, WIDE);
                }
            } else {
                using N = std::numeric_limits<T>;
                switch (s.draw(6)) {
                case 0: return T(0);
                case 1: return T(1);
                case 2: return N::max();
                case 3: return N::min();
                case 4: return N::max() - T(1);
                default: return I(1000);
                }
            }
        }
        return T(0);
    }
}

template <typename T>
Mod<T> gen_mod(Source &s, std::size_t r, std::size_t c, Flavor f)
{
    Mod<T> m(r, c);
    if (m.d.size() > 1500) { // one decision for all the elements
        Source sub(s.bits(), s.size());
        for (auto &v : m.d) v = gen_value<T>(sub, f);
        return m;
    }
    for (auto &v : m.d) v = gen_value<T>(s, f);
    return m;
}
/// Gives a matrix a structure, now and then: what is recognized by looking at
/// some of the elements only has to be right about the others.
template <typename T>
bool gen_structure(Source &s, Mod<T> &m)
{
    if (m.r < 2 || m.c < 2 || s.draw(3) != 2) return false;
    auto keep = [&](auto &&f) {
        for (std::size_t i = 0; i < m.r; ++i)
            for (std::size_t j = 0; j < m.c; ++j)
                if (!f(i, j)) m(i, j) = T(0);
    };
    const Mod<T> o       = m;
    const std::size_t k = s.draw(m.c), w = s.draw(3);
    switch (s.draw(10)) {
    case 0: keep([&](std::size_t i, std::size_t j) { return i <= j; }); break;
    case 1: keep([&](std::size_t i, std::size_t j) { return i >= j; }); break;
    case 2: keep([&](std::size_t i, std::size_t j) { return i <= j + w && j <= i + w; }); break; // a band
    case 3: keep([&](std::size_t i, std::size_t j) { return i == 0 || j == 0 || i == j; }); break; // an arrow
    case 4: keep([&](std::size_t i, std::size_t j) { return (i < k) == (j < k); }); break; // blocks
    case 5: keep([&](std::size_t i, std::size_t j) { return i == j || (i > 0 && j > 0); }); break;
    case 6: keep([&](std::size_t, std::size_t) { return s.draw(3) == 2; }); break; // a few elements
    case 7: keep([&](std::size_t, std::size_t) { return s.draw(3) != 2; }); break; // a few zeros
    case 8: // symmetric, or skew
        for (std::size_t i = 0; i < std::min(m.r, m.c); ++i)
            for (std::size_t j = 0; j < i; ++j) m(i, j) = w == 2 ? T(-m(j, i)) : m(j, i);
        break;
    default: // the same elements along each diagonal
        for (std::size_t i = 1; i < m.r; ++i)
            for (std::size_t j = 1; j < m.c; ++j) m(i, j) = m(i - 1, j - 1);
    }
    // But for a few elements.
    for (std::size_t n = s.draw(4); n > 0; --n) {
        std::size_t i = s.draw(m.r), j = s.draw(m.c);
        m(i, j) = s.draw(4) ? o(i, j) : T(0);
    }
    return true;
}
template <typename T>
std::vector<T> gen_vec(Source &s, std::size_t n, Flavor f)
{
    std::vector<T> v;
    v.reserve(n);
    if (n > 1500) {
        Source sub(s.bits(), s.size());
        for (std::size_t i = 0; i < n; ++i) v.push_back(gen_value<T>(sub, f));
        return v;
    }
    for (std::size_t i = 0; i < n; ++i) v.push_back(gen_value<T>(s, f));
    return v;
}
template <typename T>
bool varied(const std::vector<T> &v)
{
    for (auto &x : v)
        if (!same(x, v[0])) return true;
    return false;
}

/// A matrix operand holding the elements of a model, in one of the forms the
/// library accepts: a matrix, a view of a part of a larger one, a view of a view,
/// or a cofactor view. What surrounds the part must never change.
template <typename T>
class Operand {
public:
    using Mat = malg::Matrix<T>;
    Operand(Source &s, const Mod<T> &m, bool views = true)
        : rows(m.r), cols(m.c)
    {
        // What has no elements is shown by a range that starts where the matrix ends.
        if (views && (m.r == 0 || m.c == 0)) kind = s.pick({ 4, 3, 0, 2, 0 });
        else kind = views ? s.pick({ 4, 3, 1, 2, 1 }) : 0;
        init(s, m);
    }
    Operand(const Operand &) = delete;
    malg::MatrixBase<T> &ref()
    {
        return *p;
    }
    const malg::MatrixBase<T> &cref() const
    {
        return *p;
    }
    bool is_matrix() const
    {
        return kind == 0;
    }
    const char *form() const
    {
        static const char *n[] = { "matrix", "view", "view of view", "cofactor view", "view of cofactor view" };
        return n[kind];
    }
    /// The operand still holds the model, and what is around it is intact.
    void check_unchanged(const Mod<T> &m, const std::string &what) const
    {
        expect_eq(cref(), m, what + ": operand changed");
        check_outside(what);
    }
    void check_outside(const std::string &what) const
    {
        CHECK(parent.rows() == outside.r && parent.cols() == outside.c, << what << ": the shape of the viewed matrix changed");
        for (std::size_t i = 0; i < outside.r; ++i)
            for (std::size_t j = 0; j < outside.c; ++j)
                if (!inside(i, j))
                    CHECK(same<T>(parent.at(i, j), outside(i, j)), << what << ": element (" << i << "," << j << ") of the viewed matrix, outside of the view, changed from " << show(outside(i, j)) << " to " << show<T>(parent.at(i, j)));
    }
    Mat parent;

private:
    static T filler(std::size_t i, std::size_t j)
    {
        return static_cast<T>(77 + static_cast<int>((i * 7 + j * 3) % 20));
    }
    bool inside(std::size_t i, std::size_t j) const
    {
        return pos_r(i) && pos_c(j);
    }
    bool pos_r(std::size_t i) const
    {
        for (std::size_t v : rmap)
            if (v == i) return true;
        return false;
    }
    bool pos_c(std::size_t j) const
    {
        for (std::size_t v : cmap)
            if (v == j) return true;
        return false;
    }
    void init(Source &s, const Mod<T> &m)
    {
        using malg::CofactorView;
        using malg::View;
        std::size_t top = 0, left = 0, bot = 0, right = 0;
        if (kind == 1 || kind == 2 || kind == 4) top = s.draw(3), left = s.draw(3), bot = s.draw(3), right = s.draw(3);
        std::size_t pr = rows + top + bot, pc = cols + left + right;
        std::size_t er = 0, ec = 0;
        if (kind >= 3) {
            pr += 1, pc += 1;
            er = s.draw(pr), ec = s.draw(pc);
        }
        outside = Mod<T>(pr, pc);
        for (std::size_t i = 0; i < pr; ++i)
            for (std::size_t j = 0; j < pc; ++j) outside(i, j) = filler(i, j);
        parent = to_malg(outside);
        for (std::size_t i = 0; i < rows; ++i) {
            std::size_t x = i + top;
            if (kind >= 3 && x >= er) ++x;
            rmap.push_back(x);
        }
        for (std::size_t j = 0; j < cols; ++j) {
            std::size_t x = j + left;
            if (kind >= 3 && x >= ec) ++x;
            cmap.push_back(x);
        }
        for (std::size_t i = 0; i < rows; ++i)
            for (std::size_t j = 0; j < cols; ++j) {
                parent.at(rmap[i], cmap[j]) = m(i, j);
                outside(rmap[i], cmap[j])   = m(i, j);
            }
        switch (kind) {
        case 0: p = &parent; break;
        case 1: {
            // An end beyond the matrix means up to its end.
            std::size_t er_ = (bot == 0 && s.draw(2)) ? static_cast<std::size_t>(-1) : top + rows;
            std::size_t ec_ = (right == 0 && s.draw(2)) ? static_cast<std::size_t>(-1) : left + cols;
            if (rows == 0) top = pr + s.draw(2), er_ = s.draw(2) ? static_cast<std::size_t>(-1) : top + 1;
            if (cols == 0) left = pc + s.draw(2), ec_ = s.draw(2) ? static_cast<std::size_t>(-1) : left + 1;
            v1              = std::make_unique<View<Mat>>(&parent, top, er_, left, ec_);
            p               = v1.get();
            break;
        }
        case 2: {
            std::size_t ot = s.draw(top + 1), ol = s.draw(left + 1);
            v1 = std::make_unique<View<Mat>>(&parent, ot, pr - s.draw(bot + 1), ol, pc - s.draw(right + 1));
            v2 = std::make_unique<View<View<Mat>>>(v1.get(), top - ot, top - ot + rows, left - ol, left - ol + cols);
            p  = v2.get();
            break;
        }
        case 3:
            cv = std::make_unique<CofactorView<Mat>>(&parent, er, ec);
            p  = cv.get();
            break;
        default:
            cv = std::make_unique<CofactorView<Mat>>(&parent, er, ec);
            vc = std::make_unique<View<CofactorView<Mat>>>(cv.get(), top, top + rows, left, left + cols);
            p  = vc.get();
            break;
        }
    }
    std::size_t rows, cols, kind;
    Mod<T> outside;
    std::vector<std::size_t> rmap, cmap;
    std::unique_ptr<malg::View<Mat>> v1;
    std::unique_ptr<malg::View<malg::View<Mat>>> v2;
    std::unique_ptr<malg::CofactorView<Mat>> cv;
    std::unique_ptr<malg::View<malg::CofactorView<Mat>>> vc;
    malg::MatrixBase<T> *p = nullptr;
};

/// The same for views of constant matrices, whose elements are constant.
template <typename T>
class ConstOperand {
public:
    using Mat = const malg::Matrix<T>;
    ConstOperand(Source &s, const Mod<T> &m)
        : base(to_malg(wrap(s, m)))
    {
        if (cof) {
            cv = std::make_unique<malg::CofactorView<Mat>>(&base, er, ec);
            p  = cv.get();
        } else {
            // What has no elements is shown by a range that starts where the matrix ends.
            if (m.r == 0) top = base.rows();
            if (m.c == 0) left = base.cols();
            v1 = std::make_unique<malg::View<Mat>>(&base, top, top + m.r + (m.r == 0), left, left + m.c + (m.c == 0));
            p  = v1.get();
        }
    }
    ConstOperand(const ConstOperand &) = delete;
    const malg::MatrixBase<const T> &cref() const
    {
        return *p;
    }
    const char *form() const
    {
        return cof ? "constant cofactor view" : "constant view";
    }

private:
    Mod<T> wrap(Source &s, const Mod<T> &m)
    {
        cof = s.draw(3) == 2;
        if (cof) {
            Mod<T> o(m.r + 1, m.c + 1);
            er = s.draw(o.r), ec = s.draw(o.c);
            for (std::size_t i = 0; i < o.r; ++i)
                for (std::size_t j = 0; j < o.c; ++j)
                    o(i, j) = (i == er || j == ec) ? T(91) : m(i - (i > er), j - (j > ec));
            return o;
        }
        top = s.draw(3), left = s.draw(3);
        Mod<T> o(m.r + top + s.draw(3), m.c + left + s.draw(3), T(83));
        for (std::size_t i = 0; i < m.r; ++i)
            for (std::size_t j = 0; j < m.c; ++j) o(top + i, left + j) = m(i, j);
        return o;
    }
    bool cof        = false;
    std::size_t er = 0, ec = 0, top = 0, left = 0;
    malg::Matrix<T> base;
    std::unique_ptr<malg::View<Mat>> v1;
    std::unique_ptr<malg::CofactorView<Mat>> cv;
    const malg::MatrixBase<const T> *p = nullptr;
};

/// Runs f, which must be rejected with std::invalid_argument.
template <typename F>
void expect_rejected(F &&f, const std::string &what)
{
    bool thrown = false;
    try {
        f();
    } catch (const std::exception &) {
        thrown = true;
    }
    CHECK(thrown, << what << ": not rejected");
}

#define VERIF_MAIN                      \
    int main(int argc, char **argv)     \
    {                                   \
        return pbt::pbt_main(argc, argv); \
    }
