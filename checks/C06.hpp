// C06: comparisons against the documented tolerance.
#include "gen.hpp"

namespace c06
{
enum Verdict { NO, YES, EITHER };

/// |a - b| <= tol * max(|a|, |b|), and how sure we are about it.
inline Verdict close(long double a, long double b, long double tol, long double eps)
{
    if (a != a || b != b) return NO;
    if (std::isinf(a) || std::isinf(b)) return a == b ? YES : NO;
    long double diff = std::fabs(a - b), thr = tol * std::max(std::fabs(a), std::fabs(b));
    long double band = 4 * eps * (diff + thr) + (eps > 0 ? 1e-323L : 0);
    if (a == b) return YES;
    if (diff <= thr - band) return YES;
    if (diff > thr + band) return NO;
    return EITHER;
}
inline Verdict both(Verdict a, Verdict b)
{
    if (a == NO || b == NO) return NO;
    if (a == YES && b == YES) return YES;
    return EITHER;
}
inline Verdict close_abs(cl d, long double ma, long double mb, long double tol, long double eps)
{
    long double diff = abs_l(d), thr = tol * std::max(ma, mb), band = 16 * eps * (diff + thr) + 1e-323L;
    if (std::isinf(ma) || std::isinf(mb)) return EITHER; // decided by the caller
    if (diff != diff) return NO;
    if (diff == 0 || diff <= thr - band) return YES;
    if (diff > thr + band) return NO;
    return EITHER;
}
template <typename A, typename B>
Verdict equal_v(const A &a, const B &b, double tol)
{
    constexpr long double eps = std::max(eps_of<A>(), eps_of<B>());
    cl x = to_cl(a), y = to_cl(b);
    if constexpr (is_cplx<A> && is_cplx<B>) {
        return both(close(x.real(), y.real(), tol, eps), close(x.imag(), y.imag(), tol, eps));
    } else if constexpr (is_cplx<A> || is_cplx<B>) {
        // By components or by magnitude: decided where both readings agree.
        Verdict p = both(close(x.real(), y.real(), tol, eps), close(x.imag(), y.imag(), tol, eps));
        Verdict q = close_abs(sub_l(x, y), abs_l(x), abs_l(y), tol, eps);
        if (std::isinf(abs_l(x)) || std::isinf(abs_l(y))) return x == y ? YES : NO;
        return p == q ? p : EITHER;
    } else if constexpr (std::is_floating_point_v<A> || std::is_floating_point_v<B>) {
        return close(x.real(), y.real(), tol, eps);
    } else {
        return a == b ? YES : NO;
    }
}

struct Tolerance {
    double old;
    explicit Tolerance(double t)
        : old(malg::feq::tolerance())
    {
        malg::feq::tolerance() = t;
    }
    ~Tolerance()
    {
        malg::feq::tolerance() = old;
    }
};
inline double gen_tolerance(Source &s)
{
    static const double t[] = { 1e-6, 1e-6, 0, 1e-12, 1e-9, 1e-3, 0.1, 0.5 };
    return t[s.draw(8)];
}

template <typename R>
R real_near(Source &s, R a, double tol, Flavor f)
{
    if constexpr (std::is_floating_point_v<R>) {
        switch (s.draw(8)) {
        case 0: return a;
        case 1: return static_cast<R>(static_cast<long double>(a) * (1 + tol * 0.9L));
        case 2: return static_cast<R>(static_cast<long double>(a) * (1 - tol * 0.9L));
        case 3: return static_cast<R>(static_cast<long double>(a) * (1 + tol * 1.2L / (1 - tol * 1.2L)));
        case 4: return static_cast<R>(static_cast<long double>(a) * (1 - tol * 1.1L));
        case 5: return -a;
        case 6: return std::nextafter(a, R(0));
        default: return gen_value<R>(s, f);
        }
    } else {
        switch (s.draw(4)) {
        case 0: return a;
        case 1: return std::is_same_v<R, bool> || a == std::numeric_limits<R>::max() ? a : static_cast<R>(a + 1);
        case 2: return std::is_same_v<R, bool> ? a : static_cast<R>(a > 0 ? a - 1 : a);
        default: return gen_value<R>(s, f);
        }
    }
}
/// A value to compare with a.
template <typename A, typename B>
B near(Source &s, const A &a, double tol, Flavor f)
{
    using R = real_of<B>;
    if constexpr (is_cplx<B>) {
        cl x = to_cl(a);
        R re = static_cast<R>(x.real()), im = static_cast<R>(x.imag());
        switch (s.draw(4)) {
        case 0: return B(re, im);
        case 1: return B(real_near<R>(s, re, tol, f), im);
        case 2: return B(re, real_near<R>(s, im, tol, f));
        default: return B(real_near<R>(s, re, tol, f), real_near<R>(s, im, tol, f));
        }
    } else if constexpr (is_cplx<A>) {
        return real_near<R>(s, static_cast<R>(a.real()), tol, f);
    } else if constexpr (std::is_integral_v<R> && std::is_floating_point_v<A>) {
        return real_near<R>(s, std::isfinite(a) ? static_cast<R>(a) : R(0), tol, f);
    } else {
        return real_near<R>(s, static_cast<R>(a), tol, f);
    }
}
template <typename A, typename B>
Flavor flavor(Source &s)
{
    constexpr bool integral = std::is_integral_v<A> || std::is_integral_v<B>;
    constexpr bool single   = std::is_same_v<real_of<A>, float> || std::is_same_v<real_of<B>, float>;
    switch (s.draw(4)) {
    case 0: return FEW;
    case 1: return SMALL;
    case 2: return MEDIUM;
    default: return integral ? MEDIUM : single || s.draw(2) ? REAL : WIDE;
    }
}
inline void expect(bool got, Verdict v, const std::string &what)
{
    CHECK(v == EITHER || got == (v == YES), << what << " is " << got);
}
template <typename A, typename B>
std::string pair_str(const char *op, const A &a, const B &b)
{
    return std::string(tname<A>()) + " " + show(a) + " " + op + " " + tname<B>() + " " + show(b);
}
template <typename R>
void bool_shape(const R &r, std::size_t rows, std::size_t cols, const char *what)
{
    static_assert(std::is_same_v<R, malg::Matrix<bool>>, "the comparison has the wrong type");
    CHECK(r.rows() == rows && r.cols() == cols && r.size() == rows * cols, << what << ": the result is " << r.rows() << "x" << r.cols());
}

template <typename A, typename B>
void equality(Source &s)
{
    double tol = gen_tolerance(s);
    Tolerance guard(tol);
    Flavor f = flavor<A, B>(s);
    if (std::is_integral_v<A> && std::is_integral_v<B> && s.draw(3) == 2) f = EXTREME;
    Shape sh = gen_shape_any(s, 12);
    Mod<A> a = gen_mod<A>(s, sh.r, sh.c, f);
    if constexpr (!std::is_integral_v<A>)
        for (std::size_t k = s.draw(6); k > 3; --k) {
            using N = std::numeric_limits<real_of<A>>;
            a.d[s.draw(a.d.size())] = A(s.draw(3) == 0 ? N::quiet_NaN() : s.draw(2) ? N::infinity() : -N::infinity());
        }
    Mod<B> b(sh.r, sh.c);
    for (std::size_t i = 0; i < a.d.size(); ++i) b.d[i] = near<A, B>(s, a.d[i], tol, f);
    s.nontrivial(a.d.size() >= 2);
    s.note() << "tolerance " << tol << " " << show(a) << " and " << show(b) << "\n";
    auto check = [&](const auto &eq, const auto &ne, auto &&rhs, const char *w) {
        bool_shape(eq, sh.r, sh.c, w);
        bool_shape(ne, sh.r, sh.c, w);
        for (std::size_t i = 0; i < sh.r; ++i)
            for (std::size_t j = 0; j < sh.c; ++j) {
                expect(eq(i, j), equal_v(a(i, j), rhs(i, j), tol), std::string(w) + " " + pair_str("==", a(i, j), rhs(i, j)));
                CHECK(eq(i, j) != ne(i, j), << w << " != is not the opposite of == on " << pair_str("==", a(i, j), rhs(i, j)));
            }
    };
    B scalar = near<A, B>(s, a.d[s.draw(a.d.size())], tol, f);
    switch (s.draw(5)) {
    case 0: {
        malg::Matrix<A> x = to_malg(a);
        malg::Matrix<B> y = to_malg(b);
        check(x == y, x != y, b, "matrix");
        check(x == scalar, x != scalar, [&](std::size_t, std::size_t) { return scalar; }, "matrix and scalar");
        break;
    }
    case 1: {
        ConstOperand<A> x(s, a);
        ConstOperand<B> y(s, b);
        check(x.cref() == y.cref(), x.cref() != y.cref(), b, "constant view");
        check(x.cref() == scalar, x.cref() != scalar, [&](std::size_t, std::size_t) { return scalar; }, "constant view and scalar");
        break;
    }
    case 2: {
        Operand<A> x(s, a);
        Operand<B> y(s, b);
        check(x.cref() == y.cref(), x.cref() != y.cref(), b, x.form());
        check(x.cref() == scalar, x.cref() != scalar, [&](std::size_t, std::size_t) { return scalar; }, x.form());
        x.check_unchanged(a, "comparison");
        y.check_unchanged(b, "comparison");
        break;
    }
    case 3: { // with itself
        malg::Matrix<A> x = to_malg(a);
        check(x == x, x != x, a, "same matrix");
        malg::Vector<A> v = to_malg(a.d);
        auto e            = v == v;
        for (std::size_t i = 0; i < a.d.size(); ++i) expect(e[i], equal_v(a.d[i], a.d[i], tol), "same vector");
        break;
    }
    default: {
        malg::Vector<A> x = to_malg(a.d);
        malg::Vector<B> y = to_malg(b.d);
        auto eq = x == y, ne = x != y;
        auto es = x == scalar, ns = x != scalar;
        static_assert(std::is_same_v<decltype(eq), malg::Vector<bool>> && std::is_same_v<decltype(es), malg::Vector<bool>>);
        CHECK(eq.size() == x.size() && ne.size() == x.size() && es.size() == x.size() && ns.size() == x.size());
        for (std::size_t i = 0; i < a.d.size(); ++i) {
            expect(eq[i], equal_v(a.d[i], b.d[i], tol), "vector " + pair_str("==", a.d[i], b.d[i]));
            expect(es[i], equal_v(a.d[i], scalar, tol), "vector and scalar " + pair_str("==", a.d[i], scalar));
            CHECK(eq[i] != ne[i] && es[i] != ns[i], << "vector != is not the opposite of ==");
        }
        expect_eq(x, a.d, "comparison: left operand");
        expect_eq(y, b.d, "comparison: right operand");
    }
    }
}

template <typename A, typename B>
void order(Source &s)
{
    Flavor f = flavor<A, B>(s);
    if (std::is_integral_v<A> == std::is_integral_v<B> && s.draw(4) == 3) f = EXTREME;
    double tol = gen_tolerance(s); // has no effect on the orderings
    Tolerance guard(tol);
    Shape sh = gen_shape_any(s, 12);
    Mod<A> a = gen_mod<A>(s, sh.r, sh.c, f);
    Mod<B> b(sh.r, sh.c);
    for (std::size_t i = 0; i < a.d.size(); ++i) b.d[i] = near<A, B>(s, a.d[i], 1e-6, f);
    B scalar = near<A, B>(s, a.d[s.draw(a.d.size())], 1e-6, f);
    if (s.draw(6) == 5) { // elements that are not numbers are in no order
        if constexpr (std::is_floating_point_v<A>) a.d[s.draw(a.d.size())] = s.draw(3) ? std::numeric_limits<A>::quiet_NaN() : std::numeric_limits<A>::infinity();
        if constexpr (std::is_floating_point_v<B>) {
            if (s.draw(2)) b.d[s.draw(b.d.size())] = s.draw(3) ? std::numeric_limits<B>::quiet_NaN() : -std::numeric_limits<B>::infinity();
            if (s.draw(4) == 3) scalar = std::numeric_limits<B>::quiet_NaN();
        }
    }
    s.nontrivial(a.d.size() >= 2);
    s.note() << show(a) << " and " << show(b) << ", scalar " << show(scalar) << "\n";
    auto check = [&](const auto &lt, const auto &le, const auto &gt, const auto &ge, auto &&rhs, const char *w) {
        bool_shape(lt, sh.r, sh.c, w), bool_shape(le, sh.r, sh.c, w), bool_shape(gt, sh.r, sh.c, w), bool_shape(ge, sh.r, sh.c, w);
        for (std::size_t i = 0; i < sh.r; ++i)
            for (std::size_t j = 0; j < sh.c; ++j) {
                long double x = static_cast<long double>(a(i, j)), y = static_cast<long double>(rhs(i, j));
                CHECK(lt(i, j) == (x < y), << w << " " << pair_str("<", a(i, j), rhs(i, j)) << " is " << lt(i, j));
                CHECK(le(i, j) == (x <= y), << w << " " << pair_str("<=", a(i, j), rhs(i, j)) << " is " << le(i, j));
                CHECK(gt(i, j) == (x > y), << w << " " << pair_str(">", a(i, j), rhs(i, j)) << " is " << gt(i, j));
                CHECK(ge(i, j) == (x >= y), << w << " " << pair_str(">=", a(i, j), rhs(i, j)) << " is " << ge(i, j));
            }
    };
    auto sc = [&](std::size_t, std::size_t) { return scalar; };
    switch (s.draw(3)) {
    case 0: {
        malg::Matrix<A> x = to_malg(a);
        malg::Matrix<B> y = to_malg(b);
        check(x < y, x <= y, x > y, x >= y, b, "matrix");
        check(x < scalar, x <= scalar, x > scalar, x >= scalar, sc, "matrix and scalar");
        check(x < x, x <= x, x > x, x >= x, a, "same matrix");
        break;
    }
    case 1: {
        ConstOperand<A> x(s, a);
        ConstOperand<B> y(s, b);
        check(x.cref() < y.cref(), x.cref() <= y.cref(), x.cref() > y.cref(), x.cref() >= y.cref(), b, "constant view");
        check(x.cref() < scalar, x.cref() <= scalar, x.cref() > scalar, x.cref() >= scalar, sc, "constant view and scalar");
        break;
    }
    default: {
        Operand<A> x(s, a);
        Operand<B> y(s, b);
        check(x.cref() < y.cref(), x.cref() <= y.cref(), x.cref() > y.cref(), x.cref() >= y.cref(), b, x.form());
        check(x.cref() < scalar, x.cref() <= scalar, x.cref() > scalar, x.cref() >= scalar, sc, x.form());
        x.check_unchanged(a, "ordering");
        y.check_unchanged(b, "ordering");
    }
    }
}

// Defined in different source files: the tolerance is shared by the program.
bool eq_a(double, double);
bool eq_b(double, double);
bool eq_c(double, double);
void set_a(double);
void set_b(double);
void set_c(double);

template <typename A, typename B>
void scalars(Source &s)
{
    double tol = gen_tolerance(s);
    Tolerance guard(malg::feq::tolerance());
    switch (s.draw(4)) {
    case 0: malg::feq::tolerance() = tol; break;
    case 1: set_a(tol); break;
    case 2: set_b(tol); break;
    default: set_c(tol); break;
    }
    CHECK(malg::feq::tolerance() == tol, << "the tolerance does not keep the value it is given");
    Flavor f = flavor<A, B>(s);
    A a      = gen_value<A>(s, f);
    if constexpr (!std::is_integral_v<A> && !std::is_integral_v<B>)
        if (s.draw(8) == 7) a = A(std::numeric_limits<real_of<A>>::infinity());
    B b      = near<A, B>(s, a, tol, f);
    if constexpr (std::is_floating_point_v<A> || std::is_floating_point_v<B>) {
        if (!is_cplx<A> && !is_cplx<B> && s.draw(8) == 7) { // not a number, on either side
            std::size_t side = s.draw(3);
            if constexpr (std::is_floating_point_v<A>)
                if (side != 1) a = std::numeric_limits<A>::quiet_NaN();
            if constexpr (std::is_floating_point_v<B>)
                if (side != 0) b = std::numeric_limits<B>::quiet_NaN();
        }
    }
    s.nontrivial(!(to_cl(a) == to_cl(b)));
    s.note() << "tolerance " << tol << " " << pair_str("and", a, b) << "\n";
    Verdict v = equal_v(a, b, tol);
    if constexpr (is_cplx<A> || is_cplx<B>) // scalars are compared by magnitude
        v = (std::isinf(abs_l(to_cl(a))) || std::isinf(abs_l(to_cl(b)))) ? (to_cl(a) == to_cl(b) ? YES : NO) : close_abs(sub_l(to_cl(a), to_cl(b)), abs_l(to_cl(a)), abs_l(to_cl(b)), tol, std::max(eps_of<A>(), eps_of<B>()));
    else if constexpr (std::is_integral_v<A> && std::is_integral_v<B>) v = close(a, b, tol, 1e-16L);
    bool eq = malg::feq::approximately_equal(a, b);
    expect(eq, v, "approximately_equal " + pair_str("and", a, b));
    CHECK(eq == malg::feq::approximately_equal(b, a), << "approximately_equal is not symmetric on " << pair_str("and", a, b));
    if constexpr (!is_cplx<A> && !is_cplx<B>) {
        long double x = static_cast<long double>(a), y = static_cast<long double>(b);
        CHECK(malg::feq::approximately_lesser_than_equal(a, b) == (x < y || eq), << "approximately_lesser_than_equal " << pair_str("and", a, b));
        CHECK(malg::feq::approximately_greater_than_equal(a, b) == (x > y || eq), << "approximately_greater_than_equal " << pair_str("and", a, b));
    }
    if constexpr (std::is_same_v<A, double> && std::is_same_v<B, double>) {
        expect(eq_a(a, b), v, "comparison in another source file (a) of " + pair_str("and", a, b));
        expect(eq_b(a, b), v, "comparison in another source file (b) of " + pair_str("and", a, b));
        expect(eq_c(a, b), v, "comparison in another source file (c) of " + pair_str("and", a, b));
    }
    CHECK(malg::feq::approximately_equal_to_zero(a) == (to_cl(a) == cl(0)), << "approximately_equal_to_zero " << show(a));
}

template <typename T>
void closeness(Source &s)
{
    Flavor f         = flavor<T, T>(s);
    Shape sh         = gen_shape_any(s, 10);
    Mod<T> a         = gen_mod<T>(s, sh.r, sh.c, f), b = a;
    static const double tols[] = { 1e-4, 0, 1e-9, 0.5, 1, 2.5, 1000 };
    std::size_t ti = s.draw(8);
    double tol     = ti == 7 ? 1e-4 : tols[ti];
    // A few elements differ, by about the tolerance.
    std::size_t n = s.draw(4);
    for (std::size_t k = 0; k < n; ++k) {
        T &x = b.d[s.draw(b.d.size())];
        if constexpr (std::is_integral_v<T>) x += static_cast<T>(s.sint(static_cast<long>(tol) + 2));
        else {
            using R = real_of<T>;
            static const double m[] = { 0.5, 0.999, 1, 1.001, 1.01, 2, 100 };
            R d = static_cast<R>(tol * m[s.draw(7)] * (s.draw(2) ? -1 : 1));
            if constexpr (is_cplx<T>) x = s.draw(2) ? T(x.real() + d, x.imag()) : T(x.real(), x.imag() + d);
            else x += d;
        }
    }
    if constexpr (!std::is_integral_v<T>)
        if (s.draw(6) == 5) {
            (s.draw(2) ? a : b).d[s.draw(b.d.size())] = T(std::numeric_limits<real_of<T>>::quiet_NaN());
            s.label("NaN");
        }
    Verdict v = YES;
    for (std::size_t i = 0; i < a.d.size(); ++i) {
        cl d           = sub_l(to_cl(a.d[i]), to_cl(b.d[i]));
        long double x  = abs_l(d), t = tol, e = 8 * eps_of<T>() * x;
        v              = both(v, x != x ? NO : (x <= t - e ? YES : (x > t + e ? NO : EITHER)));
    }
    s.nontrivial(a.d.size() >= 2);
    s.label(v == YES ? "close" : v == NO ? "not close" : "either");
    s.note() << "tolerance " << tol << " " << show(a) << " and " << show(b) << "\n";
    switch (s.draw(4)) {
    case 0: {
        malg::Vector<T> x = to_malg(a.d), y = to_malg(b.d);
        expect(ti == 7 ? malg::utility::all_close(x, y) : malg::utility::all_close(x, y, tol), v, "all_close of vectors");
        break;
    }
    case 1: {
        ConstOperand<T> x(s, a), y(s, b);
        expect(malg::utility::all_close(x.cref(), y.cref(), tol), v, "all_close of constant views");
        break;
    }
    default: {
        Operand<T> x(s, a), y(s, b);
        expect(ti == 7 ? malg::utility::all_close(x.cref(), y.cref()) : malg::utility::all_close(x.cref(), y.cref(), tol), v, std::string("all_close of a ") + x.form() + " and a " + y.form());
        x.check_unchanged(a, "all_close");
        y.check_unchanged(b, "all_close");
    }
    }
}

template <typename T>
void quantifiers(Source &s)
{
    Shape sh = gen_shape_any(s, 12);
    bool empty = s.draw(16) == 15;
    Mod<T> a = empty ? Mod<T>(0, 0) : gen_mod<T>(s, sh.r, sh.c, s.draw(2) ? SMALL : SPARSE);
    unsigned mode = static_cast<unsigned>(s.draw(4));
    if (mode >= 1 && !empty) {
        for (auto &x : a.d) {
            if (mode == 1) x = T(0);                    // all zero but one, maybe
            else if (x == T(0)) x = T(1);               // all non-zero but one, maybe
        }
        if (s.draw(4)) a.d[s.draw(a.d.size())] = mode == 1 ? gen_value<T>(s, SMALL) : T(0);
        if constexpr (is_cplx<T>)
            if (mode == 1 && s.draw(2)) a.d[s.draw(a.d.size())] = T(0, 1);
    }
    if constexpr (std::is_floating_point_v<T>)
        if (!empty && s.draw(6) == 5) {
            using N = std::numeric_limits<T>;
            static const T special[] = { T(-0.0), N::denorm_min(), -N::min(), N::quiet_NaN(), N::infinity(), T(1e-9) };
            a.d[s.draw(a.d.size())] = special[s.draw(6)];
        }
    bool all = true, any = false;
    for (auto &x : a.d) (to_cl(x) == cl(0) ? all = false : any = true);
    s.nontrivial(a.d.size() >= 2);
    s.label(std::string("all ") + (all ? "1" : "0") + " any " + (any ? "1" : "0"));
    s.note() << show(a) << "\n";
    malg::Vector<T> v = to_malg(a.d);
    CHECK(malg::all(v) == all, << "all of a vector");
    CHECK(malg::any(v) == any, << "any of a vector");
    if (empty) {
        malg::Matrix<T> m;
        CHECK(malg::all(m) == all && malg::any(m) == any, << "all or any of an empty matrix");
        return;
    }
    if (s.draw(3) == 2) {
        ConstOperand<T> x(s, a);
        CHECK(malg::all(x.cref()) == all, << "all of a " << x.form());
        CHECK(malg::any(x.cref()) == any, << "any of a " << x.form());
    } else {
        Operand<T> x(s, a);
        CHECK(malg::all(x.cref()) == all, << "all of a " << x.form());
        CHECK(malg::any(x.cref()) == any, << "any of a " << x.form());
        x.check_unchanged(a, "all and any");
    }
}
} // namespace c06

#define EQ(n, A, B)             \
    PROP(equality_##n, 3)       \
    {                           \
        c06::equality<A, B>(s); \
    }
#define ORD(n, A, B)            \
    PROP(order_##n, 2)          \
    {                           \
        c06::order<A, B>(s);    \
    }
#define SCA(n, A, B)            \
    PROP(scalars_##n, 1)        \
    {                           \
        c06::scalars<A, B>(s);  \
    }
#define SINGLE(n, T)            \
    PROP(closeness_##n, 2)      \
    {                           \
        c06::closeness<T>(s);   \
    }                           \
    PROP(quantifiers_##n, 1)    \
    {                           \
        c06::quantifiers<T>(s); \
    }
