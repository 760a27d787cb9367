// C07: arithmetic between complex numbers of different precision, and between
// complex and real numbers.
#include "gen.hpp"

namespace
{
typedef std::complex<long double> cld;

template <typename T>
struct RealOf {
    using type = T;
};
template <typename T>
struct RealOf<std::complex<T>> {
    using type = T;
};
template <typename A, typename B>
using Common = std::complex<std::common_type_t<typename RealOf<A>::type, typename RealOf<B>::type>>;

template <typename T>
T value(Source &s, int kind)
{
    if constexpr (is_cplx<T>) {
        using R = typename T::value_type;
        R re = value<R>(s, kind), im = value<R>(s, kind);
        switch (s.draw(6)) {
        case 4: return T(re, R(0));
        case 5: return T(R(0), im);
        default: return T(re, im);
        }
    } else if constexpr (std::is_integral_v<T>) {
        return kind == 0 ? static_cast<T>(s.sint(9)) : static_cast<T>(s.sint(1L << (s.draw(2) ? 10 : 30)));
    } else {
        if (kind == 0) return static_cast<T>(s.sint(64)) / T(8);
        // A value with a full mantissa.
        T m    = T(1) + std::ldexp(static_cast<T>(s.draw(1ull << 40)), -40) + std::ldexp(static_cast<T>(s.draw(1ull << 20)), -62);
        int e  = static_cast<int>(s.sint(kind == 1 ? 3 : kind == 3 ? (std::is_same_v<T, float> ? 148 : 1070) : std::is_same_v<T, float> ? 12 : 70));
        if (!std::isfinite(std::ldexp(m, e))) e = -e;
        m = std::ldexp(m, e);
        return s.draw(2) ? -m : m;
    }
}
template <typename C, typename X>
C convert(const X &x)
{
    using R = typename C::value_type;
    if constexpr (is_cplx<X>) return C(static_cast<R>(x.real()), static_cast<R>(x.imag()));
    else return C(static_cast<R>(x), R(0));
}

template <typename C>
void close(const C &got, cl want, long double bound, const std::string &what)
{
    long double d = abs_l(sub_l(to_cl(got), want));
    CHECK(d <= bound, << what << " is " << show(got) << " instead of " << show(want) << ": off by " << show(d) << ", more than " << show(bound));
}

/// @brief An operation between a complex and a real number acts on the components.
template <typename R>
void component(R got, R want, bool exact, const std::string &what)
{
    if (std::fabs(want) < std::numeric_limits<R>::min() / std::numeric_limits<R>::epsilon() && want != R(0)) return;
    if (!std::isfinite(want)) {
        CHECK(!std::isfinite(got), << what << " is " << show(got) << " instead of " << show(want));
        return;
    }
    R d = std::fabs(got - want);
    CHECK(d <= (exact ? R(0) : 4 * std::numeric_limits<R>::epsilon() * std::fabs(want)), << what << " is " << show(got) << " instead of " << show(want));
}

template <typename A, typename B>
void arithmetic(Source &s)
{
    using C = Common<A, B>;
    using R = typename C::value_type;
    constexpr long double eps = std::numeric_limits<R>::epsilon();
    int kind = static_cast<int>(s.draw(4));
    const A a = value<A>(s, kind);
    const B b = value<B>(s, kind);
    A a_ = a;
    B b_ = b;
    s.nontrivial(!(to_cl(a) == cl(0)) && !(to_cl(b) == cl(0)));
    s.note() << show(a) << " and " << show(b) << "\n";
    // The operands in the common type.
    const cl x = to_cl(convert<C>(a)), y = to_cl(convert<C>(b));
    std::string w = show(a) + " ";
    {
        auto r = a_ + b_;
        static_assert(std::is_same_v<decltype(r), C>, "the sum has the wrong type");
        C e(static_cast<R>(x.real()) + static_cast<R>(y.real()), static_cast<R>(x.imag()) + static_cast<R>(y.imag()));
        CHECK(same(r, e), << w << "+ " << show(b) << " is " << show(r) << " instead of " << show(e));
    }
    {
        auto r = a_ - b_;
        static_assert(std::is_same_v<decltype(r), C>, "the difference has the wrong type");
        C e(static_cast<R>(x.real()) - static_cast<R>(y.real()), static_cast<R>(x.imag()) - static_cast<R>(y.imag()));
        CHECK(same(r, e), << w << "- " << show(b) << " is " << show(r) << " instead of " << show(e));
    }
    if constexpr (is_cplx<A> != is_cplx<B>) {
        // Small integers are exact until the single rounding of the quotient.
        const R xr = static_cast<R>(x.real()), xi = static_cast<R>(x.imag()), yr = static_cast<R>(y.real()), yi = static_cast<R>(y.imag());
        auto r = a_ * b_;
        if constexpr (is_cplx<A>) component<R>(r.real(), xr * yr, kind == 0, w + "* " + show(b) + ": the real part"), component<R>(r.imag(), xi * yr, kind == 0, w + "* " + show(b) + ": the imaginary part");
        else component<R>(r.real(), yr * xr, kind == 0, w + "* " + show(b) + ": the real part"), component<R>(r.imag(), yi * xr, kind == 0, w + "* " + show(b) + ": the imaginary part");
        if constexpr (is_cplx<A>)
            if (yr != R(0)) {
                auto q = a_ / b_;
                component<R>(q.real(), xr / yr, kind == 0, w + "/ " + show(b) + ": the real part"), component<R>(q.imag(), xi / yr, kind == 0, w + "/ " + show(b) + ": the imaginary part");
            }
    }
    // The products of the components may overflow.
    if (kind == 3) return;
    {
        auto r = a_ * b_;
        static_assert(std::is_same_v<decltype(r), C>, "the product has the wrong type");
        close(r, mul_l(x, y), kind == 0 ? 0 : 8 * eps * abs_l(x) * abs_l(y), w + "* " + show(b));
    }
    if (!(y == cl(0))) {
        auto r = a_ / b_;
        static_assert(std::is_same_v<decltype(r), C>, "the quotient has the wrong type");
        cl q = div_l(x, y);
        close(r, q, 32 * eps * abs_l(q), w + "/ " + show(b));
    }
    CHECK(same(a, a_) && same(b, b_), << "the operands changed");
    // Where the operands are of one kind, the same object on both sides.
    if constexpr (is_cplx<A> && is_cplx<B>) {
        std::complex<long double> wide = convert<cld>(b);
        auto r                         = a_ + wide;
        static_assert(std::is_same_v<decltype(r), cld>);
        CHECK(r.real() == static_cast<long double>(a.real()) + wide.real() && r.imag() == static_cast<long double>(a.imag()) + wide.imag(), << "sum with a long double complex");
        auto m = a_ * wide;
        cl want = mul_l(to_cl(a), to_cl(b));
        CHECK(abs_l(sub_l(m, want)) <= 1e-17L * abs_l(to_cl(a)) * abs_l(to_cl(b)), << "product with a long double complex");
    }
}
} // namespace

#define PAIR(n, A, B)        \
    PROP(n, 1)               \
    {                        \
        arithmetic<A, B>(s); \
    }
PAIR(cf_cd, cf, cd)
PAIR(cd_cf, cd, cf)
PAIR(cf_double, cf, double)
PAIR(double_cf, double, cf)
PAIR(cd_float, cd, float)
PAIR(float_cd, float, cd)
PAIR(cd_int, cd, int)
PAIR(int_cd, int, cd)
PAIR(cf_int, cf, int)
PAIR(int_cf, int, cf)
PAIR(cd_long, cd, long)
PAIR(long_cd, long, cd)
PAIR(cf_float, cf, float)
PAIR(float_cf, float, cf)
PAIR(cd_double, cd, double)
PAIR(double_cd, double, cd)
PAIR(cd_cd, cd, cd)
PAIR(cf_cf, cf, cf)
PAIR(cld_cf, cld, cf)
PAIR(double_cld, double, cld)
VERIF_MAIN
