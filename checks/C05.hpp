// C05: products against the textbook sums.
#include "gen.hpp"

namespace c05
{
/// A sum of products, and the sum of their magnitudes.
struct Ref {
    cl v;
    long double a = 0;
};
typedef Mod<Ref> RefM;

template <typename A, typename B>
Ref term(const A &a, const B &b)
{
    cl x = to_cl(a), y = to_cl(b);
    Ref r;
    r.v = mul_l(x, y);
    r.a = (std::fabs(x.real()) + std::fabs(x.imag())) * (std::fabs(y.real()) + std::fabs(y.imag()));
    return r;
}
inline Ref plus(const Ref &a, const Ref &b)
{
    Ref r;
    r.v = add_l(a.v, b.v);
    r.a = a.a + b.a;
    return r;
}
template <typename A, typename B>
RefM product(const Mod<A> &a, const Mod<B> &b)
{
    RefM o(a.r, b.c);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < b.c; ++j)
            for (std::size_t k = 0; k < a.c; ++k) o(i, j) = plus(o(i, j), term(a(i, k), b(k, j)));
    return o;
}
template <typename A, typename B>
std::vector<Ref> product(const Mod<A> &a, const std::vector<B> &b)
{
    std::vector<Ref> o(a.r);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t k = 0; k < a.c; ++k) o[i] = plus(o[i], term(a(i, k), b[k]));
    return o;
}

/// The values are multiples of 1/8, so that sums below the limit are exact.
template <typename C>
long double exact_limit()
{
    using R = real_of<C>;
    if constexpr (std::is_integral_v<R>) return 2e9L;
    else return std::ldexp(1.0L, std::numeric_limits<R>::digits - 7);
}
template <typename C>
void agree(const C &got, const Ref &want, bool dyadic, std::size_t terms, const std::string &what)
{
    cl g = to_cl(got);
    if (std::is_integral_v<C> || (dyadic && want.a < exact_limit<C>())) {
        CHECK(g.real() == want.v.real() && g.imag() == want.v.imag(), << what << " is " << show(got) << " instead of exactly " << show(want.v));
    } else {
        long double bound = (static_cast<long double>(terms) + 4) * 2 * eps_of<C>() * want.a + 8 * static_cast<long double>(std::numeric_limits<real_of<C>>::min());
        CHECK(abs_l(sub_l(g, want.v)) <= bound, << what << " is " << show(got) << " instead of " << show(want.v) << " within " << show(bound));
    }
}
template <typename C, typename A, typename B>
void type_is()
{
    static_assert(std::is_same_v<std::remove_const_t<C>, common_of<A, B>>, "the operation has the wrong element type");
}
template <typename C>
void agree_m(const malg::MatrixBase<C> &got, const RefM &want, bool dyadic, std::size_t terms, const std::string &what)
{
    CHECK(got.rows() == want.r && got.cols() == want.c && got.size() == want.r * want.c, << what << ": the result is " << got.rows() << "x" << got.cols() << " instead of " << want.r << "x" << want.c);
    for (std::size_t i = 0; i < want.r; ++i)
        for (std::size_t j = 0; j < want.c; ++j) agree<C>(got(i, j), want(i, j), dyadic, terms, what + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
}
template <typename C>
void agree_v(const malg::Vector<C> &got, const std::vector<Ref> &want, bool dyadic, std::size_t terms, const std::string &what)
{
    CHECK(got.size() == want.size(), << what << ": the result has " << got.size() << " elements instead of " << want.size());
    for (std::size_t i = 0; i < want.size(); ++i) agree<C>(got[i], want[i], dyadic, terms, what + ": element " + std::to_string(i));
}

template <typename A, typename B>
Flavor flavor(Source &s, bool &dyadic)
{
    constexpr bool integral = std::is_integral_v<A> || std::is_integral_v<B>;
    constexpr bool single   = std::is_same_v<real_of<A>, float> || std::is_same_v<real_of<B>, float>;
    Flavor f                = gen_exact_flavor(s);
    dyadic                  = true;
    if (!integral && s.draw(4) == 3) {
        f      = (single || s.draw(2)) ? REAL : WIDE;
        dyadic = false;
    }
    return f;
}
inline std::size_t dim(Source &s)
{
    if (s.draw(300) == 299) return s.draw(2) ? 30 + s.draw(40) : 1 + s.draw(140);
    return gen_dim(s, 1, s.draw(8) == 7 ? 33 : 9);
}

template <typename A, typename B>
void mat_mat(Source &s)
{
    using C = common_of<A, B>;
    bool dyadic;
    Flavor f      = flavor<A, B>(s, dyadic);
    std::size_t n = dim(s), k = dim(s), m = dim(s);
    bool inplace = std::is_same_v<A, C> && s.draw(3) == 2;
    if (inplace || s.draw(4) == 3) m = k;
    Mod<A> a = gen_mod<A>(s, n, k, f);
    Mod<B> b = gen_mod<B>(s, k, m, f);
    RefM want = product(a, b);
    s.nontrivial(k >= 2 && (n >= 2 || m >= 2) && varied(a.d) && varied(b.d));
    s.note() << tname<A>() << " * " << tname<B>() << " " << show(a) << " * " << show(b) << "\n";
    unsigned form = static_cast<unsigned>(s.draw(4));
    if (inplace) {
        if constexpr (std::is_same_v<A, C>) {
            s.label("in place");
            if (form == 0) { // direct matrices
                malg::Matrix<A> x = to_malg(a);
                malg::Matrix<B> y = to_malg(b);
                auto &r           = (x *= y);
                CHECK(static_cast<const void *>(&r) == static_cast<const void *>(&x), << "in-place product returns another object");
                agree_m(x, want, dyadic, k, "A *= B");
                expect_eq(y, b, "A *= B: right operand");
            } else {
                Operand<A> x(s, a);
                Operand<B> y(s, b);
                s.note() << x.form() << ", " << y.form() << "\n";
                x.ref() *= y.cref();
                agree_m(x.cref(), want, dyadic, k, std::string("A *= B (") + x.form() + ", " + y.form() + ")");
                x.check_outside("A *= B");
                y.check_unchanged(b, "A *= B");
            }
        }
        return;
    }
    if (form == 0) {
        malg::Matrix<A> x = to_malg(a);
        malg::Matrix<B> y = to_malg(b);
        auto r            = x * y;
        type_is<std::decay_t<decltype(r[0])>, A, B>();
        agree_m(r, want, dyadic, k, "A * B");
        expect_eq(x, a, "A * B: left operand");
        expect_eq(y, b, "A * B: right operand");
    } else if (form == 1) {
        ConstOperand<A> x(s, a);
        ConstOperand<B> y(s, b);
        auto r = x.cref() * y.cref();
        type_is<std::decay_t<decltype(r[0])>, A, B>();
        agree_m(r, want, dyadic, k, std::string("A * B (") + x.form() + ", " + y.form() + ")");
    } else {
        Operand<A> x(s, a);
        Operand<B> y(s, b);
        auto r = x.cref() * y.cref();
        type_is<std::decay_t<decltype(r[0])>, A, B>();
        agree_m(r, want, dyadic, k, std::string("A * B (") + x.form() + ", " + y.form() + ")");
        x.check_unchanged(a, "A * B");
        y.check_unchanged(b, "A * B");
    }
}

template <typename A, typename B>
void mat_vec(Source &s)
{
    bool dyadic;
    Flavor f      = flavor<A, B>(s, dyadic);
    std::size_t n = dim(s), k = dim(s);
    Mod<A> a         = gen_mod<A>(s, n, k, f);
    std::vector<B> b = gen_vec<B>(s, k, f);
    auto want        = product(a, b);
    s.nontrivial(k >= 2 && varied(a.d) && varied(b));
    s.note() << tname<A>() << " * " << tname<B>() << " " << show(a) << " * " << show(b) << "\n";
    malg::Vector<B> y = to_malg(b);
    bool d            = s.draw(2) != 0;
    auto go           = [&](const auto &x, const char *w) {
        if (d) {
            auto r = malg::dot(x, y);
            type_is<std::decay_t<decltype(r[0])>, A, B>();
            agree_v(r, want, dyadic, k, std::string("dot(A, b) ") + w);
        } else {
            auto r = x * y;
            type_is<std::decay_t<decltype(r[0])>, A, B>();
            agree_v(r, want, dyadic, k, std::string("A * b ") + w);
        }
    };
    switch (s.draw(3)) {
    case 0: {
        malg::Matrix<A> x = to_malg(a);
        go(x, "matrix");
        expect_eq(x, a, "matrix operand");
        break;
    }
    case 1: {
        ConstOperand<A> x(s, a);
        go(x.cref(), x.form());
        break;
    }
    default: {
        Operand<A> x(s, a);
        go(x.cref(), x.form());
        x.check_unchanged(a, "product by a vector");
    }
    }
    expect_eq(y, b, "vector operand");
}

template <typename A, typename B>
void vec_vec(Source &s)
{
    bool dyadic;
    Flavor f         = flavor<A, B>(s, dyadic);
    std::size_t n    = s.draw(12) == 11 ? 0 : gen_len(s, 1, 200);
    std::vector<A> a = gen_vec<A>(s, n, f);
    std::vector<B> b = gen_vec<B>(s, n, f);
    bool self        = false;
    if constexpr (std::is_same_v<A, B>) self = s.draw(5) == 4;
    Ref want;
    for (std::size_t i = 0; i < n; ++i) want = plus(want, self ? term(a[i], a[i]) : term(a[i], b[i]));
    s.nontrivial(n >= 2 && varied(a) && varied(b));
    s.note() << tname<A>() << " . " << tname<B>() << " " << show(a) << " . " << (self ? "itself" : show(b)) << "\n";
    malg::Vector<A> x = to_malg(a);
    malg::Vector<B> y = to_malg(b);
    if constexpr (std::is_same_v<A, B>) {
        if (self) {
            agree<A>(malg::dot(x, x), want, dyadic, n, "dot(a, a)");
            expect_eq(x, a, "dot(a, a): operand");
            return;
        }
    }
    auto r = malg::dot(x, y);
    type_is<decltype(r), A, B>();
    agree<decltype(r)>(r, want, dyadic, n, "dot(a, b)");
    expect_eq(x, a, "dot(a, b): left operand");
    expect_eq(y, b, "dot(a, b): right operand");
}

/// A * A, A *= A and overlapping views of one matrix.
template <typename A>
void same_object(Source &s)
{
    bool dyadic;
    Flavor f      = flavor<A, A>(s, dyadic);
    std::size_t n = gen_dim(s, 1, 9);
    Mod<A> a      = gen_mod<A>(s, n, n, f);
    s.nontrivial(n >= 2 && varied(a.d));
    s.note() << tname<A>() << " " << show(a) << "\n";
    switch (s.draw(3)) {
    case 0: {
        RefM want = product(a, a);
        Operand<A> x(s, a);
        auto r = x.cref() * x.cref();
        agree_m(r, want, dyadic, n, std::string("A * A ") + x.form());
        x.check_unchanged(a, "A * A");
        x.ref() *= x.cref();
        agree_m(x.cref(), want, dyadic, n, std::string("A *= A ") + x.form());
        x.check_outside("A *= A");
        break;
    }
    case 1: { // overlapping views of one matrix
        std::size_t k = 1 + s.draw(n), i = s.draw(n - k + 1), j = s.draw(n - k + 1), p = s.draw(n - k + 1), q = s.draw(n - k + 1);
        Mod<A> l(k, k), r(k, k);
        for (std::size_t y = 0; y < k; ++y)
            for (std::size_t x = 0; x < k; ++x) l(y, x) = a(i + y, j + x), r(y, x) = a(p + y, q + x);
        RefM want         = product(l, r);
        malg::Matrix<A> m = to_malg(a);
        malg::View<malg::Matrix<A>> vl(&m, i, i + k, j, j + k), vr(&m, p, p + k, q, q + k);
        agree_m(vl * vr, want, dyadic, k, "product of overlapping views");
        expect_eq(m, a, "product of overlapping views");
        vl *= vr;
        agree_m(vl, want, dyadic, k, "in-place product of overlapping views");
        for (std::size_t y = 0; y < n; ++y)
            for (std::size_t x = 0; x < n; ++x)
                if (y < i || y >= i + k || x < j || x >= j + k) CHECK(same<A>(m(y, x), a(y, x)), << "in-place product of overlapping views changed element (" << y << "," << x << ") outside of the left view");
        break;
    }
    default: { // the matrix and a view of it
        RefM want         = product(a, a);
        malg::Matrix<A> m = to_malg(a);
        malg::View<malg::Matrix<A>> v(&m, malg::Range::all());
        agree_m(m * v, want, dyadic, n, "product of a matrix and its view");
        agree_m(v * m, want, dyadic, n, "product of a view and its matrix");
        expect_eq(m, a, "product of a matrix and its view");
        if (s.draw(2)) m *= v;
        else v *= m;
        agree_m(m, want, dyadic, n, "in-place product of a matrix and its view");
        // The result may be assigned to an operand.
        malg::Matrix<A> w = to_malg(a);
        w                 = w * w;
        agree_m(w, want, dyadic, n, "A = A * A");
    }
    }
}

/// Powers by repeated multiplication of the reference.
template <typename A>
void power(Source &s)
{
    std::size_t n = 1 + s.draw(6), e = s.draw(s.draw(4) == 3 ? 13 : 6);
    bool real = !std::is_integral_v<A> && s.draw(3) == 2;
    Mod<A> a  = gen_mod<A>(s, n, n, real ? REAL : (s.draw(2) ? FEW : SPARSE));
    if (s.draw(3) == 0) // nilpotent or triangular
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j <= i && j < n; ++j) a(i, j) = A(i == j ? static_cast<int>(s.draw(2)) : 0);
    // The reference, with magnitudes to bound the rounding and the overflow.
    L p = eye_l(n), la = to_l(a);
    Mod<long double> m(n, n, 0), ma(n, n, 0);
    for (std::size_t i = 0; i < n; ++i) m(i, i) = 1;
    for (std::size_t i = 0; i < n * n; ++i) ma.d[i] = std::fabs(la.d[i].real()) + std::fabs(la.d[i].imag());
    long double top = 1;
    for (std::size_t k = 0; k < e; ++k) {
        p = mul(p, la);
        Mod<long double> t(n, n, 0);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                for (std::size_t q = 0; q < n; ++q) t(i, j) += m(i, q) * ma(q, j);
        m = t;
        for (auto v : m.d) top = std::max(top, v);
    }
    s.discard(std::is_integral_v<A> && top > 1e9L);
    s.discard(top > 1e25L);
    s.nontrivial(n >= 2 && e >= 2 && varied(a.d));
    s.note() << tname<A>() << " " << show(a) << " to the power " << e << "\n";
    auto check = [&](const auto &r, const std::string &w) {
        static_assert(std::is_same_v<std::decay_t<decltype(r)>, malg::Matrix<A>>);
        CHECK(r.rows() == n && r.cols() == n, << w << ": the result is " << r.rows() << "x" << r.cols());
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                Ref want;
                want.v = p(i, j), want.a = m(i, j) * static_cast<long double>(e + 1);
                agree<A>(r(i, j), want, !real, n * (e + 1), w + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
            }
    };
    if (s.draw(3) == 2) {
        ConstOperand<A> x(s, a);
        check(malg::linalg::powm(x.cref(), e), std::string("powm of a ") + x.form());
    } else {
        Operand<A> x(s, a);
        check(malg::linalg::powm(x.cref(), e), std::string("powm of a ") + x.form());
        x.check_unchanged(a, "powm");
        if (s.draw(4) == 3 && !real) { // A^i A^j = A^(i+j), on the real code
            std::size_t i = s.draw(e + 1);
            auto q        = malg::linalg::powm(x.cref(), i) * malg::linalg::powm(x.cref(), e - i);
            if (top < exact_limit<A>()) check(q, "powm(A, i) * powm(A, j)");
        }
    }
}

/// The laws of the algebra, with exact values.
template <typename A>
void laws(Source &s)
{
    using namespace malg;
    std::size_t n = dim(s), k = dim(s), m = dim(s), q = dim(s);
    Flavor f = s.draw(2) ? SMALL : SPARSE;
    auto gm  = [&](std::size_t r, std::size_t c) { return gen_mod<A>(s, r, c, f); };
    Mod<A> a = gm(n, k), b = gm(k, m), c = gm(m, q), d = gm(k, m);
    std::vector<A> v = gen_vec<A>(s, m, f);
    s.nontrivial(n * k * m >= 8 && varied(a.d) && varied(b.d));
    s.note() << tname<A>() << " A=" << show(a) << " B=" << show(b) << "\n";
    Operand<A> A_(s, a), B_(s, b), C_(s, c), D_(s, d);
    auto eq = [&](const Matrix<A> &x, const Matrix<A> &y, const char *w) {
        expect_eq(x, model_of(y), w);
    };
    const auto &a_ = A_.cref(), &b_ = B_.cref(), &c_ = C_.cref(), &d_ = D_.cref();
    auto av = to_malg(v);
    eq((a_ * b_) * c_, a_ * (b_ * c_), "(A B) C == A (B C)");
    eq(a_ * (b_ + d_), a_ * b_ + a_ * d_, "A (B + D) == A B + A D");
    eq(a_ * (b_ - d_), a_ * b_ - a_ * d_, "A (B - D) == A B - A D");
    eq(linalg::transpose(a_ * b_), linalg::transpose(b_) * linalg::transpose(a_), "transpose of a product");
    eq(a_ * utility::identity<A>(k), to_malg(a), "A I == A");
    eq(utility::identity<A>(n) * a_, to_malg(a), "I A == A");
    eq(a_ * utility::zeros<A>(k, m), utility::zeros<A>(n, m), "A 0 == 0");
    eq((a_ * A(3)) * b_, (a_ * b_) * A(3), "(3 A) B == 3 (A B)");
    {
        auto l = (a_ * b_) * av, r = a_ * (b_ * av);
        expect_eq(l, model_of(r), "(A B) v == A (B v)");
        auto w = utility::to_matrix(av, false);
        expect_eq(b_ * w, model_of(utility::to_matrix(b_ * av, false)), "B v as a column");
        auto dd = dot(av, av);
        CHECK(same<A>(dd, (utility::to_matrix(av, true) * w)(0, 0)), << "dot(v, v) differs from the product of a row and a column");
    }
    {
        Matrix<A> x(a_);
        if (k == m) {
            x *= b_;
            eq(x, a_ * b_, "A *= B agrees with A * B");
        }
    }
    A_.check_unchanged(a, "laws");
    B_.check_unchanged(b, "laws");
    C_.check_unchanged(c, "laws");
    D_.check_unchanged(d, "laws");
}
} // namespace c05

#define PAIR(n, A, B)                  \
    PROP(mat_mat_##n, 3)               \
    {                                  \
        c05::mat_mat<A, B>(s);         \
    }                                  \
    PROP(mat_vec_##n, 2)               \
    {                                  \
        c05::mat_vec<A, B>(s);         \
    }                                  \
    PROP(vec_vec_##n, 1)               \
    {                                  \
        c05::vec_vec<A, B>(s);         \
    }
#define SINGLE(n, A)                   \
    PROP(same_object_##n, 2)           \
    {                                  \
        c05::same_object<A>(s);        \
    }                                  \
    PROP(power_##n, 2)                 \
    {                                  \
        c05::power<A>(s);              \
    }                                  \
    PROP(laws_##n, 1)                  \
    {                                  \
        c05::laws<A>(s);               \
    }
