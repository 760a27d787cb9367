// C04: element-wise arithmetic against the scalar operation.
#include "gen.hpp"

namespace c04
{
template <typename C>
C scalar_op(char op, C a, C b)
{
    if constexpr (is_cplx<C>) {
        using R = typename C::value_type;
        switch (op) {
        case '+': return C(a.real() + b.real(), a.imag() + b.imag());
        case '-': return C(a.real() - b.real(), a.imag() - b.imag());
        case '*': return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real());
        default: {
            cl q = div_l(to_cl(a), to_cl(b));
            return C(static_cast<R>(q.real()), static_cast<R>(q.imag()));
        }
        }
    } else {
        switch (op) {
        case '+': return a + b;
        case '-': return a - b;
        case '*': return a * b;
        default: return a / b;
        }
    }
}
template <typename C, typename X>
C to(const X &x)
{
    if constexpr (is_cplx<C>) {
        using R = typename C::value_type;
        if constexpr (is_cplx<X>) return C(static_cast<R>(x.real()), static_cast<R>(x.imag()));
        else return C(static_cast<R>(x), R(0));
    } else return static_cast<C>(x);
}
/// The result of the operation in the common type.
template <typename A, typename B>
common_of<A, B> expected(char op, const A &a, const B &b)
{
    using C = common_of<A, B>;
    return scalar_op<C>(op, to<C>(a), to<C>(b));
}
/// Exact, but for the quotient of complex numbers.
template <typename C>
void agree(const C &got, const C &want, char op, const std::string &what)
{
    if constexpr (is_cplx<C>) {
        if (op == '/') {
            cl g = to_cl(got), w = to_cl(want);
            CHECK(abs_l(sub_l(g, w)) <= 16 * eps_of<C>() * abs_l(w), << what << " is " << show(got) << " instead of " << show(want));
            return;
        }
    }
    CHECK(same(got, want), << what << " is " << show(got) << " instead of " << show(want));
}
template <typename C, typename D>
void agree(const malg::MatrixBase<C> &got, const Mod<D> &want, char op, const std::string &what)
{
    static_assert(std::is_same_v<C, D>, "the operation has the wrong element type");
    CHECK(got.rows() == want.r && got.cols() == want.c && got.size() == want.size(), << what << ": the result is " << got.rows() << "x" << got.cols());
    for (std::size_t i = 0; i < want.r; ++i)
        for (std::size_t j = 0; j < want.c; ++j) agree<C>(got(i, j), want(i, j), op, what + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
}
template <typename C, typename D>
void agree(const malg::Vector<C> &got, const std::vector<D> &want, char op, const std::string &what)
{
    static_assert(std::is_same_v<C, D>, "the operation has the wrong element type");
    CHECK(got.size() == want.size(), << what << ": the result has " << got.size() << " elements");
    for (std::size_t i = 0; i < want.size(); ++i) agree<C>(got[i], want[i], op, what + ": element " + std::to_string(i));
}

/// Values whose operations are exact, or at least rounded once.
template <typename A, typename B>
Flavor flavor(Source &s)
{
    constexpr bool cplx = is_cplx<A> || is_cplx<B>;
    constexpr bool integral = std::is_integral_v<A> || std::is_integral_v<B>;
    if (cplx || integral || s.draw(3) != 2) return gen_exact_flavor(s);
    return s.draw(2) ? REAL : (s.draw(3) == 2 ? EXTREME : WIDE);
}
/// Values that both types hold, for results that are stored in the left type.
template <typename A, typename B>
Flavor exact_flavor(Source &s)
{
    return gen_exact_flavor(s);
}
template <typename T>
T nonzero(Source &s, Flavor f)
{
    T v = gen_value<T>(s, f);
    return v == T(0) ? T(1) : v;
}
inline Shape shape(Source &s)
{
    if (s.draw(30) == 29) {
        static const Shape e[] = { { 0, 0 }, { 0, 3 }, { 2, 0 } };
        return e[s.draw(3)];
    }
    return gen_shape_any(s, 24);
}
template <typename A, typename B>
constexpr bool storable = is_cplx<A> || !is_cplx<B>;

template <typename A, typename B, typename Ref>
void in_place(Source &s, char op, Operand<A> &a, const Mod<A> &ma, Ref &&apply_to, const std::function<common_of<A, B>(std::size_t, std::size_t)> &want, const std::string &what)
{
    (void)s;
    apply_to(a.ref());
    for (std::size_t i = 0; i < ma.r; ++i)
        for (std::size_t j = 0; j < ma.c; ++j) agree<A>(a.cref()(i, j), to<A>(want(i, j)), op, what + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
    CHECK(a.cref().rows() == ma.r && a.cref().cols() == ma.c, << what << ": the shape changed");
    a.check_outside(what);
}

template <typename A, typename B>
void mat_mat(Source &s)
{
    using C   = common_of<A, B>;
    Shape sh  = shape(s);
    Flavor f  = flavor<A, B>(s);
    auto ma   = gen_mod<A>(s, sh.r, sh.c, f);
    auto mb   = gen_mod<B>(s, sh.r, sh.c, f);
    char op   = s.draw(2) ? '-' : '+';
    std::string what = std::string("matrix ") + tname<A>() + " " + op + " matrix " + tname<B>();
    s.note() << what << "\nA " << show(ma) << "\nB " << show(mb) << "\n";
    s.nontrivial(sh.r * sh.c >= 2 && (varied(ma.d) || varied(mb.d)));
    Mod<C> want(sh.r, sh.c);
    for (std::size_t k = 0; k < want.d.size(); ++k) want.d[k] = expected(op, ma.d[k], mb.d[k]);
    switch (s.pick({ 5, 2, 2, 4, 2 })) {
    case 0: {
        Operand<A> a(s, ma);
        Operand<B> b(s, mb);
        s.note() << a.form() << ", " << b.form() << "\n";
        s.label(std::string("operands:") + a.form() + "," + b.form());
        if (op == '+') agree(a.cref() + b.cref(), want, op, what);
        else agree(a.cref() - b.cref(), want, op, what);
        a.check_unchanged(ma, what), b.check_unchanged(mb, what);
        break;
    }
    case 1: {
        if (sh.r * sh.c == 0) break;
        ConstOperand<A> a(s, ma);
        ConstOperand<B> b(s, mb);
        s.note() << a.form() << ", " << b.form() << "\n";
        s.label("operands:constant views");
        if (op == '+') agree(a.cref() + b.cref(), want, op, what);
        else agree(a.cref() - b.cref(), want, op, what);
        expect_eq(a.cref(), ma, what), expect_eq(b.cref(), mb, what);
        break;
    }
    case 2: {
        const auto a = to_malg(ma);
        const auto b = to_malg(mb);
        s.label("operands:matrices themselves");
        if (op == '+') agree(a + b, want, op, what);
        else agree(a - b, want, op, what);
        expect_eq(a, ma, what), expect_eq(b, mb, what);
        break;
    }
    case 3: {
        if constexpr (storable<A, B>) {
            // The value is stored in the left type.
            Flavor g = exact_flavor<A, B>(s);
            ma = gen_mod<A>(s, sh.r, sh.c, g), mb = gen_mod<B>(s, sh.r, sh.c, g);
            s.note() << "in place, A " << show(ma) << "\nB " << show(mb) << "\n";
            Operand<A> a(s, ma);
            Operand<B> b(s, mb);
            s.label("in place");
            in_place<A, B>(
                s, op, a, ma, [&](auto &r) {
                    auto &x = op == '+' ? (r += b.cref()) : (r -= b.cref());
                    CHECK(&x == &r, << what << ": does not return its left operand");
                },
                [&](std::size_t i, std::size_t j) { return expected(op, ma(i, j), mb(i, j)); }, what + " in place");
            b.check_unchanged(mb, what);
        }
        break;
    }
    default: { // The same object on both sides.
        Flavor g = exact_flavor<A, A>(s);
        ma       = gen_mod<A>(s, sh.r, sh.c, g);
        s.note() << "itself, A " << show(ma) << "\n";
        Operand<A> a(s, ma);
        s.label("same object");
        Mod<A> twice(sh.r, sh.c);
        for (std::size_t k = 0; k < twice.d.size(); ++k) twice.d[k] = expected(op, ma.d[k], ma.d[k]);
        if (s.draw(2)) {
            if (op == '+') agree(a.cref() + a.cref(), twice, op, what + " (same object)");
            else agree(a.cref() - a.cref(), twice, op, what + " (same object)");
            a.check_unchanged(ma, what);
        } else {
            in_place<A, A>(
                s, op, a, ma, [&](auto &r) { op == '+' ? (r += r) : (r -= r); }, [&](std::size_t i, std::size_t j) { return twice(i, j); }, what + " (same object) in place");
        }
    }
    }
}

template <typename A, typename B>
void mat_scalar(Source &s)
{
    using C   = common_of<A, B>;
    Shape sh  = shape(s);
    char op   = "+-*/"[s.draw(4)];
    Flavor f  = flavor<A, B>(s);
    auto ma   = gen_mod<A>(s, sh.r, sh.c, f);
    B b       = op == '/' ? nonzero<B>(s, f) : gen_value<B>(s, f);
    std::string what = std::string("matrix ") + tname<A>() + " " + op + " scalar " + tname<B>();
    s.note() << what << "\nA " << show(ma) << "\nb " << show(b) << "\n";
    s.nontrivial(sh.r * sh.c >= 2 && varied(ma.d) && !(b == B(0)));
    s.label(std::string("scalar operation ") + op);
    Mod<C> want(sh.r, sh.c);
    auto fill = [&] {
        for (std::size_t k = 0; k < want.d.size(); ++k) want.d[k] = expected(op, ma.d[k], b);
    };
    auto plain = [&](const auto &m) {
        switch (op) {
        case '+': agree(m + b, want, op, what); break;
        case '-': agree(m - b, want, op, what); break;
        case '*': agree(m * b, want, op, what); break;
        default: agree(m / b, want, op, what); break;
        }
    };
    switch (s.pick({ 4, 2, 2, 4, 2, 2 })) {
    case 0: {
        Operand<A> a(s, ma);
        s.note() << a.form() << "\n";
        s.label(std::string("operand:") + a.form());
        fill();
        plain(a.cref());
        a.check_unchanged(ma, what);
        break;
    }
    case 1: {
        if (sh.r * sh.c == 0) break;
        ConstOperand<A> a(s, ma);
        s.note() << a.form() << "\n";
        fill();
        plain(a.cref());
        break;
    }
    case 2: {
        const auto a = to_malg(ma);
        fill();
        plain(a);
        expect_eq(a, ma, what);
        break;
    }
    case 3: {
        if constexpr (storable<A, B>) {
            Flavor g = exact_flavor<A, B>(s);
            ma = gen_mod<A>(s, sh.r, sh.c, g), b = op == '/' ? nonzero<B>(s, g) : gen_value<B>(s, g);
            s.note() << "in place, A " << show(ma) << " b " << show(b) << "\n";
            s.label("in place");
            Operand<A> a(s, ma);
            in_place<A, B>(
                s, op, a, ma, [&](auto &r) {
                    auto *x = &r;
                    switch (op) {
                    case '+': x = &(r += b); break;
                    case '-': x = &(r -= b); break;
                    case '*': x = &(r *= b); break;
                    default: x = &(r /= b); break;
                    }
                    CHECK(x == &r, << what << ": does not return its left operand");
                },
                [&](std::size_t i, std::size_t j) { return expected(op, ma(i, j), b); }, what + " in place");
        }
        break;
    }
    case 4: { // The scalar is one of the elements.
        if (sh.r * sh.c == 0) break;
        Flavor g = exact_flavor<A, A>(s);
        ma       = gen_mod<A>(s, sh.r, sh.c, g);
        std::size_t i0 = s.draw(sh.r), j0 = s.draw(sh.c);
        if (op == '/') ma(i0, j0) = nonzero<A>(s, g);
        A e = ma(i0, j0);
        s.note() << "by its element (" << i0 << "," << j0 << "), A " << show(ma) << "\n";
        s.label("scalar is an element");
        Operand<A> a(s, ma);
        in_place<A, A>(
            s, op, a, ma, [&](auto &r) {
                switch (op) {
                case '+': r += r(i0, j0); break;
                case '-': r -= r(i0, j0); break;
                case '*': r *= r(i0, j0); break;
                default: r /= r(i0, j0); break;
                }
            },
            [&](std::size_t i, std::size_t j) { return expected(op, ma(i, j), e); }, what + " (its own element) in place");
        break;
    }
    default: { // The scalar on the left.
        op = '*';
        fill();
        what = std::string("scalar ") + tname<B>() + " * matrix " + tname<A>();
        s.note() << what << "\n";
        s.label("scalar on the left");
        Operand<A> a(s, ma);
        agree(b * a.cref(), want, op, what);
        a.check_unchanged(ma, what);
    }
    }
}

template <typename A, typename B>
void vec_vec(Source &s)
{
    using C       = common_of<A, B>;
    std::size_t n = s.draw(25) == 24 ? 0 : gen_len(s, 1, 60);
    Flavor f      = flavor<A, B>(s);
    auto ma       = gen_vec<A>(s, n, f);
    auto mb       = gen_vec<B>(s, n, f);
    char op       = "+-*"[s.draw(3)];
    std::string what = std::string("vector ") + tname<A>() + " " + op + " vector " + tname<B>();
    s.note() << what << "\na " << show(ma) << "\nb " << show(mb) << "\n";
    s.nontrivial(n >= 2 && (varied(ma) || varied(mb)));
    std::vector<C> want;
    switch (s.pick({ 4, 3, 2 })) {
    case 0: {
        auto a = to_malg(ma);
        auto b = to_malg(mb);
        for (std::size_t k = 0; k < n; ++k) want.push_back(expected(op, ma[k], mb[k]));
        switch (op) {
        case '+': agree(a + b, want, op, what); break;
        case '-': agree(a - b, want, op, what); break;
        default: agree(a * b, want, op, what); break;
        }
        expect_eq(a, ma, what), expect_eq(b, mb, what);
        break;
    }
    case 1: {
        if constexpr (storable<A, B>) {
            if (op == '*') op = '-';
            Flavor g = exact_flavor<A, B>(s);
            ma = gen_vec<A>(s, n, g), mb = gen_vec<B>(s, n, g);
            s.note() << op << " in place, a " << show(ma) << " b " << show(mb) << "\n";
            s.label("vector in place");
            auto a = to_malg(ma);
            auto b = to_malg(mb);
            std::vector<A> w;
            for (std::size_t k = 0; k < n; ++k) w.push_back(to<A>(expected(op, ma[k], mb[k])));
            auto &x = op == '+' ? (a += b) : (a -= b);
            CHECK(&x == &a);
            agree(a, w, op, what + " in place");
            expect_eq(b, mb, what);
        }
        break;
    }
    default: {
        Flavor g = exact_flavor<A, A>(s);
        ma       = gen_vec<A>(s, n, g);
        s.note() << "itself, a " << show(ma) << "\n";
        s.label("vector with itself");
        auto a = to_malg(ma);
        std::vector<A> w;
        if (op == '*') {
            for (std::size_t k = 0; k < n; ++k) w.push_back(expected(op, ma[k], ma[k]));
            agree(a * a, w, op, what);
            expect_eq(a, ma, what);
        } else {
            for (std::size_t k = 0; k < n; ++k) w.push_back(expected(op, ma[k], ma[k]));
            if (op == '+') a += a;
            else a -= a;
            agree(a, w, op, what + " in place");
        }
    }
    }
}

template <typename A, typename B>
void vec_scalar(Source &s)
{
    using C       = common_of<A, B>;
    std::size_t n = s.draw(25) == 24 ? 0 : gen_len(s, 1, 60);
    char op       = "+-*/"[s.draw(4)];
    Flavor f      = flavor<A, B>(s);
    auto ma       = gen_vec<A>(s, n, f);
    B b           = op == '/' ? nonzero<B>(s, f) : gen_value<B>(s, f);
    std::string what = std::string("vector ") + tname<A>() + " " + op + " scalar " + tname<B>();
    s.note() << what << "\na " << show(ma) << "\nb " << show(b) << "\n";
    s.nontrivial(n >= 2 && varied(ma) && !(b == B(0)));
    std::vector<C> want;
    switch (s.pick({ 4, 3, 2, 2 })) {
    case 0: {
        auto a = to_malg(ma);
        for (std::size_t k = 0; k < n; ++k) want.push_back(expected(op, ma[k], b));
        switch (op) {
        case '+': agree(a + b, want, op, what); break;
        case '-': agree(a - b, want, op, what); break;
        case '*': agree(a * b, want, op, what); break;
        default: agree(a / b, want, op, what); break;
        }
        expect_eq(a, ma, what);
        break;
    }
    case 1: {
        if constexpr (storable<A, B>) {
            Flavor g = exact_flavor<A, B>(s);
            ma = gen_vec<A>(s, n, g), b = op == '/' ? nonzero<B>(s, g) : gen_value<B>(s, g);
            s.note() << "in place, a " << show(ma) << " b " << show(b) << "\n";
            s.label("vector and scalar in place");
            auto a = to_malg(ma);
            std::vector<A> w;
            for (std::size_t k = 0; k < n; ++k) w.push_back(to<A>(expected(op, ma[k], b)));
            switch (op) {
            case '+': a += b; break;
            case '-': a -= b; break;
            case '*': a *= b; break;
            default: a /= b; break;
            }
            agree(a, w, op, what + " in place");
        }
        break;
    }
    case 2: {
        if (n == 0) break;
        Flavor g = exact_flavor<A, A>(s);
        ma       = gen_vec<A>(s, n, g);
        std::size_t k0 = s.draw(n);
        if (op == '/') ma[k0] = nonzero<A>(s, g);
        A e = ma[k0];
        s.note() << "by its element " << k0 << ", a " << show(ma) << "\n";
        s.label("scalar is an element");
        auto a = to_malg(ma);
        std::vector<A> w;
        for (std::size_t k = 0; k < n; ++k) w.push_back(expected(op, ma[k], e));
        switch (op) {
        case '+': a += a[k0]; break;
        case '-': a -= a[k0]; break;
        case '*': a *= a[k0]; break;
        default: a /= a[k0]; break;
        }
        agree(a, w, op, what + " (its own element) in place");
        break;
    }
    default: {
        auto a = to_malg(ma);
        op     = '*';
        for (std::size_t k = 0; k < n; ++k) want.push_back(expected(op, b, ma[k]));
        s.label("scalar on the left");
        agree(b * a, want, op, std::string("scalar ") + tname<B>() + " * vector " + tname<A>());
        expect_eq(a, ma, what);
    }
    }
}
} // namespace c04
