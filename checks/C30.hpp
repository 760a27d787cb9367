// C30: every operation is safe on any numbers: not a number, infinities, the
// smallest and the largest ones. It terminates, touches nothing it should not,
// and its result has the shape it has for ordinary numbers.
#include "ops.hpp"

namespace c30
{
using namespace ops;

template <typename R>
double special(Source &s)
{
    typedef std::numeric_limits<R> N;
    switch (s.draw(14)) {
    case 0: return N::quiet_NaN();
    case 1: return N::infinity();
    case 2: return -N::infinity();
    case 3: return N::max();
    case 4: return -N::max();
    case 5: return N::denorm_min();
    case 6: return -N::denorm_min();
    case 7: return N::min();
    case 8: return -0.0;
    case 9: return std::ldexp(1.0, N::max_exponent / 2 + static_cast<int>(s.sint(3)));
    case 10: return -std::ldexp(1.0, N::min_exponent / 2 + static_cast<int>(s.sint(3)));
    case 11: return N::epsilon();
    case 12: return std::ldexp(1.0, static_cast<int>(s.sint(N::max_exponent - 2)));
    default: return 0;
    }
}
template <typename R>
struct Poison {
    int mode;
    Poison(Source &s)
        : mode(static_cast<int>(s.draw(4)))
    {
    }
    /// Replaces some of the numbers, or all of them.
    void operator()(Source &s, std::vector<cd> &d, bool imag) const
    {
        if (d.empty()) return;
        auto one = [&](cd &x) {
            if (!imag) x = special<R>(s);
            else if (s.draw(2)) x = cd(special<R>(s), x.imag());
            else x = cd(s.draw(2) ? special<R>(s) : x.real(), special<R>(s));
        };
        switch (mode) {
        case 0: one(d[s.draw(d.size())]); break;
        case 1:
            for (auto &x : d)
                if (s.draw(4) == 3) one(x);
            break;
        case 2:
            for (auto &x : d) one(x);
            break;
        default: { // all of them scaled out of the ordinary, so that sums and squares overflow or vanish
            int e = (s.draw(2) ? 1 : -1) * (std::numeric_limits<R>::max_exponent / 2 + static_cast<int>(s.draw(static_cast<pbt::u64>(std::numeric_limits<R>::max_exponent / 2 - 8))));
            for (auto &x : d) x = cd(std::ldexp(x.real(), e), std::ldexp(x.imag(), e));
        }
        }
    }
};
/// What of the results does not depend on the values.
inline bool shape_depends(int id)
{
    switch (id) {
    case op_inverse: // none, for a determinant of zero
    case op_div:
    case op_find:
    case op_text:
    case op_solve:
    case op_v_reduce: return true;
    default: return false;
    }
}
inline void same_shapes(const Rec &a, const Rec &b, const std::string &what)
{
    CHECK(a.rejected == b.rejected, << what << ": " << (a.rejected ? "rejected" : "accepted") << " ordinary numbers and " << (b.rejected ? "rejected" : "accepted") << " others of the same shape (" << a.why << b.why << ")");
    CHECK(a.e.size() == b.e.size(), << what << ": " << a.e.size() << " results for ordinary numbers and " << b.e.size() << " for others");
    for (std::size_t k = 0; k < a.e.size(); ++k)
        CHECK(a.e[k].label == b.e[k].label && a.e[k].r == b.e[k].r && a.e[k].c == b.e[k].c && (a.e[k].label.find("[positions]") != std::string::npos || a.e[k].v.size() == b.e[k].v.size()),
              << what << ": for ordinary numbers the result is\n" << show(a.e[k]) << "\nand for others of the same shape\n" << show(b.e[k]));
}

template <typename T>
void operation(Source &s)
{
    constexpr unsigned all = READ | READ2 | WRITE | WRITE2 | OWNER | OWNERW | VEC;
    int id     = choose<T, T>(s, all);
    unsigned f = info(id).flags;
    Case c     = gen_case(s, id, INTS, is_cplx<T>, false);
    if (s.draw(10) == 9) perturb(s, id, c);
    s.discard(judge(id, c) == UNJUDGED);
    const Case ordinary = c;
    Poison<real_of<T>> poison(s);
    bool some = false;
    if (s.draw(5)) poison(s, c.A.d, is_cplx<T>), some = c.A.size() > 0;
    if (s.draw(2)) poison(s, c.B.d, is_cplx<T>);
    if (s.draw(2)) poison(s, c.v, is_cplx<T>), some = some || ((f & VEC) && !c.v.empty());
    if (s.draw(2)) poison(s, c.w, is_cplx<T>);
    if (s.draw(2)) c.sc = is_cplx<T> ? cd(special<real_of<T>>(s), special<real_of<T>>(s)) : cd(special<real_of<T>>(s));
    describe(s, id, c);
    std::string what = std::string(info(id).name) + " (" + tname<T>() + ")";
    Rec want, got;
    {
        malg::Matrix<T> a = to_malg(cast<T>(ordinary.A)), b = to_malg(cast<T>(ordinary.B));
        want = run<T, T>(id, a, b, ordinary);
    }
    const Mod<T> ma = cast<T>(c.A), mb = cast<T>(c.B);
    const bool writes = f & (WRITE | WRITE2 | OWNERW);
    if (f & (OWNER | OWNERW) || s.draw(2)) {
        malg::Matrix<T> a = to_malg(ma), b = to_malg(mb);
        got = run<T, T>(id, a, b, c);
        if (!writes || got.rejected) expect_eq(a, ma, what + ": operand");
        expect_eq(b, mb, what + ": second operand");
    } else {
        Operand<T> a(s, ma), b(s, mb);
        got = run<T, T>(id, a.ref(), b.ref(), c);
        if (!writes || got.rejected) a.check_unchanged(ma, what);
        else a.check_outside(what);
        b.check_unchanged(mb, what + ", second operand");
    }
    if (!shape_depends(id)) same_shapes(want, got, what);
    else if (id != op_div && id != op_solve) CHECK(want.rejected == got.rejected, << what << (got.rejected ? ": rejected" : ": accepted, though rejected for ordinary numbers"));
    s.label(info(id).name);
    s.nontrivial(some);
}

/// Control theory.
template <typename T>
void control(Source &s)
{
    namespace ct   = malg::control;
    std::size_t n  = 1 + s.draw(4), q = 1 + s.draw(2);
    Poison<T> poison(s);
    auto numbers = [&](std::size_t r, std::size_t c) {
        Mod<cd> m = gen_numbers(s, r, c, INTS, 3, false);
        if (s.draw(3)) poison(s, m.d, false);
        return cast<T>(m);
    };
    Mod<T> A = numbers(n, n), B = numbers(n, 1), C = numbers(q, n), D = numbers(q, 1);
    ct::StateSpace<T> sys(to_malg(A), to_malg(B), to_malg(C), to_malg(D));
    static const double times[] = { 1, 0.5, 1e-3, 1e-300, 1e300, 1e-6 };
    T dt = static_cast<T>(times[s.draw(6)]);
    if (dt == 0 || std::isinf(static_cast<double>(dt))) dt = T(1);
    s.note() << "A = " << show(A) << " B = " << show(B) << " C = " << show(C) << " D = " << show(D) << " time " << static_cast<double>(dt) << "\n";
    auto d = ct::c2d(sys, dt);
    CHECK(d.A.rows() == n && d.A.cols() == n && d.B.rows() == n && d.B.cols() == 1 && d.C.rows() == q && d.C.cols() == n && d.D.rows() == q && d.D.cols() == 1, << "c2d: the shapes changed");
    expect_eq(d.C, C, "c2d: C"), expect_eq(d.D, D, "c2d: D");
    expect_eq(sys.A, A, "c2d: A of the continuous system"), expect_eq(sys.B, B, "c2d: B of the continuous system");
    s.label("c2d");
    s.nontrivial();
}

/// Eigenvalues.
template <typename R>
void eigen(Source &s)
{
    typedef std::complex<R> T;
    std::size_t n = 1 + s.draw(4);
    Poison<R> poison(s);
    Mod<cd> m = gen_numbers(s, n, n, INTS, 3, s.draw(2));
    poison(s, m.d, true);
    Mod<T> A = cast<T>(m);
    s.note() << show(A) << "\n";
    malg::Matrix<T> x = to_malg(A);
    struct Quiet { // the warnings
        std::ostringstream o;
        std::streambuf *old = std::cout.rdbuf(o.rdbuf());
        ~Quiet()
        {
            std::cout.rdbuf(old);
        }
    } quiet;
    auto square = [&](const auto &p, const std::string &what) {
        CHECK(p.first.rows() == n && p.first.cols() == n && p.second.rows() == n && p.second.cols() == n, << what << ": the results are not square");
    };
    switch (s.draw(4)) {
    case 0: square(malg::eigen::hessenberg(x), "hessenberg"); s.label("hessenberg"); break;
    case 1: square(malg::eigen::qr_factorise_givens(x), "givens"); s.label("givens"); break;
    case 2:
        if (n <= 3 && s.draw(4) == 3) square(malg::eigen::QRHessenberg(x), "QRHessenberg"), s.label("QRHessenberg");
        break;
    default: {
        auto p = malg::eigen::eigenvectorUpper(x);
        CHECK(p.first.rows() == n && p.first.cols() == n, << "eigenvectorUpper: the result is not square");
        s.label("eigenvectorUpper");
    }
    }
    expect_eq(x, A, "the decomposed matrix");
    s.nontrivial();
}

/// Generators, and the scalars of the number comparisons.
template <typename T>
void generators(Source &s)
{
    T a = static_cast<T>(s.draw(3) ? special<T>(s) : static_cast<double>(s.sint(9))), b = static_cast<T>(special<T>(s));
    std::size_t n = s.draw(12);
    s.note() << show(a) << " " << show(b) << " " << n << "\n";
    switch (s.draw(3)) {
    case 0: {
        auto x = malg::utility::linspace(a, b, n);
        CHECK(x.size() == n || (n > 1 && !(std::abs(b - a) > 0)), << "linspace: " << x.size() << " points instead of " << n);
        s.label("linspace");
        break;
    }
    case 1: {
        auto x = malg::utility::logspace(a, b, n, T(10));
        CHECK(x.size() == n || (n > 1 && !(std::abs(b - a) > 0)), << "logspace: " << x.size() << " points instead of " << n);
        s.label("logspace");
        break;
    }
    default: {
        malg::Vector<T> v(1 + n, a);
        v[s.draw(v.size())] = b;
        auto p = malg::control::poly(v);
        CHECK(p.size() == v.size() + 1, << "poly: " << p.size() << " coefficients of " << v.size() << " roots");
        auto r = malg::control::polyreduce(v);
        CHECK(r.size() <= v.size(), << "polyreduce: more coefficients");
        std::size_t at = 0;
        auto mn = malg::min(v);
        auto mx = malg::max(v);
        CHECK(mn.second < v.size() && mx.second < v.size(), << "min or max: the position is outside");
        (void)at;
        s.label("polynomials");
    }
    }
    s.nontrivial();
}
} // namespace c30
#define NUMBERS(n, T) \
    PROP(operation_##n, 6) { c30::operation<T>(s); }
