// C18: controllability, observability, polynomials and pole placement.
#include "C13.hpp"
#include <sys/wait.h>

namespace c18
{
using namespace malg;

/// Runs f on two operands of the same kind (both constant or not).
template <typename T, typename F>
void on_operands(Source &s, const Mod<T> &a, const Mod<T> &b, F &&f)
{
    if (s.draw(3) == 2) {
        ConstOperand<T> x(s, a), y(s, b);
        f(x.cref(), y.cref(), std::string(" of a ") + x.form() + " and a " + y.form());
    } else {
        Operand<T> x(s, a), y(s, b);
        f(x.cref(), y.cref(), std::string(" of a ") + x.form() + " and a " + y.form());
        x.check_unchanged(a, "first"), y.check_unchanged(b, "second");
    }
}
template <typename F>
void expect_refused(F &&f, const std::string &what)
{
    bool thrown = false;
    try {
        f();
    } catch (const std::exception &) {
        thrown = true;
    }
    CHECK(thrown, << what << ": not refused");
}
inline L transposed(const L &a)
{
    L o(a.c, a.r);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < a.c; ++j) o(j, i) = a(i, j);
    return o;
}
template <typename M>
void close(const M &got, const L &want, const L &mag, long double rel, const std::string &what)
{
    using T = std::remove_const_t<std::decay_t<decltype(got(0, 0))>>;
    CHECK(got.rows() == want.r && got.cols() == want.c, << what << " is " << got.rows() << "x" << got.cols() << " instead of " << want.r << "x" << want.c);
    for (std::size_t i = 0; i < want.r; ++i)
        for (std::size_t j = 0; j < want.c; ++j)
            CHECK(abs_l(sub_l(to_cl(T(got(i, j))), want(i, j))) <= rel * mag(i, j).real(), << what << ": element (" << i << "," << j << ") is " << show<T>(got(i, j)) << " instead of " << show(want(i, j)) << " within " << show(rel * mag(i, j).real()));
}

/// The stacked products of powers of the state matrix.
template <typename T>
void stacks(Source &s)
{
    std::size_t n = s.draw(4) ? 1 + s.draw(4) : 1 + s.draw(8), m = 1 + s.draw(n + 2);
    bool exact    = std::is_integral_v<T> || s.draw(2);
    Mod<T> a = gen_mod<T>(s, n, n, exact ? FEW : REAL), b = gen_mod<T>(s, n, m, exact ? FEW : DYADIC);
    if (exact && n > 4) // few elements, for exactness
        for (auto &v : a.d)
            if (s.draw(n) > 1) v = T(0);
    L la = to_l(a), lb = to_l(b), want(n, n * m), mag(n, n * m), p = lb, g = abs_m(lb);
    for (std::size_t k = 0; k < n; ++k) {
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < m; ++j) want(i, k * m + j) = p(i, j), mag(i, k * m + j) = g(i, j);
        p = mul(la, p), g = mul(abs_m(la), g);
    }
    s.discard(exact && max_abs(mag) >= c13::mantissa<T>());
    s.discard(!exact && std::is_same_v<real_of<T>, float> && max_abs(mag) > 1e30L);
    long double rel = exact ? 0 : 4 * static_cast<long double>(n * n + 4) * eps_of<T>();
    s.nontrivial(n >= 2);
    s.note() << tname<T>() << " A " << show(a) << " B " << show(b) << "\n";
    Mod<T> at(n, n), bt(m, n);
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < n; ++j) at(j, i) = a(i, j);
        for (std::size_t j = 0; j < m; ++j) bt(j, i) = b(i, j);
    }
    if (s.draw(2)) on_operands(s, a, b, [&](const auto &x, const auto &y, const std::string &w) { close(control::ctrb(x, y), want, mag, rel, "ctrb" + w); });
    else on_operands(s, at, bt, [&](const auto &x, const auto &y, const std::string &w) { close(control::obsv(x, y), transposed(want), transposed(mag), rel, "obsv" + w); });
    // Operands that do not conform.
    Mod<T> r = gen_mod<T>(s, n, n + 1 + s.draw(2), FEW), q = gen_mod<T>(s, n + 1 + s.draw(2), m, FEW), qt = gen_mod<T>(s, m, n + 1 + s.draw(2), FEW);
    switch (s.draw(12)) {
    case 0: on_operands(s, r, b, [&](const auto &x, const auto &y, const std::string &w) { expect_refused([&] { control::ctrb(x, y); }, "ctrb" + w + " with a state matrix that is not square"); }); break;
    case 1: on_operands(s, a, q, [&](const auto &x, const auto &y, const std::string &w) { expect_refused([&] { control::ctrb(x, y); }, "ctrb" + w + " of different rows"); }); break;
    case 2: on_operands(s, r, bt, [&](const auto &x, const auto &y, const std::string &w) { expect_refused([&] { control::obsv(x, y); }, "obsv" + w + " with a state matrix that is not square"); }); break;
    case 3: on_operands(s, a, qt, [&](const auto &x, const auto &y, const std::string &w) { expect_refused([&] { control::obsv(x, y); }, "obsv" + w + " of different columns"); }); break;
    default: break;
    }
}

/// The coefficients of a polynomial given its roots.
struct Poly {
    std::vector<cl> c;
    std::vector<long double> mag;
};
template <typename T>
Poly from_roots(const std::vector<T> &r)
{
    Poly p;
    p.c   = { cl(1) };
    p.mag = { 1 };
    for (auto &v : r) {
        p.c.push_back(cl(0)), p.mag.push_back(0);
        for (std::size_t i = p.c.size() - 1; i > 0; --i) {
            p.c[i] = sub_l(p.c[i], mul_l(to_cl(v), p.c[i - 1]));
            p.mag[i] += abs_l(to_cl(v)) * p.mag[i - 1];
        }
    }
    return p;
}
template <typename V>
void expect_poly(const V &got, const Poly &want, long double rel, const std::string &what)
{
    using T = std::remove_const_t<std::decay_t<decltype(got[0])>>;
    CHECK(got.size() == want.c.size(), << what << " has " << got.size() << " coefficients instead of " << want.c.size());
    for (std::size_t i = 0; i < got.size(); ++i)
        CHECK(abs_l(sub_l(to_cl(T(got[i])), want.c[i])) <= rel * want.mag[i], << what << ": coefficient " << i << " is " << show<T>(got[i]) << " instead of " << show(want.c[i]) << " within " << show(rel * want.mag[i]));
}
template <typename T>
void roots(Source &s)
{
    std::size_t n    = s.draw(3) ? s.draw(5) : s.draw(12);
    bool exact       = std::is_integral_v<T> || s.draw(2);
    std::vector<T> r = gen_vec<T>(s, n, !exact ? REAL : n < 6 ? SMALL : FEW);
    if (n >= 2 && s.draw(3) == 0) r[1] = r[0]; // a double root
    if (exact && n > 0 && n < 5 && s.draw(5) == 4) { // as large as the coefficients allow
        static const int most[] = { 1, 1000000000, 30000, 600, 90 };
        for (std::size_t i = 0; i < n; ++i)
            if (s.draw(3)) r[i] = T(static_cast<real_of<T>>(s.sint(most[n])));
    }
    Poly p = from_roots(r);
    s.discard(exact && *std::max_element(p.mag.begin(), p.mag.end()) >= c13::mantissa<T>());
    s.discard(!exact && std::is_same_v<real_of<T>, float> && *std::max_element(p.mag.begin(), p.mag.end()) > 1e30L);
    long double rel = exact ? 0 : 8 * static_cast<long double>(n + 1) * eps_of<T>();
    s.nontrivial(n >= 2);
    s.note() << tname<T>() << " " << show(r) << "\n";
    const Vector<T> v = to_malg(r);
    expect_poly(control::poly(v), p, rel, "poly of a vector");
    expect_eq(v, r, "poly: roots");
    if (n == 0) {
        Matrix<T> none;
        expect_poly(control::poly(none), p, rel, "poly of an empty matrix");
        return;
    }
    bool row = s.draw(2);
    Mod<T> m(row ? 1 : n, row ? n : 1);
    m.d = r;
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) { expect_poly(control::poly(x), p, rel, std::string("poly") + w + (row ? " (row)" : " (column)")); });
}

/// The characteristic polynomial, by the principal minors.
inline Poly characteristic(const L &a)
{
    std::size_t n = a.r;
    Poly p;
    p.c.assign(n + 1, cl(0)), p.mag.assign(n + 1, 0);
    for (std::size_t set = 0; set < (std::size_t(1) << n); ++set) {
        std::vector<std::size_t> k;
        for (std::size_t i = 0; i < n; ++i)
            if (set >> i & 1) k.push_back(i);
        L m(k.size(), k.size());
        for (std::size_t i = 0; i < k.size(); ++i)
            for (std::size_t j = 0; j < k.size(); ++j) m(i, j) = a(k[i], k[j]);
        c13::Det d    = c13::exact_det(m);
        p.c[k.size()] = k.size() & 1 ? sub_l(p.c[k.size()], d.v) : add_l(p.c[k.size()], d.v);
        p.mag[k.size()] += d.mag;
    }
    return p;
}
template <typename T>
void matrices(Source &s)
{
    std::size_t n = 2 + s.draw(s.draw(4) ? 3 : 5);
    bool exact    = std::is_integral_v<T> || s.draw(2);
    Mod<T> m      = gen_mod<T>(s, n, n, exact ? s.draw(2) ? FEW : SPARSE : REAL);
    switch (s.draw(5)) {
    case 3:
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < i; ++j) m(i, j) = T(0);
        break;
    case 4: // a companion matrix
        for (std::size_t i = 1; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) m(i, j) = (j + 1 == i) ? T(1) : T(0);
        break;
    default: break;
    }
    L l    = to_l(m);
    Poly p = characteristic(l);
    // What the recursion goes through: B = A (B - c I).
    long double b = inf_norm(l), t = b, big = b;
    for (std::size_t i = 0; i <= n; ++i) {
        long double k = std::pow(2 * t * static_cast<long double>(n), static_cast<long double>(i));
        if (!exact) p.mag[i] = k;
        big = std::max(big, k);
    }
    s.discard(exact && big >= std::min(c13::mantissa<T>(), 2e9L));
    s.discard(!exact && std::is_same_v<real_of<T>, float> && big > 1e25L);
    s.nontrivial(true);
    s.note() << tname<T>() << " " << show(m) << "\n";
    // Quotients by 3 are not exact, but nearly: integers in floating point are
    // compared within their rounding.
    long double rel = exact && std::is_integral_v<T> ? 0 : 64 * static_cast<long double>(n * n) * eps_of<T>();
    if (exact && !std::is_integral_v<T>)
        for (std::size_t i = 0; i <= n; ++i) p.mag[i] = std::max(1.0L, std::pow(2 * t * static_cast<long double>(n), static_cast<long double>(i)));
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) { expect_poly(control::poly(x), p, rel, "poly" + w); });
    if (s.draw(8) == 0) {
        Mod<T> o = gen_mod<T>(s, n, n + 1 + s.draw(3), FEW);
        on_operand<T>(s, o, [&](const auto &x, const std::string &w) { expect_refused([&] { control::poly(x); }, "poly" + w + " that is not square"); });
    }
}

template <typename T>
void reduce(Source &s)
{
    std::size_t n    = s.draw(20), z = s.draw(n + 1);
    std::vector<T> v = gen_vec<T>(s, n, s.draw(2) ? SPARSE : s.draw(2) ? SMALL : std::is_integral_v<T> ? FEW : WIDE);
    for (std::size_t i = 0; i < z; ++i) v[i] = T(0);
    if constexpr (std::is_floating_point_v<T>)
        if (n && s.draw(4) == 0) v[s.draw(n)] = s.draw(2) ? std::numeric_limits<T>::denorm_min() : -T(0);
    std::size_t k = 0;
    while (k < n && v[k] == T(0)) ++k;
    std::vector<T> want(v.begin() + static_cast<long>(k), v.end());
    if (want.empty()) want = { T(0) };
    s.nontrivial(k > 0 && k < n);
    s.note() << tname<T>() << " " << show(v) << "\n";
    const Vector<T> x = to_malg(v);
    expect_eq(control::polyreduce(x), want, "polyreduce");
    expect_eq(x, v, "polyreduce: operand");
}

/// How a request that must be refused ends, in a child.
template <typename F>
bool refused(F &&f, std::string &text)
{
    int fd[2];
    if (pipe(fd) != 0) throw std::runtime_error("pipe");
    std::cout.flush(), std::cerr.flush(), std::fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0) {
        ::close(fd[0]);
        dup2(fd[1], 1), dup2(fd[1], 2);
        alarm(20);
        try {
            f();
        } catch (const std::exception &) {
            _exit(3);
        }
        _exit(0);
    }
    ::close(fd[1]);
    char b[4096];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) text.append(b, static_cast<std::size_t>(k));
    ::close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) != 0 && text.find("Sanitizer") == std::string::npos && text.find("runtime error") == std::string::npos;
}

/// The gain that places the poles.
template <typename T>
void placement(Source &s)
{
    constexpr bool integral = std::is_integral_v<T>;
    std::size_t n = 1 + s.draw(integral ? 4 : std::is_same_v<real_of<T>, float> ? 3 : 5);
    Flavor f      = integral || s.draw(2) ? FEW : DYADIC;
    Mod<T> a = gen_mod<T>(s, n, n, f), b = gen_mod<T>(s, n, 1, f), p = gen_mod<T>(s, 1, n, f);
    if (s.draw(2)) // a companion form: always reachable
        for (std::size_t i = 0; i < n; ++i) {
            b(i, 0) = T(i + 1 == n ? 1 : 0);
            for (std::size_t j = 0; j < n && i + 1 < n; ++j) a(i, j) = T(j == i + 1 ? 1 : 0);
        }
    L la = to_l(a), lb = to_l(b), ct(n, n), v = lb, inv;
    long double top = 1;
    for (std::size_t k = 0; k < n; ++k) {
        for (std::size_t i = 0; i < n; ++i) ct(i, k) = v(i, 0);
        v   = mul(la, v);
        top = top * (1 + inf_norm(la));
    }
    s.discard(!inverse_l(ct, inv));
    s.discard(integral && (c13::exact_det(ct).mag > 2e9L || top * 200 > 2e9L));
    Poly q = from_roots(p.d);
    // Horner from the leading coefficient.
    L ap(n, n);
    long double mag = 0, pw = 1;
    for (std::size_t k = 0; k <= n; ++k) {
        ap = mul(la, ap);
        for (std::size_t i = 0; i < n; ++i) ap(i, i) = add_l(ap(i, i), q.c[k]);
    }
    for (std::size_t k = 0; k <= n; ++k) mag += q.mag[n - k] * pw, pw *= std::max(1.0L, inf_norm(la));
    s.discard(integral && mag > 2e9L);
    L want(1, n);
    for (std::size_t j = 0; j < n; ++j)
        for (std::size_t k = 0; k < n; ++k) want(0, j) = add_l(want(0, j), mul_l(inv(n - 1, k), ap(k, j)));
    c13::Det d        = c13::exact_det(ct);
    long double N     = static_cast<long double>(n), eps = std::max(eps_of<T>(), eps_of<double>());
    long double err   = c13::inverse_error<T>(ct, d, inv, integral) + 32 * eps * fro(inv) * fro(inv) * fro(ct) * N;
    long double bound = N * (err * mag + 64 * N * N * eps * fro(inv) * mag);
    s.discard(!(bound <= 1e-2L * (1 + max_abs(want))));
    s.nontrivial(n >= 2);
    s.note() << tname<T>() << " A " << show(a) << " B " << show(b) << " poles " << show(p) << "\n";
    auto check = [&](const auto &k, const std::string &form) {
        using K = std::remove_const_t<std::decay_t<decltype(k(0, 0))>>;
        CHECK(k.rows() == 1 && k.cols() == n, << "the gain" << form << " is " << k.rows() << "x" << k.cols());
        for (std::size_t j = 0; j < n; ++j)
            CHECK(abs_l(sub_l(to_cl(K(k(0, j))), want(0, j))) <= bound, << "the gain" << form << ": element " << j << " is " << show<K>(k(0, j)) << " instead of " << show(want(0, j)) << " within " << show(bound));
        // The closed loop has the poles.
        L lk(1, n);
        for (std::size_t j = 0; j < n; ++j) lk(0, j) = to_cl(K(k(0, j)));
        L loop         = sub(la, mul(lb, lk));
        Poly c         = characteristic(loop);
        long double sl = bound * N * inf_norm(lb) * std::pow(1 + inf_norm(la) + inf_norm(lb) * max_abs(lk) * N, N) * 4;
        if (sl < 0.1L)
            for (std::size_t i = 0; i <= n; ++i)
                CHECK(abs_l(sub_l(c.c[i], q.c[i])) <= sl + 1e-15L * c.mag[i], << "the closed loop" << form << ": coefficient " << i << " of the characteristic polynomial is " << show(c.c[i]) << " instead of " << show(q.c[i]) << " within " << show(sl));
    };
    if (s.draw(4) == 3) {
        ConstOperand<T> x(s, a), y(s, b), z(s, p);
        check(control::acker(x.cref(), y.cref(), z.cref()), std::string(" for constant views"));
        return;
    }
    if constexpr (!integral)
        if (s.draw(3) == 2) {
            // In other units: by powers of two, which change no digit of the gain.
            using R     = real_of<T>;
            const int j = static_cast<int>(s.sint(std::is_same_v<R, float> ? 2 : 6)), k = static_cast<int>(s.sint(std::is_same_v<R, float> ? 12 : 40));
            const R ja = std::ldexp(R(1), j), kb = std::ldexp(R(1), k);
            Mod<T> sa = a, sb = b, sp = p;
            for (auto &v : sa.d) v = T(v * ja);
            for (auto &v : sb.d) v = T(v * kb);
            for (auto &v : sp.d) v = T(v * ja);
            s.label("other units");
            s.note() << "states in units of 2^" << j << ", input in units of 2^" << k << "\n";
            const Matrix<T> xa = to_malg(sa), yb = to_malg(sb), zp = to_malg(sp);
            auto g = control::acker(xa, yb, zp);
            for (std::size_t i = 0; i < g.size(); ++i) g[i] = static_cast<std::decay_t<decltype(g[i])>>(g[i] * (kb / ja));
            check(g, " of a system in other units");
            return;
        }
    Operand<T> x(s, a), y(s, b), z(s, p);
    check(control::acker(x.cref(), y.cref(), z.cref()), std::string(" for a ") + x.form() + ", a " + y.form() + " and a " + z.form());
    x.check_unchanged(a, "acker: A"), y.check_unchanged(b, "acker: B"), z.check_unchanged(p, "acker: poles");
}

template <typename T>
void refusals(Source &s)
{
    std::size_t n = 1 + s.draw(4);
    Mod<T> a = gen_mod<T>(s, n, n, FEW), b = gen_mod<T>(s, n, 1, FEW), p = gen_mod<T>(s, 1, n, FEW);
    for (std::size_t i = 0; i < n; ++i) { // reachable
        b(i, 0) = T(i + 1 == n ? 1 : 0);
        for (std::size_t j = 0; j < n && i + 1 < n; ++j) a(i, j) = T(j == i + 1 ? 1 : 0);
    }
    std::string why;
    switch (s.draw(8)) {
    case 0: a = gen_mod<T>(s, n, n + 1 + s.draw(2), FEW), why = "A is not square"; break;
    case 1: b = gen_mod<T>(s, n, 2 + s.draw(2), FEW), why = "B is not a column"; break;
    case 2: b = gen_mod<T>(s, n + 1 + s.draw(2), 1, FEW), why = "B has other rows"; break;
    case 3: p = gen_mod<T>(s, 1, n + 1 + s.draw(2), FEW), why = "too many poles"; break;
    case 4:
        if (n == 1) ++n, p = gen_mod<T>(s, 2, 1, FEW), why = "the poles are not a row";
        else p = gen_mod<T>(s, n, 1, FEW), why = "the poles are not a row";
        break;
    case 5:
        for (auto &v : b.d) v = T(0);
        why = "B is zero";
        break;
    case 6: // one eigenvalue, diagonal
        if (n == 1) b(0, 0) = T(0);
        for (std::size_t i = 0; i < n; ++i) {
            for (std::size_t j = 0; j < n; ++j) a(i, j) = i == j ? T(2) : T(0);
            if (n > 1) b(i, 0) = T(1 + static_cast<int>(i));
        }
        why = "A is a multiple of the identity";
        break;
    default: { // a state that the input does not reach
        std::size_t k = s.draw(n);
        a = gen_mod<T>(s, n, n, FEW), b = gen_mod<T>(s, n, 1, FEW);
        for (std::size_t j = 0; j < n; ++j)
            if (j != k) a(k, j) = T(0);
        b(k, 0) = T(0);
        why     = "a state is not reachable";
    }
    }
    s.nontrivial(true);
    s.label("refused: " + why);
    s.note() << tname<T>() << " A " << show(a) << " B " << show(b) << " poles " << show(p) << " " << why << "\n";
    const Matrix<T> x = to_malg(a), y = to_malg(b), z = to_malg(p);
    std::string text;
    bool r = refused([&] { (void)control::acker(x, y, z); }, text);
    CHECK(r, << "acker is not refused although " << why << ": " << text);
}
} // namespace c18
