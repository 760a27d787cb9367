// C19: eigenvalue computations.
#include "forms.hpp"

namespace c19
{
using namespace malg;

template <typename R>
Mod<std::complex<R>> gen_square(Source &s, std::size_t n, std::string &kind)
{
    typedef std::complex<R> T;
    Mod<T> m = gen_mod<T>(s, n, n, s.draw(3) ? REAL : gen_exact_flavor(s));
    kind     = "any";
    gen_structure(s, m);
    switch (s.draw(11)) {
    case 2:
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j <= i; ++j) m(i, j) = (i == j) ? T(m(i, i).real()) : std::conj(m(j, i));
        kind = "hermitian";
        break;
    case 3:
        for (auto &v : m.d) v = T(v.real());
        kind = "real";
        break;
    case 4: // upper Hessenberg or triangular already
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < i; ++j)
                if (j + 1 < i || kind == "triangular") m(i, j) = T(0);
        kind = "Hessenberg";
        break;
    case 5:
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < i; ++j) m(i, j) = T(0);
        kind = "triangular";
        break;
    case 6:
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                if (i != j) m(i, j) = T(0);
        kind = "diagonal";
        break;
    case 7: // a permutation: unitary
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) m(i, j) = T(j == (i + 1) % n ? 1 : 0);
        kind = "permutation";
        break;
    case 8: { // columns that vanish below the diagonal, wholly or but for a tiny element
        std::size_t c = s.draw(n);
        R k           = s.draw(2) ? std::ldexp(R(1), -static_cast<int>(20 + s.draw(60))) : R(0);
        for (std::size_t i = 0; i < n; ++i)
            if (i > c) m(i, c) = m(i, c) * k;
        kind = "small column";
        break;
    }
    case 9: // rank one
        for (std::size_t i = 1; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) m(i, j) = m(0, j) * static_cast<R>(s.sint(2));
        kind = "rank one";
        break;
    case 10: // the entry under the diagonal is zero, the others are not
        for (std::size_t i = 0; i + 1 < n; ++i) m(i + 1, i) = T(0);
        kind = "zero under the diagonal";
        break;
    default: break;
    }
    return m;
}
template <typename R>
void rescale(Mod<std::complex<R>> &m, long double want)
{
    long double t = inf_norm(to_l(m));
    int e         = 0;
    if (t <= 0) return;
    std::frexp(want / t, &e);
    for (auto &v : m.d) v = v * static_cast<R>(std::ldexp(1.0, e));
}
inline long double unit(const L &m)
{
    return std::max(1.0L, fro(m));
}
inline void expect_unitary(const L &p, long double bound, const std::string &what)
{
    long double d = max_abs(sub(mul(p, herm(p)), eye_l(p.r))), e = max_abs(sub(mul(herm(p), p), eye_l(p.r)));
    CHECK(d <= bound && e <= bound, << what << " is not unitary: it differs by " << show(d) << " and " << show(e) << ", bound " << show(bound));
}
inline void expect_close(const L &got, const L &want, long double bound, const std::string &what)
{
    for (std::size_t i = 0; i < want.r; ++i)
        for (std::size_t j = 0; j < want.c; ++j)
            CHECK(abs_l(sub_l(got(i, j), want(i, j))) <= bound, << what << ": element (" << i << "," << j << ") is " << show(got(i, j)) << " instead of " << show(want(i, j)) << " within " << show(bound));
}
template <typename M>
void expect_shape(const M &m, std::size_t n, const std::string &what)
{
    CHECK(m.rows() == n && m.cols() == n, << what << " is " << m.rows() << "x" << m.cols() << " instead of " << n << "x" << n);
}

template <typename R>
void hessenberg(Source &s)
{
    typedef std::complex<R> T;
    std::string kind;
    std::size_t n = s.draw(200) == 199 ? 10 + s.draw(40) : gen_dim(s, 1, 10);
    Mod<T> m      = gen_square<R>(s, n, kind);
    if (s.draw(3) == 2) rescale(m, std::array<long double, 6>{ 1.0L, 1e-3L, 1e3L, 1e6L, 1e-8L, std::is_same_v<R, float> ? 1e-6L : 1e-18L }[s.draw(6)]);
    L a = to_l(m);
    s.nontrivial(n >= 3);
    s.label(kind);
    s.note() << tname<T>() << " " << show(m) << "\n";
    const Matrix<T> x = to_malg(m);
    auto [p, h]       = eigen::hessenberg(x);
    static_assert(std::is_same_v<std::decay_t<decltype(p)>, Matrix<T>> && std::is_same_v<std::decay_t<decltype(h)>, Matrix<T>>, "hessenberg has the wrong types");
    expect_eq(x, m, "hessenberg: operand");
    expect_shape(p, n, "P"), expect_shape(h, n, "H");
    L lp = to_l(model_of(p)), lh = to_l(model_of(h));
    long double eps = 64 * static_cast<long double>(n * n) * eps_of<T>();
    expect_unitary(lp, eps, "P");
    for (std::size_t i = 2; i < n; ++i)
        for (std::size_t j = 0; j + 1 < i; ++j) CHECK(abs_l(lh(i, j)) <= eps * fro(a), << "H is not upper Hessenberg: element (" << i << "," << j << ") is " << show(lh(i, j)));
    expect_close(mul(mul(lp, lh), herm(lp)), a, eps * fro(a), "P H P*");
}

template <typename R>
void givens(Source &s)
{
    typedef std::complex<R> T;
    std::string kind;
    std::size_t n = s.draw(200) == 199 ? 10 + s.draw(50) : gen_dim(s, 1, 12);
    Mod<T> m      = gen_square<R>(s, n, kind);
    for (std::size_t i = 2; i < n; ++i)
        for (std::size_t j = 0; j + 1 < i; ++j) m(i, j) = T(0);
    if (n >= 2 && s.draw(3) == 2) { // zero elements on and under the diagonal
        std::size_t k = s.draw(n - 1);
        switch (s.draw(3)) {
        case 0: m(k + 1, k) = T(0); break;
        case 1: m(k, k) = T(0); break;
        default: m(k, k) = m(k + 1, k) = T(0);
        }
    }
    if (s.draw(4) == 3) rescale(m, std::array<long double, 4>{ 1.0L, 1e-3L, 1e3L, 1e6L }[s.draw(4)]);
    L a = to_l(m);
    s.nontrivial(n >= 2);
    s.label(kind);
    s.note() << tname<T>() << " " << show(m) << "\n";
    const Matrix<T> x = to_malg(m);
    auto [q, r]       = eigen::qr_factorise_givens(x);
    expect_eq(x, m, "qr_factorise_givens: operand");
    expect_shape(q, n, "Q"), expect_shape(r, n, "R");
    L lq = to_l(model_of(q)), lr = to_l(model_of(r));
    long double eps = 32 * static_cast<long double>(n + 1) * eps_of<T>();
    expect_unitary(lq, eps, "Q");
    for (std::size_t i = 1; i < n; ++i)
        for (std::size_t j = 0; j < i; ++j) CHECK(abs_l(lr(i, j)) <= eps * unit(a), << "R is not upper triangular: element (" << i << "," << j << ") is " << show(lr(i, j)));
    expect_close(mul(lq, lr), a, eps * unit(a), "QR");
}

/// The iterated triangularization.
template <typename R>
void triangular(Source &s)
{
    typedef std::complex<R> T;
    Quiet out(std::cout);
    std::string kind;
    std::size_t n = 1 + (s.draw(6) ? s.draw(3) : s.draw(6));
    Mod<T> m      = gen_square<R>(s, n, kind);
    if (n > 3 && kind != "any" && kind != "hermitian" && kind != "triangular") s.discard(s.draw(8) != 0); // these are slow to converge
    if (n > 2 && (kind == "real" || kind == "permutation" || kind == "rank one")) s.discard(s.draw(8) != 0);
    rescale(m, std::array<long double, 3>{ 1.0L, 0.3L, 3.0L }[s.draw(3)]);
    L a = to_l(m);
    s.nontrivial(n >= 2 && kind != "diagonal");
    s.label(kind);
    s.note() << tname<T>() << " " << show(m) << "\n";
    const Matrix<T> x = to_malg(m);
    auto [p, t]       = eigen::QRHessenberg(x);
    static_assert(std::is_same_v<std::decay_t<decltype(p)>, Matrix<T>> && std::is_same_v<std::decay_t<decltype(t)>, Matrix<T>>, "QRHessenberg has the wrong types");
    expect_eq(x, m, "QRHessenberg: operand");
    expect_shape(p, n, "P"), expect_shape(t, n, "T");
    bool warned = !out.text.str().empty();
    s.label(warned ? "not converged" : "converged");
    L lp = to_l(model_of(p)), lt = to_l(model_of(t));
    // Up to ten thousand rotations, each of them exact within rounding.
    long double eps = (warned ? 2e5L : 2e3L) * static_cast<long double>(n) * eps_of<T>();
    expect_unitary(lp, eps, "P");
    expect_close(mul(mul(lp, lt), herm(lp)), a, eps * unit(a), "P T P*");
    long double low = 2e-14L + 64 * static_cast<long double>(n * n) * eps_of<T>() * unit(a);
    for (std::size_t i = 1; i < n; ++i)
        for (std::size_t j = 0; j < i; ++j) {
            long double b = j + 1 == i ? low : eps * unit(a);
            if (j + 1 < i || !warned) CHECK(abs_l(lt(i, j)) <= b, << "T is not upper " << (j + 1 == i ? "triangular and there is no warning" : "Hessenberg") << ": element (" << i << "," << j << ") is " << show(lt(i, j)));
        }
    if (warned) return;
    // The diagonal: the characteristic polynomial of the triangular matrix is
    // implied by the similarity. Compare the trace.
    cl tr(0), ta(0);
    for (std::size_t i = 0; i < n; ++i) tr = add_l(tr, lt(i, i)), ta = add_l(ta, a(i, i));
    CHECK(abs_l(sub_l(tr, ta)) <= eps * unit(a) * static_cast<long double>(n), << "the sum of the eigenvalues is " << show(tr) << " instead of " << show(ta));
}

/// Shifts: the eigenvalue of the last block that is nearest its last element.
template <typename R>
void shift(Source &s)
{
    typedef std::complex<R> T;
    std::size_t n = 1 + s.draw(5);
    Mod<T> m      = gen_mod<T>(s, n, n, s.draw(2) ? REAL : SMALL);
    const Matrix<T> x = to_malg(m);
    s.nontrivial(n >= 2);
    s.note() << tname<T>() << " " << show(m) << "\n";
    auto w = eigen::wilkinson_shift(x);
    if (n == 1) {
        CHECK(w == T(0), << "the shift of a 1x1 matrix is " << show<T>(w));
        return;
    }
    cl a = to_cl(m(n - 2, n - 2)), b = to_cl(m(n - 2, n - 1)), c = to_cl(m(n - 1, n - 2)), d = to_cl(m(n - 1, n - 1)), l = to_cl(T(w));
    cl f           = sub_l(mul_l(sub_l(a, l), sub_l(d, l)), mul_l(b, c));
    long double sc = abs_l(a) + abs_l(b) + abs_l(c) + abs_l(d);
    CHECK(abs_l(f) <= 256 * eps_of<T>() * sc * sc, << "the shift " << show(l) << " is not an eigenvalue of the last block");
    cl o = sub_l(add_l(a, d), l);
    CHECK(abs_l(sub_l(l, d)) <= abs_l(sub_l(o, d)) + 64 * std::sqrt(eps_of<T>()) * sc, << "the shift " << show(l) << " is farther from " << show(d) << " than " << show(o));
}

/// Eigenvectors of a triangular matrix.
template <typename R>
void vectors(Source &s)
{
    typedef std::complex<R> T;
    Quiet out(std::cout);
    std::size_t n = gen_dim(s, 1, 10);
    Flavor f      = s.draw(2) ? DYADIC : s.draw(2) ? SMALL : SPARSE;
    Mod<T> m      = gen_mod<T>(s, n, n, f);
    std::string kind;
    auto coupling = [&s]() {
        const R k = static_cast<R>(1 + s.draw(3));
        switch (s.draw(4)) {
        case 0: return T(k);
        case 1: return T(R(0), k);
        case 2: return T(R(0), -k);
        default: return T(-k, static_cast<R>(s.sint(3)));
        }
    };
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < i; ++j) m(i, j) = T(0);
        for (std::size_t j = i; j < n; ++j) m(i, j) = m(i, j) * R(j > i ? 0.125 : 1);
    }
    switch (s.draw(5)) {
    default: // distinct: any order
        kind = "distinct";
        for (std::size_t i = 0; i < n; ++i) m(i, i) = T(static_cast<R>(i) * R(0.75) - R(2), static_cast<R>(s.sint(3)));
        for (std::size_t i = n; i > 1; --i) {
            std::size_t j = s.draw(i);
            std::swap(m(i - 1, i - 1), m(j, j));
        }
        break;
    case 2: // diagonal, with repetitions
        kind = "diagonal";
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) m(i, j) = i == j ? T(static_cast<R>(s.draw(3))) : T(0);
        break;
    case 3: // one Jordan block
        kind = "defective";
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) m(i, j) = i == j ? m(0, 0) : j == i + 1 ? coupling() : T(0);
        break;
    case 4: { // a simple eigenvalue, then one Jordan block, coupled at will
        kind = "defective";
        s.discard(n < 2);
        kind   = "partly defective";
        T w    = m(0, 0) + T(R(1), static_cast<R>(s.sint(2)));
        for (std::size_t i = 1; i < n; ++i)
            for (std::size_t j = i; j < n; ++j) m(i, j) = i == j ? w : j == i + 1 ? coupling() : T(0);
        break;
    }
    }
    s.nontrivial(n >= 2);
    s.label(kind);
    s.note() << tname<T>() << " " << show(m) << "\n";
    L t = to_l(m);
    const Matrix<T> x = to_malg(m);
    auto [e, full]    = eigen::eigenvectorUpper(x);
    static_assert(std::is_same_v<std::decay_t<decltype(e)>, Matrix<T>> && std::is_same_v<std::decay_t<decltype(full)>, bool>, "eigenvectorUpper has the wrong types");
    expect_eq(x, m, "eigenvectorUpper: operand");
    expect_shape(e, n, "the eigenvectors");
    L v               = to_l(model_of(e));
    long double bound = 16 * static_cast<long double>(n + 4) * eps_of<T>();
    bool zero         = false;
    for (std::size_t k = 0; k < n; ++k) {
        long double len = 0;
        for (std::size_t i = 0; i < n; ++i) len = std::hypot(len, abs_l(v(i, k)));
        if (len == 0) {
            zero = true;
            CHECK((kind == "defective" && k > 0) || (kind == "partly defective" && k > 1), << "eigenvector " << k << " is zero");
            continue;
        }
        CHECK((kind != "defective" || k == 0) && (kind != "partly defective" || k < 2), << "vector " << k << " of a Jordan block is not zero");
        CHECK(std::fabs(len - 1) <= bound, << "eigenvector " << k << " has length " << show(len));
        for (std::size_t i = 0; i < n; ++i) {
            cl r(0);
            long double mag = 0;
            for (std::size_t j = 0; j < n; ++j) {
                cl w = i == j ? sub_l(t(i, j), t(k, k)) : t(i, j);
                r    = add_l(r, mul_l(w, v(j, k)));
                mag += (abs_l(t(i, j)) + (i == j ? abs_l(t(k, k)) : 0)) * abs_l(v(j, k));
            }
            CHECK(abs_l(r) <= bound * mag, << "eigenvector " << k << ": component " << i << " of T v - lambda v is " << show(r) << ", bound " << show(bound * mag));
        }
        for (std::size_t i = k + 1; i < n; ++i) CHECK(v(i, k) == cl(0), << "eigenvector " << k << " has a component " << i);
        CHECK(abs_l(v(k, k)) > 0, << "eigenvector " << k << " is a combination of the previous ones");
    }
    CHECK(full == !zero, << "the eigenvectors are flagged as " << (full ? "" : "not ") << "a full set");
}

/// From a matrix to its eigenvectors.
template <typename R>
void eigenvectors(Source &s)
{
    typedef std::complex<R> T;
    Quiet out(std::cout);
    std::size_t n = 1 + s.draw(4);
    // Separate eigenvalues: a dominant diagonal.
    Mod<T> m = gen_mod<T>(s, n, n, REAL);
    rescale(m, 0.25L);
    for (std::size_t i = 0; i < n; ++i) m(i, i) = m(i, i) + T(static_cast<R>(i) * R(0.75) - R(1));
    for (auto &v : m.d) v = v * R(0.5);
    s.nontrivial(n >= 2);
    s.note() << tname<T>() << " " << show(m) << "\n";
    const Matrix<T> x = to_malg(m);
    auto [p, t]       = eigen::QRHessenberg(x);
    bool warned       = !out.text.str().empty();
    s.label(warned ? "not converged" : "converged");
    if (warned) return;
    auto [e, full] = eigen::eigenvectorUpper(t);
    CHECK(full, << "the eigenvectors of separate eigenvalues are not flagged as a full set");
    Matrix<T> v = p * e;
    L lv = to_l(model_of(v)), av = mul(to_l(m), lv), lt = to_l(model_of(t));
    for (std::size_t k = 0; k < n; ++k)
        for (std::size_t i = 0; i < n; ++i) {
            cl w = mul_l(lv(i, k), lt(k, k));
            CHECK(abs_l(sub_l(av(i, k), w)) <= 1e-11L, << "eigenvector " << k << ": A v has component " << i << " " << show(av(i, k)) << " instead of " << show(w));
        }
}
} // namespace c19
