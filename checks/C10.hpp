// C10: structural operations move every element to its place.
#include "gen.hpp"

namespace c10
{
constexpr std::size_t END = static_cast<std::size_t>(-1);

/// Also the special values, since elements are only moved.
template <typename T>
Flavor flavor(Source &s)
{
    switch (s.draw(4)) {
    case 0: return MEDIUM;
    case 1: return DYADIC;
    case 2: return SMALL;
    default: return EXTREME;
    }
}
template <typename T>
Mod<T> transposed(const Mod<T> &m)
{
    Mod<T> o(m.c, m.r);
    for (std::size_t i = 0; i < m.r; ++i)
        for (std::size_t j = 0; j < m.c; ++j) o(j, i) = m(i, j);
    return o;
}
template <typename C, typename X>
C to(const X &x)
{
    if constexpr (is_cplx<C> && !is_cplx<X>) return C(static_cast<real_of<C>>(x));
    else return static_cast<C>(x);
}
template <typename T, typename F>
void on_operand(Source &s, const Mod<T> &m, F &&f)
{
    switch (s.draw(3)) {
    case 0: {
        malg::Matrix<T> x = to_malg(m);
        f(x, std::string(" of a matrix"));
        expect_eq(x, m, "operand");
        break;
    }
    case 1: {
        ConstOperand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        break;
    }
    default: {
        Operand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        x.check_unchanged(m, "structural operation");
    }
    }
}
template <typename T>
Mod<T> gen(Source &s, std::size_t big = 20)
{
    Shape sh = gen_shape_any(s, big);
    return gen_mod<T>(s, sh.r, sh.c, flavor<T>(s));
}
/// Every element is different, so that a misplaced one shows.
template <typename T>
Mod<T> gen_distinct(Source &s, std::size_t r, std::size_t c)
{
    Mod<T> m(r, c);
    long k = 1 + static_cast<long>(s.draw(50));
    for (auto &v : m.d) {
        k += 1 + static_cast<long>(s.draw(2));
        if constexpr (is_cplx<T>) v = T(static_cast<real_of<T>>(k), static_cast<real_of<T>>(-k - 1));
        else v = static_cast<T>(s.draw(4) == 3 ? -k : k);
    }
    return m;
}
template <typename T>
Mod<T> gen_any(Source &s, std::size_t big = 20)
{
    if (s.draw(2)) return gen<T>(s, big);
    Shape sh = gen_shape_any(s, big);
    return gen_distinct<T>(s, sh.r, sh.c);
}

template <typename T>
void transposes(Source &s)
{
    Mod<T> m = gen_any<T>(s, 30);
    s.nontrivial(m.size() >= 2 && varied(m.d));
    s.note() << tname<T>() << " " << show(m) << "\n";
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        auto t = malg::linalg::transpose(x);
        expect_eq(t, transposed(m), "transpose" + w);
        expect_eq(malg::linalg::transpose(t), m, "transpose of the transpose" + w);
        if constexpr (is_cplx<T>) {
            Mod<T> h = transposed(m);
            for (auto &v : h.d) v = T(v.real(), -v.imag());
            auto a = malg::linalg::hermitian_transpose(x), b = malg::linalg::conjugate_transpose(x);
            expect_eq(a, h, "hermitian_transpose" + w);
            expect_eq(b, h, "conjugate_transpose" + w);
            expect_eq(malg::linalg::hermitian_transpose(a), m, "hermitian_transpose twice" + w);
        }
    });
}

template <typename A, typename B>
void stacking(Source &s)
{
    using C       = common_of<A, B>;
    std::size_t n = gen_dim(s, 1, 14), p = gen_dim(s, 1, 10), q = gen_dim(s, 1, 10);
    bool vert     = s.draw(2) != 0;
    if (s.draw(16) == 15) (s.draw(2) ? p : q) = 0;
    Mod<A> a = vert ? gen_distinct<A>(s, p, n) : gen_distinct<A>(s, n, p);
    Mod<B> b = vert ? gen_distinct<B>(s, q, n) : gen_distinct<B>(s, n, q);
    std::vector<B> v = gen_vec<B>(s, n, MEDIUM);
    s.nontrivial(n >= 2 && p >= 1 && q >= 1);
    s.note() << (vert ? "vstack " : "hstack ") << show(a) << " and " << show(b) << " or " << show(v) << "\n";
    auto want = [&](std::size_t extra, auto &&second) {
        Mod<C> o(vert ? p + extra : n, vert ? n : p + extra);
        for (std::size_t i = 0; i < o.r; ++i)
            for (std::size_t j = 0; j < o.c; ++j) {
                std::size_t k = vert ? i : j;
                if (k < p) o(i, j) = to<C>(a(i, j));
                else o(i, j) = to<C>(second(vert ? i - p : i, vert ? j : j - p));
            }
        return o;
    };
    Mod<C> mm = want(q, b), mv = want(1, [&](std::size_t i, std::size_t j) { return v[vert ? j : i]; });
    malg::Vector<B> vec = to_malg(v);
    auto check          = [&](const auto &x, const auto &y, const std::string &w) {
        auto r = [&] { if (vert) return malg::utility::vstack(x, y); return malg::utility::hstack(x, y); }();
        expect_eq(r, mm, (vert ? "vstack" : "hstack") + w);
        auto rv = [&] { if (vert) return malg::utility::vstack(x, vec); return malg::utility::hstack(x, vec); }();
        expect_eq(rv, mv, (vert ? "vstack" : "hstack") + w + " and a vector");
        if (p > 0 && q > 0) { // stack then extract
            Mod<C> ca(a.r, a.c), cb(b.r, b.c);
            for (std::size_t i = 0; i < a.d.size(); ++i) ca.d[i] = to<C>(a.d[i]);
            for (std::size_t i = 0; i < b.d.size(); ++i) cb.d[i] = to<C>(b.d[i]);
            if (vert) {
                expect_eq(malg::utility::extract(r, 0, p), ca, "extraction of the first part");
                expect_eq(malg::utility::extract(r, p), cb, "extraction of the second part");
            } else {
                expect_eq(malg::utility::extract(r, 0, END, 0, p), ca, "extraction of the first part");
                expect_eq(malg::utility::extract(r, 0, END, p), cb, "extraction of the second part");
            }
        }
    };
    if (p == 0 || q == 0 || s.draw(3) == 0) {
        malg::Matrix<A> x = to_malg(a);
        malg::Matrix<B> y = to_malg(b);
        check(x, y, " of matrices");
        expect_eq(x, a, "stacking: first operand");
        expect_eq(y, b, "stacking: second operand");
    } else if (s.draw(2)) {
        ConstOperand<A> x(s, a);
        ConstOperand<B> y(s, b);
        check(x.cref(), y.cref(), " of constant views");
    } else {
        Operand<A> x(s, a);
        Operand<B> y(s, b);
        check(x.cref(), y.cref(), std::string(" of a ") + x.form() + " and a " + y.form());
        x.check_unchanged(a, "stacking");
        y.check_unchanged(b, "stacking");
    }
    expect_eq(vec, v, "stacking: vector");
}

template <typename A, typename B>
void joining(Source &s)
{
    using C       = common_of<A, B>;
    std::size_t n = s.draw(10) ? gen_len(s, 1, 100) : 0, m = s.draw(10) ? gen_len(s, 1, 100) : 0;
    std::vector<A> a = gen_vec<A>(s, n, MEDIUM);
    std::vector<B> b = gen_vec<B>(s, m, MEDIUM);
    s.nontrivial(n >= 1 && m >= 1);
    s.note() << show(a) << " and " << show(b) << "\n";
    malg::Vector<A> x = to_malg(a);
    malg::Vector<B> y = to_malg(b);
    std::vector<C> want;
    for (auto &v : a) want.push_back(to<C>(v));
    for (auto &v : b) want.push_back(to<C>(v));
    expect_eq(malg::utility::concatenate(x, y), want, "concatenate");
    expect_eq(x, a, "concatenate: first operand");
    expect_eq(y, b, "concatenate: second operand");
}

/// An end that is inside, exactly at the border, or beyond it.
inline std::size_t gen_end(Source &s, std::size_t start, std::size_t n)
{
    switch (s.draw(5)) {
    case 0: return n;
    case 1: return END;
    case 2: return n + 1 + s.draw(3);
    default: return start + 1 + s.draw(n - start);
    }
}
template <typename T>
void extraction(Source &s)
{
    Mod<T> m = gen_any<T>(s);
    std::size_t r0 = s.draw(m.r), c0 = s.draw(m.c), r1 = gen_end(s, r0, m.r), c1 = gen_end(s, c0, m.c);
    std::size_t re = std::min(r1, m.r), ce = std::min(c1, m.c);
    std::size_t row = s.draw(m.r), col = s.draw(m.c);
    s.nontrivial(m.size() >= 4 && varied(m.d));
    s.note() << show(m) << " rows " << r0 << " to " << r1 << " columns " << c0 << " to " << c1 << ", row " << row << ", column " << col << "\n";
    Mod<T> blk(re - r0, ce - c0);
    std::vector<T> vc, vr, wc, wr, dg, rv(m.size());
    for (std::size_t i = r0; i < re; ++i)
        for (std::size_t j = c0; j < ce; ++j) blk(i - r0, j - c0) = m(i, j);
    for (std::size_t i = r0; i < re; ++i) vc.push_back(m(i, col));
    for (std::size_t j = c0; j < ce; ++j) vr.push_back(m(row, j));
    for (std::size_t i = 0; i < m.r; ++i) wc.push_back(m(i, col));
    for (std::size_t j = 0; j < m.c; ++j) wr.push_back(m(row, j));
    for (std::size_t i = 0; i < std::min(m.r, m.c); ++i) dg.push_back(m(i, i));
    for (std::size_t p = 0; p < m.size(); ++p) rv[p] = m.lin(p);
    Mod<T> cof(m.r - 1, m.c - 1);
    for (std::size_t i = 0; i < cof.r; ++i)
        for (std::size_t j = 0; j < cof.c; ++j) cof(i, j) = m(i + (i >= row), j + (j >= col));
    on_operand<T>(s, m, [&](const auto &x, const std::string &w) {
        using namespace malg;
        expect_eq(utility::extract(x, r0, r1, c0, c1), blk, "extract" + w);
        expect_eq(utility::extract(x), m, "extract everything" + w);
        expect_eq(utility::extract_column(x, col, r0, r1), vc, "extract_column" + w);
        expect_eq(utility::extract_row(x, row, c0, c1), vr, "extract_row" + w);
        expect_eq(utility::extract_column(x, col), wc, "extract a whole column" + w);
        expect_eq(utility::extract_row(x, row), wr, "extract a whole row" + w);
        expect_eq(utility::diag(x), dg, "diagonal" + w);
        expect_eq(utility::ravel(x), rv, "ravel" + w);
        expect_eq(linalg::cofactor(x, row, col), cof, "cofactor" + w);
        expect_rejected([&] { utility::extract(x, m.r + s.draw(2)); }, "extract from below the matrix");
        expect_rejected([&] { utility::extract_column(x, m.c + s.draw(2)); }, "extract_column outside the matrix");
    });
}

template <typename T>
void conversions(Source &s)
{
    using namespace malg;
    Mod<T> m = gen_any<T>(s);
    s.nontrivial(m.size() >= 2 && varied(m.d));
    s.note() << show(m) << "\n";
    Matrix<T> x = to_malg(m);
    std::vector<T> flat(m.size());
    for (std::size_t p = 0; p < m.size(); ++p) flat[p] = m.lin(p);
    auto v = utility::to_vector(x);
    expect_eq(v, flat, "to_vector");
    Mod<T> row(1, m.size()), col(m.size(), 1), dg(m.size() < 60 ? m.size() : 0, m.size() < 60 ? m.size() : 0, T(0));
    for (std::size_t p = 0; p < flat.size(); ++p) {
        row(0, p) = flat[p], col(p, 0) = flat[p];
        if (dg.r) dg(p, p) = flat[p];
    }
    expect_eq(utility::to_matrix(v, true), row, "to_matrix by row");
    expect_eq(utility::to_matrix(v, false), col, "to_matrix by column");
    expect_eq(utility::to_vector(utility::to_matrix(v, s.draw(2) != 0)), flat, "vector to matrix to vector");
    if (dg.r) {
        expect_eq(utility::diag(v), dg, "diagonal matrix");
        expect_eq(utility::diag(utility::diag(v)), flat, "diagonal of a diagonal matrix");
    }
    // Flattening and reshaping back.
    auto back = utility::to_matrix(utility::ravel(x), true);
    back.reshape(m.r, m.c);
    expect_eq(back, m, "reshape of the flattened matrix");
    expect_eq(v, flat, "conversions: operand");
    expect_eq(x, m, "conversions: operand");
    Vector<T> e;
    CHECK(utility::to_matrix(e, true).size() == 0 && utility::diag(e).size() == 0, << "conversions of an empty vector");
}

/// The operations that change their argument, in a sequence.
template <typename T>
void changing(Source &s)
{
    using namespace malg;
    Mod<T> m      = gen_any<T>(s, 14);
    std::size_t n = 1 + s.draw(6);
    s.nontrivial(n >= 2 && m.size() >= 4 && varied(m.d));
    s.note() << show(m) << "\n";
    Matrix<T> x = to_malg(m);
    for (std::size_t k = 0; k < n && m.r > 0 && m.c > 0; ++k) {
        std::size_t op = s.draw(4);
        std::size_t i = s.draw(m.r), j = s.draw(m.r), p = s.draw(m.c), q = s.draw(m.c);
        bool range = s.draw(2) != 0;
        std::size_t lim = op == 0 ? m.c : m.r;
        std::size_t a = range ? s.draw(lim + 1) : 0, b = range ? (s.draw(4) == 3 ? END : s.draw(lim + 3)) : END;
        std::string w;
        Mod<T> before = m;
        switch (op) {
        case 0: {
            w = "swap_rows " + std::to_string(i) + " " + std::to_string(j) + " from " + std::to_string(a) + " to " + std::to_string(b);
            for (std::size_t c = a; c < m.c && c < b; ++c) std::swap(m(i, c), m(j, c));
            if (s.draw(2)) {
                Operand<T> y(s, before);
                range ? utility::swap_rows(y.ref(), i, j, a, b) : utility::swap_rows(y.ref(), i, j);
                expect_eq(y.cref(), m, w + " in a " + y.form());
                y.check_outside(w);
                range ? utility::swap_rows(y.ref(), j, i, a, b) : utility::swap_rows(y.ref(), j, i);
                expect_eq(y.cref(), before, w + " twice in a " + y.form());
            }
            range ? utility::swap_rows(x, i, j, a, b) : utility::swap_rows(x, i, j);
            break;
        }
        case 1: {
            w = "swap_cols " + std::to_string(p) + " " + std::to_string(q) + " from " + std::to_string(a) + " to " + std::to_string(b);
            for (std::size_t r = a; r < m.r && r < b; ++r) std::swap(m(r, p), m(r, q));
            if (s.draw(2)) {
                Operand<T> y(s, before);
                range ? utility::swap_cols(y.ref(), p, q, a, b) : utility::swap_cols(y.ref(), p, q);
                expect_eq(y.cref(), m, w + " in a " + y.form());
                y.check_outside(w);
                range ? utility::swap_cols(y.ref(), q, p, a, b) : utility::swap_cols(y.ref(), q, p);
                expect_eq(y.cref(), before, w + " twice in a " + y.form());
            }
            range ? utility::swap_cols(x, p, q, a, b) : utility::swap_cols(x, p, q);
            break;
        }
        case 2: {
            w = "remove_row " + std::to_string(i);
            Mod<T> o(m.r - 1, m.c);
            for (std::size_t r = 0; r < o.r; ++r)
                for (std::size_t c = 0; c < o.c; ++c) o(r, c) = m(r + (r >= i), c);
            m       = o;
            auto &y = utility::remove_row(x, i);
            CHECK(&y == &x, << "remove_row returns another matrix");
            break;
        }
        default: {
            w = "remove_column " + std::to_string(p);
            Mod<T> o(m.r, m.c - 1);
            for (std::size_t r = 0; r < o.r; ++r)
                for (std::size_t c = 0; c < o.c; ++c) o(r, c) = m(r, c + (c >= p));
            m       = o;
            auto &y = utility::remove_column(x, p);
            CHECK(&y == &x, << "remove_column returns another matrix");
        }
        }
        s.note() << w << "\n";
        expect_eq(x, m, w);
    }
}
} // namespace c10

#define TYPE(n, T)                  \
    PROP(transposes_##n, 2)         \
    {                               \
        c10::transposes<T>(s);      \
    }                               \
    PROP(extraction_##n, 3)         \
    {                               \
        c10::extraction<T>(s);      \
    }                               \
    PROP(conversions_##n, 1)        \
    {                               \
        c10::conversions<T>(s);     \
    }                               \
    PROP(changing_##n, 3)           \
    {                               \
        c10::changing<T>(s);        \
    }
#define PAIR(n, A, B)               \
    PROP(stacking_##n, 3)           \
    {                               \
        c10::stacking<A, B>(s);     \
    }                               \
    PROP(joining_##n, 1)            \
    {                               \
        c10::joining<A, B>(s);      \
    }
