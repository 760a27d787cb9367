// C02: matrices under histories of operations, against plain tables.
#include "gen.hpp"
#include <optional>

namespace
{
enum Kind {
    DEFAULT, SIZED, FILLED, FLAT_LIST, STD_VECTOR, NESTED, COPY, MOVE, XCOPY, XMOVE, FROM_VIEW, FROM_COF, FROM_XVIEW,
    ASSIGN, ASSIGN_BASE, MASSIGN, XASSIGN, XASSIGN_VIEW, ASSIGN_VIEW, ASSIGN_CONST_VIEW, ASSIGN_COF, ASSIGN_NESTED,
    RESHAPE, RESIZE, RESIZE_F, REMOVE_ROW, REMOVE_COL, WRITE, WRITE_LIN, WRITE_ALL, WRITE_DATA, SWAP, XFILL, N_KIND
};
const char *kind_name[] = {
    "default", "sized", "filled", "from list", "from std::vector", "from nested list", "copy", "move", "copy from U", "move from U", "from view", "from cofactor view", "from view of U",
    "assign", "assign base", "move assign", "assign from U", "assign from view of U", "assign view", "assign constant view", "assign cofactor view", "assign nested list",
    "reshape", "resize", "resize function", "remove row", "remove column", "write", "write linear", "write all", "write data", "swap", "fill U"
};
constexpr int NT = 3, NU = 2;

template <typename T>
struct Op {
    int kind;
    int a, b;
    std::size_t r, c, i, j;
    std::vector<T> v;
};

struct Window {
    std::size_t r0, r1, c0, c1; // [r0, r1), r1 may be beyond the end
};
// A non-empty window of a matrix of the given shape, out of raw numbers.
template <typename T>
Window window(const Op<T> &o, std::size_t rows, std::size_t cols)
{
    Window w;
    w.r0 = o.i % rows, w.c0 = o.j % cols;
    w.r1 = w.r0 + 1 + o.r % (rows - w.r0 + 2), w.c1 = w.c0 + 1 + o.c % (cols - w.c0 + 2);
    return w;
}
template <typename T>
Mod<T> cut(const Mod<T> &m, const Window &w)
{
    std::size_t r1 = std::min(w.r1, m.r), c1 = std::min(w.c1, m.c);
    Mod<T> o(r1 - w.r0, c1 - w.c0);
    for (std::size_t i = 0; i < o.r; ++i)
        for (std::size_t j = 0; j < o.c; ++j) o(i, j) = m(w.r0 + i, w.c0 + j);
    return o;
}
template <typename T>
Mod<T> cofactor_of(const Mod<T> &m, std::size_t i0, std::size_t j0)
{
    Mod<T> o(m.r - 1, m.c - 1);
    for (std::size_t i = 0; i < o.r; ++i)
        for (std::size_t j = 0; j < o.c; ++j) o(i, j) = m(i + (i >= i0), j + (j >= j0));
    return o;
}
template <typename T, typename U>
Mod<T> conv(const Mod<U> &m)
{
    Mod<T> o(m.r, m.c);
    for (std::size_t i = 0; i < m.d.size(); ++i) o.d[i] = m.d[i];
    return o;
}
// Shapes of the nested lists that can be written down.
inline Shape nested_shape(std::size_t k)
{
    static const Shape sh[] = { { 1, 1 }, { 1, 3 }, { 2, 2 }, { 3, 1 }, { 2, 3 }, { 3, 2 } };
    return sh[k % 6];
}
template <typename T, typename F>
void with_nested(const std::vector<T> &v, std::size_t k, F &&f)
{
    using LL  = std::initializer_list<std::initializer_list<T>>;
    auto at = [&](std::size_t i) { return v[i % v.size()]; };
    switch (k % 6) {
    case 0: f(LL{ { at(0) } }); break;
    case 1: f(LL{ { at(0), at(1), at(2) } }); break;
    case 2: f(LL{ { at(0), at(1) }, { at(2), at(3) } }); break;
    case 3: f(LL{ { at(0) }, { at(1) }, { at(2) } }); break;
    case 4: f(LL{ { at(0), at(1), at(2) }, { at(3), at(4), at(5) } }); break;
    default: f(LL{ { at(0), at(1) }, { at(2), at(3) }, { at(4), at(5) } }); break;
    }
}
template <typename T>
Mod<T> nested_model(const std::vector<T> &v, std::size_t k)
{
    Shape s = nested_shape(k);
    Mod<T> m(s.r, s.c);
    for (std::size_t i = 0; i < m.d.size(); ++i) m.d[i] = v[i % v.size()];
    return m;
}

// What the matrices of the other type are filled with.
template <typename U>
U fill_value(std::size_t k)
{
    int v = static_cast<int>(k % 19) - 9;
    if constexpr (std::is_integral_v<U> && sizeof(U) == 8)
        if (k % 2) return v * ((U(1) << 53) + 1);
    return static_cast<U>(v);
}

template <typename T, typename U>
struct Real {
    std::optional<malg::Matrix<T>> t[NT];
    std::optional<malg::Matrix<U>> u[NU];
    bool rejected = false;
    Real()
    {
        for (auto &x : t) x.emplace();
        for (auto &x : u) x.emplace();
    }
    void apply(const Op<T> &o)
    {
        using M = malg::Matrix<T>;
        using X = malg::Matrix<U>;
        auto &A = t[o.a];
        auto &B = t[o.b % NT];
        auto &Y = u[o.b % NU];
        rejected = false;
        try {
            switch (o.kind) {
            case DEFAULT: A.emplace(); break;
            case SIZED: A.emplace(o.r, o.c); break;
            case FILLED: A.emplace(o.r, o.c, o.v[0]); break;
            case FLAT_LIST: {
                const T a = o.v[0], b = o.v[1], c = o.v[2], d = o.v[3];
                switch (o.i % 5) {
                case 0: A.emplace(M(2, 2, { a, b, c, d })); break;
                case 1: A.emplace(M(1, 4, { a, b, c, d })); break;
                case 2: A.emplace(M(4, 1, { a, b, c, d })); break;
                case 3: A.emplace(M(3, 2, { a, b, c, d, a, b })); break;
                default: A.emplace(M(2, 3, { a, b, c, d, a, b })); break;
                }
                break;
            }
            case STD_VECTOR: {
                std::vector<T> l(o.r * o.c);
                for (std::size_t k = 0; k < l.size(); ++k) l[k] = o.v[k % o.v.size()];
                A.emplace(M(o.r, o.c, l));
                break;
            }
            case NESTED: with_nested<T>(o.v, o.i, [&](const std::initializer_list<std::initializer_list<T>> &l) { A.emplace(M(l)); }); break;
            case COPY: {
                M x(*B);
                A.emplace(x);
                break;
            }
            case MOVE: {
                M x(std::move(*B));
                A.emplace(std::move(x));
                break;
            }
            case XCOPY: {
                const X &y = *Y;
                A.emplace(M(y));
                break;
            }
            case XMOVE: A.emplace(M(std::move(*Y))); break;
            case FROM_VIEW: {
                if (B->empty()) break;
                Window w = window(o, B->rows(), B->cols());
                malg::View<M> v(&*B, w.r0, w.r1, w.c0, w.c1);
                M x(v);
                A.emplace(std::move(x));
                break;
            }
            case FROM_COF: {
                if (B->empty()) break;
                const malg::CofactorView<M> v(&*B, o.i % B->rows(), o.j % B->cols());
                M x(v);
                A.emplace(std::move(x));
                break;
            }
            case FROM_XVIEW: {
                if (Y->empty()) break;
                Window w = window(o, Y->rows(), Y->cols());
                malg::View<X> v(&*Y, w.r0, w.r1, w.c0, w.c1);
                A.emplace(M(v));
                break;
            }
            case ASSIGN: *A = *B; break;
            case ASSIGN_BASE: *A = static_cast<const malg::MatrixBase<T> &>(*B); break;
            case MASSIGN: *A = std::move(*B); break;
            case XASSIGN: {
                const X &y = *Y;
                *A         = y;
                break;
            }
            case XASSIGN_VIEW: {
                if (Y->empty()) break;
                Window w = window(o, Y->rows(), Y->cols());
                *A       = malg::View<X>(&*Y, w.r0, w.r1, w.c0, w.c1);
                break;
            }
            case ASSIGN_VIEW: {
                if (B->empty()) break;
                Window w = window(o, B->rows(), B->cols());
                if (o.v.size() % 2) *A = (*B)(malg::Range{ w.r0, w.r1 }, malg::Range{ w.c0, w.c1 });
                else *A = malg::View<M>(&*B, w.r0, w.r1, w.c0, w.c1);
                break;
            }
            case ASSIGN_CONST_VIEW: {
                if (B->empty()) break;
                Window w   = window(o, B->rows(), B->cols());
                const M &b = *B;
                *A         = b(malg::Range{ w.r0, w.r1 }, malg::Range{ w.c0, w.c1 });
                break;
            }
            case ASSIGN_COF:
                if (B->empty()) break;
                *A = malg::CofactorView<M>(&*B, o.i % B->rows(), o.j % B->cols());
                break;
            case ASSIGN_NESTED: with_nested<T>(o.v, o.i, [&](const std::initializer_list<std::initializer_list<T>> &l) { *A = l; }); break;
            case RESHAPE: A->reshape(o.r, o.c); break;
            case RESIZE: A->resize(o.r, o.c); break;
            case RESIZE_F: malg::utility::resize(*A, o.r, o.c); break;
            case REMOVE_ROW: malg::utility::remove_row(*A, o.i % (A->rows() + 2)); break;
            case REMOVE_COL: malg::utility::remove_column(*A, o.j % (A->cols() + 2)); break;
            case WRITE:
                if (A->empty()) break;
                if (o.v.size() % 2) A->at(o.i % A->rows(), o.j % A->cols()) = o.v[0];
                else (*A)(o.i % A->rows(), o.j % A->cols()) = o.v[0];
                break;
            case WRITE_LIN:
                if (A->size()) (*A)[o.i % A->size()] = o.v[0];
                break;
            case WRITE_ALL: {
                std::size_t k = 0;
                for (auto &x : *A) x = o.v[k++ % o.v.size()];
                break;
            }
            case WRITE_DATA:
                if (A->size()) A->data()[o.i % A->size()] = o.v[0];
                break;
            case SWAP: std::swap(*A, *B); break;
            case XFILL:
                Y->resize(o.r, o.c);
                for (std::size_t k = 0; k < Y->size(); ++k) (*Y)[k] = fill_value<U>(k * 5 + o.i);
                break;
            }
        } catch (const std::invalid_argument &) {
            rejected = true;
        }
    }
};

template <typename T, typename U>
struct Ref {
    Mod<T> t[NT];
    Mod<U> u[NU];
    /// Returns whether the operation must be rejected.
    bool apply(const Op<T> &o, const Real<T, U> &real)
    {
        auto &A  = t[o.a];
        auto &B  = t[o.b % NT];
        auto &Y  = u[o.b % NU];
        auto none = [](const auto &m) { return m.r == 0 || m.c == 0; };
        switch (o.kind) {
        case DEFAULT: A = Mod<T>(); break;
        case SIZED: A = Mod<T>(o.r, o.c, T(0)); break;
        case FILLED: A = Mod<T>(o.r, o.c, o.v[0]); break;
        case FLAT_LIST: {
            static const Shape sh[] = { { 2, 2 }, { 1, 4 }, { 4, 1 }, { 3, 2 }, { 2, 3 } };
            Shape s                 = sh[o.i % 5];
            A                       = Mod<T>(s.r, s.c);
            for (std::size_t k = 0; k < A.d.size(); ++k) A.d[k] = o.v[k % 4];
            break;
        }
        case STD_VECTOR:
            A = Mod<T>(o.r, o.c);
            for (std::size_t k = 0; k < A.d.size(); ++k) A.d[k] = o.v[k % o.v.size()];
            break;
        case NESTED:
        case ASSIGN_NESTED: A = nested_model(o.v, o.i); break;
        case COPY:
        case ASSIGN:
        case ASSIGN_BASE: A = Mod<T>(B); break;
        case MOVE: {
            Mod<T> x = B;
            B        = Mod<T>();
            A        = x;
            break;
        }
        case MASSIGN:
            if (o.a != o.b) A = B, B = Mod<T>();
            break;
        case XCOPY:
        case XASSIGN: A = conv<T>(Y); break;
        case XMOVE:
            A = conv<T>(Y);
            if (real.u[o.b % NU]->rows() == 0 && real.u[o.b % NU]->cols() == 0) Y = Mod<U>();
            break;
        case FROM_XVIEW:
        case XASSIGN_VIEW:
            if (!none(Y)) A = conv<T>(cut(Y, window(o, Y.r, Y.c)));
            break;
        case FROM_VIEW:
        case ASSIGN_VIEW:
        case ASSIGN_CONST_VIEW:
            if (!none(B)) A = cut(B, window(o, B.r, B.c));
            break;
        case FROM_COF:
        case ASSIGN_COF:
            if (!none(B)) A = cofactor_of(B, o.i % B.r, o.j % B.c);
            break;
        case RESHAPE: {
            if (A.size() != o.r * o.c) return true;
            Mod<T> x(o.r, o.c);
            for (std::size_t p = 0; p < x.size(); ++p) x.lin(p) = A.lin(p);
            A = x;
            break;
        }
        case RESIZE:
        case RESIZE_F: {
            Mod<T> x(o.r, o.c, T(0));
            for (std::size_t i = 0; i < std::min(A.r, x.r); ++i)
                for (std::size_t j = 0; j < std::min(A.c, x.c); ++j) x(i, j) = A(i, j);
            A = x;
            break;
        }
        case REMOVE_ROW: {
            std::size_t k = o.i % (A.r + 2);
            if (k >= A.r) return true;
            Mod<T> x(A.r - 1, A.c);
            for (std::size_t i = 0; i < x.r; ++i)
                for (std::size_t j = 0; j < x.c; ++j) x(i, j) = A(i + (i >= k), j);
            A = x;
            break;
        }
        case REMOVE_COL: {
            std::size_t k = o.j % (A.c + 2);
            if (k >= A.c) return true;
            Mod<T> x(A.r, A.c - 1);
            for (std::size_t i = 0; i < x.r; ++i)
                for (std::size_t j = 0; j < x.c; ++j) x(i, j) = A(i, j + (j >= k));
            A = x;
            break;
        }
        case WRITE:
            if (!none(A)) A(o.i % A.r, o.j % A.c) = o.v[0];
            break;
        case WRITE_LIN:
        case WRITE_DATA:
            if (A.size()) A.lin(o.i % A.size()) = o.v[0];
            break;
        case WRITE_ALL:
            for (std::size_t p = 0; p < A.size(); ++p) A.lin(p) = o.v[p % o.v.size()];
            break;
        case SWAP: std::swap(A, B); break;
        case XFILL: {
            Mod<U> x(o.r, o.c);
            for (std::size_t p = 0; p < x.size(); ++p) x.lin(p) = fill_value<U>(p * 5 + o.i);
            Y = x;
            break;
        }
        }
        return false;
    }
};

template <typename T>
void agree(malg::Matrix<T> &v, const Mod<T> &m, const std::string &what)
{
    const malg::Matrix<T> &c = v;
    expect_eq(c, m, what);
    CHECK(c.empty() == (m.size() == 0), << what << ": empty() of " << m.r << "x" << m.c);
    CHECK(static_cast<std::size_t>(c.end() - c.begin()) == m.size() && static_cast<std::size_t>(v.end() - v.begin()) == m.size(), << what << ": the iterators span another length");
    std::size_t p = 0;
    for (const T &x : c) {
        CHECK(same<T>(x, m.lin(p)) && same<T>(v[p], m.lin(p)), << what << ": iterated element " << p << " is " << show<T>(x) << " instead of " << show<T>(m.lin(p)));
        ++p;
    }
    if (m.size()) CHECK(c.data() == &c[0] && v.data() == &v[0], << what << ": data()");
    for (std::size_t i = 0; i < m.r; ++i)
        for (std::size_t j = 0; j < m.c; ++j) CHECK(&v.at(i, j) == &c.at(i, j) && &v(i, j) == &c.at(i, j), << what << ": (" << i << "," << j << ") is two elements");
}

template <typename T, typename U>
void history(Source &s)
{
    s.note() << "elements " << tname<T>() << ", other elements " << tname<U>() << "\n";
    std::vector<Op<T>> ops;
    const std::size_t n_ops = 1 + s.draw(s.draw(4) == 0 ? 40 : 12);
    const std::size_t big   = s.chance(1, 20) ? (s.draw(6) == 5 ? 200 : 40) : 8;
    std::size_t last_r = 1, last_c = 1;
    bool shaped = false, viewed = false, moved = false;
    for (std::size_t n = 0; n < n_ops; ++n) {
        Op<T> o;
        o.kind = static_cast<int>(s.draw(N_KIND));
        o.a    = static_cast<int>(s.draw(NT));
        o.b    = s.draw(4) == 3 ? o.a : static_cast<int>(s.draw(NT));
        o.i = s.draw(97), o.j = s.draw(89);
        switch (s.pick({ 6, 3, 1 })) {
        case 0: o.r = s.draw(6), o.c = s.draw(6); break;
        case 1: // Related to the shape before, so that reshapes are valid.
            switch (s.draw(4)) {
            case 0: o.r = last_c, o.c = last_r; break;
            case 1: o.r = 1, o.c = last_r * last_c; break;
            case 2: o.r = last_r * last_c, o.c = 1; break;
            default: o.r = last_r, o.c = s.draw(big); break;
            }
            break;
        default: o.r = s.draw(big), o.c = s.draw(big); break;
        }
        if (o.r * o.c > 4000) o.r = 2, o.c = 3;
        if (o.kind < FLAT_LIST || o.kind == STD_VECTOR || o.kind == RESIZE || o.kind == RESIZE_F) last_r = o.r, last_c = o.c;
        if (o.kind == NESTED || o.kind == ASSIGN_NESTED) last_r = nested_shape(o.i).r, last_c = nested_shape(o.i).c;
        o.v = gen_vec<T>(s, 4 + s.draw(4), s.draw(5) == 4 ? REAL : SMALL);
        if constexpr (std::is_integral_v<T> && sizeof(T) == 8) // more digits than a double has
            for (auto &x : o.v)
                if (s.draw(3)) x = x * ((T(1) << 53) + 1) + T(s.draw(1000));
        if (s.noting()) s.note() << kind_name[o.kind] << " a=" << o.a << " b=" << o.b << " " << o.r << "x" << o.c << " i=" << o.i << " j=" << o.j << " values " << show(o.v) << "\n";
        shaped |= (o.kind >= RESHAPE && o.kind <= REMOVE_COL);
        viewed |= (o.kind >= FROM_VIEW && o.kind <= FROM_XVIEW) || (o.kind >= XASSIGN_VIEW && o.kind <= ASSIGN_COF);
        moved |= o.kind == MOVE || o.kind == MASSIGN || o.kind == SWAP || o.kind == XMOVE;
        ops.push_back(std::move(o));
    }
    bool empties = false, some = false;
    {
        Real<T, U> real;
        Ref<T, U> ref;
        std::size_t k = 0;
        for (auto &o : ops) {
            real.apply(o);
            bool want = ref.apply(o, real);
            ++k;
            std::string what = "after operation " + std::to_string(k) + " (" + kind_name[o.kind] + ")";
            CHECK(real.rejected == want, << what << ": " << (want ? "not rejected" : "rejected"));
            if (want) s.label("rejected operation");
            for (int i = 0; i < NT; ++i) {
                agree(*real.t[i], ref.t[i], "matrix " + std::to_string(i) + " " + what);
                if (ref.t[i].size() > 3) some = true;
                if (some && ref.t[i].size() == 0) empties = true;
            }
            for (int i = 0; i < NU; ++i) agree(*real.u[i], ref.u[i], "matrix of U " + std::to_string(i) + " " + what);
        }
    }
    s.nontrivial(ops.size() >= 4 && some && (shaped + viewed + moved) >= 2);
    if (shaped) s.label("shape changed");
    if (viewed) s.label("view");
    if (moved) s.label("move");
    if (empties) s.label("empty among others");
    if (n_ops > 12) s.label("long history");
    std::size_t before = pbt::bytes_in_use();
    {
        Real<T, U> real;
        for (auto &o : ops) real.apply(o);
    }
    std::size_t after = pbt::bytes_in_use();
    CHECK(before == after, << "the history leaves " << (after - before) << " bytes allocated");
}
} // namespace

PROP(history_int, 3)
{
    history<int, double>(s);
}
PROP(history_double, 3)
{
    if (s.draw(2)) history<double, float>(s);
    else history<double, int>(s);
}
PROP(history_complex, 2)
{
    history<cd, double>(s);
}
PROP(history_float, 1)
{
    history<float, long>(s);
}
PROP(history_long, 1)
{
    history<long, long long>(s);
}
// Lists that hold nothing are rejected, or ignored by the assignment.
PROP(empty_lists, 1)
{
    using LL = std::initializer_list<std::initializer_list<double>>;
    Shape sh = gen_shape(s, 6);
    auto m   = gen_mod<double>(s, sh.r, sh.c, SMALL);
    auto M   = to_malg(m);
    bool k   = s.draw(2);
    expect_rejected([&] { malg::Matrix<double> x(k ? LL{} : LL{ {} }); }, "construction from an empty list");
    if (k) M = LL{};
    else M = LL{ {} };
    agree(M, m, "assignment of an empty list");
    s.nontrivial();
}
VERIF_MAIN
