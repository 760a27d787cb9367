// C03: live views of a matrix under interleaved writes, against index maps.
#include "gen.hpp"
#include <iostream>

namespace
{
using malg::CofactorView;
using malg::Matrix;
using malg::MatrixBase;
using malg::Range;
using malg::View;
constexpr std::size_t END = std::numeric_limits<std::size_t>::max();

// What a view selects of what it looks at.
struct Spec {
    bool cof = false;
    std::size_t r0 = 0, r1 = END, c0 = 0, c1 = END; // range
    std::size_t er = 0, ec = 0;                     // excluded
    int over = -1;                                  // another view, or the matrix
};
struct Maps {
    std::vector<std::size_t> r, c;
};
Maps select(const Spec &p, const Maps &in)
{
    Maps o;
    if (p.cof) {
        for (std::size_t i = 0; i < in.r.size(); ++i)
            if (i != p.er) o.r.push_back(in.r[i]);
        for (std::size_t j = 0; j < in.c.size(); ++j)
            if (j != p.ec) o.c.push_back(in.c[j]);
    } else {
        for (std::size_t i = p.r0; i < std::min(p.r1, in.r.size()); ++i) o.r.push_back(in.r[i]);
        for (std::size_t j = p.c0; j < std::min(p.c1, in.c.size()); ++j) o.c.push_back(in.c[j]);
    }
    return o;
}
Spec gen_spec(Source &s, std::size_t rows, std::size_t cols, bool cof)
{
    Spec p;
    p.cof = cof;
    if (cof) {
        p.er = s.draw(rows + (rows == 0 || s.draw(8) == 7 ? 2 : 0)), p.ec = s.draw(cols + (cols == 0 || s.draw(8) == 7 ? 2 : 0));
        return p;
    }
    auto range = [&](std::size_t n, std::size_t &a, std::size_t &b) {
        // Rarely a range that starts beyond the border.
        if (n == 0 || s.draw(12) == 11) {
            a = n + s.draw(3), b = s.draw(2) ? END : a + 1 + s.draw(3);
            return;
        }
        switch (s.draw(5)) {
        case 0: a = 0, b = END; break;
        case 1: a = s.draw(n), b = a + 1; break;
        case 2: a = s.draw(n), b = END; break;
        case 3: a = s.draw(n), b = a + 1 + s.draw(n - a); break;
        default: a = s.draw(n), b = a + 1 + s.draw(n + 3); break; // May end beyond.
        }
    };
    range(rows, p.r0, p.r1);
    range(cols, p.c0, p.c1);
    return p;
}

template <typename T>
struct Live {
    Spec spec;
    std::string kind;
    virtual ~Live() = default;
    virtual const MatrixBase<T> *mut() const
    {
        return nullptr;
    }
    virtual const MatrixBase<const T> *con() const
    {
        return nullptr;
    }
    virtual bool writable() const
    {
        return false;
    }
    /// Assigns in one of the ways; false if there is no such way.
    virtual bool assign(std::size_t, const Matrix<T> &)
    {
        return false;
    }
    /// Stores v at (i,j) in one of the ways.
    virtual void write(std::size_t, std::size_t, std::size_t, std::size_t, const T &)
    {
    }
    virtual void check(const Matrix<T> &M, const Mod<T> &m, const Maps &maps, const std::string &what) = 0;
};

template <typename T, typename V>
struct LiveOf : Live<T> {
    V v;
    LiveOf(V x)
        : v(x)
    {
    }
    static constexpr bool constant = std::is_const_v<typename V::T>;
    template <typename Z>
    struct is_view : std::false_type {
    };
    template <typename Z>
    struct is_view<View<Z>> : std::true_type {
    };
    bool writable() const override
    {
        return !constant;
    }
    bool assign(std::size_t way, const Matrix<T> &x) override
    {
        if constexpr (constant) return false;
        else {
            switch (way % 7) {
            case 0: v = x; return true;
            case 1: {
                // From another element type.
                using U = std::conditional_t<std::is_same_v<T, int>, long, float>;
                if constexpr (is_cplx<T>) {
                    v = static_cast<const MatrixBase<T> &>(x);
                } else {
                    Matrix<U> y(x);
                    v = y;
                }
                return true;
            }
            case 2: { // From a view of another matrix.
                Matrix<T> big(x.rows() + 2, x.cols() + 1, T(5));
                View<Matrix<T>> w(&big, 1, 1 + x.rows(), 1, 1 + x.cols());
                w = x;
                v = w;
                return true;
            }
            case 3: { // From a constant view.
                const View<const Matrix<T>> w(&x, Range::all(), Range::all());
                v = w;
                return true;
            }
            case 4: { // From a cofactor view.
                Matrix<T> big(x.rows() + 1, x.cols() + 1, T(5));
                CofactorView<Matrix<T>> w(&big, x.rows(), 0);
                w = x;
                v = w;
                return true;
            }
            case 5: { // From a view of the very same type.
                return same_type(x);
            }
            default:
                if constexpr (is_view<V>::value) return from_list(x);
                return false;
            }
        }
    }
    bool same_type(const Matrix<T> &x)
    {
        if constexpr (std::is_same_v<V, View<Matrix<T>>>) {
            Matrix<T> y(x);
            V w(&y, Range::all(), Range::all());
            v = w;
            return true;
        } else if constexpr (std::is_same_v<V, CofactorView<Matrix<T>>>) {
            Matrix<T> y(x.rows() + 1, x.cols() + 1, T(3));
            View<Matrix<T>>(&y, Range{ 1, y.rows() }, Range{ 1, y.cols() }) = x;
            V w(&y, 0, 0);
            v = w;
            return true;
        } else {
            v = V(v); // Itself: nothing may change, so write the values first.
            v = x;
            return true;
        }
    }
    bool from_list(const Matrix<T> &x)
    {
        using LL = std::initializer_list<std::initializer_list<T>>;
        auto at  = [&](std::size_t i, std::size_t j) { return x.at(i, j); };
        std::size_t r = x.rows(), c = x.cols();
        if (r == 1 && c == 1) v = LL{ { at(0, 0) } };
        else if (r == 1 && c == 2) v = LL{ { at(0, 0), at(0, 1) } };
        else if (r == 2 && c == 1) v = LL{ { at(0, 0) }, { at(1, 0) } };
        else if (r == 2 && c == 2) v = LL{ { at(0, 0), at(0, 1) }, { at(1, 0), at(1, 1) } };
        else if (r == 2 && c == 3) v = LL{ { at(0, 0), at(0, 1), at(0, 2) }, { at(1, 0), at(1, 1), at(1, 2) } };
        else if (r == 3 && c == 1) v = LL{ { at(0, 0) }, { at(1, 0) }, { at(2, 0) } };
        else {
            // A list of another shape is ignored.
            const T z = at(0, 0);
            if (r != 1 || c != 4) v = LL{ { z, z, z, z } };
            if (r != 3 || c != 2) v = LL{ { z, z }, { z, z }, { z, z } };
            v = LL{};
            v = LL{ {} };
            v = x;
        }
        return true;
    }
    void write(std::size_t way, std::size_t i, std::size_t j, std::size_t pos, const T &x) override
    {
        if constexpr (!constant) {
            switch (way % 4) {
            case 0: v.at(i, j) = x; break;
            case 1: v(i, j) = x; break;
            case 2: v[pos] = x; break;
            default: static_cast<MatrixBase<T> &>(v)(i, j) = x; break;
            }
        }
    }
    void check(const Matrix<T> &M, const Mod<T> &m, const Maps &maps, const std::string &what) override
    {
        const V &c = v;
        Mod<T> want(maps.r.size(), maps.c.size());
        for (std::size_t i = 0; i < want.r; ++i)
            for (std::size_t j = 0; j < want.c; ++j) want(i, j) = m(maps.r[i], maps.c[j]);
        expect_eq(c, want, what);
        CHECK(c.empty() == (want.size() == 0), << what << ": empty() of a view of " << want.r << "x" << want.c);
        for (std::size_t i = 0; i < want.r; ++i)
            for (std::size_t j = 0; j < want.c; ++j) {
                const T *e = &M.at(maps.r[i], maps.c[j]);
                CHECK(&c.at(i, j) == e && &c(i, j) == e && &v.at(i, j) == e && &v(i, j) == e, << what << ": (" << i << "," << j << ") is not the element (" << maps.r[i] << "," << maps.c[j] << ") of the matrix");
            }
        for (std::size_t p = 0; p < want.size(); ++p) {
            std::size_t i = row_major ? p / want.c : p % want.r, j = row_major ? p % want.c : p / want.r;
            const T *e = &M.at(maps.r[i], maps.c[j]);
            CHECK(&c[p] == e && &v[p] == e, << what << ": linear " << p << " is not the element (" << maps.r[i] << "," << maps.c[j] << ") of the matrix");
        }
    }
};

// The views that other views look at are kept alive and in place.
template <typename T>
struct World {
    Matrix<T> M;
    std::vector<std::unique_ptr<Live<T>>> views;
    Mod<T> m;

    Maps all() const
    {
        Maps a;
        for (std::size_t i = 0; i < m.r; ++i) a.r.push_back(i);
        for (std::size_t j = 0; j < m.c; ++j) a.c.push_back(j);
        return a;
    }
    Maps maps(int k) const
    {
        if (k < 0) return all();
        return select(views[static_cast<std::size_t>(k)]->spec, maps(views[static_cast<std::size_t>(k)]->spec.over));
    }
    template <typename V>
    V *as(int k)
    {
        auto *l = dynamic_cast<LiveOf<T, V> *>(views[static_cast<std::size_t>(k)].get());
        return l ? &l->v : nullptr;
    }
    template <typename V>
    void add(V v, const Spec &p, const char *kind)
    {
        auto l  = std::make_unique<LiveOf<T, V>>(v);
        l->spec = p;
        l->kind = kind;
        views.push_back(std::move(l));
    }
    void add_over_matrix(Source &s)
    {
        using M_         = Matrix<T>;
        const M_ &C      = M;
        std::size_t k    = s.draw(12);
        bool cof         = (k == 6 || k == 7);
        Spec p           = gen_spec(s, m.r, m.c, cof);
        switch (k) {
        case 0: add(View<M_>(&M, p.r0, p.r1, p.c0, p.c1), p, "View"); break;
        case 1: add(View<M_>(&M, Range{ p.r0, p.r1 }, Range{ p.c0, p.c1 }), p, "View of ranges"); break;
        case 2: add(M(Range{ p.r0, p.r1 }, Range{ p.c0, p.c1 }), p, "matrix(range, range)"); break;
        case 3: add(C(Range{ p.r0, p.r1 }, Range{ p.c0, p.c1 }), p, "constant matrix(range, range)"); break;
        case 4: add(View<const M_>(&C, p.r0, p.r1, p.c0, p.c1), p, "constant View"); break;
        case 5: add(malg::utility::view(M, p.r0, p.r1, p.c0, p.c1), p, "view()"); break;
        case 6: add(CofactorView<M_>(&M, p.er, p.ec), p, "CofactorView"); break;
        case 7: add(CofactorView<const M_>(&C, p.er, p.ec), p, "constant CofactorView"); break;
        case 8: p.r1 = p.r0 + 1, add(malg::utility::row(M, p.r0, p.c0, p.c1), p, "row()"); break;
        case 9: p.c1 = p.c0 + 1, add(malg::utility::col(M, p.c0, p.r0, p.r1), p, "col()"); break;
        case 10: p = Spec(), p.r0 = s.draw(m.r + 1), p.r1 = p.r0 + 1, add(malg::utility::row(M, p.r0), p, "whole row()"); break;
        default: p = Spec(), p.c0 = s.draw(m.c + 1), p.c1 = p.c0 + 1, add(malg::utility::col(M, p.c0), p, "whole col()"); break;
        }
    }
    template <typename V>
    bool over(V *v, int k, Source &s, std::size_t rows, std::size_t cols)
    {
        if (!v) return false;
        bool cof = s.draw(3) == 2;
        Spec p   = gen_spec(s, rows, cols, cof);
        p.over   = k;
        if (cof) add(CofactorView<V>(v, p.er, p.ec), p, "CofactorView of a view");
        else if (s.draw(3) == 2) add(View<const V>(v, p.r0, p.r1, p.c0, p.c1), p, "constant View of a view");
        else add(View<V>(v, p.r0, p.r1, p.c0, p.c1), p, "View of a view");
        return true;
    }
    void add_over_view(Source &s)
    {
        int k  = static_cast<int>(s.draw(views.size()));
        Maps x = maps(k);
        using M_ = Matrix<T>;
        over(as<View<M_>>(k), k, s, x.r.size(), x.c.size()) || over(as<CofactorView<M_>>(k), k, s, x.r.size(), x.c.size()) ||
            over(as<View<const M_>>(k), k, s, x.r.size(), x.c.size()) || over(as<View<CofactorView<M_>>>(k), k, s, x.r.size(), x.c.size());
    }
    void check(const std::string &what)
    {
        expect_eq(M, m, "the matrix " + what);
        for (std::size_t k = 0; k < views.size(); ++k)
            views[k]->check(M, m, maps(static_cast<int>(k)), "view " + std::to_string(k) + " (" + views[k]->kind + ") " + what);
    }
};

std::string show_spec(const Spec &p)
{
    std::ostringstream o;
    if (p.cof) o << "without row " << p.er << " and column " << p.ec;
    else o << "rows " << p.r0 << ":" << static_cast<long>(p.r1) << " columns " << p.c0 << ":" << static_cast<long>(p.c1);
    if (p.over >= 0) o << " of view " << p.over;
    return o.str();
}

// A part of a matrix, shown in one of the ways.
struct Window {
    int kind; // a range view, a view of a view, a cofactor view
    std::size_t r0, c0, r, c;
    std::size_t row(std::size_t i) const
    {
        return kind == 2 ? i + (i >= r0) : r0 + i;
    }
    std::size_t col(std::size_t j) const
    {
        return kind == 2 ? j + (j >= c0) : c0 + j;
    }
};
template <typename T>
Window gen_window(Source &s, const Mod<T> &m, const Shape &d)
{
    Window w{ 0, 0, 0, d.r, d.c };
    w.kind = static_cast<int>(s.draw(d.r + 1 == m.r && d.c + 1 == m.c ? 3 : 2));
    if (w.kind == 2) w.r0 = s.draw(m.r), w.c0 = s.draw(m.c);
    else w.r0 = s.draw(m.r - d.r + 1), w.c0 = s.draw(m.c - d.c + 1);
    return w;
}
std::string show_window(const Window &w)
{
    std::ostringstream o;
    if (w.kind == 2) o << "all but row " << w.r0 << " and column " << w.c0;
    else o << w.r << "x" << w.c << " at (" << w.r0 << "," << w.c0 << ")" << (w.kind ? " through another view" : "");
    return o.str();
}
template <typename M, typename F>
void with_window(M &m, const Window &w, F &&f)
{
    if (w.kind == 0) {
        View<M> v(&m, w.r0, w.r0 + w.r, w.c0, w.c0 + w.c);
        f(v);
    } else if (w.kind == 1) {
        View<M> u(&m, w.r0, m.rows(), 0, w.c0 + w.c);
        View<View<M>> v(&u, 0, w.r, w.c0, w.c0 + w.c);
        f(v);
    } else {
        CofactorView<M> v(&m, w.r0, w.c0);
        f(v);
    }
}

template <typename T>
void history(Source &s)
{
    Shape sh = gen_shape_any(s, 14);
    World<T> w;
    w.m = gen_mod<T>(s, sh.r, sh.c, MEDIUM);
    w.M = to_malg(w.m);
    s.note() << "matrix of " << tname<T>() << " " << show(w.m) << "\n";
    std::size_t steps = 2 + s.draw(14);
    bool wrote = false, nested = false, assigned = false, reshaped = false;
    for (std::size_t k = 0; k < steps; ++k) {
        std::string what = "after step " + std::to_string(k);
        std::size_t op   = w.views.empty() ? 0 : s.pick({ 20, 10, 25, 15, 20, 5, 5, 8 });
        switch (op) {
        case 0:
            w.add_over_matrix(s);
            s.note() << "step " << k << ": " << w.views.back()->kind << " " << show_spec(w.views.back()->spec) << "\n";
            break;
        case 1: {
            std::size_t n = w.views.size();
            w.add_over_view(s);
            if (w.views.size() > n) {
                nested = true;
                s.note() << "step " << k << ": " << w.views.back()->kind << " " << show_spec(w.views.back()->spec) << "\n";
            }
            break;
        }
        case 2: { // An element through a view.
            std::size_t v = s.draw(w.views.size()), way = s.draw(4);
            Maps x = w.maps(static_cast<int>(v));
            if (x.r.empty() || x.c.empty() || !w.views[v]->writable()) break;
            std::size_t i = s.draw(x.r.size()), j = s.draw(x.c.size());
            T val = gen_value<T>(s, MEDIUM);
            s.note() << "step " << k << ": view " << v << " (" << i << "," << j << ") = " << show(val) << " way " << way << "\n";
            w.views[v]->write(way, i, j, row_major ? i * x.c.size() + j : j * x.r.size() + i, val);
            w.m(x.r[i], x.c[j]) = val;
            wrote               = true;
            break;
        }
        case 3: { // An element of the matrix.
            if (w.m.size() == 0) break;
            std::size_t i = s.draw(w.m.r), j = s.draw(w.m.c);
            T val = gen_value<T>(s, MEDIUM);
            s.note() << "step " << k << ": matrix (" << i << "," << j << ") = " << show(val) << "\n";
            w.M(i, j) = val;
            w.m(i, j) = val;
            wrote     = true;
            break;
        }
        case 4: { // A whole view.
            std::size_t v = s.draw(w.views.size()), way = s.draw(7);
            Maps x = w.maps(static_cast<int>(v));
            if (x.r.empty() || x.c.empty() || !w.views[v]->writable()) break;
            // Values that every element type of the sources holds.
            Mod<T> val = gen_mod<T>(s, x.r.size(), x.c.size(), SMALL);
            Matrix<T> V = to_malg(val);
            s.note() << "step " << k << ": view " << v << " = " << show(val) << " way " << way << "\n";
            if (!w.views[v]->assign(way, V)) break;
            expect_eq(V, val, "the assigned matrix");
            for (std::size_t i = 0; i < val.r; ++i)
                for (std::size_t j = 0; j < val.c; ++j) w.m(x.r[i], x.c[j]) = val(i, j);
            assigned = true;
            break;
        }
        case 5: { // One row, or column, from another one of the same matrix.
            if (w.m.size() == 0) break;
            bool row = s.draw(2);
            std::size_t n = row ? w.m.r : w.m.c, a = s.draw(n), b = s.draw(n);
            s.note() << "step " << k << ": " << (row ? "row " : "column ") << a << " = " << b << "\n";
            if (row) malg::utility::row(w.M, a) = malg::utility::row(w.M, b);
            else malg::utility::col(w.M, a) = malg::utility::col(w.M, b);
            if (row)
                for (std::size_t j = 0; j < w.m.c; ++j) w.m(a, j) = w.m(b, j);
            else
                for (std::size_t i = 0; i < w.m.r; ++i) w.m(i, a) = w.m(i, b);
            assigned = true;
            break;
        }
        case 7: { // A part of the matrix from another one, that may overlap it.
            if (w.m.size() == 0) break;
            Shape d{ 1 + s.draw(w.m.r), 1 + s.draw(w.m.c) };
            if (s.draw(2) && w.m.r > 1 && w.m.c > 1) d = { w.m.r - 1, w.m.c - 1 };
            Window to = gen_window(s, w.m, d), from = gen_window(s, w.m, d);
            if (s.noting()) s.note() << "step " << k << ": " << show_window(to) << " = " << show_window(from) << "\n";
            bool constant = s.draw(3) == 2;
            with_window(w.M, to, [&](auto &x) {
                auto go = [&](auto &y) {
                    auto &z = (x = y);
                    CHECK(static_cast<const void *>(&z) == &x, << "assignment to a view does not return the view");
                };
                if (constant) with_window(static_cast<const Matrix<T> &>(w.M), from, go);
                else with_window(w.M, from, go);
            });
            Mod<T> old = w.m;
            for (std::size_t i = 0; i < d.r; ++i)
                for (std::size_t j = 0; j < d.c; ++j) w.m(to.row(i), to.col(j)) = old(from.row(i), from.col(j));
            assigned = true;
            s.label("assignment within the matrix");
            break;
        }
        default: { // Another shape of the matrix.
            std::size_t r = 1 + s.draw(9), c = 1 + s.draw(9);
            if (s.draw(10) == 9) (s.draw(2) ? r : c) = 0; // Nothing to see for a while.
            s.note() << "step " << k << ": resize to " << r << "x" << c << "\n";
            Mod<T> x(r, c, T(0));
            for (std::size_t i = 0; i < std::min(r, w.m.r); ++i)
                for (std::size_t j = 0; j < std::min(c, w.m.c); ++j) x(i, j) = w.m(i, j);
            w.M.resize(r, c);
            w.m = x;
            reshaped = true;
        }
        }
        w.check(what);
    }
    for (std::size_t k = 0; k < w.views.size(); ++k) {
        Maps x = w.maps(static_cast<int>(k));
        if (x.r.empty() || x.c.empty()) {
            s.label("view of nothing");
            break;
        }
    }
    if (wrote) s.label("element written");
    if (assigned) s.label("view assigned");
    if (nested) s.label("view of a view");
    if (reshaped) s.label("matrix resized");
    for (auto &v : w.views) s.label("kind:" + v->kind);
    s.nontrivial(w.views.size() >= 2 && (wrote || assigned) && w.m.size() >= 2);
}
} // namespace

PROP(history_int, 1)
{
    history<int>(s);
}
PROP(history_double, 1)
{
    history<double>(s);
}
PROP(history_complex, 1)
{
    history<cd>(s);
}
VERIF_MAIN
