// C12: searches and the first difference.
#include "gen.hpp"

namespace
{
template <typename T>
bool nonzero(const T &v)
{
    return !(to_cl(v) == cl(0));
}
template <typename T>
Mod<T> gen_search(Source &s)
{
    Shape sh = gen_shape_any(s, 20);
    Mod<T> m = gen_mod<T>(s, sh.r, sh.c, SMALL);
    unsigned density = static_cast<unsigned>(s.draw(5)); // from no zeros to almost only zeros
    for (auto &v : m.d) {
        if (!nonzero(v) && density == 0) v = T(1);
        if (s.draw(4) < density) {
            v = T(0);
            if constexpr (std::is_floating_point_v<T>)
                if (s.draw(3) == 2) v = -v;
        }
        if constexpr (std::is_floating_point_v<T>) {
            switch (s.draw(24)) {
            case 21: v = std::numeric_limits<T>::denorm_min(); break;
            case 22: v = std::numeric_limits<T>::epsilon(); break;
            case 23: v = -std::numeric_limits<T>::infinity(); break;
            default: break;
            }
        }
        if constexpr (is_cplx<T>) {
            if (s.draw(6) == 5) v = T(0, v.imag());
        }
    }
    return m;
}

template <typename T>
void search(Source &s)
{
    using namespace malg;
    Mod<T> m = gen_search<T>(s);
    std::vector<std::size_t> idx;
    for (std::size_t p = 0; p < m.size(); ++p)
        if (nonzero(m.lin(p))) idx.push_back(p);
    s.nontrivial(m.size() >= 2 && !idx.empty() && idx.size() < m.size());
    s.note() << tname<T>() << " " << show(m) << "\n";
    Matrix<T> x = to_malg(m);
    auto flat   = utility::flatnonzero(x);
    static_assert(std::is_same_v<decltype(flat), std::vector<std::size_t>>, "flatnonzero has the wrong type");
    CHECK(flat == idx, << "flatnonzero found " << show(flat) << " instead of " << show(idx));
    // Bounded.
    std::size_t n;
    switch (s.draw(5)) {
    case 0: n = static_cast<std::size_t>(-1); break;
    case 1: n = s.draw(3); break;
    case 2: n = idx.size() + s.draw(2); break;
    case 3: n = idx.empty() ? 1 : idx.size() - s.draw(2); break;
    default: n = s.draw(m.size() + 3); break;
    }
    std::size_t form = s.draw(3); // how many arguments are left out
    bool first       = form == 0 ? s.draw(2) != 0 : true;
    if (form == 2) n = static_cast<std::size_t>(-1);
    auto r = form == 2 ? utility::find(x) : form == 1 ? utility::find(x, n) : utility::find(x, n, first);
    static_assert(std::is_same_v<decltype(r), Matrix<std::size_t>>, "find has the wrong type");
    std::vector<std::size_t> want = idx;
    if (n < idx.size()) {
        if (first) want.resize(n);
        else want.erase(want.begin(), want.end() - static_cast<std::ptrdiff_t>(n));
    }
    std::string w = "find " + std::string(n == static_cast<std::size_t>(-1) ? "all" : (first ? "first " : "last ") + std::to_string(n));
    CHECK(r.size() == want.size(), << w << " returned " << r.size() << " positions instead of " << want.size());
    if (n == 0) {
        CHECK(r.rows() == 0 && r.cols() == 0, << w << " returned a " << r.rows() << "x" << r.cols() << " matrix");
    } else if (m.r == 1) {
        CHECK(r.rows() == 1 && r.cols() == want.size(), << w << " in a row returned a " << r.rows() << "x" << r.cols() << " matrix");
    } else {
        CHECK(r.cols() == 1 && r.rows() == want.size(), << w << " returned a " << r.rows() << "x" << r.cols() << " matrix");
    }
    for (std::size_t p = 0; p < want.size(); ++p) CHECK(r[p] == want[p], << w << ": position " << p << " is " << r[p] << " instead of " << want[p]);
    // The positions lead to the elements.
    for (std::size_t p = 0; p < r.size(); ++p) CHECK(nonzero<T>(x[r[p]]), << w << ": element " << r[p] << " is zero");
    expect_eq(x, m, w + ": operand");
    s.label(n < idx.size() ? (first ? "bounded, first" : "bounded, last") : "all");
}

inline void expect_position(Source &s, std::int64_t got, std::size_t at, int sign, const char *w)
{
    if (sign == 0) {
        CHECK(got == 0, << w << " of equal arrays is " << got);
        return;
    }
    if (at == 0 && got == 0) { // There is no negative (or positive) zero.
        s.known("compare-first");
        return;
    }
    CHECK(got == sign * static_cast<std::int64_t>(at), << w << " is " << got << ", the first difference is at " << at << (sign < 0 ? " (smaller)" : " (larger)"));
}

template <typename T>
void difference(Source &s)
{
    using namespace malg;
    Shape sh = gen_shape_any(s, 20);
    Mod<T> a = gen_mod<T>(s, sh.r, sh.c, s.draw(2) ? MEDIUM : FEW), b = a;
    std::size_t n = s.draw(4);
    for (std::size_t k = 0; k < n; ++k) {
        T &v = b.lin(s.draw(b.size()));
        switch (s.draw(3)) {
        case 0: v += T(1); break;
        case 1: v = std::is_unsigned_v<T> ? v : static_cast<T>(v - T(1)); break;
        default: v = gen_value<T>(s, MEDIUM); break;
        }
        if constexpr (std::is_floating_point_v<T>)
            if (s.draw(3) == 2) v = std::nextafter(v, T(1e9));
    }
    std::size_t at = 0;
    int sign       = 0;
    for (std::size_t p = 0; p < a.size() && sign == 0; ++p)
        if (a.lin(p) != b.lin(p)) at = p, sign = a.lin(p) < b.lin(p) ? -1 : 1;
    s.nontrivial(a.size() >= 2);
    s.label(sign == 0 ? "equal" : at == 0 ? "differ at the first" : "differ");
    s.note() << tname<T>() << " " << show(a) << " and " << show(b) << "\n";
    switch (s.draw(3)) {
    case 0: {
        std::vector<T> u(a.size()), v(a.size());
        for (std::size_t p = 0; p < a.size(); ++p) u[p] = a.lin(p), v[p] = b.lin(p);
        malg::Vector<T> x = to_malg(u), y = to_malg(v);
        expect_position(s, utility::compare(x, y), at, sign, "compare of vectors");
        CHECK(utility::compare(x, x) == 0, << "compare of a vector with itself");
        expect_eq(x, u, "compare: left operand");
        expect_eq(y, v, "compare: right operand");
        break;
    }
    case 1: {
        ConstOperand<T> x(s, a), y(s, b);
        expect_position(s, utility::compare(x.cref(), y.cref()), at, sign, "compare of constant views");
        break;
    }
    default: {
        Operand<T> x(s, a), y(s, b);
        std::int64_t got = utility::compare(x.cref(), y.cref());
        expect_position(s, got, at, sign, "compare of matrices");
        CHECK(utility::compare(y.cref(), x.cref()) == -got, << "compare is not antisymmetric");
        CHECK(utility::compare(x.cref(), x.cref()) == 0, << "compare of a matrix with itself");
        x.check_unchanged(a, "compare");
        y.check_unchanged(b, "compare");
    }
    }
}
} // namespace

#define TYPE(n, T)           \
    PROP(search_##n, 3)      \
    {                        \
        search<T>(s);        \
    }
#define ORD(n, T)            \
    PROP(difference_##n, 2)  \
    {                        \
        difference<T>(s);    \
    }
TYPE(int, int)
TYPE(double, double)
TYPE(float, float)
TYPE(cd, cd)
ORD(int, int)
ORD(double, double)
ORD(unsigned, unsigned)
VERIF_MAIN
