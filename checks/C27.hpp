// C27: the same numbers give the same results whatever the element type.
#include "ops.hpp"

namespace c27
{
using namespace ops;

/// Keeps the results both have (the maximum of complex numbers does not exist).
inline void common(Rec &a, Rec &b)
{
    auto has = [](const Rec &r, const std::string &l) {
        for (auto &e : r.e)
            if (e.label == l) return true;
        return false;
    };
    auto keep = [&](Rec &x, const Rec &y) {
        std::vector<Entry> k;
        for (auto &e : x.e)
            if (has(y, e.label)) k.push_back(e);
        x.e = k;
    };
    Rec a0 = a;
    keep(a, b), keep(b, a0);
}

template <typename T, typename TB>
Rec on(int id, const Case &c)
{
    const Mod<T> a     = cast<T>(c.A);
    const Mod<TB> b    = cast<TB>(c.B);
    malg::Matrix<T> A  = to_malg(a);
    malg::Matrix<TB> B = to_malg(b);
    Rec r              = run<T, TB>(id, A, B, c);
    if (!(info(id).flags & (WRITE | WRITE2 | OWNERW))) expect_eq(A, a, std::string(info(id).name) + ": operand");
    expect_eq(B, b, std::string(info(id).name) + ": second operand");
    return r;
}

template <typename T, typename TB>
void types(Source &s)
{
    constexpr bool integral = std::is_integral_v<T> || std::is_integral_v<TB>;
    constexpr bool approx   = std::is_same_v<real_of<T>, float> || std::is_same_v<real_of<TB>, float>;
    constexpr unsigned all  = READ | READ2 | WRITE | WRITE2 | OWNER | OWNERW | VEC;
    int id                  = choose<T, TB>(s, all, TEXT | ONLYC | ONLYCD);
    unsigned f              = info(id).flags;
    Values values           = integral || s.draw(2) ? INTS : DYADICS;
    // Integers that need more than the mantissa of a float along the way.
    const bool larger = values == INTS && !approx && s.draw(4) == 3;
    Case c            = gen_case(s, id, values, false, true, larger);
    if (s.draw(6) == 5) {
        perturb(s, id, c);
        if (id == op_div_scalar || id == op_div_scalar_in_place || id == op_v_scalar) {
            for (auto &x : c.A.d) x *= 2.0;
            for (auto &x : c.v) x *= 2.0;
        }
    }
    s.discard(judge(id, c) == UNJUDGED);
    describe(s, id, c);
    Rec want = on<double, double>(id, c);
    Rec got  = on<T, TB>(id, c);
    // The sign of a complex number is that of its parts, and that of 0 is -1.
    if (is_cplx<T>)
        for (auto &e : got.e)
            if (e.label.compare(0, 4, "sign") == 0)
                for (auto &x : e.v) x = cl(x.real(), 0);
    s.label(std::string(info(id).name) + (want.rejected ? " rejected" : ""));
    if (want.rejected == got.rejected && want.e.size() != got.e.size()) common(want, got);
    long double rel = f & APPROX ? tolerance_of<T, TB>() : 0;
    // Sums of products of dyadic numbers are exact in double, but not always in
    // float.
    if (approx && values == DYADICS) rel = 2e-3L;
    expect_same(want, got, rel, info(id).name, "for double and double", std::string("for ") + tname<T>() + " and " + tname<TB>());
    bool some = false;
    for (auto &e : want.e) some = some || !e.v.empty();
    s.nontrivial(want.rejected || (some && ((f & VEC) ? c.v.size() + c.w.size() > 2 : c.A.size() >= 4)));
}

template <typename T>
void ordered(const Case &c)
{
    if constexpr (!is_cplx<T>) {
        std::vector<T> e = cast<T>(c.v);
        auto v           = to_malg(e);
        std::size_t lo = 0, hi = 0;
        for (std::size_t i = 0; i < e.size(); ++i) {
            if (e[i] < e[lo]) lo = i;
            if (e[i] > e[hi]) hi = i;
        }
        auto mn = malg::min(v), mx = malg::max(v);
        CHECK(mn.first == e[lo] && mn.second == lo, << "min for " << tname<T>() << " is " << show(mn.first) << " at " << mn.second << " instead of " << show(e[lo]) << " at " << lo);
        CHECK(mx.first == e[hi] && mx.second == hi, << "max for " << tname<T>() << " is " << show(mx.first) << " at " << mx.second << " instead of " << show(e[hi]) << " at " << hi);
    }
}

/// Integers of up to 63 bits: long, long double and complex<long double> hold
/// them, a double does not.
template <typename T, typename R>
void wide(Source &s)
{
    constexpr unsigned all = READ | READ2 | WRITE | WRITE2 | OWNER | OWNERW | VEC;
    // The comparisons have a tolerance for floating-point types (C06).
    auto compares = [](int i) {
        switch (i) {
        case op_eq: case op_ne: case op_lt: case op_le: case op_gt: case op_ge: case op_eq_scalar: case op_ne_scalar: case op_lt_scalar:
        case op_le_scalar: case op_gt_scalar: case op_ge_scalar: case op_v_eq: case op_v_ne: case op_compare: case op_v_compare: return true;
        default: return false;
        }
    };
    std::vector<int> ids;
    for (int i = 0; i < op_count; ++i)
        if (!compares(i) && supported<T, T>(i) && supported<R, R>(i) && (info(i).flags & all) && !(info(i).flags & (TEXT | ONLYC | ONLYCD)))
            if (is_linear(i) || is_quadratic(i) || i == op_determinant || i == op_adjoint || i == op_poly_matrix || i == op_v_poly) ids.push_back(i);
    int id = ids[s.draw(ids.size())];
    Case c = gen_case(s, id, INTS, false, true, true, true);
    s.discard(judge(id, c) != CONFORMS);
    if (id == op_determinant || id == op_adjoint) s.discard(c.A.r > 4);
    if (id == op_poly_matrix) s.discard(c.A.r != 1 && c.A.c != 1);
    describe(s, id, c);
    // Spread over the range, or all next to each other.
    const bool near = is_linear(id) && s.draw(2);
    if (near) s.note() << "lifted by 2^55\n";
    Widen by(is_linear(id) && !near ? (1L << 30) + 1 : 1, near ? 1L << 55 : 0);
    Rec want = on<R, R>(id, c);
    Rec got  = on<T, T>(id, c);
    // The order is exact, whatever the type.
    if (id == op_v_min_max) ordered<T>(c), ordered<R>(c);
    s.label(info(id).name);
    if (want.e.size() != got.e.size()) common(want, got);
    expect_same(want, got, 0, info(id).name, std::string("for ") + tname<R>(), std::string("for ") + tname<T>());
    bool some = false;
    for (auto &e : want.e)
        for (auto &x : e.v) some = some || std::fabs(x.real()) > 9007199254740992.0L;
    s.nontrivial(some);
}
} // namespace c27
#define WIDE(n, T, R) \
    PROP(wide_##n, 10) { c27::wide<T, R>(s); }
#define PAIR(n, T, TB) \
    PROP(types_##n, 1) { c27::types<T, TB>(s); }
