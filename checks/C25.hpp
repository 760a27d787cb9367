// C25: a view behaves as a copy of what it shows.
#include "ops.hpp"

namespace c25
{
using namespace ops;
enum Form { MATRIX, BASE, VIEW, CONST_VIEW };

template <typename T, typename TB>
void views(Source &s)
{
    int id        = choose<T, TB>(s, READ | READ2 | WRITE | WRITE2);
    unsigned f    = info(id).flags;
    bool integral = std::is_integral_v<T> || std::is_integral_v<TB>;
    Values values = integral ? INTS : std::array<Values, 3>{ INTS, DYADICS, REALS }[s.draw(3)];
    Case c        = gen_case(s, id, values, is_cplx<T> || is_cplx<TB>, false);
    if (s.draw(5) == 4) perturb(s, id, c);
    Judgement j = judge(id, c);
    s.discard(j == UNJUDGED);
    describe(s, id, c);
    const Mod<T> a  = cast<T>(c.A);
    const Mod<TB> b = cast<TB>(c.B);
    // The copies.
    malg::Matrix<T> ma  = to_malg(a);
    malg::Matrix<TB> mb = to_malg(b);
    bool writes         = f & (WRITE | WRITE2);
    // Both have to be of the same kind for some operations.
    bool ca = !writes && s.draw(3) == 2, cb = (f & (READ2 | WRITE2)) && s.draw(3) == 2;
    if (f & SAMET) cb = ca;
    std::string what = std::string(info(id).name) + " (" + tname<T>() + ", " + tname<TB>() + ")";
    malg::MatrixBase<TB> &bb = mb;
    Rec want;
    if (s.draw(2)) {
        malg::MatrixBase<T> &ba = ma;
        want                    = run<T, TB>(id, ba, bb, c);
    } else {
        want = run<T, TB>(id, ma, bb, c);
    }
    if (!writes) expect_eq(ma, a, what + ": operand");
    expect_eq(mb, b, what + ": second operand");
    std::string form;
    Rec got;
    auto with_b = [&](auto &A) {
        if (cb) {
            ConstOperand<TB> ob(s, b);
            form += std::string(" and a ") + ob.form();
            got = run<T, TB>(id, A, ob.cref(), c);
        } else {
            Operand<TB> ob(s, b);
            if (f & (READ2 | WRITE2)) form += std::string(" and a ") + ob.form();
            got = run<T, TB>(id, A, ob.ref(), c);
            ob.check_unchanged(b, what + ", second operand" + form);
        }
    };
    if (ca) {
        ConstOperand<T> oa(s, a);
        form = std::string(" for a ") + oa.form();
        with_b(oa.cref());
    } else {
        Operand<T> oa(s, a);
        form = std::string(" for a ") + oa.form();
        with_b(oa.ref());
        if (writes) oa.check_outside(what + form);
        else oa.check_unchanged(a, what + form);
    }
    // Rounded results are compared as such: a view may be worked through in
    // another order than a matrix.
    long double rel = (f & APPROX) || values == REALS ? tolerance_of<T, TB>() : 0;
    expect_same(want, got, rel, what, "for a copy", form);
    s.label(std::string(info(id).name) + (want.rejected ? " rejected" : ""));
    s.nontrivial(form.find("view") != std::string::npos && (a.size() >= 4 || want.rejected));
}

/// Two operands that are parts of the same matrix, and may overlap, against the
/// same operation with a copy of the second one.
template <typename T>
void overlap(Source &s)
{
    int id = choose<T, T>(s, s.draw(3) ? WRITE2 : READ2 | WRITE2);
    Case c = gen_case(s, id, INTS, is_cplx<T>, false);
    s.discard(c.A.size() == 0 || c.B.size() == 0 || c.A.size() > 200 || c.B.size() > 200);
    struct Slot {
        int kind;
        std::size_t r0, c0, r, c;
    };
    Slot a{ 0, 0, 0, c.A.r, c.A.c }, b{ 0, 0, 0, c.B.r, c.B.c };
    std::size_t R = std::max(a.r, b.r) + s.draw(3), C = std::max(a.c, b.c) + s.draw(3);
    Mod<cd> host = gen_numbers(s, R, C, INTS, 3, is_cplx<T>);
    auto place   = [&](Slot &x, Mod<cd> &m) {
        x.kind = static_cast<int>(s.draw(x.r + 1 == R && x.c + 1 == C ? 3 : 2));
        if (x.kind == 2) x.r0 = s.draw(R), x.c0 = s.draw(C);
        else x.r0 = s.draw(R - x.r + 1), x.c0 = s.draw(C - x.c + 1);
        for (std::size_t i = 0; i < x.r; ++i)
            for (std::size_t j = 0; j < x.c; ++j)
                m(i, j) = x.kind == 2 ? host(i + (i >= x.r0), j + (j >= x.c0)) : host(x.r0 + i, x.c0 + j);
    };
    place(a, c.A), place(b, c.B);
    Judgement j = judge(id, c);
    s.discard(j != CONFORMS);
    describe(s, id, c);
    if (s.noting())
        s.note() << "parts of " << show(host) << ": " << a.kind << " at (" << a.r0 << "," << a.c0 << ") and " << b.kind << " at (" << b.r0 << "," << b.c0 << ")\n";
    using M       = malg::Matrix<T>;
    auto with     = [](M &m, const Slot &x, auto &&f) {
        if (x.kind == 0) {
            malg::View<M> v(&m, x.r0, x.r0 + x.r, x.c0, x.c0 + x.c);
            f(v);
        } else if (x.kind == 1) {
            malg::View<M> u(&m, x.r0, m.rows(), 0, x.c0 + x.c);
            malg::View<malg::View<M>> v(&u, 0, x.r, x.c0, x.c0 + x.c);
            f(v);
        } else {
            malg::CofactorView<M> v(&m, x.r0, x.c0);
            f(v);
        }
    };
    M m1 = to_malg(cast<T>(host)), m2 = m1, copy = to_malg(cast<T>(c.B));
    Rec want, got;
    with(m1, a, [&](auto &A) { want = run<T, T>(id, static_cast<malg::MatrixBase<T> &>(A), static_cast<malg::MatrixBase<T> &>(copy), c); });
    with(m2, a, [&](auto &A) {
        with(m2, b, [&](auto &B) { got = run<T, T>(id, static_cast<malg::MatrixBase<T> &>(A), static_cast<malg::MatrixBase<T> &>(B), c); });
    });
    std::string what = std::string(info(id).name) + " (" + tname<T>() + ")";
    bool rounded = info(id).flags & APPROX;
    expect_same(want, got, rounded ? tolerance_of<T, T>() : 0, what, "with a copy of the second operand", "with two parts of one matrix");
    if (!rounded) expect_eq(m2, model_of(m1), what + ": the matrix after the operation on two of its parts");
    s.label("two parts of a matrix");
    s.nontrivial(a.r * a.c >= 4);
}
} // namespace c25
#define PAIR(n, T, TB) \
    PROP(views_##n, 3) { c25::views<T, TB>(s); }
#define OVERLAP(n, T) \
    PROP(overlap_##n, 1) { c25::overlap<T>(s); }
