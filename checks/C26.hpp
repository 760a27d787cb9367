// C26: operands that do not conform are rejected before anything is touched, and
// operands that conform are not rejected.
#include "ops.hpp"

namespace c26
{
using namespace ops;

template <typename T, typename TB>
void rejections(Source &s)
{
    constexpr bool narrow  = std::is_integral_v<T> || std::is_integral_v<TB>;
    constexpr unsigned all = READ | READ2 | WRITE | WRITE2 | OWNER | OWNERW | VEC;
    int id                 = choose<T, TB>(s, all);
    // Those that can reject something, most of the time.
    for (int k = 0; k < 3 && !(info(id).needs & (U_NE - 1)); ++k) id = choose<T, TB>(s, all);
    unsigned f    = info(id).flags;
    Values values = narrow ? INTS : std::array<Values, 3>{ INTS, DYADICS, REALS }[s.draw(3)];
    Case c        = gen_case(s, id, values, is_cplx<T> || is_cplx<TB>, false);
    if (s.draw(4)) perturb(s, id, c);
    if (s.draw(16) == 15) { // A size that only wraps around to the right one.
        c.i = static_cast<std::size_t>(-1) - s.draw(3);
        if (s.draw(2)) c.j = static_cast<std::size_t>(-1);
    }
    if ((info(id).needs & RESH) && s.draw(8) == 7) {
        // The product of the dimensions wraps around to the number of elements.
        std::size_t n = c.A.size(), inverse = 1;
        c.p           = 2 * s.draw(1000) + 3;
        for (int k = 0; k < 6; ++k) inverse *= 2 - c.p * inverse;
        c.q = n * inverse;
        if (n == 0) c.p = std::size_t(1) << 33, c.q = std::size_t(1) << 31;
    }
    Judgement j = judge(id, c);
    s.discard(j == UNJUDGED);
    describe(s, id, c);
    const Mod<T> a        = cast<T>(c.A);
    const Mod<TB> b       = cast<TB>(c.B);
    std::string what      = std::string(info(id).name) + " (" + tname<T>() + ", " + tname<TB>() + ")";
    const bool writes     = f & (WRITE | WRITE2 | OWNERW);
    Rec got;
    auto verdict = [&] {
        if (j == REJECTS) CHECK(got.rejected, << what << ": operands that do not conform were accepted");
        else CHECK(!got.rejected, << what << ": operands that conform were rejected: " << got.why);
    };
    // What the vectors of the case hold after a rejected in place operation.
    auto vectors = [&] {
        if (!got.rejected) return;
        for (auto &e : got.e)
            if (e.label == "v after += [vector]" || e.label == "v after -= [vector]") {
                bool eq = e.v.size() == c.v.size();
                for (std::size_t k = 0; eq && k < e.v.size(); ++k) eq = same(e.v[k], to_cl(cast<T>(c.v[k])));
                CHECK(eq, << what << ": rejected, but the vector changed: " << show(e));
            }
    };
    if (f & (OWNER | OWNERW)) {
        malg::Matrix<T> A  = to_malg(a);
        malg::Matrix<TB> B = to_malg(b);
        const T *data      = A.size() ? &A[0] : nullptr;
        got                = run<T, TB>(id, A, B, c);
        verdict();
        if (got.rejected || !writes) {
            expect_eq(A, a, what + ": operand of a " + (got.rejected ? "rejected" : "reading") + " operation");
            if (a.size()) CHECK(&A[0] == data, << what << ": the elements moved in a rejected operation");
        }
        expect_eq(B, b, what + ": second operand");
    } else {
        bool ca = !(f & (WRITE | WRITE2)) && s.draw(4) == 3, cb = (f & (READ2 | WRITE2)) && s.draw(4) == 3;
        if (f & SAMET) cb = ca;
        auto with_b = [&](auto &A) {
            if (cb) {
                ConstOperand<TB> ob(s, b);
                got = run<T, TB>(id, A, ob.cref(), c);
                expect_eq(ob.cref(), b, what + ": second operand");
            } else {
                Operand<TB> ob(s, b);
                got = run<T, TB>(id, A, ob.ref(), c);
                ob.check_unchanged(b, what + ", second operand");
            }
        };
        if (ca) {
            ConstOperand<T> oa(s, a);
            with_b(oa.cref());
            expect_eq(oa.cref(), a, what + ": operand");
        } else if (s.draw(3) == 2) {
            malg::Matrix<T> A = to_malg(a);
            with_b(A);
            if (got.rejected || !writes) expect_eq(A, a, what + ": operand of a rejected operation");
        } else {
            Operand<T> oa(s, a);
            with_b(oa.ref());
            if (got.rejected || !writes) oa.check_unchanged(a, what + (got.rejected ? " rejected" : ""));
            else oa.check_outside(what);
        }
        verdict();
        vectors();
    }
    s.label(std::string(info(id).name) + (got.rejected ? " rejected" : " accepted"));
    s.nontrivial(j == REJECTS ? a.size() + c.v.size() > 0 : (info(id).needs & (U_NE - 1)) != 0);
}

/// Operations of a matrix with itself as the other operand.
template <typename T>
void itself(Source &s)
{
    std::size_t r = 1 + s.draw(5), q = 1 + s.draw(5);
    const Mod<T> a    = cast<T>(gen_numbers(s, r, q, INTS, 9, is_cplx<T>));
    malg::Matrix<T> m = to_malg(a);
    bool rejected     = false;
    bool want         = r != q;
    std::string what;
    malg::View<malg::Matrix<T>> part(&m, 0, s.draw(2) ? r : 1, 0, s.draw(2) ? q : 1);
    try {
        switch (s.draw(6)) {
        case 0: what = "A*A", (void)(m * m); break;
        case 1: what = "A*=A", m *= m; break;
        case 2: what = "A*=part", want = q != part.rows() || part.rows() != part.cols(), m *= part; break;
        case 3: what = "A+=part", want = r != part.rows() || q != part.cols(), m += part; break;
        case 4: what = "A-=part", want = r != part.rows() || q != part.cols(), m -= part; break;
        default: what = "A+A^T", (void)(m + malg::linalg::transpose(m)); break;
        }
    } catch (const std::exception &) {
        rejected = true;
    }
    if (s.noting()) s.note() << what << " of " << show(a) << " part " << part.rows() << "x" << part.cols() << "\n";
    CHECK(rejected == want, << what << " of a " << r << "x" << q << " matrix " << (rejected ? "was rejected" : "was accepted") << " (the part is " << part.rows() << "x" << part.cols() << ")");
    if (rejected) expect_eq(m, a, what + ": rejected");
    s.label(what + (rejected ? " rejected" : " accepted"));
    s.nontrivial(rejected);
}

/// Generators of no rows or no columns.
template <typename T>
void generators(Source &s)
{
    namespace ut  = malg::utility;
    std::size_t r = s.draw(3) ? s.draw(6) : 0, c = s.draw(3) ? s.draw(6) : 0;
    if (s.draw(8) == 7) (s.draw(2) ? r : c) = 1000;
    bool rejected = false, want = r == 0 || c == 0;
    T v = cast<T>(gen_number(s, INTS, 9, is_cplx<T>));
    std::string what;
    std::size_t rows = r, cols = c;
    auto run = [&](auto &&f) {
        try {
            auto x = f();
            rows = x.rows(), cols = x.cols();
        } catch (const std::exception &) {
            rejected = true;
        }
    };
    auto run_v = [&](auto &&f) {
        want = r == 0;
        try {
            auto x = f();
            rows = x.size();
        } catch (const std::exception &) {
            rejected = true;
        }
    };
    switch (s.draw(7)) {
    case 0: what = "zeros", run([&] { return ut::zeros<T>(r, c); }); break;
    case 1: what = "ones", run([&] { return ut::ones<T>(r, c); }); break;
    case 2: what = "eye", run([&] { return ut::eye<T>(r, c, v); }); break;
    case 3: what = "eye of zeros", run([&] { return ut::eye<T>(r, c, T(0)); }); break;
    case 4: c = cols = r, want = r == 0, what = "identity", run([&] { return ut::identity<T>(r, v); }); break;
    case 5: what = "zeros (vector)", run_v([&] { return ut::zeros<T>(r); }); break;
    default: what = "ones (vector)", run_v([&] { return ut::ones<T>(r); }); break;
    }
    if (s.noting()) s.note() << what << " " << r << "x" << c << "\n";
    CHECK(rejected == want, << what << " of " << r << "x" << c << (rejected ? " was rejected" : " was accepted"));
    if (!rejected) CHECK(rows == r && cols == c, << what << " of " << r << "x" << c << " has the shape " << rows << "x" << cols);
    s.label(what + (rejected ? " rejected" : " accepted"));
    s.nontrivial(rejected);
}
} // namespace c26
#define PAIR(n, T, TB) \
    PROP(rejections_##n, 4) { c26::rejections<T, TB>(s); }
#define SELF(n, T) \
    PROP(itself_##n, 1) { c26::itself<T>(s); }
#define GENERATORS(n, T) \
    PROP(generators_##n, 1) { c26::generators<T>(s); }
