// C28: running out of memory is reported, and corrupts nothing. One allocation
// of the operation fails (or that one and all those after it).
#include "tasks.hpp"
#include <new>
#include <optional>

namespace c28
{
using namespace ops;

/// The allocations of the code under test; see C28a.cpp for the allocators.
struct Faults {
    bool armed     = false; // count, and fail if told to
    bool operators = true;  // those of operator new too
    bool lasting   = false; // all of those that follow fail too
    long seen      = 0;
    long fail_at   = -1; // the first that fails
    long failed    = 0;
    bool next()
    {
        if (!armed) return false;
        long k = seen++;
        if (fail_at < 0 || k < fail_at || (k > fail_at && !lasting)) return false;
        ++failed;
        return true;
    }
};
extern Faults faults;
struct Armed {
    Armed(long at, bool lasting, bool operators)
    {
        faults         = Faults();
        faults.fail_at = at, faults.lasting = lasting, faults.operators = operators;
        injecting    = &faults.armed;
        faults.armed = true;
    }
    ~Armed()
    {
        faults.armed = false;
        injecting    = nullptr;
    }
};

enum End { DONE, REJECTED, NO_MEMORY };
/// Runs f while allocation number at fails.
template <typename F>
End attempt(long at, bool lasting, bool operators, F &&f)
{
    Armed a(at, lasting, operators);
    try {
        f();
    } catch (const std::bad_alloc &) {
        return NO_MEMORY;
    } catch (const std::exception &) {
        return REJECTED;
    }
    return DONE;
}
/// Reads and writes every element, in every way.
template <typename T>
void usable(malg::MatrixBase<T> &m, const std::string &what)
{
    std::size_t r = m.rows(), c = m.cols();
    CHECK(m.size() == r * c, << what << ": the shape is " << r << "x" << c << " and the size " << m.size());
    for (std::size_t i = 0; i < r; ++i)
        for (std::size_t j = 0; j < c; ++j) {
            T v     = m(i, j);
            m(i, j) = T(5);
            m(i, j) = v;
        }
    for (std::size_t p = 0; p < m.size(); ++p) {
        T v  = m[p];
        m[p] = T(5);
        m[p] = v;
    }
}
template <typename T>
void usable(malg::Matrix<T> &m, const std::string &what)
{
    CHECK(static_cast<std::size_t>(m.end() - m.begin()) == m.rows() * m.cols(), << what << ": the shape is " << m.rows() << "x" << m.cols() << " and the storage holds " << (m.end() - m.begin()));
    usable(static_cast<malg::MatrixBase<T> &>(m), what);
    m.resize(m.rows() + 1, m.cols() + 2);
    usable(static_cast<malg::MatrixBase<T> &>(m), what + ", resized");
}
template <typename T>
void usable(malg::Vector<T> &v, const std::string &what)
{
    CHECK(static_cast<std::size_t>(v.end() - v.begin()) == v.size(), << what << ": the size is " << v.size() << " and the storage holds " << (v.end() - v.begin()));
    for (auto &x : v) {
        T y = x;
        x   = T(5);
        x   = y;
    }
    std::size_t n = v.size();
    v.resize(n + 2);
    CHECK(v.size() == n + 2 && same(v[n], T(0)) && same(v[n + 1], T(0)), << what << ": resized");
}

template <typename T, typename TB>
void operation(Source &s)
{
    constexpr unsigned all = READ | READ2 | WRITE | WRITE2 | OWNER | OWNERW | VEC;
    int id                 = choose<T, TB>(s, all);
    unsigned f             = info(id).flags;
    Case c                 = gen_case(s, id, INTS, is_cplx<T> || is_cplx<TB>, false);
    s.discard(judge(id, c) != CONFORMS);
    describe(s, id, c);
    const std::string what = std::string(info(id).name) + " (" + tname<T>() + ", " + tname<TB>() + ")";
    const Mod<T> ma        = cast<T>(c.A);
    const Mod<TB> mb       = cast<TB>(c.B);
    const bool writes      = f & (WRITE | WRITE2 | OWNERW);
    const bool matrices    = (f & (OWNER | OWNERW)) || s.draw(2) == 0;
    // Streams keep their own counsel when they run out of memory.
    const bool operators = !(f & TEXT), lasting = s.draw(3) == 2;
    Rec want;
    long allocations = 0;
    auto prepared    = [&](auto &&go) {
        if (matrices) {
            malg::Matrix<T> a  = to_malg(ma);
            malg::Matrix<TB> b = to_malg(mb);
            go(a, b, [] {});
        } else {
            Source fixed(std::vector<pbt::u64>{ 5, 1, 1, 1, 1, 1, 1, 1 }, 0);
            Operand<T> a(fixed, ma);
            Operand<TB> b(fixed, mb);
            go(a.ref(), b.ref(), [&] { a.check_outside(what + ": out of memory"), b.check_outside(what + ": out of memory"); });
        }
    };
    prepared([&](auto &a, auto &b, auto &&) {
        End e = attempt(-1, false, operators, [&] { apply<T, TB>(id, want, a, b, c); });
        CHECK(e == DONE, << what << ": operands that conform were rejected");
        allocations = faults.seen;
    });
    s.discard(allocations == 0);
    // Early ones, late ones, any.
    long at = static_cast<long>(s.draw(static_cast<pbt::u64>(allocations)));
    s.note() << "allocation " << at << " of " << allocations << (lasting ? " and those after it fail" : " fails") << (matrices ? "" : " (views)") << "\n";
    std::size_t before = pbt::bytes_in_use();
    End end            = DONE;
    long failed        = 0;
    prepared([&](auto &a, auto &b, auto &&outside) {
        {
            Rec got;
            end    = attempt(at, lasting, operators, [&] { apply<T, TB>(id, got, a, b, c); });
            failed = faults.failed;
            if (end == DONE) expect_same(want, got, 0, what, "with all the memory", "without");
        }
        CHECK(end != REJECTED, << what << ": out of memory, but reported as something else");
        if (!writes && !(f & VEC)) expect_eq(a, ma, what + ": operand, after running out of memory");
        if (!(f & VEC)) expect_eq(b, mb, what + ": second operand, after running out of memory");
        usable(a, what + ": operand, after running out of memory");
        usable(b, what + ": second operand, after running out of memory");
        outside();
    });
    std::size_t after = pbt::bytes_in_use();
    CHECK(before == after, << what << ": " << (after - before) << " bytes are lost after running out of memory");
    // And nothing else remembers it.
    prepared([&](auto &a, auto &b, auto &&) {
        Rec got;
        apply<T, TB>(id, got, a, b, c);
        expect_same(want, got, 0, what, "before running out of memory", "after");
    });
    s.label(std::string(info(id).name) + (end == NO_MEMORY ? " reported" : " not needed"));
    s.nontrivial(end == NO_MEMORY && failed > 0);
}

/// Models, controllers and eigenvalues.
template <typename T>
void task(Source &s)
{
    Task t                 = gen_task<T>(s, false);
    const std::string what = t.name + " (" + tname<T>() + ")";
    const bool lasting     = s.draw(3) == 2;
    Rec want;
    CHECK(attempt(-1, false, true, [&] { t.run(want); }) == DONE, << what << ": was rejected");
    long allocations = faults.seen;
    s.discard(allocations == 0);
    long at = static_cast<long>(s.draw(static_cast<pbt::u64>(allocations)));
    s.note() << what << ": allocation " << at << " of " << allocations << (lasting ? " and those after it fail" : " fails") << "\n";
    std::size_t before = pbt::bytes_in_use();
    End end            = DONE;
    long failed        = 0;
    {
        Rec got;
        end    = attempt(at, lasting, true, [&] { t.run(got); });
        failed = faults.failed;
        if (end == DONE) expect_same(want, got, t.tolerance, what, "with all the memory", "without");
    }
    CHECK(end != REJECTED, << what << ": out of memory, but reported as something else");
    std::size_t after = pbt::bytes_in_use();
    CHECK(before == after, << what << ": " << (after - before) << " bytes are lost after running out of memory");
    t.intact(what + ", after running out of memory");
    Rec again;
    t.run(again);
    expect_same(want, again, 0, what, "before running out of memory", "after");
    s.label(t.name + (end == NO_MEMORY ? " reported" : " not needed"));
    s.nontrivial(end == NO_MEMORY && failed > 0);
}

/// Histories of vectors and matrices, some of whose steps run out of memory.
template <typename T, typename U>
void history(Source &s)
{
    using V = malg::Vector<T>;
    using M = malg::Matrix<T>;
    using W = malg::Matrix<U>;
    struct Step {
        std::size_t i, j, a, b;
        T x;
        int what;
        long at;
        bool lasting;
    };
    // Every decision first, so that they do not count as memory.
    std::vector<Step> steps(2 + s.draw(10));
    Mod<U> first_w = cast<U>(gen_numbers(s, 2, 3, INTS, 9, is_cplx<U>));
    std::vector<std::vector<T>> first_v;
    std::vector<Mod<T>> first_m;
    for (int k = 0; k < 3; ++k) {
        first_v.push_back(cast<T>(gen_numbers(s, 1, s.draw(5), INTS, 9, is_cplx<T>).d));
        first_m.push_back(cast<T>(gen_numbers(s, 1 + s.draw(4), 1 + s.draw(4), INTS, 9, is_cplx<T>)));
        if (s.noting()) s.note() << "vector " << show(first_v.back()) << ", matrix " << show(first_m.back()) << "\n";
    }
    for (auto &o : steps) {
        o.i = s.draw(3), o.j = s.draw(3), o.a = s.draw(6), o.b = s.draw(6);
        o.x       = cast<T>(gen_number(s, INTS, 9, is_cplx<T>));
        o.what    = static_cast<int>(s.draw(31));
        o.at      = s.draw(3) == 2 ? -1 : static_cast<long>(s.draw(3));
        o.lasting = s.draw(3) == 2;
        if (s.noting()) {
            s.note() << "operation " << o.what << " on " << o.i << " and " << o.j << " (" << o.a << "," << o.b << ", " << show(o.x) << ")";
            if (o.at >= 0) s.note() << ", allocation " << o.at << (o.lasting ? " and later fail" : " fails");
            s.note() << "\n";
        }
    }
    std::size_t before = pbt::bytes_in_use();
    bool starved       = false;
    int faulty         = 0;
    {
        std::vector<V> v(3);
        std::vector<M> m(3);
        W w = to_malg(first_w);
        for (std::size_t k = 0; k < 3; ++k) v[k] = to_malg(first_v[k]), m[k] = to_malg(first_m[k]);
        for (std::size_t k = 0; k < steps.size(); ++k) {
            const std::size_t i = steps[k].i, j = steps[k].j, a = steps[k].a, b = steps[k].b;
            const T x          = steps[k].x;
            const int what     = steps[k].what;
            const long at      = steps[k].at;
            const bool lasting = steps[k].lasting;
            std::vector<std::vector<T>> mv;
            std::vector<Mod<T>> mm;
            for (auto &y : v) mv.push_back(std::vector<T>(y.begin(), y.end()));
            for (auto &y : m) mm.push_back(model_of(y));
            const Mod<U> mw = model_of(w);
            // One of another element type.
            malg::Vector<U> other(a * (1 + b), U(3));
            // The objects that the step may change.
            bool vi = false, mi = false, vj = false, mj = false, ww = false;
            using LL = std::initializer_list<std::initializer_list<T>>;
            End e    = attempt(at, lasting, true, [&] {
                switch (what) {
                case 0: vi = true, v[i] = v[j]; break;
                case 1: vi = true, v[i] = V(v[j]); break;
                case 2: vi = true, v[i].resize(a * b); break;
                case 3: vi = true, v[i] = V(a, x); break;
                case 4: vi = true, v[i] = V{ x, T(1), x }; break;
                case 5: vi = vj = true, v[i] = std::move(v[j]); break;
                case 6: vi = vj = true, std::swap(v[i], v[j]); break;
                case 7: vi = true, v[i] = v[i] + v[i]; break;
                case 8: vi = true, v[i] = malg::utility::concatenate(v[i], v[j]); break;
                case 9: vi = true, v[i] = malg::utility::to_vector(m[j]); break;
                case 10: mi = true, m[i] = m[j]; break;
                case 11: mi = true, m[i] = M(m[j]); break;
                case 12: mi = true, m[i].resize(1 + a, 1 + b); break;
                case 13: mi = true, m[i] = LL{ { x, T(1), T(2) }, { T(3), x, T(4) } }; break;
                case 14: mi = true, m[i] = LL{ { x, T(1) }, { T(3), x }, { T(6), T(7) }, { x, x } }; break;
                case 15: mi = true, m[i] = w; break;
                case 16: mi = true, m[i] = malg::View<W>(&w, 0, 1 + a, 0, 1 + b); break;
                case 17: mi = true, m[i] = malg::View<M>(&m[j], 0, 1 + a, 0, 1 + b); break;
                case 18: mi = true, m[i] = static_cast<const malg::MatrixBase<T> &>(m[j]); break;
                case 19: mi = true;
                    if (m[i].rows() > 1) malg::utility::remove_row(m[i], a % m[i].rows());
                    break;
                case 20: mi = true;
                    if (m[i].cols() > 1) malg::utility::remove_column(m[i], a % m[i].cols());
                    break;
                case 21: mi = mj = true, m[i] = std::move(m[j]); break;
                case 22: mi = true;
                    if (m[i].size() < 100) m[i] = malg::utility::vstack(m[i], m[i]);
                    break;
                case 23: mi = true;
                    if (m[i].size() > 0) {
                        malg::View<M> y(&m[i], 0, 1, 0, m[i].cols()), z(&m[i], m[i].rows() - 1, m[i].rows(), 0, m[i].cols());
                        y = z, z += y;
                    }
                    break;
                case 24: {
                    M y(m[i]);
                    V z(v[j]);
                    W u(m[i].rows(), m[i].cols());
                    M t(a, b, std::vector<T>(a * b, x));
                    break;
                }
                case 25: vi = true, v[i] = other; break;
                case 26: vi = true, v[i] = std::move(other); break;
                case 27: vi = true, v[i].resize(v[j]); break;
                case 28: mi = true, m[i] = malg::CofactorView<M>(&m[j], 0, m[j].cols() - 1); break;
                case 29: mi = true, m[i] = malg::View<const W>(&w, 0, 1 + a, 0, 1 + b); break;
                default: ww = true, w = W(a + 1, b + 1, U(2)); break;
                }
            });
            if (e == NO_MEMORY) ++faulty;
            CHECK(e != REJECTED, << "step " << k << " was rejected");
            const std::string now = "after step " + std::to_string(k) + (e == NO_MEMORY ? ", which ran out of memory" : "");
            for (std::size_t q = 0; q < 3; ++q) {
                bool target_v = (vi && q == i) || (vj && q == j), target_m = (mi && q == i) || (mj && q == j);
                V &y = v[q];
                M &z = m[q];
                if (!target_v) expect_eq(y, mv[q], "vector " + std::to_string(q) + " " + now);
                if (!target_m) expect_eq(z, mm[q], "matrix " + std::to_string(q) + " " + now);
                // An assignment or a resize that runs out of memory has no effect. (Removing a
                // row or a column moves elements before, and 23 is two assignments.)
                const bool single = what != 19 && what != 20 && what != 23;
                if (target_v && e == NO_MEMORY && single) expect_eq(y, mv[q], "vector " + std::to_string(q) + " " + now);
                if (target_m && e == NO_MEMORY && single) expect_eq(z, mm[q], "matrix " + std::to_string(q) + " " + now);
                if (target_v && e == NO_MEMORY) usable(y, "vector " + std::to_string(q) + " " + now);
                if (target_m && e == NO_MEMORY) usable(z, "matrix " + std::to_string(q) + " " + now);
                CHECK(static_cast<std::size_t>(z.end() - z.begin()) == z.rows() * z.cols(), << "matrix " << q << " " << now << ": the shape does not fit the storage");
                if (z.size() == 0) z = M(2, 2, x);
                if (z.size() > 400) z = M(1, 2, x);
                if (y.size() > 400) y = V(2, x);
            }
            if (!ww) expect_eq(w, mw, "the other matrix " + now);
            else usable(w, "the other matrix " + now);
            starved |= e == NO_MEMORY;
        }
    }
    std::size_t after = pbt::bytes_in_use();
    CHECK(before == after, << "the history leaves " << (after - before) << " bytes allocated");
    if (starved) s.label("ran out of memory");
    s.nontrivial(faulty >= 2);
}
} // namespace c28
#define STARVED(n, T, TB) \
    PROP(operation_##n, 4) { c28::operation<T, TB>(s); }
