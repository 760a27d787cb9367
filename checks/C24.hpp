// C24: results do not depend on the storage order. The executable is built with
// rows stored one after the other, the shared library next to it with columns
// (VERIF_LIBRARY); both run the same cases, described by their decisions.
#include "tasks.hpp"
#include <dlfcn.h>
#include <unistd.h>

namespace c24
{
using namespace ops;

struct Both {
    Rec rec;
    long double tolerance = 0;
    bool discarded        = false;
    std::string failure; // of the other configuration
    bool interesting = false;
    std::string label;
};

/// One operation, on operands in any form.
template <typename T, typename TB>
void operation(Source &s, Both &o)
{
    constexpr bool narrow = std::is_integral_v<T> || std::is_integral_v<TB>;
    constexpr unsigned all = READ | READ2 | WRITE | WRITE2 | OWNER | OWNERW | VEC;
    int id                 = choose<T, TB>(s, all, ORDERED);
    unsigned f             = info(id).flags;
    Values values          = narrow ? INTS : s.draw(2) ? DYADICS : INTS;
    Case c                 = gen_case(s, id, values, is_cplx<T> || is_cplx<TB>, false);
    if (s.draw(5) == 4) perturb(s, id, c);
    if (judge(id, c) == UNJUDGED) {
        o.discarded = true;
        return;
    }
    describe(s, id, c);
    o.tolerance     = f & APPROX ? tolerance_of<T, TB>() : 0;
    o.label         = info(id).name;
    const Mod<T> a  = cast<T>(c.A);
    const Mod<TB> b = cast<TB>(c.B);
    if (f & (OWNER | OWNERW)) {
        malg::Matrix<T> A = to_malg(a);
        malg::Matrix<TB> B = to_malg(b);
        o.rec              = run<T, TB>(id, A, B, c);
    } else {
        bool writes = f & (WRITE | WRITE2);
        bool ca = !writes && s.draw(4) == 3, cb = (f & (READ2 | WRITE2)) && s.draw(4) == 3;
        if (f & SAMET) cb = ca;
        auto with_b = [&](auto &A) {
            if (cb) {
                ConstOperand<TB> ob(s, b);
                o.rec = run<T, TB>(id, A, ob.cref(), c);
            } else {
                Operand<TB> ob(s, b);
                o.rec = run<T, TB>(id, A, ob.ref(), c);
            }
        };
        if (ca) {
            ConstOperand<T> oa(s, a);
            with_b(oa.cref());
        } else {
            Operand<T> oa(s, a);
            with_b(oa.ref());
            if (writes) oa.check_outside(info(id).name);
        }
    }
    if (o.rec.rejected) o.label += " rejected";
    o.interesting = a.size() >= 4 && a.r != 1 && a.c != 1;
    if (f & VEC) o.interesting = false;
}

/// Models, eigenvalues, files.
template <typename T>
void task(Source &s, Both &o)
{
    Task t = gen_task<T>(s, true);
    t.run(o.rec);
    t.intact(t.name);
    o.tolerance   = t.tolerance;
    o.label       = t.name;
    o.interesting = t.interesting;
}

/// A program on a few matrices, with views that live as long as their matrix
/// keeps its shape.
template <typename T>
void program(Source &s, Both &o)
{
    using M = malg::Matrix<T>;
    std::vector<M> m;
    Rec &R = o.rec;
    auto step_name = [&](std::size_t k, const std::string &n) {
        if (s.noting()) s.note() << "step " << k << ": " << n << "\n";
        return "step " + std::to_string(k) + " " + n;
    };
    for (int k = 0; k < 3; ++k) m.push_back(to_malg(cast<T>(gen_numbers(s, 1 + s.draw(4), 1 + s.draw(4), INTS, 9, is_cplx<T>))));
    if (s.noting())
        for (auto &x : m) s.note() << show(model_of(x)) << "\n";
    std::size_t steps = 2 + s.draw(12), changes = 0;
    for (std::size_t k = 0; k < steps; ++k) {
        M &x = m[s.draw(3)], &y = m[s.draw(3)], &z = m[s.draw(3)];
        std::string n;
        std::size_t i = s.draw(5), j = s.draw(5), p = s.draw(6), q = s.draw(6);
        bool square   = x.rows() == x.cols();
        T v           = cast<T>(gen_number(s, INTS, 9, is_cplx<T>));
        int what      = static_cast<int>(s.draw(26));
        const bool small = x.size() <= 60 && y.size() <= 60;
        try {
            switch (what) {
            case 0: n = "transpose", x = malg::linalg::transpose(y); break;
            case 1: n = "add", x = y + z; break;
            case 2:
                n = "product";
                if (y.rows() * z.cols() <= 100) x = y * z;
                break;
            case 3: n = "vstack"; if (small) x = malg::utility::vstack(x, y); break;
            case 4: n = "hstack"; if (small) x = malg::utility::hstack(x, y); break;
            case 5: n = "extract", x = malg::utility::extract(y, i, i + 1 + p, j, j + 1 + q); break;
            case 6: n = "remove row", malg::utility::remove_row(x, i); break;
            case 7: n = "remove column", malg::utility::remove_column(x, j); break;
            case 8: n = "resize", x.resize(1 + p, 1 + q); break;
            case 9: n = "assign view"; if (i < y.rows() && j < y.cols()) x = malg::View<M>(&y, i, i + 1 + p, j, j + 1 + q); break;
            case 10: n = "write through view"; {
                malg::View<M> w(&x, std::min(i, x.rows() - 1), x.rows(), std::min(j, x.cols() - 1), x.cols());
                w(0, 0) = v, w *= v;
                break;
            }
            case 11: n = "cofactor view"; if (x.rows() > i && x.cols() > j && x.rows() > 1 && x.cols() > 1) {
                malg::CofactorView<M> w(&x, i, j);
                w += v;
                for (std::size_t e = 0; e < w.size(); ++e)
                    if (w[e] == v) w[e] = T(3);
            }
            break;
            case 12: n = "swap rows"; malg::utility::swap_rows(x, i % x.rows(), p % x.rows()); break;
            case 13: n = "swap columns"; malg::utility::swap_cols(x, j % x.cols(), q % x.cols()); break;
            case 14: n = "subtract in place", x -= y; break;
            case 15: n = "determinant"; if (square && x.rows() <= 3) R.add(n, malg::linalg::determinant(x)); break;
            case 16: n = "linear access"; {
                // Every position once: in both orders the same set of assignments.
                for (std::size_t e = 0; e < x.size(); ++e) x[e] = x[e] + v;
                R.add_linear(n, x.rows(), x.cols(), x.size(), [&](std::size_t e) { return x[e]; });
                break;
            }
            case 17: n = "view of a view"; if (i < y.rows() && j < y.cols()) {
                malg::View<M> w(&y, 0, y.rows(), j, y.cols());
                malg::View<malg::View<M>> ww(&w, i, w.rows(), 0, w.cols());
                R.add_linear(n, ww.rows(), ww.cols(), ww.size(), [&](std::size_t e) { return ww[e]; });
                x = ww;
            }
            break;
            case 18: n = "iterators"; {
                std::size_t e = 0;
                for (auto it = x.begin(); it != x.end(); ++it, ++e) *it = *it * T(2);
                R.add("iterated", e);
                break;
            }
            case 19: n = "move", x = std::move(y), R.add("moved", y); y = M(2, 3, v); break;
            case 20: n = "list"; {
                x = M(2, 3, { v, T(1), T(2), T(3), v, T(5) });
                R.add("list", x);
                break;
            }
            case 21: n = "rows of values"; {
                malg::Vector<T> row(x.cols(), v);
                x = malg::utility::vstack(x, row);
                break;
            }
            case 22: n = "comparisons"; {
                R.add("==", x == y);
                R.add("symmetric", malg::utility::is_symmetric(x));
                break;
            }
            case 23: n = "list assigned to a view"; if (x.rows() >= 2 && x.cols() >= 2) {
                using LL = std::initializer_list<std::initializer_list<T>>;
                i %= x.rows() - 1, j %= x.cols() - 1;
                malg::View<M> w(&x, i, i + 2, j, j + 2 + (q % 2));
                if (w.cols() == 3) w = LL{ { v, T(1), T(2) }, { T(3), T(4), T(5) } };
                else w = LL{ { v, T(1) }, { T(2), T(3) } };
            }
            break;
            case 24: n = "nested list"; {
                using LL = std::initializer_list<std::initializer_list<T>>;
                if (q % 2) x = LL{ { v, T(1), T(2) }, { T(3), T(4), T(5) } };
                else x = M(LL{ { v, T(1) }, { T(2), T(3) }, { T(5), v } });
                break;
            }
            default: n = "product with a vector"; {
                malg::Vector<T> w(y.cols(), v);
                R.add(n, y * w);
                break;
            }
            }
            ++changes;
        } catch (const std::exception &) {
            n += " rejected";
        }
        step_name(k, n);
        for (std::size_t e = 0; e < 3; ++e) {
            if (m[e].size() == 0) m[e] = M(1, 2, v);
            R.add("matrix " + std::to_string(e) + " after step " + std::to_string(k) + " (" + n + ")", m[e]);
        }
    }
    o.label       = "program";
    o.interesting = changes >= 3;
}

typedef void (*Body)(Source &, Both &);
inline std::map<std::string, Body> &bodies()
{
    static std::map<std::string, Body> t;
    return t;
}
struct Entry_ {
    Entry_(const char *n, Body b)
    {
        bodies()[n] = b;
    }
};
typedef void (*Other)(const char *, const pbt::u64 *, std::size_t, int, Both *);

#ifdef VERIF_LIBRARY
#define C24_TEST(name, weight, body) static c24::Entry_ entry_##name(#name, body);
#else
inline Other other()
{
    static Other f = [] {
        char exe[4096];
        ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
        std::string dir(exe, n > 0 ? static_cast<std::size_t>(n) : 0);
        dir     = dir.substr(0, dir.rfind('/'));
        void *h = dlopen((dir + "/other.so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) std::fprintf(stderr, "%s\n", dlerror()), _exit(9);
        return reinterpret_cast<Other>(dlsym(h, "c24_run"));
    }();
    return f;
}
inline void compare(Source &s, const char *name, Body body)
{
    static_assert(row_major, "the library has the other order");
    Both mine, theirs;
    body(s, mine);
    other()(name, s.used().data(), s.used().size(), s.size(), &theirs);
    CHECK(theirs.failure.empty(), << name << ": with the columns stored one after the other: " << theirs.failure);
    s.discard(mine.discarded && theirs.discarded);
    CHECK(mine.discarded == theirs.discarded, << name << ": only one configuration runs this");
    expect_same(mine.rec, theirs.rec, mine.tolerance, std::string(name) + " " + mine.label, "stored by rows", "stored by columns");
    s.label(mine.label);
    s.nontrivial(mine.interesting);
}
#define C24_TEST(name, weight, body) \
    PROP(name, weight) { c24::compare(s, #name, body); }
#endif
} // namespace c24
#define PAIR(n, T, TB) C24_TEST(op_##n, 3, (&c24::operation<T, TB>))
#define PROGRAM(n, T) C24_TEST(program_##n, 3, (&c24::program<T>))
#define TASK(n, T) C24_TEST(task_##n, 1, (&c24::task<T>))
