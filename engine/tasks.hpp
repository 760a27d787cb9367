// What the library does beyond single operations: models, eigenvalues, files.
#pragma once
#include "ops.hpp"

#include <atomic>
#include <fstream>
#include <functional>
#include <unistd.h>

namespace ops
{
struct Task {
    std::string name;
    /// Runs it on the operands it was made with, and records what comes out.
    std::function<void(Rec &)> run;
    /// Complains when the operands have changed.
    std::function<void(const std::string &)> intact;
    long double tolerance = 0;
    bool interesting      = true;
};
/// A file that is gone with the task.
struct Scratch {
    std::string path;
    Scratch()
    {
        static std::atomic<unsigned> count{ 0 };
        const char *dir = std::getenv("VERIF_TMP");
        path            = std::string(dir ? dir : ".") + "/malg-task-" + std::to_string(getpid()) + "-" + std::to_string(reinterpret_cast<std::uintptr_t>(&count) % 9973) + "-" + std::to_string(count++);
    }
    Scratch(const Scratch &) = delete;
    ~Scratch()
    {
        unlink(path.c_str());
    }
};
/// Whether what prints is kept quiet; not among threads.
inline bool muting = true;
/// Keeps a stream quiet, without memory of its own.
struct Muted {
    struct Nowhere : std::streambuf {
        int overflow(int c) override
        {
            return c == EOF ? 0 : c;
        }
    } nowhere;
    std::ostream &os;
    std::streambuf *old;
    explicit Muted(std::ostream &o)
        : os(o), old(o.rdbuf())
    {
        if (muting) os.rdbuf(&nowhere);
    }
    ~Muted()
    {
        if (muting) os.rdbuf(old);
    }
};
template <typename T>
malg::Matrix<T> task_matrix(Source &s, std::size_t r, std::size_t c, long max, double scale = 1)
{
    Mod<T> m = cast<T>(gen_numbers(s, r, c, INTS, max, is_cplx<T>));
    for (auto &v : m.d) v = T(v * static_cast<real_of<T>>(scale));
    return to_malg(m);
}

/// T is double, float or complex of them.
template <typename T>
Task gen_task(Source &s, bool streams)
{
    namespace ct = malg::control;
    using R      = real_of<T>;
    using Z      = std::complex<R>;
    using M      = malg::Matrix<T>;
    using V      = malg::Vector<T>;
    Task t;
    const std::size_t n = 1 + s.draw(4), m = 1 + s.draw(3), p = 1 + s.draw(3);
    t.interesting = n >= 2;
    t.tolerance   = tolerance_of<T, T>();
    // A model whose matrices are shared by the parts of the task.
    auto model = [&](double scale) {
        auto sys = std::make_shared<const ct::StateSpace<T>>(task_matrix<T>(s, n, n, 4, scale), task_matrix<T>(s, n, m, 4, scale), task_matrix<T>(s, p, n, 4, scale), task_matrix<T>(s, p, m, 4, scale));
        const Mod<T> a = model_of(sys->A), b = model_of(sys->B), c = model_of(sys->C), d = model_of(sys->D);
        t.intact       = [=](const std::string &w) { expect_eq(sys->A, a, w + ": A"), expect_eq(sys->B, b, w + ": B"), expect_eq(sys->C, c, w + ": C"), expect_eq(sys->D, d, w + ": D"); };
        if (s.noting()) s.note() << "A = " << show(a) << "\nB = " << show(b) << "\nC = " << show(c) << "\nD = " << show(d) << "\n";
        return sys;
    };
    switch (s.draw(streams ? 9 : 6)) {
    case 0: {
        auto sys    = model(0.25);
        const T dt  = T(R(std::ldexp(1.0, -static_cast<int>(s.draw(4)))));
        t.name      = "c2d";
        t.run       = [=](Rec &rec) {
            auto d = ct::c2d(*sys, dt);
            rec.add("A", d.A), rec.add("B", d.B), rec.add("C", d.C), rec.add("D", d.D), rec.add("sample time", d.sample_time);
        };
        break;
    }
    case 1:
        if constexpr (!is_cplx<T>) {
            auto sys       = model(0.5);
            const R dt     = R(0.125);
            const R time   = dt * static_cast<R>(s.draw(7));
            auto u         = std::make_shared<std::vector<V>>();
            std::size_t sz = s.draw(7);
            for (std::size_t k = 0; k < sz; ++k) u->push_back(to_malg(cast<T>(gen_numbers(s, 1, m, INTS, 3, false)).d));
            const V x0 = to_malg(cast<T>(gen_numbers(s, 1, n, INTS, 3, false)).d);
            auto dsys  = std::make_shared<const ct::DiscreteStateSpace<T>>(sys->A, sys->B, sys->C, sys->D, dt);
            t.name     = "simulate";
            t.run      = [=](Rec &rec) {
                auto [times, x, y] = ct::simulate(*dsys, *u, time, x0);
                rec.add("times", times.size()), rec.add("states", x.size()), rec.add("outputs", y.size());
                for (auto &v : times) rec.add("t", v);
                for (auto &v : x) rec.add("x", v);
                for (auto &v : y) rec.add("y", v);
                rec.add("zero input", ct::generate_input_zero(*sys)), rec.add("zero state", ct::generate_state_zero(*sys));
            };
            break;
        }
        [[fallthrough]];
    case 2: { // controllable in any case
        Mod<T> f(n, n), e(n, 1), poles(1, n);
        Mod<cd> last = gen_numbers(s, 1, n, INTS, 3, is_cplx<T>);
        for (std::size_t i = 0; i + 1 < n; ++i) f(i, i + 1) = T(1);
        for (std::size_t j = 0; j < n; ++j) f(n - 1, j) = cast<T>(last(0, j));
        for (std::size_t j = 0; j < n; ++j) poles(0, j) = T(R(s.sint(4)) / R(2));
        e(n - 1, 0) = T(1);
        if (s.noting()) s.note() << "A = " << show(f) << " b = " << show(e) << " poles " << show(poles) << "\n";
        auto A = std::make_shared<const M>(to_malg(f)), b = std::make_shared<const M>(to_malg(e)), q = std::make_shared<const M>(to_malg(poles));
        t.name   = "acker";
        t.intact = [=](const std::string &w) { expect_eq(*A, f, w + ": A"), expect_eq(*b, e, w + ": b"), expect_eq(*q, poles, w + ": poles"); };
        t.run    = [=](Rec &rec) { rec.add("gain", ct::acker(*A, *b, *q)); };
        break;
    }
    case 3: { // distinct elements on the diagonal
        Mod<cd> g = gen_numbers(s, n, n, INTS, 4, is_cplx<T>);
        Mod<Z> h(n, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = i; j < n; ++j) h(i, j) = i == j ? Z(R(3 * i + 1), R(0)) : cast<Z>(g(i, j));
        if (s.noting()) s.note() << show(h) << "\n";
        auto x   = std::make_shared<const malg::Matrix<Z>>(to_malg(h));
        t.name   = "eigenvectorUpper";
        t.intact = [=](const std::string &w) { expect_eq(*x, h, w); };
        t.run    = [=](Rec &rec) { rec.add("eigenvectors", malg::eigen::eigenvectorUpper(*x)); };
        break;
    }
    case 4:
    case 5: { // hermitian
        Mod<cd> g = gen_numbers(s, n, n, INTS, 4, true);
        Mod<Z> h(n, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) h(i, j) = i == j ? Z(R(5 * i), R(0)) : i < j ? cast<Z>(g(i, j)) / R(4) : std::conj(h(j, i));
        if (s.noting()) s.note() << show(h) << "\n";
        auto x   = std::make_shared<const malg::Matrix<Z>>(to_malg(h));
        t.name   = "QRHessenberg";
        t.intact = [=](const std::string &w) { expect_eq(*x, h, w); };
        t.run    = [=](Rec &rec) {
            // What it promises, not what it happens to choose.
            Muted muted(std::cout);
            auto [P, U] = malg::eigen::QRHessenberg(*x);
            Unharmed unharmed;
            L pl = to_l(model_of(P)), ul = to_l(model_of(U)), back = mul(mul(pl, ul), herm(pl));
            Mod<Z> r(n, n);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j) r(i, j) = Z(static_cast<R>(back(i, j).real()), static_cast<R>(back(i, j).imag()));
            rec.add("P T P*", to_malg(r));
        };
        break;
    }
    case 6: { // a model as a text
        auto sys = model(1);
        t.name   = "model printed";
        t.run    = [=](Rec &rec) {
            std::ostringstream o;
            o << *sys << ct::DiscreteStateSpace<T>(sys->A, sys->B, sys->C, sys->D, T(R(0.5)));
            rec.add_text("text", o.str());
        };
        break;
    }
    case 7: { // to a file and back
        const Mod<T> a      = cast<T>(gen_numbers(s, n, 1 + s.draw(5), INTS, 1000, is_cplx<T>));
        const std::size_t r = 1 + s.draw(4), c = 1 + s.draw(4);
        auto x   = std::make_shared<const M>(to_malg(a));
        auto v   = std::make_shared<const V>(to_malg(a.d));
        t.name   = "to a file and back";
        t.interesting = a.r >= 2 && a.c >= 2;
        if (s.noting()) s.note() << show(a) << "\n";
        t.intact = [=](const std::string &w) { expect_eq(*x, a, w), expect_eq(*v, a.d, w); };
        t.run    = [=](Rec &rec) {
            Scratch f;
            {
                std::ofstream o(f.path);
                o << *x << *v << malg::utility::row(*x, 0);
            }
            std::ifstream i(f.path);
            M y(r, c, T(7)), z;
            V w(3, T(1));
            i >> y >> w >> z;
            rec.add("matrix", y), rec.add("vector", w), rec.add("row", z), rec.add("good", !i.fail());
            std::ifstream g(f.path);
            std::string text((std::istreambuf_iterator<char>(g)), {});
            rec.add_text("file", text);
        };
        break;
    }
    default: { // from a file
        const Mod<T> a      = cast<T>(gen_numbers(s, n, 1 + s.draw(5), INTS, 1000, false));
        const std::size_t r = 1 + s.draw(4), c = 1 + s.draw(4), missing = s.draw(3) ? 0 : 1 + s.draw(4);
        t.name              = "from a file";
        t.interesting       = a.r >= 2 && a.c >= 2;
        if (s.noting()) s.note() << show(a) << " without " << missing << " elements\n";
        t.intact = [](const std::string &) {};
        t.run    = [=](Rec &rec) {
            Scratch f;
            {
                std::ofstream o(f.path);
                o << "M " << a.r << " " << a.c;
                for (std::size_t k = 0; k + missing < a.size(); ++k) o << (k % a.c ? " " : "\n") << std::real(a(k / a.c, k % a.c));
                o << "\n";
            }
            std::ifstream i(f.path);
            M y(r, c, T(7));
            i >> y;
            rec.add("good", !i.fail());
            rec.add("shape", y.rows() * 1000 + y.cols());
            if (!missing) rec.add("matrix", y);
        };
    }
    }
    return t;
}
} // namespace ops
