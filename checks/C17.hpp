// C17: discretization and simulation.
#include "C15.hpp"

namespace c17
{
using namespace malg;
using control::DiscreteStateSpace;
using control::StateSpace;

/// A model whose state matrix has one of the structures of the exponential.
template <typename T>
StateSpace<T> gen_model(Source &s, Mod<T> &a, Mod<T> &b, Mod<T> &c, Mod<T> &d, std::string &kind)
{
    a             = c15::gen_square<T>(s, kind);
    std::size_t n = a.r, m = 1 + s.draw(3), p = 1 + s.draw(3);
    Flavor f      = s.draw(2) ? DYADIC : REAL;
    b             = gen_mod<T>(s, n, m, f);
    for (auto &v : b.d) v = v / T(8);
    c = gen_mod<T>(s, p, n, f), d = gen_mod<T>(s, p, m, f);
    return StateSpace<T>(to_malg(a), to_malg(b), to_malg(c), to_malg(d));
}

template <typename T>
void discretize(Source &s)
{
    std::string kind;
    Mod<T> a, b, c, d;
    const StateSpace<T> sys = gen_model<T>(s, a, b, c, d, kind);
    std::size_t n = a.r, m = b.c;
    T ts          = std::ldexp(static_cast<T>(1 + s.draw(16)), -static_cast<int>(s.draw(12)));
    if (s.draw(4) == 0) ts = ts / T(10);
    L ab(n + m, n + m), as(n, n);
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < n; ++j) as(i, j) = ab(i, j) = scale_l(to_cl(a(i, j)), static_cast<long double>(ts));
        for (std::size_t j = 0; j < m; ++j) ab(i, n + j) = scale_l(to_cl(b(i, j)), static_cast<long double>(ts));
    }
    s.discard(inf_norm(ab) > 24);
    L want = c15::exact_exp(ab);
    long double slack = eps_of<T>() * inf_norm(ab) * std::exp(inf_norm(ab)) * 4;
    long double ba = c15::error_bound<T>(as, 1e-05) + std::min(slack, inf_norm(as) * eps_of<T>() * 4 * std::exp(inf_norm(as))), bb = c15::error_bound<T>(ab, 1e-05) + slack;
    s.nontrivial(n >= 2 || max_abs(as) > 0);
    s.label(kind);
    s.note() << tname<T>() << " A " << show(a) << " B " << show(b) << " sample time " << show(ts) << "\n";
    auto ds = control::c2d(sys, ts);
    static_assert(std::is_same_v<decltype(ds), DiscreteStateSpace<T>>, "c2d has the wrong type");
    CHECK(ds.sample_time == ts, << "the sample time is " << show<T>(ds.sample_time) << " instead of " << show(ts));
    expect_eq(ds.C, c, "output matrix of the discrete model");
    expect_eq(ds.D, d, "feedthrough matrix of the discrete model");
    CHECK(ds.A.rows() == n && ds.A.cols() == n, << "the discrete state matrix is " << ds.A.rows() << "x" << ds.A.cols());
    CHECK(ds.B.rows() == n && ds.B.cols() == m, << "the discrete input matrix is " << ds.B.rows() << "x" << ds.B.cols());
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < n; ++j)
            CHECK(abs_l(sub_l(to_cl(T(ds.A(i, j))), want(i, j))) <= ba, << "the discrete state matrix: element (" << i << "," << j << ") is " << show<T>(ds.A(i, j)) << " instead of " << show(want(i, j)) << " within " << show(ba));
        for (std::size_t j = 0; j < m; ++j)
            CHECK(abs_l(sub_l(to_cl(T(ds.B(i, j))), want(i, n + j))) <= bb, << "the discrete input matrix: element (" << i << "," << j << ") is " << show<T>(ds.B(i, j)) << " instead of " << show(want(i, n + j)) << " within " << show(bb));
    }
    expect_eq(sys.A, a, "c2d: A"), expect_eq(sys.B, b, "c2d: B"), expect_eq(sys.C, c, "c2d: C"), expect_eq(sys.D, d, "c2d: D");
    // Two steps are one of twice the time.
    if (inf_norm(ab) <= 8) {
        auto d2       = control::c2d(sys, T(ts * T(2)));
        long double na = inf_norm(to_l(model_of(ds.A))), nb = max_abs(to_l(model_of(ds.B)));
        L two = mul(to_l(model_of(ds.A)), to_l(model_of(ds.A)));
        L in  = add(mul(to_l(model_of(ds.A)), to_l(model_of(ds.B))), to_l(model_of(ds.B)));
        L l2 = scaled(as, 2), lb2 = scaled(ab, 2);
        long double e2 = c15::error_bound<T>(lb2, 1e-05) + eps_of<T>() * 8 * inf_norm(lb2) * std::exp(inf_norm(lb2));
        c15::close(to_l(model_of(d2.A)), two, 2 * ba * (na + ba) + e2, "the state matrix for twice the time");
        c15::close(to_l(model_of(d2.B)), in, bb * (na + 1) + ba * (nb + bb) * static_cast<long double>(n) + e2, "the input matrix for twice the time");
    }
    // Zero input and state.
    auto zu = control::generate_input_zero(sys);
    auto zx = control::generate_state_zero(sys);
    expect_eq(zu, std::vector<T>(m, T(0)), "generate_input_zero");
    expect_eq(zx, std::vector<T>(n, T(0)), "generate_state_zero");
    auto zd = control::generate_input_zero(ds);
    expect_eq(zd, std::vector<T>(m, T(0)), "generate_input_zero of a discrete model");
}

/// Sums of products, exact on small integers and within rounding otherwise.
template <typename T>
struct Sum {
    std::vector<cl> v;
    std::vector<long double> mag;
};
template <typename T>
Sum<T> affine(const Mod<T> &a, const std::vector<T> &x, const Mod<T> &b, const std::vector<T> &u)
{
    Sum<T> o;
    for (std::size_t i = 0; i < a.r; ++i) {
        cl v(0);
        long double g = 0;
        for (std::size_t j = 0; j < a.c; ++j) {
            cl t = mul_l(to_cl(a(i, j)), to_cl(x[j]));
            v = add_l(v, t), g += abs_l(t);
        }
        for (std::size_t j = 0; j < b.c; ++j) {
            cl t = mul_l(to_cl(b(i, j)), to_cl(u[j]));
            v = add_l(v, t), g += abs_l(t);
        }
        o.v.push_back(v), o.mag.push_back(g);
    }
    return o;
}
template <typename T>
void expect_sum(const Vector<T> &got, const Sum<T> &want, bool exact, std::size_t terms, const std::string &what)
{
    CHECK(got.size() == want.v.size(), << what << " has " << got.size() << " elements instead of " << want.v.size());
    for (std::size_t i = 0; i < got.size(); ++i) {
        long double bound = exact ? 0 : 4 * static_cast<long double>(terms + 2) * eps_of<T>() * want.mag[i];
        CHECK(abs_l(sub_l(to_cl(got[i]), want.v[i])) <= bound, << what << ": element " << i << " is " << show<T>(got[i]) << " instead of " << show(want.v[i]) << " within " << show(bound));
    }
}

template <typename T>
void simulation(Source &s)
{
    constexpr bool integral = std::is_integral_v<real_of<T>>;
    std::size_t n = s.draw(150) == 149 ? 10 + s.draw(30) : gen_dim(s, 1, 10), m = gen_dim(s, 1, 6), p = gen_dim(s, 1, 6);
    bool exact = integral || s.draw(2);
    Flavor f   = exact ? FEW : s.draw(2) ? REAL : DYADIC;
    Mod<T> a = gen_mod<T>(s, n, n, s.draw(2) && exact ? SPARSE : f), b = gen_mod<T>(s, n, m, f), c = gen_mod<T>(s, p, n, f), d = gen_mod<T>(s, p, m, f);
    if (exact) // At most one element of each row, so that the powers stay small.
        for (std::size_t i = 0; i < n; ++i) {
            std::size_t k = s.draw(n);
            for (std::size_t j = 0; j < n; ++j) a(i, j) = j == k ? T(1 - static_cast<int>(s.draw(3))) : T(0);
        }
    else {
        int e = 0;
        std::frexp(inf_norm(to_l(a)), &e);
        for (auto &v : a.d) v = T(v * static_cast<T>(std::ldexp(1.0, -e)));
    }
    // Each matrix, the inputs and the state have a magnitude of their own.
    T scale_u = T(1), scale_x = T(1);
    if constexpr (!integral) {
        auto power = [&s]() { return s.draw(3) ? T(1) : T(std::ldexp(T(1), static_cast<int>(s.draw(57)) - 28)); };
        T sb = power(), sc = power(), sd = power();
        scale_u = power(), scale_x = power();
        exact = exact && sb == T(1) && sc == T(1) && sd == T(1) && scale_u == T(1) && scale_x == T(1);
        for (auto &v : b.d) v = v * sb;
        for (auto &v : c.d) v = v * sc;
        for (auto &v : d.d) v = v * sd;
    }
    T ts = T(1);
    if constexpr (!integral) ts = std::ldexp(static_cast<real_of<T>>(1 + s.draw(8)), -static_cast<int>(s.draw(8)));
    else ts = T(1 + s.draw(4));
    if (!integral && s.draw(3) == 0) ts = ts / T(10);
    const DiscreteStateSpace<T> sys(to_malg(a), to_malg(b), to_malg(c), to_malg(d), ts);
    CHECK(sys.sample_time == ts, << "the constructor does not keep the sample time");
    expect_eq(sys.A, a, "constructed A"), expect_eq(sys.B, b, "constructed B"), expect_eq(sys.C, c, "constructed C"), expect_eq(sys.D, d, "constructed D");

    std::vector<T> x0 = gen_vec<T>(s, n, f);
    for (auto &v : x0) v = v * scale_x;
    std::size_t inputs = s.draw(3) ? s.draw(12) : s.draw(60), samples = s.draw(3) ? s.draw(14) : s.draw(60);
    std::vector<std::vector<T>> us;
    std::vector<Vector<T>> u;
    for (std::size_t i = 0; i < inputs; ++i) {
        us.push_back(gen_vec<T>(s, m, f));
        for (auto &v : us.back()) v = v * scale_u;
        u.push_back(to_malg(us.back()));
    }
    const std::vector<Vector<T>> uc = u;
    // The simulated time: a little more than some samples.
    T time = T(static_cast<T>(samples) * ts);
    bool dyadic = integral || std::ldexp(ts, 12) == std::floor(std::ldexp(static_cast<double>(ts), 12));
    if constexpr (!integral)
        if (!dyadic || s.draw(2)) time = time + ts * T(0.5);
    if constexpr (integral) time = time + T(s.draw(static_cast<std::size_t>(ts)));
    std::size_t steps = std::min(inputs, samples);
    // A time that is not a number of samples in the range of the integers.
    bool odd = s.draw(10) == 0;
    if (odd) {
        switch (s.draw(integral ? 2 : 5)) {
        case 0:
            time = T(-time), steps = 0;
            break;
        case 1:
            time = std::numeric_limits<T>::max(), steps = inputs;
            break;
        case 2:
            time = std::numeric_limits<T>::infinity(), steps = inputs;
            break;
        case 3:
            time = -std::numeric_limits<T>::infinity(), steps = 0;
            break;
        default:
            time = std::numeric_limits<T>::quiet_NaN(), steps = 0;
        }
        // The largest time is many samples, unless the samples are as long.
        if constexpr (integral)
            if (time == std::numeric_limits<T>::max() && time / ts < T(inputs)) time = T(0), steps = 0;
    }
    s.nontrivial(steps >= 2 && n >= 2);
    s.label(odd ? "a time without samples" : inputs < samples ? "bounded by the inputs" : inputs > samples ? "bounded by the time" : "both");
    s.note() << tname<T>() << " A " << show(a) << " B " << show(b) << " C " << show(c) << " D " << show(d) << " x " << show(x0) << " inputs " << inputs << " time " << show(time) << " sample " << show(ts) << "\n";

    const Vector<T> init = to_malg(x0);
    if (inputs > 0) {
        auto [nx, y] = control::simulate_step(sys, init, uc[0]);
        expect_sum<T>(nx, affine(a, x0, b, us[0]), exact, n + m, "the next state");
        expect_sum<T>(y, affine(c, x0, d, us[0]), exact, n + m, "the output");
        expect_eq(init, x0, "simulate_step: state"), expect_eq(uc[0], us[0], "simulate_step: input");
    }
    auto [t, x, y] = control::simulate(sys, uc, time, init);
    static_assert(std::is_same_v<std::decay_t<decltype(t)>, std::vector<T>> && std::is_same_v<std::decay_t<decltype(x)>, std::vector<Vector<T>>> && std::is_same_v<std::decay_t<decltype(y)>, std::vector<Vector<T>>>, "simulate has the wrong types");
    CHECK(t.size() == steps + 1, << "simulate returns " << t.size() << " times instead of " << steps + 1);
    CHECK(x.size() == steps + 1, << "simulate returns " << x.size() << " states instead of " << steps + 1);
    CHECK(y.size() == steps, << "simulate returns " << y.size() << " outputs instead of " << steps);
    expect_eq(x[0], x0, "the first state");
    for (std::size_t i = 0; i <= steps; ++i) {
        long double want = static_cast<long double>(i) * static_cast<long double>(ts);
        CHECK(std::fabs(static_cast<long double>(t[i]) - want) <= static_cast<long double>(i + 2) * eps_of<T>() * want, << "time " << i << " is " << show<T>(t[i]) << " instead of " << show(want));
    }
    for (std::size_t i = 0; i < steps; ++i) {
        std::vector<T> xi = model_of(x[i]);
        expect_sum<T>(x[i + 1], affine(a, xi, b, us[i]), exact, n + m, "state " + std::to_string(i + 1));
        expect_sum<T>(y[i], affine(c, xi, d, us[i]), exact, n + m, "output " + std::to_string(i));
    }
    for (std::size_t i = 0; i < inputs; ++i) expect_eq(uc[i], us[i], "simulate: input " + std::to_string(i));
    expect_eq(sys.A, a, "simulate: A"), expect_eq(sys.B, b, "simulate: B"), expect_eq(sys.C, c, "simulate: C"), expect_eq(sys.D, d, "simulate: D");
}

template <typename T>
void empty(Source &s)
{
    StateSpace<T> c;
    DiscreteStateSpace<T> d;
    CHECK(c.A.empty() && c.B.empty() && c.C.empty() && c.D.empty(), << "a default model is not empty");
    CHECK(d.A.empty() && d.B.empty() && d.C.empty() && d.D.empty() && d.sample_time == T(0), << "a default discrete model is not empty");
    simulation<T>(s);
}
} // namespace c17
