// C29: operations keep no hidden state: a result depends on the operands (and
// the tolerance) only, whatever was computed before, and what different threads
// do at the same time does not matter either. Built with ThreadSanitizer.
#include "tasks.hpp"
#include <cfenv>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <locale>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace c29
{
using namespace ops;

/// What every operation leaves alone.
struct World {
    double tolerance = malg::feq::tolerance();
    int rounding     = std::fegetround();
    std::locale locale;
    struct Format {
        std::ios_base::fmtflags flags;
        std::streamsize precision, width;
        char fill;
        std::ios_base::iostate state, exceptions;
        std::streambuf *buffer;
        explicit Format(std::ostream &o)
            : flags(o.flags()), precision(o.precision()), width(o.width()), fill(o.fill()), state(o.rdstate()), exceptions(o.exceptions()), buffer(o.rdbuf())
        {
        }
        bool operator==(const Format &x) const
        {
            return flags == x.flags && precision == x.precision && width == x.width && fill == x.fill && state == x.state && exceptions == x.exceptions && buffer == x.buffer;
        }
    };
    Format out{ std::cout }, err{ std::cerr };
    void unchanged(const std::string &what) const
    {
        World now;
        CHECK(now.tolerance == tolerance, << what << ": the tolerance was " << tolerance << " and is now " << now.tolerance);
        CHECK(now.rounding == rounding, << what << ": changed the rounding mode");
        CHECK(now.locale == locale, << what << ": changed the locale");
        CHECK(now.out == out, << what << ": changed the format of the standard output");
        CHECK(now.err == err, << what << ": changed the format of the error output");
    }
};
/// Restores the tolerance, whatever happens.
struct Tolerance {
    double old = malg::feq::tolerance();
    ~Tolerance()
    {
        malg::feq::tolerance() = old;
    }
};
constexpr unsigned ANY = READ | READ2 | WRITE | WRITE2 | OWNER | OWNERW | VEC;

template <typename T, typename TB>
Rec fresh(int id, const Case &c)
{
    malg::Matrix<T> a  = to_malg(cast<T>(c.A));
    malg::Matrix<TB> b = to_malg(cast<TB>(c.B));
    return run<T, TB>(id, a, b, c);
}
/// One operation, with operands that conform or not.
template <typename T, typename TB>
struct Call {
    int id = 0;
    Case c;
    static Call of(Source &s, unsigned kinds, bool conforming, unsigned without = 0)
    {
        Call x;
        x.id = choose<T, TB>(s, kinds, without);
        // Powers are often taken one after the other.
        if (s.draw(20) == 19 && (kinds & READ) && !(without & SMALL_) && supported<T, TB>(op_powm)) x.id = op_powm;
        x.c  = gen_case(s, x.id, s.draw(2) ? INTS : REALS, is_cplx<T> || is_cplx<TB>, false);
        if (!conforming && s.draw(4) == 3) perturb(s, x.id, x.c);
        s.discard(judge(x.id, x.c) == UNJUDGED);
        if (info(x.id).flags & DOM) s.discard(judge(x.id, x.c) != CONFORMS);
        return x;
    }
    std::string what() const
    {
        return std::string(info(id).name) + " (" + tname<T>() + ", " + tname<TB>() + ")";
    }
};
template <typename T>
Rec control(int which, const Case &c);

/// The same call gives the same again, whatever ran in between.
template <typename T, typename TB, typename U>
void again(Source &s)
{
    Tolerance restore;
    typedef Call<T, TB> X;
    X x = X::of(s, ANY, false);
    describe(s, x.id, x.c);
    World world;
    Rec first = fresh<T, TB>(x.id, x.c);
    world.unchanged(x.what());
    std::size_t steps = 1 + s.draw(6);
    for (std::size_t k = 0; k < steps; ++k) {
        switch (s.draw(5)) {
        case 0: {
            auto y = Call<U, U>::of(s, ANY, false);
            if (s.noting()) s.note() << "then " << y.what() << "\n";
            fresh<U, U>(y.id, y.c);
            world.unchanged(y.what());
            break;
        }
        case 1: { // the same operation on other operands
            Case c = gen_case(s, x.id, INTS, is_cplx<T> || is_cplx<TB>, false);
            if (judge(x.id, c) != CONFORMS) break;
            s.note() << "then the same of others\n";
            fresh<T, TB>(x.id, c);
            world.unchanged(x.what());
            break;
        }
        case 2: {
            // A comparison in another tolerance, for a while.
            s.note() << "then with another tolerance\n";
            double old             = malg::feq::tolerance();
            malg::feq::tolerance() = s.draw(2) ? 1e-2 : 1e-12;
            fresh<T, TB>(x.id, x.c);
            malg::feq::tolerance() = old;
            break;
        }
        case 3: {
            int w = static_cast<int>(s.draw(9));
            auto y = Call<double, double>::of(s, READ2, true);
            s.note() << "then control " << w << "\n";
            control<double>(w, y.c);
            world.unchanged("control theory");
            break;
        }
        default: {
            auto y = X::of(s, ANY, false);
            if (s.noting()) s.note() << "then " << y.what() << "\n";
            fresh<T, TB>(y.id, y.c);
            world.unchanged(y.what());
        }
        }
        expect_same(first, fresh<T, TB>(x.id, x.c), 0, x.what(), "at first", "later");
    }
    s.label(info(x.id).name);
    s.nontrivial(!first.e.empty() && (x.c.A.size() >= 2 || x.c.v.size() >= 2));
}

/// The whole of a matrix.
template <typename M>
malg::View<M> view_of(M &m)
{
    return malg::View<M>(&m, 0, m.rows(), 0, m.cols());
}
/// Gives the elements of m other values, without replacing it.
template <typename T>
void rewrite(Source &s, malg::Matrix<T> &m, const Mod<T> &to)
{
    std::size_t r = m.rows(), c = m.cols();
    switch (r == to.r && c == to.c ? s.draw(9) : 7 + s.draw(3)) {
    case 0:
        for (std::size_t i = 0; i < r; ++i)
            for (std::size_t j = 0; j < c; ++j) m(i, j) = to(i, j);
        break;
    case 1:
        for (std::size_t p = 0; p < m.size(); ++p) m[p] = to.lin(p);
        break;
    case 2: {
        std::size_t p = 0;
        for (auto it = m.begin(); it != m.end(); ++it, ++p) *it = to.lin(p);
        break;
    }
    case 3: {
        if (m.size() == 0) break;
        malg::View<malg::Matrix<T>> v(&m, 0, r, 0, c);
        for (std::size_t i = 0; i < r; ++i)
            for (std::size_t j = 0; j < c; ++j) v(i, j) = to(i, j);
        break;
    }
    case 4: { // row by row
        malg::Matrix<T> x = to_malg(to);
        for (std::size_t i = 0; i < r && c; ++i) malg::View<malg::Matrix<T>>(&m, i, i + 1, 0, c) = malg::View<malg::Matrix<T>>(&x, i, i + 1, 0, c);
        break;
    }
    case 5: { // of some, then of all
        malg::MatrixBase<T> &b = m;
        for (std::size_t p = 0; p < b.size(); ++p) b[p] = T(1);
        for (std::size_t i = r; i-- > 0;)
            for (std::size_t j = c; j-- > 0;) b(i, j) = to(i, j);
        break;
    }
    case 6: {
        T *p = m.size() ? &m[0] : nullptr;
        for (std::size_t k = 0; k < m.size(); ++k) p[k] = to.lin(k);
        break;
    }
    case 7: m = to_malg(to); break;
    case 8: {
        malg::Matrix<T> x = to_malg(to);
        m                 = x;
        break;
    }
    default:
        m.resize(to.r, to.c);
        for (std::size_t i = 0; i < to.r; ++i)
            for (std::size_t j = 0; j < to.c; ++j) m(i, j) = to(i, j);
    }
}
/// The same objects with other elements: nothing remembers the former ones.
template <typename T, typename TB>
void rewritten(Source &s)
{
    typedef Call<T, TB> X;
    bool whole = s.draw(2); // a view of each throughout
    X x        = X::of(s, whole ? READ | READ2 : ANY, true);
    s.note() << (whole ? "through one view\n" : "");
    describe(s, x.id, x.c);
    malg::Matrix<T> a  = to_malg(cast<T>(x.c.A));
    malg::Matrix<TB> b = to_malg(cast<TB>(x.c.B));
    if (a.size() == 0 || b.size() == 0) whole = false;
    malg::Matrix<T> one(1, 1, T(0));
    malg::Matrix<TB> another(1, 1, TB(0));
    auto va = view_of(whole ? a : one);
    auto vb = view_of(whole ? b : another);
    std::size_t steps = 1 + s.draw(3);
    auto both         = [&](int id, const Case &c, const std::string &when) {
        Rec want = fresh<T, TB>(id, c), got;
        got      = whole ? run<T, TB>(id, va, vb, c) : run<T, TB>(id, a, b, c);
        expect_same(want, got, 0, std::string(info(id).name) + when, "with new objects", "with rewritten ones");
    };
    both(x.id, x.c, "");
    bool other = false;
    for (std::size_t k = 0; k < steps; ++k) {
        X y = x;
        if (whole || s.draw(2)) { // other numbers in the same shape
            auto renew = [&](Mod<cd> &m) {
                Mod<cd> n = gen_numbers(s, m.r, m.c, INTS, 9, is_cplx<T> && is_cplx<TB>);
                for (std::size_t p = 0; p < m.d.size(); ++p)
                    if (s.draw(2)) m.d[p] = n.d[p];
            };
            renew(y.c.A), renew(y.c.B);
            if (y.id == op_powm && s.draw(2)) y.c.n = static_cast<unsigned>(s.draw(5));
            if (judge(y.id, y.c) != CONFORMS) continue;
        } else {
            y = X::of(s, ANY, true);
            s.note() << "then ", describe(s, y.id, y.c);
        }
        rewrite(s, a, cast<T>(y.c.A));
        rewrite(s, b, cast<TB>(y.c.B));
        if (s.noting()) s.note() << "rewritten: A = " << show(y.c.A) << ", B = " << show(y.c.B) << "\n";
        both(y.id, y.c, ", step " + std::to_string(k));
        other = true;
    }
    s.label(std::string(info(x.id).name) + " rewritten");
    s.nontrivial(other && x.c.A.size() >= 2);
}

/// Control theory and eigenvalues, on what c has.
template <typename T>
Rec control(int which, const Case &c)
{
    namespace ct = malg::control;
    Rec R;
    try {
        Mod<T> m(0, 0);
        std::size_t n = std::min<std::size_t>(4, std::min(c.A.r, c.A.c));
        m             = Mod<T>(n, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) m(i, j) = cast<T>(c.A(i, j)) / T(8) + T(i == j);
        if (n == 0) return R;
        Mod<T> one(n, 1), row(1, n), zero(1, 1);
        for (std::size_t i = 0; i < n; ++i) one(i, 0) = row(0, i) = T(i + 1);
        malg::Matrix<T> A = to_malg(m), B = to_malg(one), C = to_malg(row), D = to_malg(zero);
        ct::StateSpace<T> sys(A, B, C, D);
        switch (which) {
        case 0: {
            auto d = ct::c2d(sys, T(0.125));
            R.add("c2d.A", d.A), R.add("c2d.B", d.B), R.add("c2d.C", d.C), R.add("c2d.D", d.D);
            break;
        }
        case 1: R.add("ctrb", ct::ctrb(A, B)); break;
        case 2: R.add("obsv", ct::obsv(A, C)); break;
        case 3: R.add("poly", ct::poly(A)); break;
        case 4: {
            // A system that is controllable in any case.
            Mod<T> f(n, n), e(n, 1);
            for (std::size_t i = 0; i + 1 < n; ++i) f(i, i + 1) = T(1);
            for (std::size_t j = 0; j < n; ++j) f(n - 1, j) = m(n - 1, j);
            e(n - 1, 0) = T(1);
            Mod<T> p(1, n);
            for (std::size_t i = 0; i < n; ++i) p(0, i) = -T(i + 1);
            R.add("acker", ct::acker(to_malg(f), to_malg(e), to_malg(p)));
            break;
        }
        case 5: {
            std::ostringstream o;
            o << sys << ct::c2d(sys, T(0.5));
            R.add_text("system", o.str());
            break;
        }
        case 6: {
            typedef std::complex<T> Z;
            Mod<Z> h(n, n); // of distinct real eigenvalues
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = i; j < n; ++j) h(i, j) = Z(i == j ? T(4 * i + 1) : m(i, j));
            R.add("eigenvectors", malg::eigen::eigenvectorUpper(to_malg(h)));
            break;
        }
        case 7: { // of random numbers only what is certain
            namespace ut = malg::utility;
            auto x       = ut::rand_matrix<T>(n, n + 1, T(-1), T(1));
            auto y       = ut::rand_matrix<int>(n, n, -3, 3);
            auto z       = ut::rand_matrix<std::complex<T>>(n, 2, T(-1), T(1));
            auto u       = ut::rand_vector<T>(n, T(-1), T(1));
            auto v       = ut::rand_vector<int>(n, -3, 3);
            auto w       = ut::rand_vector<std::complex<T>>(n, T(-1), T(1));
            bool within  = true;
            for (std::size_t i = 0; i < x.size(); ++i) within = within && std::abs(x[i]) <= 1;
            for (std::size_t i = 0; i < y.size(); ++i) within = within && std::abs(y[i]) <= 3;
            for (std::size_t i = 0; i < n; ++i) within = within && std::abs(u[i]) <= 1 && std::abs(v[i]) <= 3;
            R.add("within the bounds", within);
            R.add("size", x.size() + 10 * y.size() + 100 * z.size() + 1000 * u.size() + 10000 * v.size() + 100000 * w.size());
            break;
        }
        default: {
            typedef std::complex<T> Z;
            Mod<Z> h(n, n);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j) h(i, j) = Z((i == j ? T(8 * i) : T(0)) + (m(i, j) + m(j, i)) / T(16));
            R.add("hessenberg", malg::eigen::hessenberg(to_malg(h)));
            R.add("givens", malg::eigen::qr_factorise_givens(malg::eigen::hessenberg(to_malg(h)).first));
        }
        }
    } catch (const std::exception &e) {
        R.rejected = true, R.why = e.what();
    }
    return R;
}

/// Runs all of them at the same time.
inline void at_once(std::vector<std::function<void()>> jobs)
{
    std::vector<std::thread> t;
    std::vector<std::exception_ptr> failed(jobs.size());
    for (std::size_t k = 0; k < jobs.size(); ++k)
        t.emplace_back([&, k] {
            try {
                jobs[k]();
            } catch (...) {
                failed[k] = std::current_exception();
            }
        });
    for (auto &x : t) x.join();
    for (auto &x : failed)
        if (x) std::rethrow_exception(x);
}

/// Threads with operands of their own.
template <typename T, typename TB, typename U>
void separate(Source &s)
{
    std::size_t n = 2 + s.draw(3), rounds = 1 + s.draw(2);
    struct Job {
        Call<T, TB> x;
        Call<U, U> y;
        int kind, which;
        Rec want;
    };
    std::vector<std::vector<Job>> jobs(n);
    bool twins = s.draw(2); // all of them do the same kind of thing
    std::set<int> ids;
    for (auto &v : jobs)
        for (std::size_t k = 0; k < rounds; ++k) {
            Job j;
            j.kind = static_cast<int>(s.draw(5)), j.which = static_cast<int>(s.draw(9));
            if (j.kind < 3) {
                if (twins && &v != &jobs[0]) {
                    j.x    = jobs[0][k].x;
                    j.kind = jobs[0][k].kind, j.which = jobs[0][k].which;
                    if (j.kind < 3) {
                        Case c = gen_case(s, j.x.id, INTS, is_cplx<T> || is_cplx<TB>, false);
                        if (judge(j.x.id, c) == CONFORMS) j.x.c = c;
                    } else {
                        j.y = jobs[0][k].y;
                    }
                } else {
                    j.x = Call<T, TB>::of(s, ANY, false);
                }
            } else {
                j.y = Call<U, U>::of(s, j.kind == 3 ? ANY : READ2, false);
            }
            if (j.kind < 3) j.want = fresh<T, TB>(j.x.id, j.x.c), s.label(std::string(info(j.x.id).name) + " in parallel"), ids.insert(j.x.id);
            else if (j.kind == 3) j.want = fresh<U, U>(j.y.id, j.y.c), ids.insert(j.y.id);
            else j.want = control<double>(j.which, j.y.c), ids.insert(1000 + j.which), s.label("control in parallel");
            if (s.noting()) {
                s.note() << "thread " << (&v - &jobs[0]) << ": ";
                if (j.kind < 3) describe(s, j.x.id, j.x.c);
                else if (j.kind == 3) describe(s, j.y.id, j.y.c);
                else s.note() << "control " << j.which << " of " << show(j.y.c.A) << "\n";
            }
            v.push_back(j);
        }
    std::vector<std::function<void()>> todo;
    for (auto &v : jobs)
        todo.push_back([&v] {
            for (auto &j : v) {
                Rec got = j.kind < 3 ? fresh<T, TB>(j.x.id, j.x.c) : j.kind == 3 ? fresh<U, U>(j.y.id, j.y.c) : control<double>(j.which, j.y.c);
                expect_same(j.want, got, 0, j.kind < 3 ? j.x.what() : j.kind == 3 ? j.y.what() : "control theory", "alone", "next to other threads");
            }
        });
    at_once(todo);
    s.nontrivial(ids.size() >= 1 && n >= 2);
}

/// Models, controllers, eigenvalues and files: one after the other, then at the
/// same time, some of them on the same objects.
inline void tasks(Source &s)
{
    std::vector<Task> all(2 + s.draw(3));
    std::vector<Rec> want(all.size());
    for (auto &t : all) {
        int type = static_cast<int>(s.draw(4));
        t        = type < 2 ? gen_task<double>(s, true) : type == 2 ? gen_task<float>(s, true) : gen_task<cd>(s, true);
        s.note() << t.name << "\n";
        s.label(t.name);
    }
    World world;
    for (std::size_t k = 0; k < all.size(); ++k) all[k].run(want[k]), world.unchanged(all[k].name);
    auto once = [&](std::size_t k, const char *when) {
        Rec got;
        all[k].run(got);
        expect_same(want[k], got, 0, all[k].name, "at first", when);
    };
    for (std::size_t k = all.size(); k-- > 0;) once(k, "after others");
    struct Aloud {
        Aloud() { muting = false; }
        ~Aloud() { muting = true; }
    } aloud;
    std::vector<std::function<void()>> todo;
    for (std::size_t k = 0; k < all.size(); ++k) todo.push_back([&, k] { once(k, "next to other threads"); });
    std::size_t twin = s.draw(all.size());
    todo.push_back([&] { once(twin, "next to a thread with the same operands"); });
    at_once(todo);
    for (auto &t : all) t.intact(t.name + ", in several threads");
    s.nontrivial(all[twin].interesting);
}

/// Threads that read the same operands, as matrices or through views.
template <typename T, typename TB>
void shared(Source &s)
{
    std::size_t n = 2 + s.draw(3);
    bool views    = s.draw(2);
    auto x        = Call<T, TB>::of(s, views ? READ | READ2 : READ | READ2 | OWNER, true);
    if (std::abs(x.c.sc) < 1) x.c.sc = 2; // a divisor, of integers too
    describe(s, x.id, x.c);
    std::vector<int> ids(n, x.id);
    // Others that suit the same operands.
    for (auto &id : ids)
        if (s.draw(2)) {
            id = choose<T, TB>(s, views ? READ | READ2 : READ | READ2 | OWNER, DOM);
            if (judge(id, x.c) == UNJUDGED) id = x.id;
            if (s.noting()) s.note() << "and " << info(id).name << "\n";
        }
    malg::Matrix<T> a  = to_malg(cast<T>(x.c.A));
    malg::Matrix<TB> b = to_malg(cast<TB>(x.c.B));
    if (a.size() == 0 || b.size() == 0) views = false;
    malg::Matrix<T> one(1, 1, T(0));
    malg::Matrix<TB> another(1, 1, TB(0));
    auto va = view_of(views ? a : one);
    auto vb = view_of(views ? b : another);
    std::vector<Rec> want;
    for (int id : ids) want.push_back(fresh<T, TB>(id, x.c));
    std::vector<std::function<void()>> todo;
    for (std::size_t k = 0; k < n; ++k)
        todo.push_back([&, k] {
            for (int round = 0; round < 2; ++round) {
                Rec got = views ? run<T, TB>(ids[k], va, vb, x.c) : run<T, TB>(ids[k], a, b, x.c);
                expect_same(want[k], got, 0, info(ids[k]).name, "alone", "next to threads that read the same operands");
            }
        });
    at_once(todo);
    expect_eq(a, cast<T>(x.c.A), "the operand they share");
    expect_eq(b, cast<TB>(x.c.B), "the second operand they share");
    s.label(std::string(info(x.id).name) + (views ? " of shared views" : " of shared matrices"));
    s.nontrivial(x.c.A.size() >= 2);
}

/// Threads that write through views of different parts of one matrix.
template <typename T>
void parts(Source &s)
{
    std::size_t n = 2 + s.draw(3);
    bool across   = s.draw(2); // side by side, or one below the other
    auto x        = Call<T, T>::of(s, WRITE | WRITE2, true, PAIRC);
    const Case &c = x.c;
    std::size_t r = c.A.r, q = c.A.c;
    s.discard(r * q == 0);
    describe(s, x.id, c);
    Mod<T> big(across ? r : r * n, across ? q * n : q);
    std::vector<Mod<cd>> own(n, c.A);
    for (std::size_t k = 0; k < n; ++k) {
        if (k && s.draw(2)) own[k] = gen_numbers(s, r, q, INTS, 9, is_cplx<T>);
        for (std::size_t i = 0; i < r; ++i)
            for (std::size_t j = 0; j < q; ++j) (across ? big(i, k * q + j) : big(k * r + i, j)) = cast<T>(own[k](i, j));
    }
    std::vector<Rec> want(n);
    std::vector<Case> cases(n, c);
    for (std::size_t k = 0; k < n; ++k) cases[k].A = own[k], want[k] = fresh<T, T>(x.id, cases[k]);
    malg::Matrix<T> m = to_malg(big), b = to_malg(cast<T>(c.B));
    std::vector<std::function<void()>> todo;
    for (std::size_t k = 0; k < n; ++k)
        todo.push_back([&, k] {
            std::size_t i = across ? 0 : k * r, j = across ? k * q : 0;
            malg::View<malg::Matrix<T>> v(&m, i, i + r, j, j + q);
            expect_same(want[k], run<T, T>(x.id, v, b, cases[k]), 0, x.what(), "alone", "next to threads that write to other parts of the matrix");
        });
    at_once(todo);
    s.label(std::string(info(x.id).name) + " of parts");
    s.nontrivial(r * q >= 2);
}

/// Calls whose results must not depend on their order, each order in a process
/// of its own, so that nothing of the sort was called before.
template <typename T, typename TB, typename U>
struct Orders {
    struct Job {
        int kind, which = 0;
        Call<T, TB> x;
        Call<U, U> y;
    };
    static std::vector<Job> generate(Source &s)
    {
        std::vector<Job> jobs(2 + s.draw(6));
        for (auto &j : jobs) {
            j.kind = static_cast<int>(s.draw(6));
            if (j.kind >= 4 && &j != &jobs[0]) { // as before, of other sizes or numbers
                j = jobs[s.draw(static_cast<pbt::u64>(&j - &jobs[0]))];
                if (j.kind < 2) {
                    Case c = gen_case(s, j.x.id, REALS, is_cplx<T> || is_cplx<TB>, false);
                    if (judge(j.x.id, c) == CONFORMS) j.x.c = c;
                } else if (j.kind == 2) {
                    Case c = gen_case(s, j.y.id, REALS, is_cplx<U>, false);
                    if (judge(j.y.id, c) == CONFORMS) j.y.c = c;
                } else {
                    j.y = Call<U, U>::of(s, READ2, false);
                }
                continue;
            }
            j.kind %= 4;
            if (j.kind < 2) j.x = Call<T, TB>::of(s, s.draw(3) ? ANY : OWNER, false);
            else if (j.kind == 2) j.y = Call<U, U>::of(s, ANY, false);
            else j.y = Call<U, U>::of(s, READ2, false), j.which = static_cast<int>(s.draw(9));
        }
        return jobs;
    }
    static std::string result(const Job &j)
    {
        Rec r = j.kind < 2 ? fresh<T, TB>(j.x.id, j.x.c) : j.kind == 2 ? fresh<U, U>(j.y.id, j.y.c) : control<double>(j.which, j.y.c);
        std::string o;
        if (r.rejected) o += "rejected ";
        for (auto &e : r.e) o += ops::show(e) + " ";
        for (char &c : o)
            if (c == '\n') c = ' ';
        return o;
    }
    static std::string describe(const Job &j)
    {
        return j.kind < 2 ? j.x.what() : j.kind == 2 ? j.y.what() : "control theory " + std::to_string(j.which);
    }
    /// In the child: reads the order and the decisions, writes the results.
    static void child(const char *path)
    {
        std::ifstream f(path);
        std::size_t n = 0;
        int size      = 0;
        f >> size >> n;
        std::vector<std::size_t> order(n);
        for (auto &x : order) f >> x;
        std::vector<pbt::u64> choices;
        for (pbt::u64 v; f >> v;) choices.push_back(v);
        Source s(choices, size);
        auto jobs = generate(s);
        std::vector<std::string> out(jobs.size());
        for (std::size_t k : order) out.at(k) = result(jobs.at(k));
        std::ofstream g(std::string(path) + ".out");
        for (auto &x : out) g << x << "\n";
        g.close();
        _exit(g ? 0 : 9);
    }
    static std::vector<std::string> in_order(const std::string &name, const std::vector<std::size_t> &order, const std::vector<pbt::u64> &choices, int size)
    {
        const char *tmp  = std::getenv("VERIF_TMP");
        std::string path = std::string(tmp ? tmp : "/tmp") + "/order." + std::to_string(getpid());
        {
            std::ofstream f(path);
            f << size << " " << order.size() << "\n";
            for (auto x : order) f << x << " ";
            f << "\n";
            for (auto x : choices) f << x << " ";
        }
        char self[4096];
        ssize_t len = readlink("/proc/self/exe", self, sizeof(self) - 1);
        if (len <= 0) throw pbt::Discard{};
        self[len] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            setenv("VERIF_C29", (name + " " + path).c_str(), 1);
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 1);
            execl(self, self, static_cast<char *>(nullptr));
            _exit(127);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        std::vector<std::string> out;
        {
            std::ifstream f(path + ".out");
            for (std::string l; std::getline(f, l);) out.push_back(l);
        }
        unlink(path.c_str());
        unlink((path + ".out").c_str());
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && out.size() == order.size(), << "the calls do not end well in a process of their own, status " << st);
        return out;
    }
    static void test(Source &s, const std::string &name)
    {
        auto jobs = generate(s);
        const std::vector<pbt::u64> choices(s.used());
        for (auto &j : jobs)
            if (s.noting()) {
                s.note() << describe(j) << "\n";
                ops::describe(s, j.kind < 2 ? j.x.id : j.y.id, j.kind < 2 ? j.x.c : j.y.c);
            }
        std::vector<std::size_t> order(jobs.size());
        for (std::size_t k = 0; k < order.size(); ++k) order[k] = k;
        auto forth = in_order(name, order, choices, s.size());
        std::reverse(order.begin(), order.end());
        auto back = in_order(name, order, choices, s.size());
        for (std::size_t k = 0; k < jobs.size(); ++k)
            CHECK(forth[k] == back[k], << describe(jobs[k]) << ", the result of call " << k << " of " << jobs.size() << " is\n" << forth[k] << "\nand in reverse order\n" << back[k]);
        s.label("two orders");
        s.nontrivial();
    }
    Orders(const char *name)
    {
        const char *e = std::getenv("VERIF_C29");
        std::string n = std::string(name) + " ";
        if (e && std::string(e).compare(0, n.size(), n) == 0) child(e + n.size());
    }
};
} // namespace c29
#define STATELESS(n, T, TB, U)                              \
    PROP(again_##n, 25) { c29::again<T, TB, U>(s); }        \
    PROP(rewritten_##n, 20) { c29::rewritten<T, TB>(s); }   \
    PROP(separate_##n, 15) { c29::separate<T, TB, U>(s); }  \
    PROP(shared_##n, 15) { c29::shared<T, TB>(s); }         \
    PROP(parts_##n, 5) { c29::parts<T>(s); }                \
    static c29::Orders<T, TB, U> orders_##n(#n);            \
    PROP(order_##n, 4) { c29::Orders<T, TB, U>::test(s, #n); }
