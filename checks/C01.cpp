// C01: vectors under histories of operations, against plain lists.
#include "gen.hpp"
#include <deque>
#include <optional>

namespace
{
enum Kind {
    DEFAULT, SIZED, FILLED, LIST, SIZED_LIST, COPY, MOVE, XCOPY, XMOVE,
    ASSIGN, MASSIGN, XASSIGN, XMASSIGN, RESIZE, RESIZE_AS, WRITE, WRITE_ALL, SWAP, CLEAR,
    XBACK, N_KIND
};
const char *kind_name[] = { "default", "sized", "filled", "list", "sized list", "copy", "move", "copy from U", "move from U",
                            "assign", "move assign", "assign from U", "move assign from U", "resize", "resize as", "write", "write all", "swap", "clear",
                            "assign to U" };

constexpr int NT = 4, NU = 2;
template <typename T, typename U>
struct Op {
    int kind;
    int a, b; // slots of T (or of U for b of the cross-type operations)
    std::size_t n, idx;
    std::vector<std::array<T, 1>> v; // An array, for vectors of bool.
    std::array<U, 1> u;
};

template <typename T>
malg::Vector<T> from_list(const std::vector<std::array<T, 1>> &v)
{
    switch (v.size()) {
    case 0: return malg::Vector<T>(std::initializer_list<T>{});
    case 1: return malg::Vector<T>(std::initializer_list<T>{ v[0][0] });
    case 2: return malg::Vector<T>(std::initializer_list<T>{ v[0][0], v[1][0] });
    case 3: return malg::Vector<T>(std::initializer_list<T>{ v[0][0], v[1][0], v[2][0] });
    default: return malg::Vector<T>(std::initializer_list<T>{ v[0][0], v[1][0], v[2][0], v[3][0] });
    }
}
template <typename T>
malg::Vector<T> from_sized_list(const std::vector<std::array<T, 1>> &v)
{
    switch (v.size()) {
    case 0: return malg::Vector<T>(0, std::initializer_list<T>{});
    case 1: return malg::Vector<T>(1, std::initializer_list<T>{ v[0][0] });
    case 2: return malg::Vector<T>(2, std::initializer_list<T>{ v[0][0], v[1][0] });
    case 3: return malg::Vector<T>(3, std::initializer_list<T>{ v[0][0], v[1][0], v[2][0] });
    default: return malg::Vector<T>(4, std::initializer_list<T>{ v[0][0], v[1][0], v[2][0], v[3][0] });
    }
}

// The real thing.
template <typename T, typename U>
struct Real {
    std::optional<malg::Vector<T>> t[NT];
    std::optional<malg::Vector<U>> u[NU];
    Real()
    {
        for (auto &x : t) x.emplace();
        for (auto &x : u) x.emplace();
    }
    void apply(const Op<T, U> &o)
    {
        using VT = malg::Vector<T>;
        using VU = malg::Vector<U>;
        auto &A  = t[o.a];
        switch (o.kind) {
        case DEFAULT: A.emplace(); break;
        case SIZED: A.emplace(o.n); break;
        case FILLED: A.emplace(o.n, o.v[0][0]); break;
        case LIST: A.emplace(from_list<T>(o.v)); break;
        case SIZED_LIST: A.emplace(from_sized_list<T>(o.v)); break;
        case COPY: {
            VT x(*t[o.b]);
            A.emplace(x);
            break;
        }
        case MOVE: {
            VT x(std::move(*t[o.b]));
            A.emplace(std::move(x));
            break;
        }
        case XCOPY: {
            const VU &y = *u[o.b % NU];
            A.emplace(VT(y));
            break;
        }
        case XMOVE: A.emplace(VT(std::move(*u[o.b % NU]))); break;
        case ASSIGN: *A = *t[o.b]; break;
        case MASSIGN: *A = std::move(*t[o.b]); break;
        case XASSIGN: {
            const VU &y = *u[o.b % NU];
            *A          = y;
            break;
        }
        case XMASSIGN: *A = std::move(*u[o.b % NU]); break;
        case RESIZE: A->resize(o.n); break;
        case RESIZE_AS: A->resize(*t[o.b]); break;
        case WRITE:
            if (A->size()) (*A)[o.idx % A->size()] = o.v[0][0];
            break;
        case WRITE_ALL: {
            std::size_t k = 0;
            for (auto &x : *A) x = o.v[k++ % o.v.size()][0];
            break;
        }
        case SWAP: std::swap(*A, *t[o.b]); break;
        case CLEAR: A->resize(0); break;
        case XBACK: {
            auto &B = *u[o.b % NU];
            B.resize(o.n);
            for (auto it = B.begin(); it != B.end(); ++it) *it = o.u[0];
            if (B.size()) B.data()[o.idx % B.size()] = U(1);
            break;
        }
        }
    }
};

// The reference.
template <typename T, typename U>
struct Ref {
    std::deque<T> t[NT];
    std::deque<U> u[NU];
    void apply(const Op<T, U> &o, const Real<T, U> &real)
    {
        auto &A    = t[o.a];
        auto conv  = [](const std::deque<U> &x) {
            std::deque<T> r;
            for (auto &v : x) {
                T y = T();
                y   = v;
                r.push_back(y);
            }
            return r;
        };
        auto lst = [&] {
            std::deque<T> r;
            for (auto &x : o.v) r.push_back(x[0]);
            return r;
        };
        switch (o.kind) {
        case DEFAULT:
        case CLEAR: A.clear(); break;
        case SIZED: A.assign(o.n, T(0)); break;
        case FILLED: A.assign(o.n, o.v[0][0]); break;
        case LIST:
        case SIZED_LIST: {
            auto l = lst();
            if (l.size() > 4) l.resize(4);
            A = l;
            break;
        }
        case COPY:
        case ASSIGN: A = std::deque<T>(t[o.b]); break;
        case MOVE: {
            std::deque<T> x(t[o.b]);
            t[o.b].clear();
            A = x;
            break;
        }
        case MASSIGN:
            if (o.a != o.b) {
                A = t[o.b];
                t[o.b].clear();
            }
            break;
        case XCOPY:
        case XASSIGN: A = conv(u[o.b % NU]); break;
        case XMOVE:
        case XMASSIGN:
            A = conv(u[o.b % NU]);
            // Converting moves may leave the source as it was, or empty.
            if (real.u[o.b % NU]->size() == 0) u[o.b % NU].clear();
            break;
        case RESIZE: A.resize(o.n, T(0)); break;
        case RESIZE_AS: A.resize(t[o.b].size(), T(0)); break;
        case WRITE:
            if (A.size()) A[o.idx % A.size()] = o.v[0][0];
            break;
        case WRITE_ALL:
            for (std::size_t k = 0; k < A.size(); ++k) A[k] = o.v[k % o.v.size()][0];
            break;
        case SWAP: std::swap(A, t[o.b]); break;
        case XBACK: {
            auto &B = u[o.b % NU];
            B.assign(o.n, o.u[0]);
            if (B.size()) B[o.idx % B.size()] = U(1);
            break;
        }
        }
    }
};

template <typename V, typename X>
void agree(V &v, const std::deque<X> &m, const std::string &what)
{
    const V &c = v;
    CHECK(c.size() == m.size(), << what << ": size " << c.size() << " instead of " << m.size());
    CHECK(c.empty() == m.empty(), << what << ": empty() of " << m.size() << " elements");
    CHECK(static_cast<std::size_t>(c.end() - c.begin()) == m.size() && static_cast<std::size_t>(v.end() - v.begin()) == m.size() && static_cast<std::size_t>(c.cend() - c.cbegin()) == m.size(), << what << ": the iterators span another length");
    if (m.size()) CHECK(c.data() == &c[0] && v.data() == c.data(), << what << ": data()");
    std::size_t k = 0;
    for (const auto &x : c) {
        CHECK(same<X>(x, m[k]), << what << ": element " << k << " is " << show<X>(x) << " instead of " << show<X>(m[k]));
        CHECK(same<X>(v[k], m[k]) && same<X>(c[k], m[k]), << what << ": element " << k);
        ++k;
    }
}

template <typename T, typename U>
void history(Source &s)
{
    s.note() << "elements " << tname<T>() << ", other elements " << tname<U>() << "\n";
    const bool big = s.chance(1, 25);
    std::vector<Op<T, U>> ops;
    const std::size_t n_ops = 1 + s.draw(s.draw(4) == 0 ? 60 : 20);
    bool moved = false, resized = false, crossed = false;
    for (std::size_t i = 0; i < n_ops; ++i) {
        Op<T, U> o;
        o.kind = static_cast<int>(s.draw(N_KIND));
        o.a    = static_cast<int>(s.draw(NT));
        o.b    = static_cast<int>(s.draw(NT));
        o.n    = s.pick({ 8, 2 }) ? s.draw(big ? 3000 : 60) : s.draw(8);
        o.idx  = s.draw(4096);
        std::size_t k = 1 + s.draw(4);
        if ((o.kind == LIST || o.kind == SIZED_LIST)) k = s.draw(5);
        for (std::size_t j = 0; j < k; ++j) o.v.push_back({ gen_value<T>(s, s.draw(5) == 4 ? REAL : SMALL) });
        o.u = { gen_value<U>(s, SMALL) };
        if (s.noting()) {
            s.note() << kind_name[o.kind] << " a=" << o.a << " b=" << o.b << " n=" << o.n << " idx=" << o.idx << " values";
            for (auto &x : o.v) s.note() << " " << show<T>(x[0]);
            s.note() << " u " << show<U>(o.u[0]) << "\n";
        }
        moved |= (o.kind == MOVE || o.kind == MASSIGN || o.kind == SWAP);
        resized |= (o.kind == RESIZE || o.kind == RESIZE_AS);
        crossed |= (o.kind >= XCOPY && o.kind <= XMOVE) || o.kind == XASSIGN || o.kind == XMASSIGN;
        ops.push_back(std::move(o));
    }
    s.nontrivial(ops.size() >= 5 && (moved || crossed) && resized);
    if (moved) s.label("move");
    if (resized) s.label("resize");
    if (crossed) s.label("conversion");
    if (big) s.label("large sizes");
    if (n_ops > 20) s.label("long history");
    {
        Real<T, U> real;
        Ref<T, U> ref;
        std::size_t k = 0;
        for (auto &o : ops) {
            real.apply(o);
            ref.apply(o, real);
            ++k;
            for (int i = 0; i < NT; ++i)
                if (!big || i == o.a || i == o.b || k == ops.size())
                    agree(*real.t[i], ref.t[i], "vector " + std::to_string(i) + " after operation " + std::to_string(k) + " (" + kind_name[o.kind] + ")");
            for (int i = 0; i < NU; ++i) agree(*real.u[i], ref.u[i], "vector of U " + std::to_string(i) + " after operation " + std::to_string(k) + " (" + kind_name[o.kind] + ")");
        }
    }
    // Once more, on its own, to account for the memory.
    std::size_t before = pbt::bytes_in_use();
    {
        Real<T, U> real;
        for (auto &o : ops) real.apply(o);
    }
    std::size_t after = pbt::bytes_in_use();
    CHECK(before == after, << "the history leaves " << (after - before) << " bytes allocated");
}
} // namespace

PROP(history_int, 3)
{
    history<int, double>(s);
}
PROP(history_double, 3)
{
    if (s.draw(2)) history<double, float>(s);
    else history<double, int>(s);
}
PROP(history_float, 2)
{
    history<float, double>(s);
}
PROP(history_complex, 3)
{
    if (s.draw(2)) history<cd, double>(s);
    else history<cf, int>(s);
}
PROP(history_bool, 1)
{
    history<bool, int>(s);
}
// Contents passed by value, returned, and kept in standard containers.
PROP(in_containers, 1)
{
    std::vector<malg::Vector<double>> c;
    std::vector<std::deque<double>> m;
    std::size_t n = 1 + s.draw(20);
    s.note() << "a std::vector of vectors, " << n << " steps\n";
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t k = s.draw(6), at = m.empty() ? 0 : s.draw(m.size()), len = s.draw(12);
        double x = gen_value<double>(s, SMALL);
        s.note() << "step " << k << " at " << at << " len " << len << " value " << x << "\n";
        switch (k) {
        case 0:
        case 1:
            c.push_back(malg::Vector<double>(len, x));
            m.push_back(std::deque<double>(len, x));
            break;
        case 2:
            c.insert(c.begin() + static_cast<long>(at), malg::Vector<double>(len, x));
            m.insert(m.begin() + static_cast<long>(at), std::deque<double>(len, x));
            break;
        case 3:
            if (m.empty()) break;
            c.erase(c.begin() + static_cast<long>(at));
            m.erase(m.begin() + static_cast<long>(at));
            break;
        case 4:
            if (m.empty()) break;
            c.push_back(c[at]);
            m.push_back(std::deque<double>(m[at]));
            break;
        case 5: {
            auto by_less = [](auto &p, auto &q) { return p.size() < q.size(); };
            std::stable_sort(c.begin(), c.end(), by_less);
            std::stable_sort(m.begin(), m.end(), by_less);
            break;
        }
        }
        CHECK(c.size() == m.size());
        for (std::size_t j = 0; j < m.size(); ++j) agree(c[j], m[j], "entry " + std::to_string(j));
    }
    s.nontrivial(n > 4);
}
VERIF_MAIN
