// A catalogue of the operations of the library, for the properties that speak
// about all of them: storage orders (C24), views (C25), rejections (C26) and
// element types (C27).
#pragma once
#include "gen.hpp"

namespace ops
{
// What an operation needs. Those of the first group are documented requirements:
// if they do not hold the operation has to reject its operands. Those of the
// second bound what is judged.
enum : unsigned {
    SAME  = 1u << 0,  // A and B have the same shape
    MUL   = 1u << 1,  // A.cols == B.rows
    BSQ   = 1u << 2,  // B is square
    ASQ   = 1u << 3,  // A is square
    ASQN  = 1u << 4,  // A is square or empty
    ROWS  = 1u << 5,  // the same number of rows
    COLS  = 1u << 6,  // the same number of columns
    BCOL  = 1u << 7,  // A.cols == B.cols of an output matrix
    VC    = 1u << 8,  // one element of v per column of A
    VR    = 1u << 9,  // one element of v per row of A
    VW    = 1u << 10, // v and w have the same size
    IROW  = 1u << 11, // i is a row of A
    ICOL  = 1u << 12, // i is a column of A
    RANGE = 1u << 13, // the ranges [i,j) x [k,l) select something
    RROW  = 1u << 14, // [i,j) selects rows
    RCOL  = 1u << 15, // [i,j) selects columns
    POLY  = 1u << 16, // A is empty, a row, a column or square
    SIZES = 1u << 17, // A and B have the same number of elements
    RESH  = 1u << 18, // p rows by q columns hold the elements of A
    PQ    = 1u << 19, // p and q are not zero
    // Not judged otherwise.
    U_NE   = 1u << 20, // A has elements
    U_ASQ  = 1u << 21, // A is square
    U_IR   = 1u << 22, // i and k are rows
    U_IC   = 1u << 23, // i and k are columns
    U_POW  = 1u << 24, // a power of a non-square matrix that is not zero
    U_BNE  = 1u << 25, // B has elements
    U_VNE  = 1u << 26, // v has elements
};
enum : unsigned {
    READ    = 1, // one matrix
    READ2   = 2, // two
    WRITE   = 4, // changes the first
    WRITE2  = 8,
    OWNER   = 16, // takes a Matrix
    OWNERW  = 32, // changes a Matrix
    VEC     = 64, // vectors only
    NOC     = 128,  // not for complex types
    ONLYC   = 256,  // only for complex types
    NOI     = 512,  // not for integral types
    SAMET   = 1024, // both operands of the same type
    SMALL_  = 2048, // small dimensions and values
    DOM     = 4096, // A is diagonally dominant
    DOMB    = 8192, // B is diagonally dominant
    APPROX  = 16384, // the result is rounded
    ORDERED = 32768, // the result depends on the storage order
    TEXT    = 65536,
    ONLYCD  = 131072, // complex<double>
    PAIRC   = 1 << 18, // only if the first type is real or both are complex
};

// X(name, flags, needs)
#define OPS(X)                                               \
    X(add, READ2, SAME)                                      \
    X(sub, READ2, SAME)                                      \
    X(mul, READ2, MUL)                                       \
    X(element_wise_product, READ2, SAME)                     \
    X(linear_combination, READ2, SAME)                       \
    X(element_wise_binary, READ2, SAME)                      \
    X(eq, READ2, SAME)                                       \
    X(ne, READ2, SAME)                                       \
    X(lt, READ2 | NOC, SAME)                                 \
    X(le, READ2 | NOC, SAME)                                 \
    X(gt, READ2 | NOC, SAME)                                 \
    X(ge, READ2 | NOC, SAME)                                 \
    X(vstack, READ2, COLS)                                   \
    X(hstack, READ2, ROWS)                                   \
    X(all_close, READ2 | SAMET, SAME)                        \
    X(compare, READ2 | SAMET | NOC | ORDERED, SIZES)         \
    X(div, READ2 | NOI | DOMB | APPROX, MUL | BSQ | U_NE | U_BNE) \
    X(ctrb, READ2 | SAMET | SMALL_, ASQ | ROWS | U_NE)       \
    X(obsv, READ2 | SAMET | SMALL_, ASQ | BCOL | U_NE)       \
    X(add_scalar, READ, 0)                                   \
    X(sub_scalar, READ, 0)                                   \
    X(mul_scalar, READ, 0)                                   \
    X(scalar_mul, READ, 0)                                   \
    X(div_scalar, READ, 0)                                   \
    X(eq_scalar, READ, 0)                                    \
    X(ne_scalar, READ, 0)                                    \
    X(lt_scalar, READ | NOC, 0)                              \
    X(le_scalar, READ | NOC, 0)                              \
    X(gt_scalar, READ | NOC, 0)                              \
    X(ge_scalar, READ | NOC, 0)                              \
    X(mat_vec, READ, VC)                                     \
    X(dot_mat_vec, READ, VC)                                 \
    X(element_wise, READ, 0)                                 \
    X(real_imag, READ | ONLYC, 0)                            \
    X(abs, READ | APPROX, 0)                                 \
    X(sign, READ | APPROX, 0)                                \
    X(vector_length, READ | APPROX, U_IC)                    \
    X(trace, READ, 0)                                        \
    X(all_any, READ, 0)                                      \
    X(square_norm, READ | APPROX, 0)                         \
    X(infinity_norm, READ | APPROX, 0)                       \
    X(sub_norm, READ | APPROX, ASQN)                         \
    X(log2_ceil, READ | NOI, U_NE)                           \
    X(transpose, READ, 0)                                    \
    X(powm, READ | SMALL_, ASQ | U_NE | U_POW)               \
    X(hermitian, READ | ONLYC, 0)                            \
    X(cofactor, READ, U_IR | U_IC)                           \
    X(determinant, READ | SMALL_, ASQ | U_NE)                \
    X(determinant_large, READ | NOI | APPROX | DOM, ASQ | U_NE) \
    X(adjoint, READ | SMALL_, ASQ | U_NE)                    \
    X(inverse, READ | NOI | APPROX | DOM, ASQ | U_NE)        \
    X(lu, READ | NOI | APPROX | DOM, ASQ | U_NE)             \
    X(exp, READ | NOI | APPROX, 0)                           \
    X(expm, READ | NOI | APPROX | SMALL_, ASQ | U_NE)        \
    X(diag, READ, 0)                                         \
    X(ravel, READ, 0)                                        \
    X(extract, READ, RANGE)                                  \
    X(extract_column, READ, RROW | ICOL)                     \
    X(extract_row, READ, RCOL | IROW)                        \
    X(decisions, READ, 0)                                    \
    X(decisions_square, READ | SMALL_, ASQ | U_NE)           \
    X(vstack_vector, READ, VC)                               \
    X(hstack_vector, READ, VR)                               \
    X(poly_matrix, READ | SMALL_, POLY)                      \
    X(elements, READ, 0)                                     \
    X(text, READ | TEXT, 0)                                  \
    X(add_in_place, WRITE2 | PAIRC, SAME)                    \
    X(sub_in_place, WRITE2 | PAIRC, SAME)                    \
    X(mul_in_place, WRITE2 | PAIRC, MUL | BSQ)               \
    X(add_scalar_in_place, WRITE, 0)                         \
    X(sub_scalar_in_place, WRITE, 0)                         \
    X(mul_scalar_in_place, WRITE, 0)                         \
    X(div_scalar_in_place, WRITE, 0)                         \
    X(swap_rows, WRITE, U_IR)                                \
    X(swap_cols, WRITE, U_IC)                                \
    X(assign_elements, WRITE, 0)                             \
    X(remove_row, OWNERW, IROW)                              \
    X(remove_column, OWNERW, ICOL)                           \
    X(reshape, OWNERW, RESH)                                 \
    X(find, OWNER, 0)                                        \
    X(to_vector, OWNER, 0)                                   \
    X(min_max, OWNER | NOC, 0)                               \
    X(qr, OWNER | NOI | NOC | APPROX | DOM, U_NE)            \
    X(solve, OWNER | NOI | NOC | APPROX | DOM, VR | U_NE | U_ASQ) \
    X(hessenberg, OWNER | ONLYCD | APPROX | DOM, U_NE | U_ASQ) \
    X(givens, OWNER | ONLYCD | APPROX | DOM, U_NE | U_ASQ)   \
    X(v_add, VEC, VW)                                        \
    X(v_sub, VEC, VW)                                        \
    X(v_mul, VEC, VW)                                        \
    X(v_dot, VEC, VW)                                        \
    X(v_eq, VEC, VW)                                         \
    X(v_ne, VEC, VW)                                         \
    X(v_all_close, VEC, VW)                                  \
    X(v_compare, VEC | NOC, VW)                              \
    X(v_binary, VEC, VW)                                     \
    X(v_add_in_place, VEC, VW)                               \
    X(v_sub_in_place, VEC, VW)                               \
    X(v_concatenate, VEC, 0)                                 \
    X(v_scalar, VEC, 0)                                      \
    X(v_reduce, VEC, 0)                                      \
    X(v_sum, VEC, 0)                                         \
    X(v_norms, VEC | APPROX, 0)                              \
    X(v_min_max, VEC | NOC, U_VNE)                           \
    X(v_poly, VEC | SMALL_, 0)                               \
    X(v_matrix, VEC, 0)                                      \
    X(v_projection, VEC | NOI | APPROX, VW | U_VNE)          \
    X(generators, VEC, PQ)

enum Id {
#define X(n, f, c) op_##n,
    OPS(X)
#undef X
        op_count
};
struct Info {
    const char *name;
    unsigned flags, needs;
};
inline const Info &info(int id)
{
    static const Info t[] = {
#define X(n, f, c) { #n, f, c },
        OPS(X)
#undef X
    };
    return t[id];
}

/// The operands of an operation, independent of the element types.
struct Case {
    Mod<cd> A, B;
    std::vector<cd> v, w;
    cd sc         = 1;
    std::size_t i = 0, j = 0, k = 0, l = 0; // rows, columns, ranges
    std::size_t p = 1, q = 1;
    unsigned n    = 0; // a power
};
/// The operands are this many times what the case says, and the ones that are
/// not zero this much more (beyond what a double holds).
inline long widening = 1, lifting = 0;
struct Widen {
    Widen(long by, long up)
    {
        widening = by, lifting = up;
    }
    ~Widen()
    {
        widening = 1, lifting = 0;
    }
};
template <typename T>
T cast(const cd &x)
{
    if constexpr (std::is_same_v<real_of<T>, long double> || sizeof(T) == sizeof(long))
        if (widening != 1 || lifting != 0) return T(static_cast<real_of<T>>(x.real()) * static_cast<real_of<T>>(widening) + static_cast<real_of<T>>(x.real() == 0 ? 0 : lifting));
    if constexpr (is_cplx<T>) return T(static_cast<real_of<T>>(x.real()), static_cast<real_of<T>>(x.imag()));
    else return static_cast<T>(x.real());
}
template <typename T>
Mod<T> cast(const Mod<cd> &m)
{
    Mod<T> o(m.r, m.c);
    for (std::size_t i = 0; i < m.d.size(); ++i) o.d[i] = cast<T>(m.d[i]);
    return o;
}
template <typename T>
std::vector<T> cast(const std::vector<cd> &m)
{
    std::vector<T> o;
    for (auto &x : m) o.push_back(cast<T>(x));
    return o;
}

// ------------------------------------------------------------------ results

struct Entry {
    std::string label;
    std::size_t r = 0, c = 0;
    std::vector<cl> v;
    std::string text;
};
/// Set by checks that inject faults: recording is not subject to them.
inline bool *injecting = nullptr;
struct Unharmed {
    bool before;
    Unharmed()
        : before(injecting && *injecting)
    {
        if (injecting) *injecting = false;
    }
    ~Unharmed()
    {
        if (injecting) *injecting = before;
    }
};
struct Rec {
    std::vector<Entry> e;
    bool rejected = false;
    std::string why;
    /// Linear positions of a result stand for elements of the operand.
    template <typename T>
    void add(const std::string &l, const malg::MatrixBase<T> &m)
    {
        Unharmed unharmed;
        Entry x{ l + " [matrix]", m.rows(), m.cols(), {}, "" };
        for (std::size_t i = 0; i < x.r; ++i)
            for (std::size_t j = 0; j < x.c; ++j) x.v.push_back(to_cl<std::remove_const_t<T>>(m(i, j)));
        if (m.size() != x.r * x.c) x.text = "size " + std::to_string(m.size());
        e.push_back(x);
    }
    template <typename T>
    void add(const std::string &l, const malg::Vector<T> &m)
    {
        Unharmed unharmed;
        Entry x{ l + " [vector]", 1, m.size(), {}, "" };
        for (std::size_t i = 0; i < x.c; ++i) x.v.push_back(to_cl<std::remove_const_t<T>>(m[i]));
        e.push_back(x);
    }
    template <typename A, typename B>
    void add(const std::string &l, const std::pair<A, B> &p)
    {
        Unharmed unharmed;
        add(l + ".first", p.first);
        add(l + ".second", p.second);
    }
    template <typename T>
    std::enable_if_t<std::is_arithmetic_v<T> || is_cplx<T>> add(const std::string &l, const T &v)
    {
        Unharmed unharmed;
        e.push_back(Entry{ l + " [value]", 0, 0, { to_cl(v) }, "" });
    }
    void add_text(const std::string &l, const std::string &t)
    {
        Unharmed unharmed;
        e.push_back(Entry{ l + " [text]", 0, 0, {}, t });
    }
    /// A sequence in the storage order of an r x c matrix, seen as that matrix.
    template <typename F>
    void add_linear(const std::string &l, std::size_t r, std::size_t c, std::size_t size, F &&at)
    {
        Unharmed unharmed;
        Entry x{ l + " [linear]", r, c, {}, "" };
        if (size != r * c) {
            x.text = "size " + std::to_string(size);
        } else {
            Mod<cl> m(r, c);
            for (std::size_t p = 0; p < size; ++p) m.lin(p) = to_cl(at(p));
            x.v = m.d;
        }
        e.push_back(x);
    }
    /// A set of linear positions of an r x c matrix.
    template <typename F>
    void add_positions(const std::string &l, std::size_t r, std::size_t c, std::size_t n, F &&at)
    {
        Unharmed unharmed;
        Entry x{ l + " [positions]", r, c, {}, "" };
        std::vector<std::size_t> pos;
        for (std::size_t k = 0; k < n; ++k) {
            std::size_t p = at(k);
            if (r * c == 0 || p >= r * c) {
                x.text += " outside:" + std::to_string(p);
                continue;
            }
            pos.push_back(row_major ? p : (p % r) * c + p / r);
        }
        std::sort(pos.begin(), pos.end());
        for (std::size_t p : pos) x.v.push_back(cl(static_cast<long double>(p)));
        e.push_back(x);
    }
};
using ::show;
inline std::string show(const Entry &x)
{
    std::ostringstream o;
    o << x.label << " " << x.r << "x" << x.c << " " << x.text << " {";
    o.precision(17);
    for (std::size_t i = 0; i < x.v.size() && i < 200; ++i) o << (i ? " " : "") << "(" << static_cast<double>(x.v[i].real()) << "," << static_cast<double>(x.v[i].imag()) << ")";
    return o.str() + "}";
}
/// Throws unless two results are the same. rel: relative to the largest element
/// of the entry (0: exactly).
inline void expect_same(const Rec &a, const Rec &b, long double rel, const std::string &what, const std::string &na, const std::string &nb)
{
    CHECK(a.rejected == b.rejected, << what << ": " << (a.rejected ? "rejected" : "accepted") << " " << na << " and " << (b.rejected ? "rejected" : "accepted") << " " << nb << " (" << a.why << b.why << ")");
    CHECK(a.e.size() == b.e.size(), << what << ": " << a.e.size() << " results " << na << " and " << b.e.size() << " " << nb);
    for (std::size_t k = 0; k < a.e.size(); ++k) {
        const Entry &x = a.e[k], &y = b.e[k];
        bool eq = x.label == y.label && x.r == y.r && x.c == y.c && x.text == y.text && x.v.size() == y.v.size();
        long double scale = 0;
        if (eq && rel > 0)
            for (auto &v : x.v) {
                long double m = abs_l(v);
                if (std::isfinite(m)) scale = std::max(scale, m);
            }
        for (std::size_t i = 0; eq && i < x.v.size(); ++i) {
            if (same(x.v[i], y.v[i])) continue;
            eq = rel > 0 && abs_l(sub_l(x.v[i], y.v[i])) <= rel * std::max(scale, 1.0L);
        }
        CHECK(eq, << what << ": " << na << " the result is\n" << show(x) << "\nand " << nb << "\n" << show(y));
    }
}

// --------------------------------------------------------------- conformity

enum Judgement { CONFORMS, REJECTS, UNJUDGED };
inline Judgement judge(int id, const Case &c)
{
    unsigned n   = info(id).needs;
    const auto &A = c.A, &B = c.B;
    bool skip = false, rej = false;
    auto need = [&](unsigned bit, bool ok) {
        if ((n & bit) && !ok) (bit >= U_NE ? skip : rej) = true;
    };
    need(U_NE, A.size() > 0);
    need(U_BNE, B.size() > 0);
    need(U_VNE, !c.v.empty());
    need(U_ASQ, A.r == A.c);
    need(U_IR, c.i < A.r && c.k < A.r);
    need(U_IC, c.i < A.c && c.k < A.c && c.j < A.c);
    need(U_POW, A.r == A.c || c.n > 0);
    if (skip) return UNJUDGED;
    need(SAME, A.r == B.r && A.c == B.c);
    need(MUL, A.c == B.r);
    need(BSQ, B.r == B.c);
    need(ASQ, A.r == A.c);
    need(ASQN, A.r == A.c || A.size() == 0);
    need(ROWS, A.r == B.r);
    need(COLS, A.c == B.c);
    need(BCOL, A.r == B.c);
    need(VC, c.v.size() == A.c);
    need(VR, c.v.size() == A.r);
    need(VW, c.v.size() == c.w.size());
    need(IROW, c.i < A.r);
    need(ICOL, c.i < A.c);
    need(RANGE, c.i < std::min(c.j, A.r) && c.k < std::min(c.l, A.c));
    need(RROW, c.k < std::min(c.l, A.r));
    need(RCOL, c.k < std::min(c.l, A.c));
    need(POLY, A.size() == 0 || A.r == 1 || A.c == 1 || A.r == A.c);
    need(SIZES, A.size() == B.size());
    need(RESH, static_cast<unsigned __int128>(A.size()) == static_cast<unsigned __int128>(c.p) * c.q);
    need(PQ, c.p > 0 && c.q > 0);
    return rej ? REJECTS : CONFORMS;
}

// --------------------------------------------------------------- generation

enum Values { INTS, DYADICS, REALS };
inline cd gen_number(Source &s, Values v, long max, bool imag)
{
    auto one = [&]() -> double {
        if (v == INTS) return static_cast<double>(s.sint(max));
        if (v == DYADICS) return static_cast<double>(s.sint(max * 8)) / 8;
        return gen_value<double>(s, REAL);
    };
    double a = one();
    return cd(a, imag ? one() : 0.0);
}
inline Mod<cd> gen_numbers(Source &s, std::size_t r, std::size_t c, Values v, long max, bool imag)
{
    Mod<cd> m(r, c);
    bool sparse = s.draw(4) == 3;
    for (auto &x : m.d) x = sparse && s.draw(3) ? cd(0) : gen_number(s, v, max, imag);
    if (r == c && r > 0) { // What the decisions look for.
        switch (s.draw(10)) {
        case 5: // symmetric
        case 6: // skew
            for (std::size_t i = 0; i < r; ++i)
                for (std::size_t j = 0; j <= i; ++j) m(i, j) = (s.size() >= 0 && i == j) ? m(i, j) : m(j, i);
            break;
        case 7:
            for (std::size_t i = 0; i < r; ++i)
                for (std::size_t j = 0; j < r; ++j)
                    if (i != j) m(i, j) = 0;
            break;
        case 8:
            for (std::size_t i = 0; i < r; ++i)
                for (std::size_t j = 0; j < i; ++j) m(i, j) = 0;
            break;
        case 9:
            for (std::size_t i = 0; i < r; ++i)
                for (std::size_t j = 0; j < r; ++j) m(i, j) = i == j ? 1 : 0;
            if (s.draw(2)) m.d[s.draw(m.d.size())] = gen_number(s, v, max, imag);
            break;
        default: break;
        }
    }
    return m;
}
inline void dominate(Mod<cd> &m)
{
    for (std::size_t i = 0; i < std::min(m.r, m.c); ++i) {
        double t = 1;
        for (std::size_t j = 0; j < m.c; ++j)
            if (j != i) t += std::abs(m(i, j).real()) + std::abs(m(i, j).imag());
        m(i, i) = m(i, i).real() < 0 ? -std::ceil(t) : std::ceil(t);
    }
}
/// Whether the results grow as the operands do.
inline bool is_linear(int id)
{
    switch (id) {
    case op_add: case op_sub: case op_eq: case op_ne: case op_lt: case op_le: case op_gt: case op_ge:
    case op_vstack: case op_hstack: case op_compare: case op_add_scalar: case op_sub_scalar:
    case op_eq_scalar: case op_ne_scalar: case op_lt_scalar: case op_le_scalar: case op_gt_scalar: case op_ge_scalar:
    case op_transpose: case op_cofactor: case op_diag: case op_ravel: case op_extract: case op_trace:
    case op_extract_column: case op_extract_row: case op_vstack_vector: case op_hstack_vector: case op_elements:
    case op_add_in_place: case op_sub_in_place: case op_add_scalar_in_place: case op_sub_scalar_in_place:
    case op_swap_rows: case op_swap_cols: case op_remove_row: case op_remove_column: case op_reshape:
    case op_find: case op_to_vector: case op_min_max: case op_v_add: case op_v_sub: case op_v_eq: case op_v_ne:
    case op_v_compare: case op_v_add_in_place: case op_v_sub_in_place: case op_v_concatenate: case op_v_min_max:
    case op_v_matrix: case op_generators: case op_abs: case op_infinity_norm: case op_v_sum: return true;
    default: return false;
    }
}
/// Whether they grow as the squares of the operands do.
inline bool is_quadratic(int id)
{
    switch (id) {
    case op_mul: case op_element_wise_product: case op_linear_combination: case op_element_wise_binary:
    case op_mul_scalar: case op_scalar_mul: case op_mat_vec: case op_dot_mat_vec: case op_element_wise:
    case op_mul_in_place: case op_mul_scalar_in_place: case op_v_mul: case op_v_dot: case op_v_binary: case op_v_reduce: return true;
    default: return false;
    }
}
/// Operands that conform. With divisible, a division by the scalar is exact.
/// With wide, results that take up to 63 bits.
inline Case gen_case(Source &s, int id, Values values, bool imag, bool divisible, bool larger = false, bool wide = false)
{
    const Info &f = info(id);
    static const long most31[] = { 1, 1000000000L, 30000, 600, 90 }, most63[] = { 1, 1L << 50, 1L << 29, 1L << 19, 1L << 14 };
    const long *most = wide ? most63 : most31;
    Case c;
    bool small = f.flags & SMALL_, dom = f.flags & (DOM | DOMB);
    std::size_t big = small ? 4 : dom ? 6 : s.draw(100) == 99 ? 90 : 12;
    long max        = larger ? small ? 60 : 200 : small ? 3 : 9;
    if (wide) {
        max = is_linear(id) ? 1L << (s.draw(2) ? 26 : 4) : small ? 60 : 1L << 27;
    } else if (larger && s.draw(2)) { // whatever 31 bits hold
        switch (id) {
        case op_add: case op_sub: case op_eq: case op_ne: case op_lt: case op_le: case op_gt: case op_ge:
        case op_vstack: case op_hstack: case op_compare: case op_add_scalar: case op_sub_scalar:
        case op_eq_scalar: case op_ne_scalar: case op_lt_scalar: case op_le_scalar: case op_gt_scalar: case op_ge_scalar:
        case op_transpose: case op_hermitian: case op_cofactor: case op_diag: case op_ravel: case op_extract:
        case op_extract_column: case op_extract_row: case op_vstack_vector: case op_hstack_vector: case op_elements:
        case op_add_in_place: case op_sub_in_place: case op_add_scalar_in_place: case op_sub_scalar_in_place:
        case op_swap_rows: case op_swap_cols: case op_remove_row: case op_remove_column: case op_reshape:
        case op_find: case op_to_vector: case op_min_max: case op_v_add: case op_v_sub: case op_v_eq: case op_v_ne:
        case op_v_compare: case op_v_add_in_place: case op_v_sub_in_place: case op_v_concatenate: case op_v_min_max:
        case op_v_matrix: max = 1000000000L; break;
        case op_trace: max = 1000000L; break;
        case op_v_reduce: max = 46340L; break; // squares, too
        default: break;
        }
    }
    auto dim        = [&](std::size_t lo) { return small || dom ? lo + s.draw(big + 1 - lo) : gen_dim(s, lo, big); };
    bool empties    = !(f.needs & (U_NE | U_IR | U_IC | IROW | ICOL | RANGE | RROW | RCOL | U_BNE)) && s.draw(12) == 11;
    std::size_t lo  = empties ? 0 : 1;
    std::size_t r = dim(lo), k = dim(lo), b = dim(lo);
    bool square = (f.needs & (ASQ | U_ASQ)) || (f.flags & DOM) || (!small && s.draw(3) == 2);
    if ((f.needs & POLY) && r != 1 && k != 1) square = true;
    if ((f.needs & ASQN) && r * k != 0) square = true;
    if (square) k = r;
    if (s.draw(4) == 3) values = INTS;
    c.A = gen_numbers(s, r, k, values, max, imag);
    std::size_t br = b, bc = dim(lo);
    if (f.needs & (SAME | SIZES)) br = r, bc = k;
    if (f.needs & MUL) br = k;
    if (f.needs & BSQ) bc = br;
    if (f.needs & ROWS) br = r;
    if (f.needs & COLS) bc = k;
    if (f.needs & BCOL) bc = r;
    if ((f.needs & SIZES) && s.draw(3) == 2) br = k, bc = r;
    c.B = gen_numbers(s, br, bc, values, max, imag);
    if (larger && (id == op_determinant || id == op_adjoint) && r <= 4) {
        // Every product along the way fits 31 bits.
        for (auto &x : c.A.d) x = static_cast<double>(s.draw(5) ? s.sint(most[r]) : s.sint(3));
    }
    if (larger && id == op_poly_matrix && (r == 1 || k == 1)) {
        // So does every coefficient.
        for (auto &x : c.A.d) x = static_cast<double>(s.sint(most[std::min<std::size_t>(4, r * k)]));
    }
    if ((f.needs & SAME) && s.draw(3) == 2) // Elements in common.
        for (std::size_t x = 0; x < c.B.d.size(); ++x)
            if (s.draw(2)) c.B.d[x] = c.A.d[x];
    if (f.flags & DOM) dominate(c.A);
    if (f.flags & DOMB) dominate(c.B);
    std::size_t vn = (f.needs & VC) ? k : (f.needs & VR) ? r : (f.needs & U_VNE) ? dim(1) : dim(lo), wn = (f.needs & VW) ? vn : dim(0);
    for (std::size_t x = 0; x < vn; ++x) c.v.push_back(gen_number(s, values, max, imag));
    for (std::size_t x = 0; x < wn; ++x) c.w.push_back(s.draw(3) == 2 && x < vn ? c.v[x] : gen_number(s, values, max, imag));
    if (larger && id == op_v_poly && vn <= 4) {
        for (auto &x : c.v) x = static_cast<double>(s.sint(most[vn]));
    }
    if (id == op_v_projection) {
        bool zero = true;
        for (auto &x : c.w) zero = zero && std::abs(x) < 0.1;
        if (zero) c.w[0] = 1;
    }
    c.sc = gen_number(s, values == REALS ? DYADICS : values, max, imag);
    if (id == op_div_scalar || id == op_div_scalar_in_place || id == op_v_scalar) {
        if (divisible) {
            c.sc = (s.draw(2) ? 2.0 : 1.0) * (s.draw(2) ? -1.0 : 1.0);
            for (auto &x : c.A.d) x *= 2.0;
            for (auto &x : c.v) x *= 2.0;
        } else if (std::abs(c.sc.real()) < 1) {
            c.sc = cd(3, c.sc.imag());
        }
    }
    auto below = [&](std::size_t n) { return n ? s.draw(n) : 0; };
    // Ranges first, then rows or columns, as the operation needs.
    if (f.needs & RANGE) {
        c.i = below(r), c.j = c.i + 1 + s.draw(r), c.k = below(k), c.l = c.k + 1 + s.draw(k);
    } else if (f.needs & RROW) {
        c.i = below(k), c.k = below(r), c.l = c.k + 1 + s.draw(r);
    } else if (f.needs & RCOL) {
        c.i = below(r), c.k = below(k), c.l = c.k + 1 + s.draw(k);
    } else {
        std::size_t m = (f.needs & (U_IR | IROW)) ? r : k;
        if ((f.needs & U_IR) && (f.needs & U_IC)) m = std::min(r, k);
        c.i = below(m), c.k = below(m), c.j = (f.needs & U_IC) ? below(m) : below(std::max(r, k)), c.l = below(std::max(r, k) + 1);
    }
    c.n = static_cast<unsigned>(s.draw(4));
    if (f.needs & RESH) {
        std::size_t n = r * k;
        std::vector<std::size_t> div;
        for (std::size_t x = 1; x <= n; ++x)
            if (n % x == 0) div.push_back(x);
        c.p = div.empty() ? 0 : div[s.draw(div.size())];
        c.q = div.empty() ? s.draw(4) : n / c.p;
    } else {
        c.p = 1 + s.draw(6), c.q = 1 + s.draw(6);
    }
    return c;
}

/// Changes what usually makes operands conform.
inline void perturb(Source &s, int id, Case &c)
{
    const Info &f = info(id);
    bool imag     = false;
    auto shape    = [&](Mod<cd> &m, std::size_t big) {
        std::size_t r = m.r, k = m.c;
        switch (s.draw(6)) {
        case 0: r += 1 + s.draw(2); break;
        case 1: k += 1 + s.draw(2); break;
        case 2: r = r ? r - 1 : 1; break;
        case 3: k = k ? k - 1 : 1; break;
        case 4: std::swap(r, k); break;
        default: r = s.draw(big), k = s.draw(big); break;
        }
        m = gen_numbers(s, r, k, INTS, 3, imag);
    };
    std::size_t big = f.flags & SMALL_ ? 5 : 8;
    for (int k = 1 + static_cast<int>(s.draw(2)); k > 0; --k) switch (s.draw(5)) {
        case 0: shape(c.A, big); break;
        case 1: shape(c.B, big); break;
        case 2: {
            std::size_t n = s.draw(2) ? s.draw(8) : c.v.size() + 1;
            c.v.clear();
            for (std::size_t x = 0; x < n; ++x) c.v.push_back(gen_number(s, INTS, 3, imag));
            break;
        }
        case 3:
            switch (s.draw(4)) {
            case 0: c.i = s.draw(4) == 3 ? static_cast<std::size_t>(-1) : s.draw(c.A.r + c.A.c + 2); break;
            case 1: c.j = s.draw(c.A.r + c.A.c + 2); break;
            case 2: c.k = s.draw(4) == 3 ? static_cast<std::size_t>(-1) : s.draw(c.A.r + c.A.c + 2); break;
            default: c.l = s.draw(c.A.r + c.A.c + 2); break;
            }
            break;
        default: (s.draw(2) ? c.p : c.q) = s.draw(6); break;
        }
    if (f.flags & DOM) dominate(c.A);
    if (f.flags & DOMB) dominate(c.B);
    // A division by zero is not the subject.
    if ((f.flags & (DOM | DOMB)) && (c.A.r != c.A.c)) return;
}

// --------------------------------------------------------------- operations

/// Whether elements can be compared: not complex<double> with int, for instance.
template <typename A, typename B, typename = void>
constexpr bool comparable = false;
template <typename A, typename B>
constexpr bool comparable<A, B, std::void_t<decltype(std::declval<const A &>() == std::declval<const B &>())>> = true;

template <typename E>
Tag<E> element_of(const malg::MatrixBase<E> &);
/// One operation. MA: Matrix<T>, MatrixBase<T> or const MatrixBase<const T>.
template <typename T, typename TB, typename MA, typename MB>
void apply(int id, Rec &R, MA &A, MB &B, const Case &c)
{
    namespace ut           = malg::utility;
    namespace la           = malg::linalg;
    using EA               = std::remove_reference_t<decltype(A(0, 0))>;
    constexpr bool writable = !std::is_const_v<MA> && !std::is_const_v<EA>;
    constexpr bool owner    = std::is_same_v<MA, malg::Matrix<T>>;
    constexpr bool cplx     = is_cplx<T>;
    constexpr bool integral = std::is_integral_v<T>;
    constexpr bool cplx2    = cplx || is_cplx<TB>;
    constexpr bool same_t   = std::is_same_v<decltype(element_of(A)), decltype(element_of(B))>;
    auto vector_of = [](auto x, const std::vector<cd> &d) {
        Unharmed unharmed;
        return to_malg(cast<decltype(x)>(d));
    };
    malg::Vector<T> v = vector_of(T(), c.v);
    malg::Vector<TB> w = vector_of(TB(), c.w);
    const T sc         = cast<T>(c.sc);
    std::size_t i = c.i, j = c.j, k = c.k, l = c.l;
    auto operand = [&](const char *n) { Unharmed unharmed; R.add(std::string("operand after ") + n, A); };
    switch (id) {
    case op_add: R.add("A+B", A + B); break;
    case op_sub: R.add("A-B", A - B); break;
    case op_mul: R.add("A*B", A * B); break;
    case op_element_wise_product: R.add("element_wise_product", malg::element_wise_product(A, B)); break;
    case op_linear_combination: R.add("linear_combination", malg::linear_combination(A, cast<T>(cd(2)), B, cast<TB>(cd(3)))); break;
    case op_element_wise_binary: R.add("element_wise_binary_function", malg::element_wise_binary_function(A, B, [](const auto &x, const auto &y) { return std::make_pair(x, y).first * y; })); break;
    case op_eq:
        if constexpr (comparable<T, TB>) R.add("A==B", A == B);
        break;
    case op_ne:
        if constexpr (comparable<T, TB>) R.add("A!=B", A != B);
        break;
    case op_vstack: R.add("vstack", ut::vstack(A, B)); break;
    case op_hstack: R.add("hstack", ut::hstack(A, B)); break;
    case op_div:
        if constexpr (!integral && !std::is_integral_v<TB>) R.add("div", la::div(A, B));
        break;
    case op_add_scalar: R.add("A+s", A + sc); break;
    case op_sub_scalar: R.add("A-s", A - sc); break;
    case op_mul_scalar: R.add("A*s", A * sc); break;
    case op_scalar_mul: R.add("s*A", sc * A); break;
    case op_div_scalar: R.add("A/s", A / sc); break;
    case op_eq_scalar: R.add("A==s", A == sc); break;
    case op_ne_scalar: R.add("A!=s", A != sc); break;
    case op_mat_vec: R.add("A*v", A * v); break;
    case op_dot_mat_vec: R.add("dot(A,v)", malg::dot(A, v)); break;
    case op_element_wise: R.add("element_wise_function", malg::element_wise_function(A, [](const auto &x) { return x * x; })); break;
    case op_abs: R.add("abs", malg::abs(A)); break;
    case op_sign: R.add("sign", malg::sign(A)); break;
    case op_vector_length:
        R.add("vector_length", malg::vector_length(A, i, k, l));
        R.add("vector_length to the end", malg::vector_length(A, i, 0));
        break;
    case op_trace: R.add("trace", malg::trace(A)); break;
    case op_all_any:
        R.add("all", malg::all(A));
        R.add("any", malg::any(A));
        break;
    case op_square_norm: R.add("square_norm", malg::square_norm(A)); break;
    case op_infinity_norm: R.add("infinity_norm", malg::infinity_norm(A)); break;
    case op_sub_norm: R.add("sub_norm", malg::sub_norm(A)); break;
    case op_log2_ceil:
        if constexpr (!integral) R.add("log2_ceil", malg::log2_ceil(A));
        break;
    case op_transpose: R.add("transpose", la::transpose(A)); break;
    case op_powm: R.add("powm", la::powm(A, c.n)); break;
    case op_cofactor: R.add("cofactor", la::cofactor(A, i, k)); break;
    case op_determinant: R.add("determinant", la::determinant(A)); break;
    case op_determinant_large: R.add("determinant", la::determinant(A)); break;
    case op_adjoint: R.add("adjoint", la::adjoint(A)); break;
    case op_inverse:
        if constexpr (!integral) R.add("inverse", la::inverse(A));
        break;
    case op_lu:
        if constexpr (!integral) R.add("lu_decomposition", la::lu_decomposition(A));
        break;
    case op_exp:
        if constexpr (!integral) R.add("exp", la::exp(A));
        break;
    case op_expm:
        if constexpr (!integral) R.add("expm", la::expm(A, 1e-10));
        break;
    case op_diag: R.add("diag", ut::diag(A)); break;
    case op_ravel: {
        auto x = ut::ravel(A);
        R.add_linear("ravel", A.rows(), A.cols(), x.size(), [&](std::size_t p) { return x[p]; });
        break;
    }
    case op_extract: R.add("extract", ut::extract(A, i, j, k, l)); break;
    case op_extract_column: R.add("extract_column", ut::extract_column(A, i, k, l)); break;
    case op_extract_row: R.add("extract_row", ut::extract_row(A, i, k, l)); break;
    case op_decisions:
        R.add("is_square", ut::is_square(A));
        R.add("is_column_vector", ut::is_column_vector(A));
        R.add("is_row_vector", ut::is_row_vector(A));
        R.add("is_symmetric", ut::is_symmetric(A));
        R.add("is_skew_symmetric", ut::is_skew_symmetric(A));
        R.add("is_diagonal", ut::is_diagonal(A));
        R.add("is_zero", ut::is_zero(A));
        if (A.size() > 0) R.add("is_constant", ut::is_constant(A));
        R.add("is_identity", ut::is_identity(A));
        R.add("is_orthogonal", ut::is_orthogonal(A));
        R.add("is_lower_triangular", ut::is_lower_triangular(A));
        R.add("is_upper_triangular", ut::is_upper_triangular(A));
        R.add("empty", A.empty());
        break;
    case op_decisions_square:
        R.add("is_invertible", ut::is_invertible(A));
        R.add("is_linearly_dependent", ut::is_linearly_dependent(A));
        R.add("is_linearly_independent", ut::is_linearly_independent(A));
        break;
    case op_vstack_vector: R.add("vstack(A,v)", ut::vstack(A, v)); break;
    case op_hstack_vector: R.add("hstack(A,v)", ut::hstack(A, v)); break;
    case op_poly_matrix: R.add("poly(A)", malg::control::poly(A)); break;
    case op_elements:
        R.add("elements", A);
        R.add_linear("linear elements", A.rows(), A.cols(), A.size(), [&](std::size_t p) { return static_cast<T>(A[p]); });
        break;
    case op_text: {
        std::ostringstream os;
        os << A;
        R.add_text("<<", os.str());
        R.add_text("dump_matrix", malg::dump_matrix("A", A));
        R.add_text("to_matlab", malg::to_matlab("A", A));
        R.add_text("to_cpp", malg::to_cpp("A", "double", A));
        break;
    }
    // Vectors only.
    case op_v_add: R.add("v+w", v + w); break;
    case op_v_sub: R.add("v-w", v - w); break;
    case op_v_mul: R.add("v*w", v * w); break;
    case op_v_dot: R.add("dot(v,w)", malg::dot(v, w)); break;
    case op_v_eq:
        if constexpr (comparable<T, TB>) R.add("v==w", v == w);
        break;
    case op_v_ne:
        if constexpr (comparable<T, TB>) R.add("v!=w", v != w);
        break;
    case op_v_all_close: R.add("all_close(v,w)", ut::all_close(v, to_malg(cast<T>(c.w)))); break;
    case op_v_binary: R.add("element_wise_binary_function(v,w)", malg::element_wise_binary_function(v, w, [](const auto &x, const auto &y) { return x * y; })); break;
    case op_v_add_in_place:
        if constexpr (cplx || !is_cplx<TB>) {
            struct After {
                Rec &R;
                malg::Vector<T> &v;
                ~After()
                {
                    R.add("v after +=", v);
                }
            } after{ R, v };
            v += w;
        }
        break;
    case op_v_sub_in_place:
        if constexpr (cplx || !is_cplx<TB>) {
            struct After {
                Rec &R;
                malg::Vector<T> &v;
                ~After()
                {
                    R.add("v after -=", v);
                }
            } after{ R, v };
            v -= w;
        }
        break;
    case op_v_concatenate: R.add("concatenate", ut::concatenate(v, w)); break;
    case op_v_scalar:
        R.add("v+s", v + sc);
        R.add("v-s", v - sc);
        R.add("v*s", v * sc);
        R.add("s*v", sc * v);
        R.add("v/s", v / sc);
        R.add("v==s", v == sc);
        R.add("v!=s", v != sc);
        {
            malg::Vector<T> x = v;
            x += sc;
            R.add("v+=s", x);
            x -= sc, x *= sc;
            R.add("v*=s", x);
            x /= sc;
            R.add("v/=s", x);
        }
        break;
    case op_v_reduce:
        R.add("sum", malg::sum(v));
        R.add("all(v)", malg::all(v));
        R.add("any(v)", malg::any(v));
        R.add("polyreduce", malg::control::polyreduce(v));
        if constexpr (!cplx) R.add("abs(v)", malg::abs(v));
        R.add("element_wise_function(v)", malg::element_wise_function(v, [](const auto &x) { return x * x; }));
        break;
    case op_v_sum: R.add("sum", malg::sum(v)); break;
    case op_v_norms:
        R.add("square_norm(v)", malg::square_norm(v));
        R.add("infinity_norm(v)", malg::infinity_norm(v));
        R.add("sign(v)", malg::sign(v));
        R.add("abs(v)", malg::abs(v));
        break;
    case op_v_poly: R.add("poly(v)", malg::control::poly(v)); break;
    case op_v_matrix:
        R.add("diag(v)", ut::diag(v));
        R.add("to_matrix row", ut::to_matrix(v, true));
        R.add("to_matrix column", ut::to_matrix(v, false));
        break;
    case op_v_projection:
        if constexpr (!integral && !std::is_integral_v<TB>) R.add("projection", malg::projection(v, w));
        break;
    case op_generators:
        R.add("eye", ut::eye<T>(c.p, c.q, sc));
        R.add("zeros", ut::zeros<T>(c.p, c.q));
        R.add("ones", ut::ones<T>(c.p, c.q));
        break;
    default: break;
    }
    if constexpr (!cplx2) switch (id) {
        case op_lt: R.add("A<B", A < B); break;
        case op_le: R.add("A<=B", A <= B); break;
        case op_gt: R.add("A>B", A > B); break;
        case op_ge: R.add("A>=B", A >= B); break;
        case op_v_compare: R.add("compare(v,w)", ut::compare(v, to_malg(cast<T>(c.w)))); break;
        case op_v_min_max:
            R.add("min(v)", malg::min(v));
            R.add("max(v)", malg::max(v));
            break;
        default: break;
        }
    if constexpr (!cplx) switch (id) {
        case op_lt_scalar: R.add("A<s", A < sc); break;
        case op_le_scalar: R.add("A<=s", A <= sc); break;
        case op_gt_scalar: R.add("A>s", A > sc); break;
        case op_ge_scalar: R.add("A>=s", A >= sc); break;
        default: break;
        }
    if constexpr (cplx) switch (id) {
        case op_real_imag:
            R.add("real", malg::real(A));
            R.add("imag", malg::imag(A));
            break;
        case op_hermitian:
            R.add("hermitian_transpose", la::hermitian_transpose(A));
            R.add("conjugate_transpose", la::conjugate_transpose(A));
            break;
        default: break;
        }
    if constexpr (same_t) switch (id) {
        case op_all_close: R.add("all_close", ut::all_close(A, B)); break;
        case op_compare:
            if constexpr (!cplx) R.add("compare", ut::compare(A, B));
            break;
        case op_ctrb: R.add("ctrb", malg::control::ctrb(A, B)); break;
        case op_obsv: R.add("obsv", malg::control::obsv(A, B)); break;
        default: break;
        }
    if constexpr (writable) {
        switch (id) {
        case op_add_scalar_in_place: A += sc; break;
        case op_sub_scalar_in_place: A -= sc; break;
        case op_mul_scalar_in_place: A *= sc; break;
        case op_div_scalar_in_place: A /= sc; break;
        case op_swap_rows:
            ut::swap_rows(A, i, k);
            operand("swap_rows");
            ut::swap_rows(A, k, i, j, l);
            break;
        case op_swap_cols:
            ut::swap_cols(A, i, k);
            operand("swap_cols");
            ut::swap_cols(A, k, i, j, l);
            break;
        case op_assign_elements:
            for (std::size_t x = 0; x < A.rows(); ++x)
                for (std::size_t y = 0; y < A.cols(); ++y)
                    if ((x + 2 * y) % 3 == 0) A(x, y) = sc;
            operand("assignments by row and column");
            for (std::size_t p = 0; p < A.size(); ++p)
                if (A[p] == sc) A[p] = T(7);
            break;
        default: break;
        }
        if constexpr (cplx || !is_cplx<TB>) switch (id) {
            case op_add_in_place: A += B; break;
            case op_sub_in_place: A -= B; break;
            case op_mul_in_place: A *= B; break;
            default: break;
            }
        if (info(id).flags & (WRITE | WRITE2)) operand(info(id).name);
    }
    if constexpr (owner) {
        const std::size_t r = A.rows(), q = A.cols();
        switch (id) {
        case op_remove_row: ut::remove_row(A, i); break;
        case op_remove_column: ut::remove_column(A, i); break;
        case op_reshape: {
            ut::reshape(A, c.p, c.q);
            R.add("rows", A.rows());
            R.add("cols", A.cols());
            R.add_linear("reshape", r, q, A.size(), [&](std::size_t p) { return A[p]; });
            return;
        }
        case op_find: {
            auto x = ut::flatnonzero(A);
            R.add_positions("flatnonzero", r, q, x.size(), [&](std::size_t p) { return x[p]; });
            auto y = ut::find(A);
            R.add("find rows", y.rows());
            R.add("find cols", y.cols());
            R.add_positions("find", r, q, y.size(), [&](std::size_t p) { return y[p]; });
            break;
        }
        case op_to_vector: {
            auto x = ut::to_vector(A);
            R.add_linear("to_vector", r, q, x.size(), [&](std::size_t p) { return x[p]; });
            break;
        }
        case op_min_max:
            if constexpr (!cplx) {
                R.add("min(A)", malg::min(A));
                R.add("max(A)", malg::max(A));
            }
            break;
        case op_qr:
            if constexpr (!cplx && !integral) R.add("qr_decomposition", la::qr_decomposition(A));
            break;
        case op_solve:
            if constexpr (!cplx && !integral) R.add("solve", la::solve(A, v));
            break;
        case op_hessenberg:
            if constexpr (std::is_same_v<T, cd>) {
                auto x = malg::eigen::hessenberg(A);
                R.add("hessenberg", x);
            }
            break;
        case op_givens:
            if constexpr (std::is_same_v<T, cd>) {
                auto h = malg::eigen::hessenberg(A);
                R.add("givens", malg::eigen::qr_factorise_givens(h.first));
            }
            break;
        default: break;
        }
        if (info(id).flags & OWNERW) operand(info(id).name);
    }
}
/// The same, with a rejection as a result.
template <typename T, typename TB, typename MA, typename MB>
Rec run(int id, MA &A, MB &B, const Case &c)
{
    Rec R;
    try {
        apply<T, TB>(id, R, A, B, c);
    } catch (const std::exception &e) {
        R.rejected = true;
        R.why      = e.what();
    }
    return R;
}

template <typename T, typename TB>
bool supported(int id)
{
    unsigned f = info(id).flags;
    if ((f & NOC) && (is_cplx<T> || ((f & (READ2 | WRITE2 | VEC)) && is_cplx<TB>))) return false;
    if ((f & ONLYC) && !is_cplx<T>) return false;
    if ((f & ONLYCD) && !std::is_same_v<T, cd>) return false;
    if ((f & NOI) && (std::is_integral_v<T> || ((f & (READ2 | VEC)) && std::is_integral_v<TB>))) return false;
    if ((f & SAMET) && !std::is_same_v<T, TB>) return false;
    if ((f & PAIRC) && is_cplx<TB> && !is_cplx<T>) return false;
    if (id == op_eq || id == op_ne || id == op_v_eq || id == op_v_ne) return comparable<T, TB>;
    if (id == op_v_add_in_place || id == op_v_sub_in_place) return is_cplx<T> || !is_cplx<TB>;
    return true;
}
/// One of the operations that the types and the filter allow.
template <typename T, typename TB>
int choose(Source &s, unsigned kinds, unsigned without = 0)
{
    std::vector<int> ids;
    for (int i = 0; i < op_count; ++i)
        if ((info(i).flags & kinds) && !(info(i).flags & without) && supported<T, TB>(i)) ids.push_back(i);
    return ids[s.draw(ids.size())];
}
template <typename... T>
long double tolerance_of()
{
    return std::max({ eps_of<T>()... }) > 1e-10L ? 2e-3L : 1e-8L;
}
inline void describe(Source &s, int id, const Case &c)
{
    if (!s.noting()) return;
    s.note() << "operation " << info(id).name << "\nA = " << show(c.A) << "\nB = " << show(c.B) << "\nv = " << show(c.v) << "\nw = " << show(c.w) << "\nscalar " << show(c.sc) << " i,j,k,l = " << c.i << "," << c.j << "," << c.k << "," << c.l << " p,q = " << c.p << "," << c.q << " n = " << c.n << "\n";
}
} // namespace ops
