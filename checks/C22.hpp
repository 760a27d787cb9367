// C22: text renderings.
#include "forms.hpp"

namespace c22
{
struct Format {
    int base = 0; // 0 default, 1 scientific, 2 fixed
    bool showpos = false, showpoint = false, upper = false;
    char fill     = ' ';
    int precision = 6;
    void set(std::ostream &os) const
    {
        if (base == 1) os << std::scientific;
        if (base == 2) os << std::fixed;
        if (showpos) os << std::showpos;
        if (showpoint) os << std::showpoint;
        if (upper) os << std::uppercase;
        os << std::setfill(fill);
        os.precision(precision);
    }
};
inline Format gen_format(Source &s)
{
    Format f;
    switch (s.draw(3)) {
    case 0: break;
    case 1: f.precision = static_cast<int>(s.range(0, 17)); break;
    default:
        f.precision = static_cast<int>(s.range(0, 17));
        f.base      = static_cast<int>(s.draw(3));
        f.showpos   = s.draw(3) == 2;
        f.showpoint = s.draw(4) == 3;
        f.upper     = s.draw(4) == 3;
        f.fill      = s.draw(6) == 5 ? '.' : ' ';
    }
    return f;
}
template <typename T>
Flavor flavor(Source &s)
{
    return std::array<Flavor, 7>{ SMALL, SPARSE, MEDIUM, DYADIC, REAL, WIDE, EXTREME }[s.draw(7)];
}
template <typename T>
std::string element(const T &v, const Format &f)
{
    if constexpr (is_cplx<T>) {
        return "(" + element(v.real(), f) + "," + element(v.imag(), f) + ")";
    } else {
        std::ostringstream os;
        Format g = f;
        g.fill   = ' ';
        g.set(os);
        os << v;
        return os.str();
    }
}
template <typename T>
std::string text(const Mod<T> &m, const Format &f)
{
    std::vector<std::string> e;
    std::size_t w = 0;
    for (auto &v : m.d) e.push_back(element(v, f)), w = std::max(w, e.back().size());
    std::string t;
    for (std::size_t i = 0; i < m.r; ++i) {
        if (i) t += "\n";
        for (std::size_t j = 0; j < m.c; ++j) {
            const std::string &x = e[i * m.c + j];
            if (j) t += " ";
            t += std::string(w - x.size(), f.fill) + x;
        }
    }
    return t;
}
template <typename T>
std::string text(const std::vector<T> &v, const Format &f)
{
    Mod<T> m(1, v.size());
    for (std::size_t i = 0; i < v.size(); ++i) m.d[i] = v[i];
    return text(m, f);
}
inline std::string clip(const std::string &t)
{
    return t.size() > 1500 ? t.substr(0, 1500) + "..." : t;
}
#define SAME_TEXT(got, want, what) CHECK((got) == (want), << what << ": the text is\n" << clip(got) << "\ninstead of\n" << clip(want))

inline Shape shape(Source &s)
{
    switch (s.pick({ 14, 1, 1 })) {
    case 0: return gen_shape_any(s, 14);
    case 1: return Shape{ s.draw(2), 0 };
    default: return Shape{ 0, s.draw(4) };
    }
}
inline std::string name(Source &s)
{
    static const char *n[] = { "A", "b", "x_1", "matrix", "Q", "a long name", "", "%d%s",
                               "a_name_that_goes_on_for_so_long_that_it_would_not_fit_in_what_most_programs_reserve_for_a_name_and_then_some_more_of_it_to_be_sure" };
    return n[s.draw(9)];
}
template <typename F>
std::string printed(Source &s, const Format &f, const std::string &what, F &&print)
{
    std::ostringstream os;
    f.set(os);
    auto flags = os.flags();
    // Something around, to see what is written and the format that is left.
    std::string before = s.draw(2) ? "before:" : "";
    os << before;
    print(os);
    CHECK(os.good(), << what << ": the stream failed");
    CHECK(os.flags() == flags && os.precision() == f.precision && os.fill() == f.fill && os.width() == 0, << what << ": the format of the stream changed");
    std::string t = os.str();
    CHECK(t.compare(0, before.size(), before) == 0, << what << ": the beginning of the stream changed");
    return t.substr(before.size());
}

template <typename T>
void print_matrix(Source &s)
{
    Shape sh = shape(s);
    Flavor fl = flavor<T>(s);
    Mod<T> m = gen_mod<T>(s, sh.r, sh.c, fl);
    Format f = gen_format(s);
    std::string n = name(s);
    if (s.noting()) s.note() << show(m) << "\n";
    on_operand(s, m, [&](const auto &x, const std::string &of) {
        std::string what = std::string("<<") + of + " of " + tname<T>();
        std::string got  = printed(s, f, what, [&](std::ostream &os) { os << x; });
        std::string want = text(m, f);
        // No columns: nothing to see.
        if (m.c == 0) {
            for (char ch : got) CHECK(ch == '\n', << what << ": something is printed for an empty matrix: " << got);
        } else {
            SAME_TEXT(got, want, what);
        }
        std::string dump = malg::dump_matrix(n.c_str(), x);
        std::string dw   = n + " = \n" + text(m, Format());
        if (m.c > 0) SAME_TEXT(dump, dw, "dump_matrix" + of);
    });
    s.nontrivial(m.size() >= 4 && varied(m.d));
}
template <typename T>
void print_vector(Source &s)
{
    std::vector<T> m = gen_vec<T>(s, s.draw(10) == 9 ? 0 : gen_len(s, 1, 60), flavor<T>(s));
    malg::Vector<T> x = to_malg(m);
    Format f          = gen_format(s);
    std::string n     = name(s);
    std::string what  = std::string("<< of a vector of ") + tname<T>();
    std::string got   = printed(s, f, what, [&](std::ostream &os) { os << x; });
    SAME_TEXT(got, text(m, f), what);
    SAME_TEXT(malg::dump_vector(n.c_str(), x), n + " = " + text(m, Format()), "dump_vector");
    expect_eq(x, m, "the printed vector");
    s.nontrivial(m.size() >= 3 && varied(m));
}

// ------------------------------------------------------- language renderings

/// Reads the numbers of a rendering.
struct Reader {
    const std::string &t;
    std::size_t p;
    std::string what;
    void space()
    {
        while (p < t.size() && std::isspace(static_cast<unsigned char>(t[p]))) ++p;
    }
    bool eat(char c)
    {
        space();
        if (p < t.size() && t[p] == c) return ++p, true;
        return false;
    }
    void need(char c)
    {
        CHECK(eat(c), << what << ": expected '" << c << "' at " << p << " of " << clip(t));
    }
    void need(const std::string &x)
    {
        CHECK(t.compare(p, x.size(), x) == 0, << what << ": expected \"" << x << "\" at " << p << " of " << clip(t));
        p += x.size();
    }
    double real()
    {
        const char *b = t.c_str() + p;
        char *e       = nullptr;
        double v      = std::strtod(b, &e);
        CHECK(e != b && !std::isspace(static_cast<unsigned char>(*b)), << what << ": expected a number at " << p << " of " << clip(t));
        p += static_cast<std::size_t>(e - b);
        return v;
    }
    cd value(bool cplx)
    {
        space();
        double a = real();
        if (!cplx) return cd(a, 0);
        if (p < t.size() && t[p] == 'i') return ++p, cd(0, a); // only imaginary
        if (p < t.size() && (t[p] == '+' || t[p] == '-')) {
            double b = real();
            if (p < t.size() && t[p] == '*') ++p;
            CHECK(p < t.size() && t[p] == 'i', << what << ": expected the imaginary unit at " << p << " of " << clip(t));
            ++p;
            return cd(a, b);
        }
        return cd(a, 0);
    }
};
/// Agrees to the six digits that are printed.
template <typename T>
void value_is(const cd &got, const T &v, const std::string &what)
{
    cl w      = to_cl(v);
    auto near = [](long double a, long double b) { return std::abs(a - b) <= 6e-6L * std::abs(b); };
    CHECK(near(got.real(), w.real()) && near(got.imag(), w.imag()), << what << ": " << show(v) << " is rendered as " << got.real() << "," << got.imag());
}
template <typename T>
Mod<T> finite_mod(Source &s, std::size_t r, std::size_t c)
{
    Flavor fl = std::array<Flavor, 6>{ SMALL, SPARSE, MEDIUM, DYADIC, REAL, WIDE }[s.draw(6)];
    return gen_mod<T>(s, r, c, fl);
}
inline void balanced(const std::string &t, const std::string &what)
{
    std::string st;
    for (char c : t) {
        if (c == '[' || c == '{') st += c;
        if (c == ']' || c == '}') {
            CHECK(!st.empty() && st.back() == (c == ']' ? '[' : '{'), << what << ": unbalanced brackets in " << clip(t));
            st.pop_back();
        }
    }
    CHECK(st.empty(), << what << ": unbalanced brackets in " << clip(t));
}
template <typename T>
void matlab_matrix(const std::string &t, const std::string &n, const Mod<T> &m, const std::string &what)
{
    balanced(t, what);
    if (m.size() == 0) return;
    Reader r{ t, 0, what };
    r.need(n + " = ");
    r.need('[');
    for (std::size_t i = 0; i < m.r; ++i) {
        bool inner = r.eat('[');
        for (std::size_t j = 0; j < m.c; ++j) {
            if (j) {
                std::size_t p = r.p;
                bool comma    = r.eat(',');
                CHECK(comma || r.p > p, << what << ": no separator at " << p << " of " << clip(t));
            }
            value_is(r.value(is_cplx<T>), m(i, j), what + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
        }
        if (inner) r.need(']');
        bool semi = r.eat(';');
        CHECK(semi || i + 1 == m.r, << what << ": no row separator at " << r.p << " of " << clip(t));
    }
    r.need(']');
    r.eat(';');
    r.space();
    CHECK(r.p == t.size(), << what << ": text after the end: " << clip(t));
}
template <typename T>
void cpp_rows(Reader &r, const Mod<T> &m, bool nested, const std::string &what)
{
    r.need('{');
    for (std::size_t i = 0; i < m.r; ++i) {
        if (i) r.need(',');
        if (nested) r.need('{');
        for (std::size_t j = 0; j < m.c; ++j) {
            if (j) r.need(',');
            value_is(r.value(is_cplx<T>), m(i, j), what + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
        }
        if (nested) r.need('}');
    }
    r.need('}');
    r.eat(';');
    r.space();
    CHECK(r.p == r.t.size(), << what << ": text after the end: " << clip(r.t));
}
template <typename T>
void languages(Source &s)
{
    std::string n    = s.draw(2) ? "A" : "some_name";
    if (s.draw(8) == 7) n = "a" + std::string(s.draw(300), 'b');
    std::string type = s.draw(2) ? "double" : "std::complex<double>";
    if (s.draw(2)) {
        Shape sh = shape(s);
        Mod<T> m = finite_mod<T>(s, sh.r, sh.c);
        if (s.noting()) s.note() << show(m) << "\n";
        on_operand(s, m, [&](const auto &x, const std::string &of) {
            std::string of2 = of + " of " + tname<T>();
            matlab_matrix(malg::to_matlab(n.c_str(), x), n, m, "to_matlab" + of2);
            std::string t = malg::to_cpp(n.c_str(), type.c_str(), x);
            balanced(t, "to_cpp" + of2);
            Reader r{ t, 0, "to_cpp" + of2 };
            r.need("malg::Matrix<" + type + "> " + n + " = ");
            cpp_rows(r, m, true, "to_cpp" + of2);
        });
        s.nontrivial(m.size() >= 4 && varied(m.d));
    } else {
        Mod<T> m = finite_mod<T>(s, 1, s.draw(10) == 9 ? 0 : gen_dim(s, 1, 40));
        malg::Vector<T> x = to_malg(m.d);
        if (s.noting()) s.note() << show(m) << "\n";
        std::string of2 = std::string(" of a vector of ") + tname<T>();
        matlab_matrix(malg::to_matlab(n.c_str(), x), n, m, "to_matlab" + of2);
        std::string t = malg::to_cpp(n.c_str(), type.c_str(), x);
        balanced(t, "to_cpp" + of2);
        Reader r{ t, 0, "to_cpp" + of2 };
        r.need("malg::Vector<" + type + "> " + n + " = ");
        cpp_rows(r, m, false, "to_cpp" + of2);
        expect_eq(x, m.d, "the rendered vector");
        s.nontrivial(m.size() >= 3 && varied(m.d));
    }
}

// --------------------------------------------------------------- the models

template <typename T>
void models(Source &s)
{
    std::size_t n = gen_dim(s, 1, 8), in = 1 + s.draw(3), out = 1 + s.draw(3);
    Flavor fl     = std::array<Flavor, 6>{ SMALL, SPARSE, MEDIUM, DYADIC, REAL, WIDE }[s.draw(6)];
    Mod<T> A = gen_mod<T>(s, n, n, fl), B = gen_mod<T>(s, n, in, fl), C = gen_mod<T>(s, out, n, fl), D = gen_mod<T>(s, out, in, fl);
    Format f  = gen_format(s);
    auto body = "A =\n" + text(A, f) + "\nB =\n" + text(B, f) + "\nC =\n" + text(C, f) + "\nD =\n" + text(D, f) + "\n";
    if (s.draw(2)) {
        malg::control::StateSpace<T> x{ to_malg(A), to_malg(B), to_malg(C), to_malg(D) };
        std::string got = printed(s, f, "<< of a model", [&](std::ostream &os) { os << x; });
        SAME_TEXT(got, body + "Continuous-time state-space model.\n", "<< of a continuous model");
        expect_eq(x.A, A, "A"), expect_eq(x.B, B, "B"), expect_eq(x.C, C, "C"), expect_eq(x.D, D, "D");
    } else {
        T step = static_cast<T>(1 + s.draw(40)) / T(16);
        malg::control::DiscreteStateSpace<T> x{ to_malg(A), to_malg(B), to_malg(C), to_malg(D), step };
        std::string got = printed(s, f, "<< of a model", [&](std::ostream &os) { os << x; });
        SAME_TEXT(got, body + "Sample time: " + element(step, f) + " seconds\nDiscrete-time state-space model.\n", "<< of a discrete model");
    }
    malg::Range r{ s.draw(100), s.draw(100) };
    std::ostringstream os;
    os << r;
    SAME_TEXT(os.str(), "[" + std::to_string(r.start) + ", " + std::to_string(r.stop) + "]", "<< of a range");
    s.nontrivial(n >= 2);
}
} // namespace c22
#define TYPE(n, T)                                            \
    PROP(print_matrix_##n, 3) { c22::print_matrix<T>(s); }    \
    PROP(print_vector_##n, 2) { c22::print_vector<T>(s); }    \
    PROP(languages_##n, 3) { c22::languages<T>(s); }
