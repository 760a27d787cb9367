// C20: file round trips.
#include "forms.hpp"

namespace c20
{
struct Format {
    int base      = 0; // 0 default, 1 scientific, 2 fixed
    bool showpos  = false;
    int precision = 6;
    bool full     = false; // every value survives
    void set(std::ostream &os) const
    {
        if (base == 1) os << std::scientific;
        if (base == 2) os << std::fixed;
        if (showpos) os << std::showpos;
        os << std::setprecision(precision);
    }
};
template <typename T>
Format gen_format(Source &s)
{
    Format f;
    bool integral = std::is_integral_v<T>;
    int digits    = integral ? 20 : std::numeric_limits<real_of<T>>::max_digits10;
    switch (s.pick({ 5, 2, 1, 1, 1 })) {
    case 0: f.precision = digits, f.full = true; break;
    case 1: f.precision = static_cast<int>(s.range(1, digits)); break;
    case 2: f.base = 1, f.precision = static_cast<int>(s.range(0, digits)); break;
    case 3: f.base = 2, f.precision = static_cast<int>(s.range(0, 12)); break;
    default: f.precision = digits + static_cast<int>(s.draw(8)), f.full = true; break;
    }
    if (integral) f.full = true;
    f.showpos = s.draw(8) == 7;
    return f;
}
/// The value that the text of v stands for.
template <typename U, typename T>
U reparse(const T &v, const Format &f)
{
    if constexpr (is_cplx<T>) {
        return U(reparse<real_of<U>>(v.real(), f), reparse<real_of<U>>(v.imag(), f));
    } else if constexpr (std::is_integral_v<T>) {
        return static_cast<U>(v);
    } else {
        char fmt[16], text[512];
        std::snprintf(fmt, sizeof fmt, "%%.%dL%c", f.precision == 0 && f.base == 0 ? 1 : f.precision, f.base == 0 ? 'g' : f.base == 1 ? 'e' : 'f');
        std::snprintf(text, sizeof text, fmt, static_cast<long double>(v));
        if constexpr (std::is_same_v<U, float>) return std::strtof(text, nullptr);
        else return static_cast<U>(std::strtod(text, nullptr));
    }
}
template <typename T>
Flavor flavor(Source &s, bool full)
{
    if (!full) return std::array<Flavor, 5>{ SMALL, SPARSE, MEDIUM, DYADIC, REAL }[s.draw(5)];
    return std::array<Flavor, 7>{ SMALL, SPARSE, MEDIUM, DYADIC, REAL, WIDE, EXTREME }[s.draw(7)];
}
template <typename T>
void make_finite(T &v)
{
    if constexpr (is_cplx<T>) {
        auto a = v.real(), b = v.imag();
        make_finite(a), make_finite(b);
        v = T(a, b);
    } else if constexpr (std::is_floating_point_v<T>) {
        if (!std::isfinite(v)) v = T(5);
    }
}
inline Shape shape(Source &s)
{
    switch (s.pick({ 8, 1, 1 })) {
    case 0: return gen_shape_any(s, 16);
    case 1: return Shape{ s.draw(3), 0 };
    default: return Shape{ 0, s.draw(4) };
    }
}
inline std::string file_name()
{
    const char *d = std::getenv("VERIF_TMP");
    return std::string(d ? d : ".") + "/c20-" + std::to_string(::getpid()) + ".txt";
}
struct Remove {
    std::string path;
    ~Remove()
    {
        ::unlink(path.c_str());
    }
};

/// An object in the file.
template <typename T>
struct Item {
    bool vector;
    Mod<T> m;         // a vector is a row
    std::vector<T> v;
    Format f;
};
/// A receiver with some earlier content.
template <typename U>
malg::Matrix<U> matrix_receiver(Source &s)
{
    switch (s.draw(4)) {
    case 0: return malg::Matrix<U>();
    case 1: {
        Shape sh = gen_shape(s, 8);
        return to_malg(gen_mod<U>(s, sh.r, sh.c, SMALL));
    }
    case 2: {
        Shape sh          = gen_shape(s, 8);
        malg::Matrix<U> a = to_malg(gen_mod<U>(s, sh.r, sh.c, SMALL)), b(std::move(a));
        return a;
    }
    default: return malg::Matrix<U>(s.draw(3), 0, U(0));
    }
}
template <typename U>
malg::Vector<U> vector_receiver(Source &s)
{
    switch (s.draw(3)) {
    case 0: return malg::Vector<U>();
    case 1: return to_malg(gen_vec<U>(s, gen_dim(s, 1, 30), SMALL));
    default: {
        malg::Vector<U> a = to_malg(gen_vec<U>(s, gen_dim(s, 1, 30), SMALL)), b(std::move(a));
        return a;
    }
    }
}
template <typename U, typename T>
Mod<U> expected(const Item<T> &it)
{
    Mod<U> w(it.m.r, it.m.c);
    for (std::size_t i = 0; i < w.d.size(); ++i) w.d[i] = reparse<U>(it.m.d[i], it.f);
    return w;
}
template <typename U, typename T>
std::vector<U> expected_v(const Item<T> &it)
{
    std::vector<U> w(it.v.size());
    for (std::size_t i = 0; i < w.size(); ++i) w[i] = reparse<U>(it.v[i], it.f);
    return w;
}
template <typename T>
void write_item(Source &s, std::ofstream &out, const Item<T> &it, const std::string &what)
{
    if (it.vector) {
        malg::Vector<T> v = to_malg(it.v);
        out << v;
        expect_eq(v, it.v, what + ": the vector written");
    } else {
        switch (s.draw(4)) {
        case 0: {
            malg::Matrix<T> x = to_malg(it.m);
            out << x;
            expect_eq(x, it.m, what + ": the matrix written");
            break;
        }
        case 1: {
            const malg::Matrix<T> x = to_malg(it.m);
            out << malg::View<const malg::Matrix<T>>(&x, 0, std::max<std::size_t>(it.m.r, 1), 0, std::max<std::size_t>(it.m.c, 1));
            break;
        }
        case 2: {
            ConstOperand<T> x(s, it.m);
            out << x.cref();
            break;
        }
        default: {
            Operand<T> x(s, it.m);
            out << x.cref();
            x.check_unchanged(it.m, what);
        }
        }
    }
}
template <typename U, typename T>
void read_item(Source &s, std::ifstream &in, const Item<T> &it, const std::string &what)
{
    if (it.vector) {
        malg::Vector<U> v = vector_receiver<U>(s);
        in >> v;
        CHECK(!in.fail(), << what << ": reading the vector failed");
        expect_eq(v, expected_v<U>(it), what + ": vector read");
        if constexpr (std::is_same_v<U, T>)
            if (it.f.full) expect_eq(v, it.v, what + ": vector written and read");
    } else {
        malg::Matrix<U> m = matrix_receiver<U>(s);
        in >> m;
        CHECK(!in.fail(), << what << ": reading the matrix failed");
        expect_eq(m, expected<U>(it), what + ": matrix read");
        if constexpr (std::is_same_v<U, T>)
            if (it.f.full) expect_eq(m, it.m, what + ": matrix written and read");
    }
}

template <typename T>
void round_trip(Source &s)
{
    Remove file{ file_name() };
    Quiet quiet(std::cerr);
    std::size_t n = s.draw(6) + 1;
    std::vector<Item<T>> items;
    bool empties = false, vectors = false, matrices = false;
    std::size_t streams = 1;
    {
        auto out = std::make_unique<std::ofstream>(file.path);
        CHECK(out->is_open(), << "no scratch file");
        Format f = gen_format<T>(s);
        f.set(*out);
        for (std::size_t i = 0; i < n; ++i) {
            std::string what = "object " + std::to_string(i);
            if (s.draw(4) == 3) { // Another stream, or another format.
                if (s.draw(2)) {
                    out.reset();
                    out = std::make_unique<std::ofstream>(file.path, std::ios::app);
                    ++streams;
                } else {
                    out->flags(std::ofstream::fmtflags(std::ios::dec | std::ios::skipws));
                }
                f = gen_format<T>(s);
                f.set(*out);
            }
            Item<T> it;
            it.f      = f;
            it.vector = s.draw(2);
            Flavor fl = flavor<T>(s, f.full && f.base == 0);
            if (it.vector) {
                it.v = gen_vec<T>(s, s.draw(8) == 7 ? 0 : gen_len(s, 1, 60), fl);
                for (auto &x : it.v) make_finite(x);
                vectors = true;
                empties = empties || it.v.empty();
            } else {
                Shape sh = shape(s);
                it.m     = gen_mod<T>(s, sh.r, sh.c, fl);
                for (auto &x : it.m.d) make_finite(x);
                matrices = true;
                empties  = empties || it.m.size() == 0;
            }
            auto flags = out->flags();
            auto prec  = out->precision();
            write_item(s, *out, it, what);
            CHECK(out->good(), << what << ": writing failed");
            CHECK(out->flags() == flags && out->precision() == prec, << what << ": writing changed the format of the stream");
            items.push_back(it);
            if (s.noting()) s.note() << what << ": " << (it.vector ? show(it.v) : show(it.m)) << " precision " << it.f.precision << " form " << it.f.base << "\n";
        }
    }
    if (s.noting()) {
        std::ifstream t(file.path);
        s.note() << "file:\n" << t.rdbuf() << "\n";
    }
    std::ifstream in(file.path);
    for (std::size_t i = 0; i < n; ++i) {
        std::string what = std::string("object ") + std::to_string(i) + " of " + std::to_string(n) + " (" + tname<T>() + ")";
        if constexpr (std::is_same_v<T, int>) {
            if (s.draw(3) == 2) read_item<double>(s, in, items[i], what + " as double");
            else read_item<T>(s, in, items[i], what);
        } else if constexpr (std::is_same_v<T, float>) {
            if (s.draw(3) == 2) read_item<double>(s, in, items[i], what + " as double");
            else read_item<T>(s, in, items[i], what);
        } else {
            read_item<T>(s, in, items[i], what);
        }
    }
    CHECK(quiet.text.str().empty(), << "message on a valid file: " << quiet.text.str());
    // Nothing is left: one more object cannot be read, and this is visible.
    if (s.draw(2)) {
        malg::Matrix<T> m = matrix_receiver<T>(s);
        Mod<T> before     = model_of(m);
        in >> m;
        CHECK(in.fail() || !quiet.text.str().empty(), << "an object was read past the end of the file");
        expect_eq(m, before, "receiver of a read past the end");
    } else {
        malg::Vector<T> v     = vector_receiver<T>(s);
        std::vector<T> before = model_of(v);
        in >> v;
        CHECK(in.fail() || !quiet.text.str().empty(), << "an object was read past the end of the file");
        expect_eq(v, before, "receiver of a read past the end");
    }
    s.label(streams > 1 ? "appended" : "one stream");
    if (empties) s.label("with empty objects");
    s.nontrivial(n >= 2 && vectors && matrices);
}
/// The kinds do not convert into each other.
template <typename T>
void wrong_kind(Source &s)
{
    Remove file{ file_name() };
    Item<T> it;
    it.f      = gen_format<T>(s);
    it.vector = s.draw(2);
    Shape sh  = shape(s);
    it.m      = gen_mod<T>(s, sh.r, sh.c, SMALL);
    it.v      = gen_vec<T>(s, s.draw(20), SMALL);
    std::size_t before = s.draw(3);
    {
        std::ofstream out(file.path);
        it.f.set(out);
        for (std::size_t i = 0; i <= before; ++i) write_item(s, out, it, "writing");
    }
    std::ifstream in(file.path);
    Quiet quiet(std::cerr);
    for (std::size_t i = 0; i < before; ++i) read_item<T>(s, in, it, "object " + std::to_string(i));
    if (it.vector) {
        malg::Matrix<T> m = matrix_receiver<T>(s);
        Mod<T> old        = model_of(m);
        in >> m;
        expect_eq(m, old, "a vector in the file read as a matrix: the receiver");
    } else {
        malg::Vector<T> v  = vector_receiver<T>(s);
        std::vector<T> old = model_of(v);
        in >> v;
        expect_eq(v, old, "a matrix in the file read as a vector: the receiver");
    }
    CHECK(in.fail() || !quiet.text.str().empty(), << "an object of the other kind was accepted silently");
    s.nontrivial(it.vector ? !it.v.empty() : it.m.size() > 0);
}
} // namespace c20
#define TYPE(n, T)                                          \
    PROP(round_trip_##n, 6) { c20::round_trip<T>(s); }      \
    PROP(wrong_kind_##n, 1) { c20::wrong_kind<T>(s); }
