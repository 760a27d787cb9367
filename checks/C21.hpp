// C21: damaged and hostile files.
#include "forms.hpp"

namespace c21
{
inline std::string file_name()
{
    const char *d = std::getenv("VERIF_TMP");
    return std::string(d ? d : ".") + "/c21-" + std::to_string(::getpid()) + ".txt";
}
struct Remove {
    std::string path;
    ~Remove()
    {
        ::unlink(path.c_str());
    }
};
const std::size_t readable = 200000; // Elements worth allocating.

inline std::string hostile_size(Source &s)
{
    switch (s.draw(14)) {
    case 0: return "0";
    case 1: return "-1";
    case 2: return "18446744073709551615";
    case 3: return "18446744073709551616";
    case 4: return "9223372036854775808";
    case 5: return std::to_string((std::size_t(1) << (38 + s.draw(26))) + s.draw(3));
    case 6: return "4294967296";
    case 7: return "2305843009213693952"; // times 8 is 2^64
    case 8: return "1152921504606846977";
    case 9: return std::to_string(1000 + s.draw(100000));
    case 10: return "-18446744073709551614"; // 2
    case 11: return "x";
    case 12: return "3.5";
    default: return "99999999999999999999999999";
    }
}
template <typename T>
std::string number(Source &s)
{
    auto real = [&]() -> std::string {
        switch (s.pick({ 10, 2, 1, 1, 1, 1, 1, 1 })) {
        case 0: return std::to_string(s.sint(99));
        case 1: return std::to_string(s.sint(999)) + "." + std::to_string(s.draw(1000));
        case 2: return std::to_string(s.sint(9)) + "e" + std::to_string(s.sint(30));
        case 3: return "1e999";
        case 4: return s.draw(2) ? "nan" : "-inf";
        case 5: return "99999999999999999999";
        case 6: return s.draw(2) ? "0x1p3" : "1e";
        default: return s.draw(2) ? "-" : "+7";
        }
    };
    if constexpr (is_cplx<T>) {
        switch (s.pick({ 8, 1, 1, 1 })) {
        case 0: return "(" + real() + "," + real() + ")";
        case 1: return real();
        case 2: return "(" + real() + ")";
        default: return "(" + real() + "," + real();
        }
    } else {
        return real();
    }
}
/// A well formed object, mostly.
template <typename T>
std::string object(Source &s, bool vector, bool hostile)
{
    std::string t;
    std::size_t a = s.draw(6), b = s.draw(6);
    auto dim      = [&](std::size_t v) { return hostile && s.draw(2) ? hostile_size(s) : std::to_string(v); };
    bool dirty    = s.draw(4) == 3; // unusual numbers
    auto num      = [&]() { return dirty ? number<T>(s) : show(static_cast<T>(s.sint(99))); };
    static const char *space[] = { " ", "\n", "  ", "\t", "\r\n" };
    if (vector) {
        t += "V " + dim(a) + "\n";
        for (std::size_t i = 0; i < a; ++i) t += num() + space[s.draw(5)];
    } else {
        t += "M " + dim(a) + " " + dim(b) + "\n";
        for (std::size_t i = 0; i < a * b; ++i) t += num() + space[s.draw(5)];
    }
    return t + "\n";
}
inline void mutate(Source &s, std::string &t)
{
    static const char alphabet[] = " \nVM0123456789.-+e(),xX\0\xff\tinfa";
    std::size_t n                = s.draw(4);
    for (std::size_t k = 0; k < n && !t.empty(); ++k) {
        std::size_t p = s.draw(t.size());
        char c        = alphabet[s.draw(sizeof(alphabet) - 1)];
        switch (s.draw(6)) {
        case 0: t.resize(p); break; // cut short
        case 1: t[p] = c; break;
        case 2: t.insert(t.begin() + static_cast<long>(p), c); break;
        case 3: t.erase(p, 1 + s.draw(4)); break;
        case 4: { // a stretch twice
            std::string part = t.substr(p, 1 + s.draw(12));
            t.insert(s.draw(t.size() + 1), part);
            break;
        }
        default: t[p] = static_cast<char>(s.draw(256)); break;
        }
    }
}

/// What the file declares, read with the standard streams only.
template <typename T>
struct Declared {
    bool complete = false;
    std::size_t r = 0, c = 0; // a vector is a row
    std::vector<T> v;
    bool too_large = false;
};
template <typename T>
Declared<T> declared(std::istream &in, bool vector)
{
    Declared<T> d;
    char tag = 0;
    in >> tag;
    if (!in || tag != (vector ? 'V' : 'M')) return d;
    d.r = 1;
    if (!vector) in >> d.r;
    if (!in) return d;
    in >> d.c;
    if (!in) return d;
    unsigned __int128 n = static_cast<unsigned __int128>(d.r) * d.c;
    if (n > readable) {
        d.too_large = true; // More than the file can hold.
        return d;
    }
    for (std::size_t i = 0; i < static_cast<std::size_t>(n); ++i) {
        T x;
        if (!(in >> x)) return d;
        d.v.push_back(x);
    }
    d.complete = true;
    return d;
}

template <typename T>
void usable(Source &s, malg::Matrix<T> &m, const std::string &what)
{
    CHECK(m.rows() == 0 || m.cols() == 0 || m.size() / m.cols() == m.rows(), << what << ": shape " << m.rows() << "x" << m.cols() << " with size " << m.size());
    CHECK((m.rows() != 0 && m.cols() != 0) || m.size() == 0, << what << ": shape " << m.rows() << "x" << m.cols() << " with size " << m.size());
    if (m.size() > 0) {
        CHECK(m.size() <= readable, << what << ": the receiver has " << m.size() << " elements");
        for (std::size_t i = 0; i < m.rows(); ++i)
            for (std::size_t j = 0; j < m.cols(); ++j) m.at(i, j) = static_cast<T>((i + 2 * j) % 50);
        for (std::size_t i = 0; i < m.rows(); ++i)
            for (std::size_t j = 0; j < m.cols(); ++j) CHECK(m(i, j) == static_cast<T>((i + 2 * j) % 50), << what << ": the receiver lost an element");
    }
    Shape sh = gen_shape(s, 6);
    switch (s.draw(3)) {
    case 0: {
        Mod<T> n = gen_mod<T>(s, sh.r, sh.c, SMALL);
        m        = to_malg(n);
        expect_eq(m, n, what + ": receiver after an assignment");
        break;
    }
    case 1: {
        m.resize(sh.r, sh.c);
        CHECK(m.rows() == sh.r && m.cols() == sh.c && m.size() == sh.r * sh.c, << what << ": receiver after a resize");
        for (std::size_t i = 0; i < m.size(); ++i) m[i] = T(3);
        break;
    }
    default: {
        malg::Matrix<T> c = m;
        CHECK(c.rows() == m.rows() && c.cols() == m.cols(), << what << ": copy of the receiver");
        break;
    }
    }
}
template <typename T>
void usable(Source &s, malg::Vector<T> &v, const std::string &what)
{
    CHECK(v.size() <= readable, << what << ": the receiver has " << v.size() << " elements");
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<T>(i % 50);
    for (std::size_t i = 0; i < v.size(); ++i) CHECK(v[i] == static_cast<T>(i % 50), << what << ": the receiver lost an element");
    std::size_t n = gen_dim(s, 1, 30);
    switch (s.draw(3)) {
    case 0: {
        auto w = gen_vec<T>(s, n, SMALL);
        v      = to_malg(w);
        expect_eq(v, w, what + ": receiver after an assignment");
        break;
    }
    case 1:
        v.resize(n);
        CHECK(v.size() == n, << what << ": receiver after a resize");
        for (std::size_t i = 0; i < n; ++i) v[i] = T(3);
        break;
    default: {
        malg::Vector<T> c = v;
        CHECK(c.size() == v.size(), << what << ": copy of the receiver");
    }
    }
}

template <typename T>
void hostile(Source &s)
{
    Remove file{ file_name() };
    // The bytes of the file.
    std::string text;
    bool first_vector = s.draw(2);
    switch (s.pick({ 4, 4, 1, 1 })) {
    case 0: text = object<T>(s, first_vector, false) + (s.draw(2) ? object<T>(s, s.draw(2), false) : ""); mutate(s, text); break;
    case 1: text = object<T>(s, first_vector, true) + (s.draw(2) ? object<T>(s, s.draw(2), false) : ""); break;
    case 2: {
        std::size_t n = s.draw(200);
        for (std::size_t i = 0; i < n; ++i) text += static_cast<char>(s.draw(256));
        if (s.draw(2)) text = (first_vector ? "V " : "M ") + text;
        break;
    }
    default: text = object<T>(s, first_vector, true) + object<T>(s, s.draw(2), true); mutate(s, text); break;
    }
    {
        std::ofstream out(file.path, std::ios::binary);
        out << text;
    }
    if (s.noting()) s.note() << "file (" << text.size() << " bytes):\n" << text << "\n";
    std::istringstream ref(text);
    std::ifstream in(file.path, std::ios::binary);
    bool throwing = s.draw(6) == 5;
    if (throwing) in.exceptions(std::ios::failbit | std::ios::badbit);
    bool synced = true; // The two streams are at the same place.
    bool failed = false, read = false;
    std::size_t reads = 1 + s.draw(3);
    for (std::size_t k = 0; k < reads; ++k) {
        bool vector = k == 0 ? (s.draw(8) == 7 ? !first_vector : first_vector) : s.draw(2);
        Declared<T> want = declared<T>(ref, vector);
        {
            // Between what is worth reading and what cannot be allocated.
            unsigned __int128 n = static_cast<unsigned __int128>(want.r) * want.c;
            if (want.too_large && n < (static_cast<unsigned __int128>(1) << 36)) s.discard();
        }
        std::string what = std::string("read ") + std::to_string(k) + " of a " + (vector ? "vector" : "matrix") + " of " + tname<T>();
        Quiet quiet(std::cerr);
        bool thrown = false, seen = false;
        std::string why;
        auto attempt = [&](auto &x) {
            try {
                in >> x;
            } catch (const std::exception &e) {
                thrown = true;
                why    = e.what();
            }
            seen = thrown || in.fail() || !quiet.text.str().empty();
        };
        if (vector) {
            malg::Vector<T> v = s.draw(2) ? malg::Vector<T>() : to_malg(gen_vec<T>(s, s.draw(8), SMALL));
            attempt(v);
            if (synced && want.complete) {
                CHECK(!thrown && !in.fail(), << what << ": reading a complete vector failed " << why);
                expect_eq(v, want.v, what);
                read = true;
            } else if (synced) {
                CHECK(seen, << what << ": an incomplete or unreadable vector was read silently");
                failed = true;
            }
            usable(s, v, what);
        } else {
            Shape sh          = gen_shape(s, 4);
            malg::Matrix<T> m = s.draw(2) ? malg::Matrix<T>() : to_malg(gen_mod<T>(s, sh.r, sh.c, SMALL));
            attempt(m);
            if (synced && want.complete) {
                CHECK(!thrown && !in.fail(), << what << ": reading a complete matrix failed " << why);
                CHECK(m.rows() == want.r && m.cols() == want.c, << what << ": the matrix is " << m.rows() << "x" << m.cols() << " instead of " << want.r << "x" << want.c);
                Mod<T> w(want.v.empty() ? 0 : want.r, want.v.empty() ? 0 : want.c);
                w.d = want.v;
                if (want.v.empty()) CHECK(m.size() == 0, << what << ": size " << m.size());
                else expect_eq(m, w, what);
                read = true;
            } else if (synced) {
                CHECK(seen, << what << ": an incomplete or unreadable matrix was read silently");
                failed = true;
            }
            usable(s, m, what);
        }
        if (!want.complete) synced = false;
        if (in.fail()) { // The user may clear the stream and go on.
            if (s.draw(2)) in.clear(), ref.clear();
            else if (throwing) break;
        }
    }
    s.label(failed ? (read ? "read, then failed" : "failed") : "read");
    s.nontrivial(failed);
}
} // namespace c21
#define TYPE(n, T) \
    PROP(hostile_##n, 3) { c21::hostile<T>(s); }
