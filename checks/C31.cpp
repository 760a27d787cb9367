// C31: programs of several translation units, each of which includes some of the
// headers in some order, built with one of two compilers, compile, link and print
// what the same calls print here, where every header is included.
#include "malg_all.hpp"
#include "malg/version.hpp"
#include "gen.hpp"

#include <algorithm>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <vector>

#define S_is_complex
#define S_version
#define S_approx
#define S_tolerance_set
#define S_tolerance_get
#define S_mixed_complex
#define S_vector
#define S_matrix
#define S_base
#define S_view
#define S_views
#define S_generate
#define S_structure
#define S_predicates
#define S_dependence
#define S_search
#define S_arithmetic
#define S_complex_matrices
#define S_vectors
#define S_reductions
#define S_element_wise
#define S_transpose
#define S_inverse
#define S_factors
#define S_exponential
#define S_eigen
#define S_model
#define S_placement
#define S_print
#define S_print_view
#define S_print_model
#define S_file
#define S_instances
#define SNIPPETS here
#include "C31.snippets"

namespace c31
{
struct Snippet {
    const char *name;
    void (*run)(std::ostream &);
    std::vector<const char *> headers;
};
#define S(name, ...) Snippet{ #name, here::name, { __VA_ARGS__ } }
static const std::vector<Snippet> &snippets()
{
    static const char *base = "malg/matrix_base.hpp", *matrix = "malg/matrix.hpp", *vector = "malg/vector.hpp", *view = "malg/view.hpp", *utility = "malg/utility.hpp", *math = "malg/math.hpp", *linalg = "malg/linalg.hpp", *eigen = "malg/eigen.hpp", *control = "malg/control/control.hpp", *io = "malg/io.hpp", *feq = "malg/feq.hpp", *complex = "malg/complex_math.hpp", *traits = "malg/type_traits.hpp", *version = "malg/version.hpp";
    static const std::vector<Snippet> all = {
        S(is_complex, traits), S(version, version), S(approx, feq), S(tolerance_set, feq), S(tolerance_get, feq), S(mixed_complex, complex), S(vector, vector), S(matrix, matrix), S(base, base, matrix), S(view, view), S(views, utility), S(generate, utility), S(structure, utility), S(predicates, utility), S(dependence, utility), S(search, utility), S(arithmetic, math), S(complex_matrices, math), S(vectors, math), S(reductions, math), S(element_wise, math), S(transpose, linalg), S(inverse, linalg), S(factors, linalg), S(exponential, linalg), S(eigen, eigen), S(model, control), S(placement, control), S(print, io), S(print_view, io), S(print_model, io), S(file, io), S(instances, matrix, vector, view, control)
    };
    return all;
}
#undef S

static const std::vector<const char *> &headers()
{
    static const std::vector<const char *> all = { "malg/matrix_base.hpp", "malg/matrix.hpp", "malg/vector.hpp", "malg/view.hpp", "malg/utility.hpp", "malg/math.hpp", "malg/linalg.hpp", "malg/eigen.hpp", "malg/control/control.hpp", "malg/io.hpp", "malg/feq.hpp", "malg/complex_math.hpp", "malg/type_traits.hpp", "malg/version.hpp" };
    return all;
}
static const std::vector<const char *> &standard()
{
    static const std::vector<const char *> all = { "iostream", "complex", "cmath", "math.h", "vector", "random", "algorithm", "stdlib.h", "string", "map", "thread", "numeric", "fstream", "iomanip", "functional", "valarray" };
    return all;
}

// What a program may have of its own besides the library.
static const char *before = "struct Matrix { int x = 1; };\n"
                            "struct Vector { int x = 2; };\n"
                            "struct View { int x = 3; };\n"
                            "struct Range { int x = 4; };\n"
                            "namespace utility { inline int row() { return 5; } }\n"
                            "namespace linalg { inline int inverse() { return 6; } }\n"
                            "namespace eigen { inline int eig() { return 7; } }\n"
                            "namespace control { inline int simulate() { return 8; } }\n"
                            "namespace feq { inline int tolerance() { return 9; } }\n";
static const char *after  = "namespace own\n{\n"
                           "[[maybe_unused]] static int use()\n{\n"
                           "    ::Matrix m; ::Vector v; ::View w; ::Range r;\n"
                           "    Matrix m2; Vector v2; View w2; Range r2;\n"
                           "    return m.x + v.x + w.x + r.x + m2.x + v2.x + w2.x + r2.x + utility::row() + linalg::inverse() + eigen::eig() + control::simulate() + feq::tolerance();\n"
                           "}\n}\n";
// A program that uses the namespace of the library does not get that of another with it.
static const char *before_std = "struct array { int x = 1; };\nstruct list { int x = 2; };\nstruct set { int x = 3; };\nstruct map { int x = 4; };\n"
                                "struct string { int x = 5; };\nstruct pair { int x = 6; };\nstruct tuple { int x = 7; };\nstruct byte { int x = 8; };\n"
                                "struct function { int x = 9; };\nstruct vector { int x = 10; };\nstruct complex { int x = 11; };\nstruct optional { int x = 12; };\n";
static const char *after_std  = "namespace malg\n{\n}\nnamespace lent\n{\nusing namespace malg;\n"
                               "[[maybe_unused]] static int use()\n{\n"
                               "    array a; list b; set c; map d; string e; pair f; tuple g; byte h; function i; vector j; complex k; optional l;\n"
                               "    return a.x + b.x + c.x + d.x + e.x + f.x + g.x + h.x + i.x + j.x + k.x + l.x;\n"
                               "}\n}\n";
// Names that a macro of a header would break.
static const char *names  = "namespace own\n{\n"
                           "[[maybe_unused]] static int names()\n{\n    int total = 0;\n"
                           "    int A = 0, B = 1, C = 2, D = 3, E = 4, F = 5, G = 6, H = 7, I = 8, J = 9;\n"
                           "    total += A + B + C + D + E + F + G + H + I + J;\n"
                           "    int K = 10, L = 11, M = 12, N = 13, O = 14, P = 15, Q = 16, R = 17, S = 18, T = 19;\n"
                           "    total += K + L + M + N + O + P + Q + R + S + T;\n"
                           "    int U = 20, V = 21, W = 22, X = 23, Y = 24, Z = 25, EPS = 26, TOL = 27, PI = 28, MAX = 29;\n"
                           "    total += U + V + W + X + Y + Z + EPS + TOL + PI + MAX;\n"
                           "    int MIN = 30, ABS = 31, SQR = 32, SQUARE = 33, SIZE = 34, LENGTH = 35, ROW = 36, COL = 37, ROWS = 38, COLS = 39;\n"
                           "    total += MIN + ABS + SQR + SQUARE + SIZE + LENGTH + ROW + COL + ROWS + COLS;\n"
                           "    int UNIT = 40, ONE = 41, ZERO = 42, NONE = 43, TINY = 44, SMALL = 45, LARGE = 46, LIMIT = 47, THRESHOLD = 48, TOLERANCE = 49;\n"
                           "    total += UNIT + ONE + ZERO + NONE + TINY + SMALL + LARGE + LIMIT + THRESHOLD + TOLERANCE;\n"
                           "    int EPSILON = 50, PRECISION = 51, WIDTH = 52, INDEX = 53, DEFAULT = 54, CHECK = 55, ASSERT = 56, REQUIRE = 57, TRACE = 58, DEBUG = 59;\n"
                           "    total += EPSILON + PRECISION + WIDTH + INDEX + DEFAULT + CHECK + ASSERT + REQUIRE + TRACE + DEBUG;\n"
                           "    int ERROR = 60, WARNING = 61, LOG = 62, PRINT = 63, SWAP = 64, SIGN = 65, DOT = 66, NORM = 67, REAL = 68, IMAG = 69;\n"
                           "    total += ERROR + WARNING + LOG + PRINT + SWAP + SIGN + DOT + NORM + REAL + IMAG;\n"
                           "    int TYPE = 70, VALUE = 71, MATRIX = 72, VECTOR = 73, VIEW = 74, RANGE = 75, REAL_T = 76, COMPLEX = 77, ITERMAX = 78, MAX_ITER = 79;\n"
                           "    total += TYPE + VALUE + MATRIX + VECTOR + VIEW + RANGE + REAL_T + COMPLEX + ITERMAX + MAX_ITER;\n"
                           "    int MAX_ITERATIONS = 80, UNUSED = 81, FOR = 82, FOR_EACH = 83, LOOP = 84, eps = 85, tol = 86, pi = 87, min = 88, max = 89;\n"
                           "    total += MAX_ITERATIONS + UNUSED + FOR + FOR_EACH + LOOP + eps + tol + pi + min + max;\n"
                           "    int abs = 90, sum = 91, rows = 92, cols = 93, row = 94, col = 95, at = 96, data = 97, swap = 98, sign = 99;\n"
                           "    total += abs + sum + rows + cols + row + col + at + data + swap + sign;\n"
                           "    int dot = 100, norm = 101, real = 102, imag = 103, size = 104, all = 105, any = 106, trace = 107, view = 108, range = 109;\n"
                           "    total += dot + norm + real + imag + size + all + any + trace + view + range;\n"
                           "    int index = 110, value = 111, type = 112, tolerance = 113, epsilon = 114, precision = 115, unit = 116, one = 117, zero = 118, identity = 119;\n"
                           "    total += index + value + type + tolerance + epsilon + precision + unit + one + zero + identity;\n"
                           "    int transpose = 120, inverse = 121, determinant = 122, length = 123, check = 124, unused = 125, likely = 126, unlikely = 127;\n"
                           "    total += transpose + inverse + determinant + length + check + unused + likely + unlikely;\n"
                           "    return total;\n}\n}\n";

static void write(const std::string &path, const std::string &text)
{
    std::ofstream f(path);
    f << text;
}
static std::string read(const std::string &path)
{
    std::ifstream f(path);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}

// A directory of its own, which goes away with what is in it.
struct Dir {
    std::string path;
    char old[4096];
    std::vector<std::string> files;
    Dir()
    {
        const char *d = std::getenv("VERIF_TMP");
        path          = std::string(d ? d : "/tmp") + "/c31.XXXXXX";
        if (!mkdtemp(&path[0]) || !getcwd(old, sizeof old) || chdir(path.c_str()) != 0) throw std::runtime_error("no directory to work in");
    }
    ~Dir()
    {
        for (auto &f : files) unlink((path + "/" + f).c_str());
        if (chdir(old) != 0) return;
        rmdir(path.c_str());
    }
    std::string file(const std::string &n)
    {
        if (std::find(files.begin(), files.end(), n) == files.end()) files.push_back(n);
        return n;
    }
};

// The state that the snippets share with the rest of this process.
struct Tolerance {
    double old = malg::feq::tolerance();
    ~Tolerance()
    {
        malg::feq::tolerance() = old;
    }
};

template <typename T>
void shuffle(pbt::Source &s, std::vector<T> &v)
{
    for (std::size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + s.draw(v.size() - i)]);
}

static std::string quoted(const std::string &h)
{
    return "'" + h + "'";
}

// The program itself works, with anything else of the same kind in it.
static bool compiler_works(Dir &dir, const std::string &command)
{
    write(dir.file("control.cpp"), "#include <complex>\n#include <fstream>\nint main() { std::ofstream f(\"control.out\"); f << std::complex<double>(1, 2); }\n");
    dir.file("control"), dir.file("control.out");
    return std::system((command + " control.cpp -o control > control.log 2>&1 && ./control").c_str()) == 0 && (dir.file("control.log"), true);
}

static void program(pbt::Source &s, bool combined)
{
    const char *inc   = std::getenv("VERIF_INCLUDE");
    const char *check = std::getenv("VERIF_CHECKS");
    if (!inc || !check) throw std::runtime_error("run it with run.py");
    const char *compilers[] = { "g++", "clang++" };
    const char *standards[] = { "-std=c++17", "-std=c++20", "-std=c++23", "-std=gnu++17" };
    const char *levels[]    = { "-O0", "-O1", "-O2", "-O3", "-Os" };
    std::size_t units       = combined ? 2 + s.pick({ 3, 2, 1 }) : 1;
    std::string flags       = std::string(standards[s.draw(4)]);
    if (s.chance(1, 4)) flags += " -DNDEBUG";
    if (s.chance(1, 6)) flags += " -DMEM_TRACE";
    if (s.chance(1, 6)) flags += " -D_GLIBCXX_ASSERTIONS";
    if (s.chance(1, 6)) flags += " -funsigned-char";
    // The parts of one program may come from both compilers.
    bool mixed           = combined && s.chance(1, 3);
    std::size_t compiler = s.draw(2);
    std::size_t level    = s.pick({ 5, 2, 2, 1, 1 });

    struct Unit {
        std::vector<std::size_t> uses;
        std::string text, command;
    };
    std::vector<Unit> program(units);
    std::vector<std::pair<std::size_t, std::size_t>> calls;
    bool shared = combined && s.chance(1, 3); // Every unit uses the same parts.
    for (std::size_t u = 0; u < units; ++u) {
        Unit &p = program[u];
        if (u > 0 && shared) {
            p.uses = program[0].uses;
        } else {
            std::size_t n = combined ? 1 + s.pick({ 3, 2, 2, 1 }) : 1 + s.pick({ 6, 2, 1 });
            for (std::size_t i = 0; i < n; ++i) {
                std::size_t k = s.draw(snippets().size());
                if (std::find(p.uses.begin(), p.uses.end(), k) == p.uses.end()) p.uses.push_back(k);
            }
            if (combined && s.chance(1, 4)) {
                for (std::size_t k : { std::size_t(3), std::size_t(4) })
                    if (std::find(p.uses.begin(), p.uses.end(), k) == p.uses.end()) p.uses.push_back(k);
            }
        }
        std::vector<std::string> h;
        for (std::size_t k : p.uses)
            for (const char *x : snippets()[k].headers)
                if (std::find(h.begin(), h.end(), x) == h.end()) h.push_back(x);
        std::size_t extra = s.pick({ 5, 2, 2, 1 });
        for (std::size_t i = 0; i < extra; ++i) h.push_back(headers()[s.draw(headers().size())]);
        shuffle(s, h);
        std::size_t repeat = s.pick({ 4, 1, 1 });
        for (std::size_t i = 0; i < repeat; ++i) h.push_back(h[s.draw(h.size())]);
        std::vector<std::string> lines;
        for (auto &x : h) lines.push_back("#include \"" + x + "\"");
        std::size_t std_headers = s.pick({ 4, 1, 1, 1 });
        for (std::size_t i = 0; i < std_headers; ++i)
            lines.insert(lines.begin() + static_cast<long>(s.draw(lines.size() + 1)), std::string("#include <") + standard()[s.draw(standard().size())] + ">");
        bool own = s.chance(1, 3);
        std::ostringstream t;
        bool lent = s.chance(1, 3);
        if (own) t << before;
        if (lent) t << before_std;
        for (auto &l : lines) t << l << "\n";
        if (own) t << after;
        if (lent) t << after_std;
        if (s.chance(1, 2)) t << names;
        t << "#define SNIPPETS snippets" << u << "\n";
        for (std::size_t k : p.uses) t << "#define S_" << snippets()[k].name << "\n";
        t << "#include \"" << check << "/C31.snippets\"\n";
        for (std::size_t k : p.uses) t << "void run" << u << "_" << snippets()[k].name << "(std::ostream &o) { snippets" << u << "::" << snippets()[k].name << "(o); }\n";
        p.text    = t.str();
        std::size_t c = mixed ? s.draw(2) : compiler, l = mixed ? s.pick({ 5, 2, 2, 1, 1 }) : level;
        p.command = std::string(compilers[c]) + " " + levels[l] + " " + flags + " -w -I" + quoted(inc);
        s.label(compilers[c]), s.label(levels[l]);
        for (std::size_t k : p.uses) calls.push_back({ u, k }), s.label(std::string("part:") + snippets()[k].name);
    }
    shuffle(s, calls);
    std::size_t again = s.pick({ 2, 1, 1 });
    for (std::size_t i = 0; i < again; ++i) calls.push_back(calls[s.draw(calls.size())]);

    std::ostringstream m;
    m << "#include <fstream>\n";
    for (std::size_t u = 0; u < units; ++u)
        for (std::size_t k : program[u].uses) m << "void run" << u << "_" << snippets()[k].name << "(std::ostream &);\n";
    m << "int main()\n{\n    std::ofstream o(\"result\");\n";
    for (auto &c : calls) m << "    run" << c.first << "_" << snippets()[c.second].name << "(o);\n";
    m << "    return 0;\n}\n";

    s.label("units:" + std::to_string(units));
    s.label(flags.substr(0, flags.find(' ')));
    s.nontrivial();
    if (s.noting()) {
        for (auto &p : program) s.note() << "---- " << p.command << "\n" << p.text;
        s.note() << "---- main\n" << m.str();
    }

    Dir dir;
    auto attempt = [&](const std::string &command, const std::string &what) {
        int r = std::system((command + " > log 2>&1").c_str());
        dir.file("log");
        if (r == 0) return;
        std::string log = read("log").substr(0, 1500);
        for (auto &p : program)
            if (!compiler_works(dir, p.command)) throw pbt::Discard{};
        throw pbt::Fail{ what + ": " + command + "\n" + log };
    };
    std::string objects;
    for (std::size_t u = 0; u < units; ++u) {
        std::string n = "u" + std::to_string(u);
        write(dir.file(n + ".cpp"), program[u].text);
        dir.file(n + ".o");
        attempt(program[u].command + " -c " + n + ".cpp -o " + n + ".o", "does not compile");
        objects += " " + n + ".o";
    }
    write(dir.file("main.cpp"), m.str());
    dir.file("program"), dir.file("result"), dir.file("malg-c31-file");
    attempt(program[0].command + objects + " main.cpp -o program", "does not link");
    attempt("timeout 120 ./program", "the program does not end well");
    std::string got = read("result");

    // The same calls, here.
    Tolerance guard;
    std::ostringstream want;
    for (auto &c : calls) snippets()[c.second].run(want);
    if (got != want.str()) {
        s.note() << "---- printed:\n" << got << "---- expected:\n" << want.str();
        throw pbt::Fail{ "the program prints something else than the same calls made here" };
    }
}
} // namespace c31

PROP(one_unit, 3)
{
    c31::program(s, false);
}
PROP(several_units, 4)
{
    c31::program(s, true);
}
VERIF_MAIN
