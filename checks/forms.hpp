// Runs an operation that reads one operand on one of its forms.
#pragma once
#include "gen.hpp"

template <typename T, typename F>
void on_operand(Source &s, const Mod<T> &m, F &&f)
{
    switch (s.draw(3)) {
    case 0: {
        malg::Matrix<T> x = to_malg(m);
        f(x, std::string(" of a matrix"));
        expect_eq(x, m, "operand");
        break;
    }
    case 1: {
        ConstOperand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        break;
    }
    default: {
        Operand<T> x(s, m);
        f(x.cref(), std::string(" of a ") + x.form());
        x.check_unchanged(m, "operation");
    }
    }
}
/// Silences a stream of the library for the time of a case.
struct Quiet {
    std::ostream &os;
    std::streambuf *old;
    std::ostringstream text;
    explicit Quiet(std::ostream &o)
        : os(o), old(o.rdbuf())
    {
        os.rdbuf(text.rdbuf());
    }
    ~Quiet()
    {
        os.rdbuf(old);
    }
};
