#include "C24.hpp"
PAIR(double, double, double)
PROGRAM(double, double)
TASK(double, double)
#ifdef VERIF_LIBRARY
extern "C" __attribute__((visibility("default"))) void c24_run(const char *name, const pbt::u64 *choices, std::size_t n, int size, c24::Both *out)
{
    static_assert(!row_major);
    pbt::Source s(std::vector<pbt::u64>(choices, choices + n), size);
    try {
        c24::bodies().at(name)(s, *out);
        if (s.used().size() != n) out->failure = "the decisions differ";
    } catch (const pbt::Fail &f) {
        out->failure = f.msg;
    } catch (const std::exception &e) {
        out->failure = e.what();
    } catch (...) {
        out->failure = "an exception";
    }
}
#else
VERIF_MAIN
#endif
