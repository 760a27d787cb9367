// The engine finds and shrinks planted failures, crashes and hangs of its own.
#include "pbt.hpp"
PROP(sum, 1)
{
    std::size_t n = s.draw(20);
    std::uint64_t t = 0;
    for (std::size_t i = 0; i < n; ++i) t += s.draw(100);
    s.nontrivial(n > 3);
    s.note() << "sum " << t << "\n";
    CHECK(t < 800, << "sum " << t);
}
PROP(crash, 1)
{
    std::vector<int> v(1 + s.draw(10));
    volatile int *p = v.data();
    s.note() << v.size() << "\n";
    if (s.draw(50) == 49) p[v.size()] = 1;
}
PROP(fine, 1)
{
    s.nontrivial(s.draw(10) > 2);
}
int main(int argc, char **argv)
{
    return pbt::pbt_main(argc, argv);
}
