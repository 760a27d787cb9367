#include "C28.hpp"
c28::Faults c28::faults;
// The allocators, linked with --wrap.
extern "C" {
void *__real_malloc(std::size_t);
void *__real_calloc(std::size_t, std::size_t);
void *__real_realloc(void *, std::size_t);
void *__wrap_malloc(std::size_t n)
{
    return c28::faults.next() ? nullptr : __real_malloc(n);
}
void *__wrap_calloc(std::size_t n, std::size_t m)
{
    return c28::faults.next() ? nullptr : __real_calloc(n, m);
}
void *__wrap_realloc(void *p, std::size_t n)
{
    return c28::faults.next() ? nullptr : __real_realloc(p, n);
}
}
static void *allocate(std::size_t n)
{
    if (c28::faults.operators && c28::faults.next()) throw std::bad_alloc();
    void *p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(std::size_t n)
{
    return allocate(n);
}
void *operator new[](std::size_t n)
{
    return allocate(n);
}
void operator delete(void *p) noexcept
{
    std::free(p);
}
void operator delete[](void *p) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete[](void *p, std::size_t) noexcept
{
    std::free(p);
}
STARVED(double, double, double)
PROP(history_double, 4)
{
    c28::history<double, int>(s);
}
PROP(task_double, 2)
{
    c28::task<double>(s);
}
PROP(task_float, 1)
{
    c28::task<float>(s);
}
VERIF_MAIN
