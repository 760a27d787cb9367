#include "C28.hpp"
STARVED(complex, cd, cd)
PROP(history_complex, 3)
{
    c28::history<cd, float>(s);
}
PROP(task_complex, 1)
{
    c28::task<cd>(s);
}
