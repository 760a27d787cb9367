#include "C28.hpp"
STARVED(int, int, int)
PROP(history_int, 3)
{
    c28::history<int, double>(s);
}
