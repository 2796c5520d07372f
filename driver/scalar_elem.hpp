#include <cstddef>
typedef int Elem;
#include "alloc.hpp"
