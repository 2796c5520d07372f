// Element and allocator of the verified instantiations: every operation is external, so the verifier knows nothing
// about them but their contracts (see cbv/variant.py).
#include <cstddef>
#ifndef CBV_THROWING_MOVE
#define CBV_THROWING_MOVE 0
#endif
#ifndef CBV_THROWING_CTOR
#define CBV_THROWING_CTOR 0
#endif
#ifndef CBV_THROWING_ASSIGN
#define CBV_THROWING_ASSIGN 0
#endif
#define CBV_NOTHROW_CTOR (!CBV_THROWING_MOVE && !CBV_THROWING_CTOR)
#define CBV_NOTHROW_ASSIGN (!CBV_THROWING_MOVE && !CBV_THROWING_ASSIGN)
struct Elem {
    unsigned long a, b, c;
    Elem();
    Elem(const Elem&);
    Elem(short);
    Elem& operator=(const Elem&);
#if !CBV_COPY_ONLY
    Elem(Elem&&) noexcept(CBV_NOTHROW_CTOR);
    Elem& operator=(Elem&&) noexcept(CBV_NOTHROW_ASSIGN);
#endif
    ~Elem();
};
bool operator==(const Elem&, const Elem&);
bool operator<(const Elem&, const Elem&);
#include "alloc.hpp"
