// Instantiates the real templates of /repo/include; compiled to LLVM IR on every run.
#if CBV_SCALAR
#include "scalar_elem.hpp"
#else
#include "class_elem.hpp"
#endif
#include <boost/circular_buffer.hpp>
#include <iterator>

// a single-pass input iterator: all copies share one position
struct Src { const Elem* cur; };
struct InIt {
    typedef std::input_iterator_tag iterator_category;
    typedef Elem value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const Elem* pointer;
    typedef const Elem& reference;
    struct Proxy { const Elem* p; const Elem& operator*() const { return *p; } };
    Src* s;
    const Elem* stop;      // non-null only in the end iterator's partner comparison
    const Elem& operator*() const { return *s->cur; }
    InIt& operator++() { ++s->cur; return *this; }
    Proxy operator++(int) { Proxy r; r.p = s->cur; ++s->cur; return r; }
    bool operator==(const InIt& o) const { return s->cur == o.stop; }
    bool operator!=(const InIt& o) const { return s->cur != o.stop; }
};

typedef boost::circular_buffer<Elem, Al> CB;
typedef boost::circular_buffer_space_optimized<Elem, Al> SO;
template class boost::circular_buffer<Elem, Al>;
template class boost::circular_buffer_space_optimized<Elem, Al>;
template struct boost::cb_details::iterator<CB, boost::cb_details::nonconst_traits<Al> >;
template struct boost::cb_details::iterator<CB, boost::cb_details::const_traits<Al> >;
typedef CB::iterator It;
typedef CB::const_iterator CIt;
typedef const Elem* Fwd;
typedef short Num;     // (count, item) calls that arrive through the range templates
typedef boost::move_iterator<std::deque<Elem, Al>::iterator> MIt;

typedef boost::cb_details::nonconst_traits<Al> NT;
typedef boost::cb_details::const_traits<Al> CT;
#define ITOPS(X, T) \
    template std::ptrdiff_t X::operator-<T>(const boost::cb_details::iterator<CB, T>&) const; \
    template bool X::operator==<T>(const boost::cb_details::iterator<CB, T>&) const; \
    template bool X::operator!=<T>(const boost::cb_details::iterator<CB, T>&) const; \
    template bool X::operator< <T>(const boost::cb_details::iterator<CB, T>&) const; \
    template bool X::operator><T>(const boost::cb_details::iterator<CB, T>&) const; \
    template bool X::operator<=<T>(const boost::cb_details::iterator<CB, T>&) const; \
    template bool X::operator>=<T>(const boost::cb_details::iterator<CB, T>&) const;
ITOPS(It, NT)
ITOPS(It, CT)
ITOPS(CIt, NT)
ITOPS(CIt, CT)
template It boost::cb_details::operator+<CB, NT>(std::ptrdiff_t, const It&);
template CIt boost::cb_details::operator+<CB, CT>(std::ptrdiff_t, const CIt&);

template CB::circular_buffer(Fwd, Fwd, const Al&);
template CB::circular_buffer(std::size_t, Fwd, Fwd, const Al&);
template CB::circular_buffer(InIt, InIt, const Al&);
template CB::circular_buffer(std::size_t, InIt, InIt, const Al&);
template CB::circular_buffer(MIt, MIt, const Al&);
template CB::circular_buffer(std::size_t, MIt, MIt, const Al&);
template void CB::assign<MIt>(MIt, MIt);
template void CB::assign<MIt>(std::size_t, MIt, MIt);
template void CB::assign<Fwd>(Fwd, Fwd);
template void CB::assign<Fwd>(std::size_t, Fwd, Fwd);
template void CB::assign<InIt>(InIt, InIt);
template void CB::assign<InIt>(std::size_t, InIt, InIt);
template void CB::insert<Fwd>(It, Fwd, Fwd);
template void CB::insert<InIt>(It, InIt, InIt);
template void CB::insert<MIt>(It, MIt, MIt);
template void CB::rinsert<MIt>(It, MIt, MIt);
template void CB::rinsert<Fwd>(It, Fwd, Fwd);
template void CB::rinsert<InIt>(It, InIt, InIt);

template SO::circular_buffer_space_optimized(Fwd, Fwd, const Al&);
template SO::circular_buffer_space_optimized(SO::capacity_type, Fwd, Fwd, const Al&);
template SO::circular_buffer_space_optimized(InIt, InIt, const Al&);
template SO::circular_buffer_space_optimized(SO::capacity_type, InIt, InIt, const Al&);
template void SO::assign<Fwd>(Fwd, Fwd);
template void SO::assign<Fwd>(SO::capacity_type, Fwd, Fwd);
template void SO::assign<InIt>(InIt, InIt);
template void SO::assign<InIt>(SO::capacity_type, InIt, InIt);
template void SO::insert<Fwd>(It, Fwd, Fwd);
template void SO::insert<InIt>(It, InIt, InIt);
template void SO::rinsert<Fwd>(It, Fwd, Fwd);
template void SO::rinsert<InIt>(It, InIt, InIt);
template SO::circular_buffer_space_optimized(MIt, MIt, const Al&);
template SO::circular_buffer_space_optimized(SO::capacity_type, MIt, MIt, const Al&);
template void SO::assign<MIt>(MIt, MIt);
template void SO::assign<MIt>(SO::capacity_type, MIt, MIt);
template void SO::insert<MIt>(It, MIt, MIt);
template void SO::rinsert<MIt>(It, MIt, MIt);

#ifndef CBV_NO_NUM
template CB::circular_buffer(Num, Num, const Al&);
template CB::circular_buffer(std::size_t, Num, Num, const Al&);
template void CB::assign<Num>(Num, Num);
template void CB::assign<Num>(std::size_t, Num, Num);
template void CB::insert<Num>(It, Num, Num);
template void CB::rinsert<Num>(It, Num, Num);
template SO::circular_buffer_space_optimized(Num, Num, const Al&);
template SO::circular_buffer_space_optimized(SO::capacity_type, Num, Num, const Al&);
template void SO::assign<Num>(Num, Num);
template void SO::assign<Num>(SO::capacity_type, Num, Num);
template void SO::insert<Num>(It, Num, Num);
template void SO::rinsert<Num>(It, Num, Num);
#endif

#define CMP(B) \
    template bool boost::operator==<Elem, Al>(const B&, const B&); \
    template bool boost::operator!=<Elem, Al>(const B&, const B&); \
    template bool boost::operator< <Elem, Al>(const B&, const B&); \
    template bool boost::operator><Elem, Al>(const B&, const B&); \
    template bool boost::operator<=<Elem, Al>(const B&, const B&); \
    template bool boost::operator>=<Elem, Al>(const B&, const B&); \
    template void boost::swap<Elem, Al>(B&, B&);
CMP(CB)
CMP(SO)
