template <class T> struct Alloc {
    typedef T value_type;
    unsigned long id;
    Alloc() noexcept;
    Alloc(const Alloc&) noexcept;
    template <class U> Alloc(const Alloc<U>&) noexcept;
    Alloc& operator=(const Alloc&) noexcept;
    T* allocate(std::size_t);
    void deallocate(T*, std::size_t) noexcept;
    bool operator==(const Alloc&) const noexcept;
    bool operator!=(const Alloc&) const noexcept;
};
typedef Alloc<Elem> Al;
