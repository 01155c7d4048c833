// Vocabulary shared by the analysed client programs.  Nothing here is ever executed: the functions below have no
// definition; engine/absint.py gives each of them an abstract meaning.
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <new>
#include <type_traits>
#include <utility>

extern "C" {
std::size_t vp_size() noexcept;      // any value in [0, 2^40]
std::size_t vp_size_any() noexcept;  // any value of the type
int         vp_int() noexcept;
bool        vp_bool() noexcept;
void        vp_assume(bool) noexcept;
void        vp_assert(bool, const char*) noexcept;
void        vp_bounded(int trips) noexcept;  // follow loops that many iterations before generalising them
void        vp_cover(const char*) noexcept;
void        vp_may_throw();
void        vp_stop() noexcept;
void        vp_misuse(const char*) noexcept;  // a broken precondition follows: a debug assertion must end the path ...
void        vp_misused() noexcept;            // ... before this point
void*       vp_opaque_ptr() noexcept;
void*       vp_untracked(std::size_t bytes) noexcept;
void*       vp_buffer(std::size_t bytes) noexcept;  // storage of the client, at any address
bool        vp_disjoint(const void* p, std::size_t n, const void* q, std::size_t m) noexcept;
void*       vp_alloc(const void* resource, std::size_t bytes, std::size_t align, int mode);
void        vp_dealloc(const void* resource, void* p, std::size_t bytes, std::size_t align) noexcept;
void*       vp_realloc(const void* resource, void* p, std::size_t old_bytes, std::size_t bytes, std::size_t align) noexcept;
void*       vp_resize(const void* resource, void* p, std::size_t old_bytes, std::size_t bytes, std::size_t align) noexcept;
const void* vp_bytes(std::size_t element_size, std::size_t n) noexcept;
const void* vp_array(const char* type, std::size_t n) noexcept;
void*       vp_object(const char* type) noexcept;
std::size_t vp_val(const char* type, const void* obj) noexcept;
bool        vp_alive(const char* type, const void* obj) noexcept;
bool        vp_moved(const char* type, const void* obj) noexcept;
void*       vp_opaque_ptr_or_null() noexcept;
void        vp_throw();
bool        vp_compared(const void* a, const void* b, std::size_t bytes) noexcept;
bool        vp_differs() noexcept;
void        vp_concurrent() noexcept;  // from here on other threads use the library, too
std::size_t vp_writes() noexcept;      // changes this thread made to variables shared with them, and the latest one:
const void* vp_replaced() noexcept;
const void* vp_written() noexcept;
std::size_t vp_block_size(const void* p) noexcept;
}

#define VP_SIZEOF(T)                                                                       \
    extern "C" __attribute__((used)) const std::size_t vp_sizeof_##T  = sizeof(vp::T);  \
    extern "C" __attribute__((used)) const std::size_t vp_alignof_##T = alignof(vp::T)
#if defined(__cpp_exceptions)
#    define VP_TRY try
#    define VP_CATCH catch (...)
#    define VP_ALLOC_MODE 1  // a failing allocation throws
#else
#    define VP_TRY if (true)
#    define VP_CATCH else
#    define VP_ALLOC_MODE 2  // a failing allocation returns null
#endif
#define VP_ENTRY(n) extern "C" void n()

namespace vp
{
// something the other types can be made from
struct Src
{
    Src(const Src&) noexcept;
    Src(Src&&) noexcept;
    ~Src();
    std::uint64_t payload[2];
};

// copy may throw, move does not
struct Elem
{
    Elem(const Src&);
    Elem(Src&&) noexcept;
    Elem(std::initializer_list<int>, const Src&, Src&&);
    Elem& operator=(const Src&);
    Elem& operator=(Src&&) noexcept;
    Elem();
    explicit Elem(int);
    Elem(const Elem&);
    Elem(Elem&&) noexcept;
    Elem& operator=(const Elem&);
    Elem& operator=(Elem&&) noexcept;
    ~Elem();
    std::uint64_t payload[3];
};
bool operator==(const Elem&, const Elem&) noexcept;
bool operator!=(const Elem&, const Elem&) noexcept;
bool operator<(const Elem&, const Elem&) noexcept;
bool operator<=(const Elem&, const Elem&) noexcept;
bool operator>(const Elem&, const Elem&) noexcept;
bool operator>=(const Elem&, const Elem&) noexcept;

// like Elem, but larger
struct Big
{
    Big(const Src&);
    Big(Src&&) noexcept;
    Big(std::initializer_list<int>, const Src&, Src&&);
    Big(const Big&);
    Big(Big&&) noexcept;
    Big& operator=(const Big&);
    Big& operator=(Big&&) noexcept;
    ~Big();
    std::uint64_t payload[8];
};

// everything may throw
struct Thrower
{
    Thrower(const Src&);
    Thrower(Src&&);
    Thrower& operator=(const Src&);
    Thrower& operator=(Src&&);
    Thrower();
    explicit Thrower(int);
    Thrower(const Thrower&);
    Thrower(Thrower&&);
    Thrower& operator=(const Thrower&);
    Thrower& operator=(Thrower&&);
    ~Thrower();
    std::uint64_t payload[5];
};
bool operator==(const Thrower&, const Thrower&);
bool operator!=(const Thrower&, const Thrower&);
bool operator<(const Thrower&, const Thrower&);
bool operator<=(const Thrower&, const Thrower&);
bool operator>(const Thrower&, const Thrower&);
bool operator>=(const Thrower&, const Thrower&);

// nothing throws
struct Calm
{
    Calm() noexcept;
    explicit Calm(int) noexcept;
    Calm(const Calm&) noexcept;
    Calm(Calm&&) noexcept;
    Calm& operator=(const Calm&) noexcept;
    Calm& operator=(Calm&&) noexcept;
    ~Calm();
    std::uint64_t payload[2];
};
bool operator==(const Calm&, const Calm&) noexcept;

// only construction may throw
struct MakeThrows
{
    MakeThrows();
    explicit MakeThrows(int);
    MakeThrows(const MakeThrows&);
    MakeThrows(MakeThrows&&);
    MakeThrows& operator=(const MakeThrows&) noexcept;
    MakeThrows& operator=(MakeThrows&&) noexcept;
    ~MakeThrows();
    std::uint64_t payload[4];
};
bool operator==(const MakeThrows&, const MakeThrows&) noexcept;

// only assignment may throw
struct SetThrows
{
    SetThrows() noexcept;
    explicit SetThrows(int) noexcept;
    SetThrows(const SetThrows&) noexcept;
    SetThrows(SetThrows&&) noexcept;
    SetThrows& operator=(const SetThrows&);
    SetThrows& operator=(SetThrows&&);
    ~SetThrows();
    std::uint64_t payload[4];
};
bool operator==(const SetThrows&, const SetThrows&) noexcept;

// made from a type whose move may throw; its own move does not
struct Sink
{
    Sink(Thrower&&);
    Sink(const Sink&);
    Sink(Sink&&) noexcept;
    Sink& operator=(Thrower&&);
    Sink& operator=(const Sink&);
    Sink& operator=(Sink&&) noexcept;
    ~Sink();
    std::uint64_t payload[3];
};

template <typename T>
struct Name;
#define VP_NAME(T) \
    template <>    \
    struct Name<T> \
    {              \
        static const char* get() noexcept { return #T; } \
    }
VP_NAME(Src);
VP_NAME(Elem);
VP_NAME(Thrower);
VP_NAME(Calm);
VP_NAME(MakeThrows);
VP_NAME(SetThrows);
VP_NAME(Sink);
VP_NAME(Big);

template <typename T>
std::size_t val(const T& x) noexcept
{
    return vp_val(Name<T>::get(), &x);
}
template <typename T>
bool moved(const T& x) noexcept
{
    return vp_moved(Name<T>::get(), &x);
}
template <typename T>
const T* array(std::size_t n) noexcept
{
    return static_cast<const T*>(vp_array(Name<T>::get(), n));
}
// values of plain scalars are compared directly
inline std::size_t val(const std::uint32_t& x) noexcept
{
    return x;
}
inline std::size_t val(const unsigned char& x) noexcept
{
    return x;
}
template <>
inline const std::uint32_t* array<std::uint32_t>(std::size_t n) noexcept
{
    return static_cast<const std::uint32_t*>(vp_bytes(4, n));
}
template <>
inline const unsigned char* array<unsigned char>(std::size_t n) noexcept
{
    return static_cast<const unsigned char*>(vp_bytes(1, n));
}
template <typename T>
T& object() noexcept
{
    return *static_cast<T*>(vp_object(Name<T>::get()));
}
template <>
inline std::uint32_t& object<std::uint32_t>() noexcept
{
    return *const_cast<std::uint32_t*>(array<std::uint32_t>(1));
}

// A memory resource known by its address only.  A failing allocation returns null or throws.
struct Mr
{
    void* allocate(std::size_t bytes, std::size_t align)
    {
#if defined(__cpp_exceptions)
        if (vp_bool())
        {
            return vp_alloc(this, bytes, align, 1);
        }
#endif
        return vp_alloc(this, bytes, align, 2);
    }
    void deallocate(void* p, std::size_t bytes, std::size_t align) noexcept
    {
        vp_dealloc(this, p, bytes, align);
    }
    static Mr* make() noexcept
    {
        return static_cast<Mr*>(vp_opaque_ptr());
    }
};

// An allocator that carries an identity; compares equal iff the identities are the same.
struct PlainTraits
{
    using pocca = std::false_type;
    using pocma = std::false_type;
    using eq    = std::false_type;
    static constexpr int mode = VP_ALLOC_MODE;
};
// never runs out of memory
struct SureTraits : PlainTraits
{
    static constexpr int mode = 0;
};
struct CopyTraits : PlainTraits
{
    using pocca = std::true_type;
};
struct MoveTraits : PlainTraits
{
    using pocma = std::true_type;
};
struct EqualTraits : PlainTraits
{
    using eq = std::true_type;
};
extern "C" char vp_shared_resource;
template <typename T, typename Tr = PlainTraits>
struct Al
{
    using value_type                             = T;
    using propagate_on_container_copy_assignment = typename Tr::pocca;
    using propagate_on_container_move_assignment = typename Tr::pocma;
    using is_always_equal                        = typename Tr::eq;
    const void* id;
    template <typename U>
    struct rebind
    {
        using other = Al<U, Tr>;
    };
    explicit Al(const void* i) noexcept
        : id(i)
    {
    }
    template <typename U>
    Al(const Al<U, Tr>& o) noexcept
        : id(o.id)
    {
    }
    static Al make() noexcept
    {
        return Al(Tr::eq::value ? static_cast<const void*>(&vp_shared_resource) : vp_opaque_ptr());
    }
    T* allocate(std::size_t n)
    {
        return static_cast<T*>(vp_alloc(id, n * sizeof(T), alignof(T), Tr::mode));
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        if (p != nullptr)
        {
            vp_dealloc(id, p, n * sizeof(T), alignof(T));
        }
    }
    template <typename U>
    bool operator==(const Al<U, Tr>& o) const noexcept
    {
        return id == o.id;
    }
    template <typename U>
    bool operator!=(const Al<U, Tr>& o) const noexcept
    {
        return id != o.id;
    }
};
// ... that has copies of its containers use another allocator
template <typename T>
struct AlSel : public Al<T>
{
    template <typename U>
    struct rebind
    {
        using other = AlSel<U>;
    };
    explicit AlSel(const void* i) noexcept
        : Al<T>(i)
    {
    }
    template <typename U>
    AlSel(const AlSel<U>& o) noexcept
        : Al<T>(o.id)
    {
    }
    static AlSel make() noexcept
    {
        return AlSel(vp_opaque_ptr());
    }
    AlSel select_on_container_copy_construction() const noexcept
    {
        return AlSel(static_cast<const char*>(this->id) + 1);
    }
};
// ... that can also resize its blocks, in place or by moving them, or fails to with null or an exception
template <typename T, bool InPlace>
struct AlRe : public Al<T>
{
    template <typename U>
    struct rebind
    {
        using other = AlRe<U, InPlace>;
    };
    explicit AlRe(const void* i) noexcept
        : Al<T>(i)
    {
    }
    template <typename U>
    AlRe(const AlRe<U, InPlace>& o) noexcept
        : Al<T>(o.id)
    {
    }
    static AlRe make() noexcept
    {
        return AlRe(vp_opaque_ptr());
    }
    T* reallocate(T* p, std::size_t n, std::size_t m)
    {
        vp_may_throw();
        return static_cast<T*>(InPlace ? vp_resize(this->id, p, n * sizeof(T), m * sizeof(T), alignof(T))
                                       : vp_realloc(this->id, p, n * sizeof(T), m * sizeof(T), alignof(T)));
    }
};
}  // namespace vp
VP_SIZEOF(Src);
VP_SIZEOF(Elem);
VP_SIZEOF(Thrower);
VP_SIZEOF(Calm);
VP_SIZEOF(MakeThrows);
VP_SIZEOF(SetThrows);
VP_SIZEOF(Sink);
VP_SIZEOF(Big);
#endif
