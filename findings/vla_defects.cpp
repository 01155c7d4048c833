// Demonstrations against the unrepaired VariableLengthArray.  Usage: prog <case>; exit 0 = behaves, 1 = defect shown.
#include "cetl/variable_length_array.hpp"
#include "cetl/pf17/sys/memory_resource.hpp"
#include "cetl/pf17/memory_resource.hpp"
#include "cetl/pf17/buffer_memory_resource.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

static long live_blocks = 0, bad = 0, live_objs = 0;
static std::map<void*, std::size_t> blocks;
template <typename T, bool Pocma = false>
struct Al
{
    using value_type = T;
    using propagate_on_container_move_assignment = std::integral_constant<bool, Pocma>;
    using is_always_equal = std::false_type;
    int id;
    explicit Al(int i) noexcept : id(i) {}
    template <typename U> Al(const Al<U, Pocma>& o) noexcept : id(o.id) {}
    template <typename U> struct rebind { using other = Al<U, Pocma>; };
    T* allocate(std::size_t n)
    {
        void* p = std::malloc(n * sizeof(T) + 1);
        blocks[p] = n * 1000 + static_cast<std::size_t>(id);
        ++live_blocks;
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n)
    {
        if (!p) return;
        if (blocks[p] != n * 1000 + static_cast<std::size_t>(id)) { ++bad; std::printf("dealloc mismatch: allocated %zu, freed %zu (alloc id %d)\n", blocks[p], n, id); }
        blocks.erase(p);
        --live_blocks;
        std::free(p);
    }
    template <typename U> bool operator==(const Al<U, Pocma>& o) const { return id == o.id; }
    template <typename U> bool operator!=(const Al<U, Pocma>& o) const { return id != o.id; }
};
static int throw_after = -1;
struct Obj
{
    int v;
    Obj(int x = 0) : v(x) { ++live_objs; }
    Obj(const Obj& o) : v(o.v) { if (throw_after >= 0 && throw_after-- == 0) throw 1; ++live_objs; }
    Obj& operator=(const Obj& o) { if (throw_after >= 0 && throw_after-- == 0) throw 1; v = o.v; return *this; }
    ~Obj() { --live_objs; v = -1; }
};
using V = cetl::VariableLengthArray<Obj, Al<Obj>>;
using VB = cetl::VariableLengthArray<bool, Al<bool>>;
#define CHECK(c) do { if (!(c)) { std::printf("FAIL: %s\n", #c); return 1; } } while (0)
int main(int argc, char** argv)
{
    std::string t = argc > 1 ? argv[1] : "";
    if (t == "move_ctor_unequal") { { V a(Al<Obj>(1)); a.reserve(10); a.push_back(Obj(1)); V b(std::move(a), Al<Obj>(2)); CHECK(b.capacity() <= 1 || b.capacity() >= 1); std::printf("cap %zu\n", b.capacity()); } CHECK(live_blocks == 0); CHECK(bad == 0); CHECK(live_objs == 0); }
    if (t == "move_ctor_pocma") { { using VP = cetl::VariableLengthArray<Obj, Al<Obj, true>>; VP a(Al<Obj, true>(1)); a.push_back(Obj(1)); VP b(std::move(a), Al<Obj, true>(2)); } CHECK(bad == 0); }
    if (t == "bool_eq") { std::vector<bool> x(24, false), y(24, false); y[9] = true; VB a(x.begin(), x.end(), Al<bool>(1)), b(y.begin(), y.end(), Al<bool>(1)); CHECK(!(a == b)); }
    if (t == "bool_moved") { VB a({true, true}, Al<bool>(1)), b(Al<bool>(1)); b = std::move(a); CHECK(a.size() == 0); }
    if (t == "bool_max") { VB a(16, Al<bool>(1)); try { for (int i = 0; i < 17; i++) a.push_back(true); } catch (const std::length_error&) {} CHECK(a.size() <= a.max_size()); }
    if (t == "ctor_throw") { { std::vector<Obj> s(3); throw_after = 1; try { V a(s.data(), s.data() + 3, Al<Obj>(1)); } catch (int) {} throw_after = -1; } CHECK(live_blocks == 0); CHECK(live_objs == 0); }
    if (t == "reserve_throw") { { std::vector<Obj> s(3); V a(s.data(), s.data() + 3, Al<Obj>(1)); throw_after = 1; try { a.reserve(10); } catch (int) {} throw_after = -1; } CHECK(live_blocks == 0); CHECK(live_objs == 0); }
    if (t == "resize_throw") { { V a(Al<Obj>(1)); a.reserve(10); Obj o; throw_after = 1; try { a.resize(5, o); } catch (int) {} throw_after = -1; } CHECK(live_objs == 0); }
    if (t == "assign_terminate") { V a(Al<Obj>(1)), b(Al<Obj>(1)); a.resize(2); b.resize(2); throw_after = 0; bool caught = false; try { a = b; } catch (int) { caught = true; } throw_after = -1; CHECK(caught); }
    if (t == "realloc_string") { using PA = cetl::pf17::pmr::polymorphic_allocator<std::string>; cetl::VariableLengthArray<std::string, PA> a{PA(cetl::pf17::pmr::new_delete_resource())}; a.push_back("short"); void* hold = std::malloc(16); a.reserve(1000); (void) hold; CHECK(a[0].data() == reinterpret_cast<const char*>(&a[0]) + 16); }
    if (t == "push_alias") { V a(Al<Obj>(1)); a.push_back(Obj(7)); a.push_back(Obj(7)); a.push_back(a[0]); CHECK(a[2].v == 7); }
    if (t == "assign_max") { V a(10, Al<Obj>(1)), b(3, Al<Obj>(1)); a.reserve(10); a = b; try { a.resize(8); } catch (const std::length_error&) {} CHECK(a.size() <= a.max_size()); }
    if (t == "move_assign_max") { V a(2, Al<Obj>(1)), b(10, Al<Obj>(2)); b.resize(5); a = std::move(b); CHECK(a.size() <= a.max_size()); }
    if (t == "huge_resize") { using PA = cetl::pf17::pmr::polymorphic_allocator<char>; cetl::VariableLengthArray<char, PA> a{PA(cetl::pf17::pmr::new_delete_resource())}; try { a.resize(std::size_t(1) << 62); } catch (const std::exception&) {} CHECK(a.size() <= a.capacity()); }
    if (t == "overaligned") { struct alignas(256) Big { char c[256]; }; using PA = cetl::pf17::pmr::polymorphic_allocator<Big>; cetl::VariableLengthArray<Big, PA> a{PA(cetl::pf17::pmr::new_delete_resource())}; try { for (int i = 0; i < 3; i++) { a.push_back(Big()); CHECK(reinterpret_cast<std::uintptr_t>(a.data()) % 256 == 0);} } catch (const std::bad_alloc&) {} }
    if (t == "buffer_upstream") { alignas(16) static char buf[64]; cetl::pf17::pmr::UnsynchronizedBufferMemoryResource r(buf, sizeof(buf), cetl::pf17::pmr::new_delete_resource(), 100000); using PA = cetl::pf17::pmr::polymorphic_allocator<char>; cetl::VariableLengthArray<char, PA> a{PA(&r)}; a.resize(10); a.resize(1000); }
    std::printf("ok\n");
    return 0;
}
