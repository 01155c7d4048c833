// Defects of pmr::function and string_view that the checks found; each was repaired by a "fix:" commit.
// g++ -std=c++17 -I <include> function_strview_defects.cpp && ./a.out   (prints FAIL for what is wrong)
#include "cetl/pf17/string_view.hpp"
#include "cetl/pmr/function.hpp"
#include <cstdio>
#include <iomanip>
#include <sstream>
#include <stdexcept>
struct Thrower
{
    bool bad;
    explicit Thrower(bool b)
        : bad(b)
    {
    }
    Thrower(const Thrower& o)
        : bad(o.bad)
    {
        if (bad)
        {
            throw std::runtime_error("no");
        }
    }
    int operator()() const
    {
        return 1;
    }
};
int main()
{
    using F = cetl::pmr::function<int(), 64>;
    {
        F f([]() { return 2; });
        F g;
        try
        {
            const Thrower t(true);
            f = t;
        } catch (const std::runtime_error&)
        {
            try
            {
                std::printf("call after failed assignment: %d\n", f());
            } catch (const std::bad_function_call&)
            {
            }
        }
    }
    const cetl::pf17::string_view s("abc");
    std::printf("%s find(empty, size())\n", s.find("", 3) == 3 ? "ok  " : "FAIL");
    std::ostringstream os;
    os << std::setw(5) << s;
    std::printf("%s padding without an adjustment flag\n", os.str() == "  abc" ? "ok  " : "FAIL");
}
