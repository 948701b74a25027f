#include <mregex.hpp>
#include <string>
#include <string_view>
#include <list>
#include <forward_list>
#include <iostream>
using namespace std::literals;
template<typename R> std::string str(R const &r) { return std::string(r.begin(), r.end()); }
#define CHECK(x) do { if (!(x)) { std::cerr << "failed: " #x "\n"; return 1; } } while (0)
int main()
{
    auto r = meta::regex<"(?=(?<x>a)(b))ab">::match("ab"sv);
    CHECK(r.matched());
    CHECK((str(r.group<"x">()) == "a"));
    CHECK((str(meta::get_group<2>(r)) == "b"));
    auto q = meta::regex<"(?=(?<x>a)(?<y>b))ab">::match("ab"sv);
    CHECK((str(q.group<"x">()) == "a" && str(q.group<"y">()) == "b"));
    return 0;
}
