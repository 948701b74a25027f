#include <mregex.hpp>
#include <string>
#include <string_view>
#include <list>
#include <forward_list>
#include <iostream>
using namespace std::literals;
template<typename R> std::string str(R const &r) { return std::string(r.begin(), r.end()); }
#define CHECK(x) do { if (!(x)) { std::cerr << "failed: " #x "\n"; return 1; } } while (0)
int main()
{
    auto s = meta::regex<"(a)|b">::searcher("ab"sv);
    auto r = s();
    CHECK((str(r.group<1>()) == "a"));
    auto q = s();
    CHECK((q.matched() && str(q) == "b"));
    CHECK((q.group<1>().is_empty()));
    return 0;
}
