#include <mregex.hpp>
#include <string>
#include <string_view>
#include <list>
#include <forward_list>
#include <iostream>
using namespace std::literals;
template<typename R> std::string str(R const &r) { return std::string(r.begin(), r.end()); }
#define CHECK(x) do { if (!(x)) { std::cerr << "failed: " #x "\n"; return 1; } } while (0)
int main()
{
    std::list<char> in{'a', 'b', 'a', 'b'};
    CHECK((meta::regex<"(ab)\\1">::match(in).matched()));
    CHECK((meta::regex<"(ab)\\1">::match("abab"sv).matched()));
    return 0;
}
