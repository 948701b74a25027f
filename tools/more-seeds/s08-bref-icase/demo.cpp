#include <mregex.hpp>
#include <string>
#include <string_view>
#include <list>
#include <forward_list>
#include <iostream>
using namespace std::literals;
template<typename R> std::string str(R const &r) { return std::string(r.begin(), r.end()); }
#define CHECK(x) do { if (!(x)) { std::cerr << "failed: " #x "\n"; return 1; } } while (0)
int main()
{
    CHECK(!(meta::regex<"(.)\\1", meta::regex_flag::icase>::match("@`"sv).matched()));
    CHECK((meta::regex<"(.)\\1", meta::regex_flag::icase>::match("aA"sv).matched()));
    return 0;
}
