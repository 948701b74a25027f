#include <mregex.hpp>
#include <string>
#include <string_view>
#include <list>
#include <forward_list>
#include <iostream>
using namespace std::literals;
template<typename R> std::string str(R const &r) { return std::string(r.begin(), r.end()); }
#define CHECK(x) do { if (!(x)) { std::cerr << "failed: " #x "\n"; return 1; } } while (0)
int main()
{
    CHECK((meta::regex<"a{2,4}?b", meta::regex_flag::unroll>::match("aaaab"sv).matched()));
    CHECK((meta::regex<"[ab]{1,3}?c", meta::regex_flag::unroll>::match("abac"sv).matched()));
    return 0;
}
