#include <mregex.hpp>
#include <string>
#include <string_view>
#include <list>
#include <forward_list>
#include <iostream>
using namespace std::literals;
template<typename R> std::string str(R const &r) { return std::string(r.begin(), r.end()); }
#define CHECK(x) do { if (!(x)) { std::cerr << "failed: " #x "\n"; return 1; } } while (0)
int main()
{
    char buf[] = "aab";
    std::list<char> in{'a', 'a', 'b'};
    // the range [begin, third) holds "aa" only
    auto third = std::next(in.begin(), 2);
    CHECK((!meta::regex<"a{2}[ab]{2}">::match_prefix(in.begin(), in.end()).matched()));
    CHECK((!meta::regex<"aab">::match_prefix(in.begin(), third).matched()));
    CHECK((!meta::regex<"a[ab]{2}">::match_prefix(in.begin(), third).matched()));
    return 0;
}
