#pragma once
#include <string>

namespace dx
{
    struct span { int b, e; };

    // most results taken from one generator or range
    constexpr int MAX = 40;

    struct res
    {
        bool ok;
        int n;
        span g[16];
    };

    using fn = int (*)(int method, std::string const &in, res *out, int max);

    struct tcase
    {
        int id;
        char const *ast;       // reference structure
        int groups;
        int flags;             // flags given to the oracle
        char const *alphabet;  // inputs: all words over it up to maxlen ...
        int maxlen;
        char const *extra;     // ... and these, separated by \x1e
        unsigned methods;      // bit set
        fn f;
    };

    extern char const *chk_lo, *chk_hi;
    void bounds_error(int kind);
    void accessor_error(char const *what);
    int drive(tcase const *cases, int n);
}
