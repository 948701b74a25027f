// Reference matcher: an interpreter of the documented meaning of patterns, by exhaustive ordered backtracking.
// Independent of the library; reads the structure produced by refparse.py.
#pragma once
#include <functional>
#include <memory>
#include <cstdlib>
#include <string>
#include <vector>

namespace oracle
{
    enum flag { icase = 1, dotall = 2, multiline = 4, ungreedy = 8, unroll = 16 };

    struct node
    {
        char k{};
        int a{}, b{}, c{};
        std::vector<node> x;
    };

    struct span { int b{-1}, e{-1}; };
    using caps = std::vector<span>;

    struct reader
    {
        char const *p;
        int num() { char *e; long v = std::strtol(p, &e, 10); p = e; return static_cast<int>(v); }
        node read()
        {
            while (*p == ' ')
                ++p;
            node n;
            n.k = *p++;
            switch (n.k)
            {
                case 'E': case 'W': case 'N': break;
                case 'L': n.a = num(); break;
                case 'F': n.a = num(); break;
                case 'G': case 'C': case 'B': n.a = num(); n.b = num(); break;
                case 'T': { n.a = num(); int k = num(); for (int i = 0; i < k; ++i) n.x.push_back(read()); break; }
                case 'S': case 'A': { int k = num(); for (int i = 0; i < k; ++i) n.x.push_back(read()); break; }
                case 'R': n.a = num(); n.b = num(); n.c = num(); n.x.push_back(read()); break;
                case 'P': n.a = num(); n.x.push_back(read()); break;
                case 'O': n.x.push_back(read()); break;
                case 'K': n.a = num(); n.b = num(); n.x.push_back(read()); break;
                default: std::abort();
            }
            return n;
        }
    };

    inline bool alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    inline bool digit(int c) { return c >= '0' && c <= '9'; }
    inline bool word(int c) { return alpha(c) || digit(c) || c == '_'; }
    inline bool nl(int c) { return c == '\n' || c == '\r'; }

    struct matcher
    {
        std::string const &in;
        int flags;
        using K = std::function<bool(int, caps const &)>;

        bool has(int f) const { return flags & f; }

        bool one(node const &n, int c) const
        {
            switch (n.k)
            {
                case 'L': return c == n.a || (has(icase) && alpha(c) && alpha(n.a) && (c ^ 32) == n.a);
                case 'G': return (n.a <= c && c <= n.b) || (has(icase) && alpha(c) && n.a <= (c ^ 32) && (c ^ 32) <= n.b);
                case 'W': return has(dotall) || !nl(c);
                case 'N': return false;
                case 'C':
                {
                    bool r = false;
                    int o = alpha(c) && has(icase) ? c ^ 32 : c;
                    switch (n.a)
                    {
                        case 0: r = digit(c); break;
                        case 1: r = word(c); break;
                        case 2: r = c == ' ' || (c >= 9 && c <= 13); break;
                        case 3: r = nl(c); break;
                        case 4: r = (c >= 'a' && c <= 'z') || (o >= 'a' && o <= 'z'); break;
                        case 5: r = (c >= 'A' && c <= 'Z') || (o >= 'A' && o <= 'Z'); break;
                    }
                    return r != (n.b != 0);
                }
                case 'T':
                {
                    bool r = false;
                    for (auto const &y : n.x)
                        r = r || one(y, c);
                    return r != (n.a != 0);
                }
            }
            std::abort();
        }

        bool test(node const &n, int p) const
        {
            int len = static_cast<int>(in.size());
            auto at = [&](int i) { return static_cast<unsigned char>(in[i]); };
            bool r = false;
            switch (n.a)
            {
                case 0: r = p == 0 || (has(multiline) && nl(at(p - 1))); break;
                case 1: r = p == len || (has(multiline) && nl(at(p))); break;
                case 2: r = p == 0; break;
                case 3: r = p == len; break;
                case 4: r = (p > 0 && word(at(p - 1))) != (p < len && word(at(p))); break;
            }
            return r != (n.b != 0);
        }

        bool seq(node const &n, std::size_t i, bool rev, int p, caps const &s, K const &k) const
        {
            if (i == n.x.size())
                return k(p, s);
            auto const &y = rev ? n.x[n.x.size() - 1 - i] : n.x[i];
            return run(y, rev, p, s, [&, i](int q, caps const &t) { return seq(n, i + 1, rev, q, t, k); });
        }

        bool rep(node const &y, int a, int b, bool greedy, bool rev, int p, caps const &s, K const &k) const
        {
            if (b == 0)
                return k(p, s);
            int nb = b < 0 ? b : b - 1;
            if (a > 0)
                return run(y, rev, p, s, [&](int q, caps const &t) { return rep(y, a - 1, nb, greedy, rev, q, t, k); });
            auto more = [&] {
                return run(y, rev, p, s, [&](int q, caps const &t) {
                    if (b < 0 && q == p)
                        return false;
                    return rep(y, 0, nb, greedy, rev, q, t, k);
                });
            };
            return greedy ? more() || k(p, s) : k(p, s) || more();
        }

        bool first(node const &y, bool rev, int &p, caps &s) const
        {
            return run(y, rev, p, s, [&](int q, caps const &t) { int q2 = q; caps t2 = t; p = q2; s = t2; return true; });
        }

        bool run(node const &n, bool rev, int p, caps const &s, K const &k) const
        {
            int len = static_cast<int>(in.size());
            switch (n.k)
            {
                case 'E': return k(p, s);
                case 'L': case 'G': case 'W': case 'C': case 'T': case 'N':
                    if (p == (rev ? 0 : len))
                        return false;
                    if (!one(n, static_cast<unsigned char>(in[rev ? p - 1 : p])))
                        return false;
                    return k(rev ? p - 1 : p + 1, s);
                case 'S': return seq(n, 0, rev, p, s, k);
                case 'A':
                    for (auto const &y : n.x)
                        if (run(y, rev, p, s, k))
                            return true;
                    return false;
                case 'P':
                    return run(n.x[0], rev, p, s, [&](int q, caps const &t) {
                        caps u = t;
                        u[n.a] = rev ? span{q, p} : span{p, q};
                        return k(q, u);
                    });
                case 'O':
                {
                    int q = p;
                    caps t = s;
                    return first(n.x[0], rev, q, t) && k(q, t);
                }
                case 'K':
                {
                    int q = p;
                    caps t = s;
                    bool r = first(n.x[0], n.a, q, t);
                    if (n.b)
                        return !r && k(p, s);
                    return r && k(p, t);
                }
                case 'B': return test(n, p) && k(p, s);
                case 'F':
                {
                    auto [b, e] = s[n.a];
                    int l = e - b;
                    int st = rev ? p - l : p;
                    if (st < 0 || st + l > len)
                        return false;
                    for (int i = 0; i < l; ++i)
                    {
                        int x = static_cast<unsigned char>(in[b + i]), y = static_cast<unsigned char>(in[st + i]);
                        if (x != y && !(has(icase) && alpha(x) && alpha(y) && (x ^ 32) == y))
                            return false;
                    }
                    return k(rev ? st : st + l, s);
                }
                case 'R':
                {
                    bool greedy = (n.c == 0) != has(ungreedy);
                    if (n.c != 2)
                        return rep(n.x[0], n.a, n.b, greedy, rev, p, s, k);
                    // possessive: the required repetitions, then as many more as possible, each at its first outcome
                    int q = p;
                    caps t = s;
                    if (n.a > 0)
                    {
                        node req{'R', n.a, n.a, 0, n.x};
                        if (!first(req, rev, q, t))
                            return false;
                    }
                    for (int c = n.a; n.b < 0 || c < n.b; ++c)
                    {
                        int q2 = q;
                        caps t2 = t;
                        if (!first(n.x[0], rev, q2, t2) || (n.b < 0 && q2 == q))
                            break;
                        q = q2;
                        t = t2;
                    }
                    return k(q, t);
                }
            }
            std::abort();
        }
    };

    struct result
    {
        bool ok{};
        caps g;
    };

    // mode 0: match whole input, 1: prefix, 2: search from `from`
    inline result find(node const &n, std::string const &in, int flags, int groups, int mode, int from = 0)
    {
        matcher m{in, flags};
        int len = static_cast<int>(in.size());
        result r;
        r.g.assign(groups + 1, span{});
        caps empty(groups + 1);
        for (int p = from; p <= (mode == 2 ? len : from); ++p)
        {
            bool ok = m.run(n, false, p, empty, [&](int q, caps const &t) {
                if (mode == 0 && q != len)
                    return false;
                r.g = t;
                r.g[0] = {p, q};
                return true;
            });
            if (ok)
            {
                r.ok = true;
                return r;
            }
        }
        return r;
    }
}
