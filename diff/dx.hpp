// Exercises compiled patterns; included (precompiled) by the generated sources.
#pragma once
#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <optional>
#include <ranges>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <mregex.hpp>
#include "dxlib.hpp"

namespace dx
{
    using meta::regex_flag;

    template<typename Result, typename Iter>
    constexpr void put(res &out, Iter base, Result const &r)
    {
        out.ok = static_cast<bool>(r);
        [&]<std::size_t... I>(std::index_sequence<I ...>) {
            auto one = [&](std::size_t i, auto const &g) {
                bool empty = g.begin() == g.end();
                out.g[i] = empty ? span{-1, -1} : span{int(std::distance(base, g.begin())), int(std::distance(base, g.end()))};
            };
            (one(I, r.template group<I>()), ...);
        }(std::make_index_sequence<Result::group_count>{});
        out.n = Result::group_count;
    }

    template<typename R, typename Iter>
    int exec(int method, Iter b, Iter e, res *out, int max)
    {
        switch (method)
        {
            case 0: put(*out, b, R::match(b, e)); return 1;
            case 1: put(*out, b, R::match_prefix(b, e)); return 1;
            case 2: put(*out, b, R::search(b, e)); return 1;
            case 3:
            case 4:
            {
                int n = 0;
                auto go = [&](auto gen) {
                    while (n < max)
                    {
                        auto r = gen.next();
                        put(out[n++], b, r);
                        if (!r)
                            break;
                    }
                    // every later call reports a non-match
                    for (int i = 0; i < 2 && n < max; ++i)
                        put(out[n++], b, gen());
                };
                if (method == 3)
                    go(R::tokenizer(b, e));
                else
                    go(R::searcher(b, e));
                return n;
            }
            case 5:
            case 6:
            {
                int n = 0;
                auto go = [&](auto range) {
                    for (auto &&r : range)
                    {
                        if (n == max)
                            break;
                        put(out[n++], b, r);
                    }
                };
                if (method == 5)
                    go(R::tokenize(b, e));
                else
                    go(R::find_all(b, e));
                if constexpr (std::is_pointer_v<Iter>)
                {
                    // the same by hand
                    auto again = [&](auto range) {
                        int k = 0;
                        bool ok = true;
                        for (auto it = range.begin(); ok && it != range.end() && k < max; it++, ++k)
                        {
                            res x{}, y{};
                            put(x, b, *it);
                            put(y, b, *it.operator->());
                            ok = static_cast<bool>(it) && k < n && x.ok == out[k].ok && y.ok == x.ok;
                            for (int g = 0; ok && g < x.n; ++g)
                                ok = x.g[g].b == out[k].g[g].b && x.g[g].e == out[k].g[g].e && y.g[g].b == x.g[g].b && y.g[g].e == x.g[g].e;
                        }
                        if (!ok || k != n)
                            accessor_error("iteration step by step");
                    };
                    if (method == 5)
                        again(R::tokenize(b, e));
                    else
                        again(R::find_all(b, e));
                }
                return n;
            }
        }
        return 0;
    }

    // basic: match, match_prefix and search only
    template<typename R, typename Iter>
    int exec3(int method, Iter b, Iter e, res *out, int)
    {
        switch (method)
        {
            case 0: put(*out, b, R::match(b, e)); return 1;
            case 1: put(*out, b, R::match_prefix(b, e)); return 1;
            case 2: put(*out, b, R::search(b, e)); return 1;
        }
        return 0;
    }

    template<typename R>
    int ptr(int method, std::string const &in, res *out, int max)
    {
        return exec<R>(method, in.data(), in.data() + in.size(), out, max);
    }

    template<typename R>
    int ptr3(int method, std::string const &in, res *out, int max)
    {
        return exec3<R>(method, in.data(), in.data() + in.size(), out, max);
    }

    // Input held in another container
    template<typename R, typename Container>
    int cont(int method, std::string const &in, res *out, int max)
    {
        Container const c(in.begin(), in.end());
        return exec<R>(method, c.begin(), c.end(), out, max);
    }

    template<typename R>
    int rev(int method, std::string const &in, res *out, int max)
    {
        std::string const c(in.rbegin(), in.rend());
        return exec<R>(method, c.crbegin(), c.crend(), out, max);
    }

    template<typename R>
    int revlist(int method, std::string const &in, res *out, int max)
    {
        std::list<char> const c(in.rbegin(), in.rend());
        return exec<R>(method, c.crbegin(), c.crend(), out, max);
    }

    // Iterators that notice every step or read outside of the input
    template<typename Tag>
    struct checked
    {
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using reference = char const &;
        using pointer = char const *;
        using iterator_category = Tag;
        static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Tag>;
        static constexpr bool rand = std::is_base_of_v<std::random_access_iterator_tag, Tag>;

        char const *p{};

        void chk() const { if (p < chk_lo || p > chk_hi) bounds_error(1); }
        reference operator*() const { if (p < chk_lo || p >= chk_hi) { bounds_error(0); return *"?"; } return *p; }
        checked &operator++() { ++p; chk(); return *this; }
        checked operator++(int) { auto o = *this; ++*this; return o; }
        checked &operator--() requires bidi { --p; chk(); return *this; }
        checked operator--(int) requires bidi { auto o = *this; --*this; return o; }
        checked &operator+=(difference_type n) requires rand { p += n; chk(); return *this; }
        checked &operator-=(difference_type n) requires rand { p -= n; chk(); return *this; }
        reference operator[](difference_type n) const requires rand { return *(*this + n); }
        friend checked operator+(checked a, difference_type n) requires rand { return a += n; }
        friend checked operator+(difference_type n, checked a) requires rand { return a += n; }
        friend checked operator-(checked a, difference_type n) requires rand { return a -= n; }
        friend difference_type operator-(checked a, checked b) requires rand { return a.p - b.p; }
        friend bool operator==(checked a, checked b) { return a.p == b.p; }
        friend auto operator<=>(checked a, checked b) requires rand { return a.p <=> b.p; }
    };

    template<typename R, typename Tag>
    int safe(int method, std::string const &in, res *out, int max)
    {
        chk_lo = in.data();
        chk_hi = in.data() + in.size();
        return exec<R>(method, checked<Tag>{chk_lo}, checked<Tag>{chk_hi}, out, max);
    }

    // Groups found by name
    template<meta::static_string Name, std::size_t I>
    struct nm
    {
        template<typename Result>
        static void check(Result &r)
        {
            Result const &c = r;
            if (&r.template group<Name>() != &r.template group<I>() || &c.template group<Name>() != &c.template group<I>() || &meta::get_group_named<Name>(r) != &r.template group<I>())
                accessor_error("group by name");
            if (r.template group<I>().name() != std::string_view{Name} || !r.template group<I>().has_name())
                accessor_error("name");
            auto o = r.as_memory_owner();
            if (&o.template group<Name>() != &o.template group<I>() || std::string_view{o.template group<Name>()} != std::string_view{r.template group<I>()})
                accessor_error("group of an owning result by name");
        }
    };

    template<typename R, typename... Names>
    int named(int method, std::string const &in, res *out, int max)
    {
        auto r = R::search(in.data(), in.data() + in.size());
        (Names::check(r), ...);
        if (R::capture_count + 1 != decltype(r)::group_count)
            accessor_error("capture_count");
        return ptr3<R>(method, in, out, max);
    }

    // Iterators of a weaker category, usable during compilation
    template<typename Tag>
    struct weak
    {
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using reference = char const &;
        using pointer = char const *;
        using iterator_category = Tag;
        static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Tag>;

        char const *p{};

        constexpr reference operator*() const { return *p; }
        constexpr weak &operator++() { ++p; return *this; }
        constexpr weak operator++(int) { auto o = *this; ++p; return o; }
        constexpr weak &operator--() requires bidi { --p; return *this; }
        constexpr weak operator--(int) requires bidi { auto o = *this; --p; return o; }
        friend constexpr bool operator==(weak a, weak b) { return a.p == b.p; }
    };

    // Results computed during compilation
    template<typename R, typename Iter, meta::static_string In>
    constexpr res compute(int method)
    {
        res r{};
        std::string_view const in{In};
        Iter b{in.data()}, e{in.data() + in.size()};
        if (method == 0)
            put(r, b, R::match(b, e));
        else if (method == 1)
            put(r, b, R::match_prefix(b, e));
        else
            put(r, b, R::search(b, e));
        return r;
    }

    template<typename R, typename Iter, meta::static_string In>
    struct constant
    {
        static constexpr res value[3] = {compute<R, Iter, In>(0), compute<R, Iter, In>(1), compute<R, Iter, In>(2)};
    };

    template<typename R, meta::static_string... Ins>
    int ctime(int method, std::string const &in, res *out, int)
    {
        ((in == std::string_view{Ins} ? (*out = constant<R, char const *, Ins>::value[method], 0) : 0), ...);
        return 1;
    }

    template<typename R, typename Tag, meta::static_string... Ins>
    int ctimew(int method, std::string const &in, res *out, int)
    {
        ((in == std::string_view{Ins} ? (*out = constant<R, weak<Tag>, Ins>::value[method], 0) : 0), ...);
        return 1;
    }

    using std::forward_iterator_tag;
    using std::bidirectional_iterator_tag;
    using std::random_access_iterator_tag;
}
#include "acc.hpp"
