// Harness vocabulary: opaque sub-patterns, opaque continuations and iterators of every category.
// Everything that is *verified* comes from /repo's headers; this file only supplies the unknowns
// (declared, never defined) that the contracts quantify over.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <compare>
#include <mregex.hpp>

namespace hx
{
    using raw = char const *;

    extern "C"
    {
        // An arbitrary sub-pattern: tries to match at cur, calling inv(closure, q, &out) for each of its outcomes.
        bool vx_match(int id, bool rev, raw begin, raw end, raw cur, void *ctx, void const *closure,
                      bool (*inv)(void const *, raw, raw *) noexcept, raw *out) noexcept;
        // The rest of the pattern.
        bool vx_cont(bool rev, raw cur, raw *out) noexcept;
        // An arbitrary single-character class.
        bool vx_char(int id, char c) noexcept;
        // An arbitrary zero-width predicate.
        bool vx_pred(int id, bool rev, raw begin, raw end, raw cur, void *ctx) noexcept;
    }

    // Forward-only and bidirectional iterators over the same characters.
    struct fwd
    {
        using value_type = char;
        using reference = char const &;
        using pointer = char const *;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;

        raw p{};

        constexpr reference operator*() const noexcept { return *p; }
        constexpr fwd &operator++() noexcept { ++p; return *this; }
        constexpr fwd operator++(int) noexcept { fwd old = *this; ++p; return old; }
        friend constexpr bool operator==(fwd a, fwd b) noexcept { return a.p == b.p; }
    };

    struct bidi
    {
        using value_type = char;
        using reference = char const &;
        using pointer = char const *;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::bidirectional_iterator_tag;

        raw p{};

        constexpr reference operator*() const noexcept { return *p; }
        constexpr bidi &operator++() noexcept { ++p; return *this; }
        constexpr bidi operator++(int) noexcept { bidi old = *this; ++p; return old; }
        constexpr bidi &operator--() noexcept { --p; return *this; }
        constexpr bidi operator--(int) noexcept { bidi old = *this; --p; return old; }
        friend constexpr bool operator==(bidi a, bidi b) noexcept { return a.p == b.p; }
    };

    // Random access, but not a pointer (deque-like).
    struct rnd
    {
        using value_type = char;
        using reference = char const &;
        using pointer = char const *;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::random_access_iterator_tag;

        raw p{};

        constexpr reference operator*() const noexcept { return *p; }
        constexpr reference operator[](difference_type n) const noexcept { return p[n]; }
        constexpr rnd &operator++() noexcept { ++p; return *this; }
        constexpr rnd operator++(int) noexcept { rnd old = *this; ++p; return old; }
        constexpr rnd &operator--() noexcept { --p; return *this; }
        constexpr rnd operator--(int) noexcept { rnd old = *this; --p; return old; }
        constexpr rnd &operator+=(difference_type n) noexcept { p += n; return *this; }
        constexpr rnd &operator-=(difference_type n) noexcept { p -= n; return *this; }
        friend constexpr rnd operator+(rnd a, difference_type n) noexcept { return rnd{a.p + n}; }
        friend constexpr rnd operator+(difference_type n, rnd a) noexcept { return rnd{a.p + n}; }
        friend constexpr rnd operator-(rnd a, difference_type n) noexcept { return rnd{a.p - n}; }
        friend constexpr difference_type operator-(rnd a, rnd b) noexcept { return a.p - b.p; }
        friend constexpr bool operator==(rnd a, rnd b) noexcept { return a.p == b.p; }
        friend constexpr auto operator<=>(rnd a, rnd b) noexcept { return a.p <=> b.p; }
    };

    static_assert(std::random_access_iterator<rnd> && !std::contiguous_iterator<rnd>);
    static_assert(std::forward_iterator<fwd> && !std::bidirectional_iterator<fwd>);
    static_assert(std::bidirectional_iterator<bidi> && !std::random_access_iterator<bidi>);

    template<typename Iter>
    struct iter_traits;

    template<>
    struct iter_traits<raw>
    {
        static constexpr bool rev = false;
        static constexpr raw to(raw it) noexcept { return it; }
        static constexpr raw from(raw p) noexcept { return p; }
    };

    template<>
    struct iter_traits<fwd>
    {
        static constexpr bool rev = false;
        static constexpr raw to(fwd it) noexcept { return it.p; }
        static constexpr fwd from(raw p) noexcept { return fwd{p}; }
    };

    template<>
    struct iter_traits<bidi>
    {
        static constexpr bool rev = false;
        static constexpr raw to(bidi it) noexcept { return it.p; }
        static constexpr bidi from(raw p) noexcept { return bidi{p}; }
    };

    template<>
    struct iter_traits<rnd>
    {
        static constexpr bool rev = false;
        static constexpr raw to(rnd it) noexcept { return it.p; }
        static constexpr rnd from(raw p) noexcept { return rnd{p}; }
    };

    template<typename Iter>
    struct iter_traits<std::reverse_iterator<Iter>>
    {
        static constexpr bool rev = !iter_traits<Iter>::rev;
        static constexpr raw to(std::reverse_iterator<Iter> it) noexcept { return iter_traits<Iter>::to(it.base()); }
        static constexpr auto from(raw p) noexcept { return std::reverse_iterator<Iter>{iter_traits<Iter>::from(p)}; }
    };

    template<typename Iter>
    constexpr raw to_raw(Iter it) noexcept { return iter_traits<Iter>::to(it); }

    template<typename Iter>
    constexpr Iter of_raw(raw p) noexcept { return iter_traits<Iter>::from(p); }

    template<typename Cont, typename Iter>
    bool invoke_closure(void const *closure, raw p, raw *out) noexcept
    {
        auto &cont = *static_cast<Cont *>(const_cast<void *>(closure));
        auto result = cont(of_raw<Iter>(p));
        *out = to_raw(result.end);
        return result.matched;
    }

    struct nonempty_tag {};

    // An arbitrary sub-pattern; Empty tells whether it may match the empty string.
    template<int Id, bool Empty>
    struct node : std::conditional_t<Empty, meta::ast::zero_length_matcher, nonempty_tag>
    {
        template<std::forward_iterator Iter, typename Context, meta::match_continuation<Iter> Cont>
        static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
        -> meta::ast::match_result<Iter>
        {
            raw out = nullptr;
            bool ok = vx_match(Id, iter_traits<Iter>::rev, to_raw(begin), to_raw(end), to_raw(current), &ctx,
                               static_cast<void const *>(&cont), &invoke_closure<std::remove_reference_t<Cont>, Iter>, &out);
            return {of_raw<Iter>(out), ok};
        }
    };

    // An arbitrary single-character class.
    template<int Id>
    struct chr : meta::ast::trivially_matchable<chr<Id>>
    {
        template<typename Context>
        static constexpr bool match_one(char input, Context &) noexcept { return vx_char(Id, input); }
    };

    // An arbitrary continuation.
    template<typename Iter>
    struct rest
    {
        auto operator()(Iter current) const noexcept -> meta::ast::match_result<Iter>
        {
            raw out = nullptr;
            bool ok = vx_cont(iter_traits<Iter>::rev, to_raw(current), &out);
            return {of_raw<Iter>(out), ok};
        }
    };

    // Context with two capturing groups; only its size and flags matter to the nodes under proof.
    using groups_ast = meta::ast::sequence<
        meta::ast::capture<1, meta::symbol::unnamed, meta::ast::empty>,
        meta::ast::capture<2, meta::symbol::name<"n">, meta::ast::empty>>;

    template<typename Base, meta::regex_flag... Flags>
    using context = meta::regex_match_context<meta::regex_adapter<groups_ast, Flags ...>, Base>;

    template<typename Node, typename Iter, typename Ctx>
    bool run(raw begin, raw end, raw cur, Ctx *ctx, raw *out) noexcept
    {
        auto result = Node::match(of_raw<Iter>(begin), of_raw<Iter>(end), of_raw<Iter>(cur), *ctx, rest<Iter>{});
        *out = to_raw(result.end);
        return result.matched;
    }

    // Where the groups live in the context; read off by the verifier, so that any layout will do.
    extern "C" inline raw vx_layout(context<raw> *ctx, int which) noexcept
    {
        switch (which)
        {
            case 0: return std::get<0>(ctx->captures).begin();
            case 1: return std::get<0>(ctx->captures).end();
            case 2: return std::get<1>(ctx->captures).begin();
            case 3: return std::get<1>(ctx->captures).end();
            case 4: return std::get<2>(ctx->captures).begin();
            default: return std::get<2>(ctx->captures).end();
        }
    }

    // The same for input that is given by reverse iterators, in the order of the text below them.
    extern "C" inline raw vx_layout_r(context<std::reverse_iterator<raw>> *ctx, int which) noexcept
    {
        switch (which)
        {
            case 0: return std::get<0>(ctx->captures).end().base();
            case 1: return std::get<0>(ctx->captures).begin().base();
            case 2: return std::get<1>(ctx->captures).end().base();
            case 3: return std::get<1>(ctx->captures).begin().base();
            case 4: return std::get<2>(ctx->captures).end().base();
            default: return std::get<2>(ctx->captures).begin().base();
        }
    }

    [[gnu::used]] inline constexpr auto vx_layout_use = &vx_layout;
    [[gnu::used]] inline constexpr auto vx_layout_r_use = &vx_layout_r;
    static_assert(sizeof(context<raw>) == 6 * sizeof(raw));
    static_assert(sizeof(context<std::reverse_iterator<raw>>) == 6 * sizeof(raw));
}
