// Entries for the public interface: an arbitrary pattern with two groups, driven through every way of matching.
#pragma once
#include "base.hpp"
#include <new>

namespace hx
{
    // Inner's match, carrying two capturing groups of which the second is named
    template<typename Inner, typename... Groups>
    struct grouped : Inner {};

    template<typename Inner>
    using with_groups = grouped<Inner,
        meta::ast::capture<1, meta::symbol::unnamed, meta::ast::empty>,
        meta::ast::capture<2, meta::symbol::name<"n">, meta::ast::empty>>;

    template<typename Iter>
    struct rng
    {
        Iter b, e;
        constexpr Iter begin() const noexcept { return b; }
        constexpr Iter end() const noexcept { return e; }
    };

    template<typename Result>
    bool put(Result const &r, raw *out) noexcept
    {
        static_assert(Result::group_count == 3);
        out[0] = to_raw(r.template group<0>().begin());
        out[1] = to_raw(r.template group<0>().end());
        out[2] = to_raw(r.template group<1>().begin());
        out[3] = to_raw(r.template group<1>().end());
        out[4] = to_raw(r.template group<2>().begin());
        out[5] = to_raw(r.template group<2>().end());
        return r.matched();
    }

#define HX_METHOD(name)                                                                                                 \
    template<typename R, typename Iter>                                                                                 \
    bool name##_it(raw b, raw e, raw *out) noexcept { return put(R::name(of_raw<Iter>(b), of_raw<Iter>(e)), out); }     \
    template<typename R, typename Iter>                                                                                 \
    bool name##_rng(raw b, raw e, raw *out) noexcept                                                                    \
    {                                                                                                                   \
        rng<Iter> const r{of_raw<Iter>(b), of_raw<Iter>(e)};                                                            \
        return put(R::name(r), out);                                                                                    \
    }                                                                                                                   \
    template<typename R, typename Iter>                                                                                 \
    bool name##_sv(raw b, raw e, raw *out) noexcept { return put(R::name(std::string_view{b, std::size_t(e - b)}), out); }

    HX_METHOD(match)
    HX_METHOD(match_prefix)
    HX_METHOD(search)
#undef HX_METHOD

#define HX_MAKE(name)                                                                                                   \
    template<typename R, typename Iter>                                                                                 \
    auto name##_it(raw b, raw e) noexcept { return R::name(of_raw<Iter>(b), of_raw<Iter>(e)); }                         \
    template<typename R, typename Iter>                                                                                 \
    auto name##_rng(raw b, raw e) noexcept                                                                              \
    {                                                                                                                   \
        rng<Iter> const r{of_raw<Iter>(b), of_raw<Iter>(e)};                                                            \
        return R::name(r);                                                                                              \
    }                                                                                                                   \
    template<typename R, typename Iter>                                                                                 \
    auto name##_sv(raw b, raw e) noexcept { return R::name(std::string_view{b, std::size_t(e - b)}); }

    HX_MAKE(tokenizer)
    HX_MAKE(searcher)
    HX_MAKE(tokenize)
    HX_MAKE(find_all)
#undef HX_MAKE

    template<typename Gen>
    bool gen_call(Gen *g, raw *out) noexcept { return put((*g)(), out); }
    template<typename Gen>
    bool gen_next(Gen *g, raw *out) noexcept { return put(g->next(), out); }
    template<typename Gen>
    bool gen_active(Gen *g) noexcept { return static_cast<Gen const *>(g)->active(); }

    template<typename Rng>
    bool rng_deref(Rng *r, raw *out) noexcept { return put(*r->begin(), out); }
    template<typename Rng>
    bool rng_arrow(Rng *r, raw *out) noexcept { return put(*r->begin().operator->(), out); }
    template<typename Rng>
    bool rng_current(Rng *r, raw *out) noexcept { return put(static_cast<Rng const *>(r)->current_result(), out); }
    template<typename Rng>
    bool rng_done(Rng *r) noexcept { return r->begin() == r->end(); }
    template<typename Rng>
    bool rng_active(Rng *r) noexcept { return static_cast<Rng const *>(r)->active(); }
    template<typename Rng>
    bool rng_bool(Rng *r) noexcept { return static_cast<bool>(r->begin()); }
    template<typename Rng>
    void rng_inc(Rng *r) noexcept { auto it = r->begin(); ++it; }
    template<typename Rng>
    void rng_post(Rng *r) noexcept { auto it = r->begin(); it++; }
}
