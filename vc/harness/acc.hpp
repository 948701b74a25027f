// Entries for match results: a result made of arbitrary captures, seen through every accessor.
// std::string is replaced by its contract: a copy of the piece of text it was made from, empty once moved from.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <compare>
#include <concepts>
#include <ranges>
#include <algorithm>
#include <functional>
#include <optional>
#include <tuple>
#include <string>
#include <string_view>
#include <iostream>
#include <memory>
#include <utility>

namespace hx
{
    using raw = char const *;
    template<typename Iter>
    constexpr raw text_at(Iter const &it) noexcept;
}

namespace std
{
    struct hx_string
    {
        using value_type = char;
        hx::raw b{}, e{};

        constexpr hx_string() noexcept = default;
        template<typename Iter>
        constexpr hx_string(Iter first, Iter last) noexcept : b{hx::text_at(first)}, e{hx::text_at(last)} {}
        constexpr explicit hx_string(std::string_view v) noexcept : b{v.data()}, e{v.data() + v.size()} {}
        constexpr hx_string(hx_string const &) noexcept = default;
        constexpr hx_string(hx_string &&o) noexcept : b{o.b}, e{o.e} { o.b = o.e = nullptr; }
        constexpr hx_string &operator=(hx_string const &) noexcept = default;
        constexpr hx_string &operator=(hx_string &&o) noexcept
        {
            if (this != &o)
            {
                b = o.b;
                e = o.e;
                o.b = o.e = nullptr;
            }
            return *this;
        }
        constexpr ~hx_string() {}

        constexpr hx::raw begin() const noexcept { return b; }
        constexpr hx::raw end() const noexcept { return e; }
        constexpr hx::raw cbegin() const noexcept { return b; }
        constexpr hx::raw cend() const noexcept { return e; }
        constexpr hx::raw data() const noexcept { return b; }
        constexpr hx::raw c_str() const noexcept { return b; }
        constexpr bool empty() const noexcept { return b == e; }
        constexpr std::size_t length() const noexcept { return std::size_t(e - b); }
        constexpr std::size_t size() const noexcept { return std::size_t(e - b); }
        constexpr char const &operator[](std::size_t i) const noexcept { return b[i]; }
        constexpr char const &at(std::size_t i) const noexcept { return b[i]; }
        constexpr char const &front() const noexcept { return *b; }
        constexpr void clear() noexcept { b = e = nullptr; }
        template<typename Iter>
        constexpr hx_string &assign(Iter first, Iter last) noexcept
        {
            b = hx::text_at(first);
            e = hx::text_at(last);
            return *this;
        }
        constexpr operator std::string_view() const noexcept { return {b, std::size_t(e - b)}; }
    };
}

#define string hx_string
#include "base.hpp"
#undef string
#include "api.hpp"

namespace hx
{
    template<typename Iter>
    constexpr raw text_at(Iter const &it) noexcept { return to_raw(it); }

    template<typename R, typename Iter>
    using view_of = meta::match_result_view<R, Iter>;

    template<typename R, typename Iter>
    view_of<R, Iter> view(raw const *in, bool matched) noexcept
    {
        using storage = meta::regex_capture_view_storage<R, Iter>;
        return [&]<std::size_t... I>(std::index_sequence<I ...>) {
            return view_of<R, Iter>{storage{std::tuple_element_t<I, storage>{of_raw<Iter>(in[2 * I]), of_raw<Iter>(in[2 * I + 1])} ...}, matched};
        }(std::make_index_sequence<std::tuple_size_v<storage>>{});
    }

    template<typename R, typename Iter>
    auto owner(raw const *in, bool matched) noexcept { return view<R, Iter>(in, matched).as_memory_owner(); }

    struct sink
    {
        raw *out;
        void p(raw x) noexcept { *out++ = x; }
        void n(std::size_t x) noexcept { *reinterpret_cast<std::size_t *>(out++) = x; }
        void f(bool x) noexcept { n(x ? 1 : 0); }
        template<typename Iter>
        void i(Iter it) noexcept { p(to_raw(it)); }
        template<typename Cap>
        void g(Cap const &c) noexcept { i(c.begin()); i(c.end()); }
        void v(std::string_view s) noexcept { p(s.data()); p(s.data() + s.size()); }
    };

    template<typename Res, std::size_t... I>
    void all(sink &s, Res const &r, std::index_sequence<I ...>) noexcept { (s.g(r.template group<I>()), ...); }
    template<typename Res>
    void all(sink &s, Res const &r) noexcept { all(s, r, std::make_index_sequence<Res::group_count>{}); }

#define ACC(name, ...) template<typename Res> void acc_##name(Res &r, sink s, std::size_t at) noexcept { Res const &c = r; (void)c; (void)at; __VA_ARGS__ }

    ACC(verdict, s.f(c.matched()); s.f(static_cast<bool>(c)); s.f(c == true); s.f(!(c == false)); s.f(!(c != true)); s.f(c != false);)
    ACC(whole, s.n(c.length()); s.i(c.begin()); s.i(c.end()); s.i(r.begin()); s.i(r.end());)
    ACC(counts, s.n(Res::group_count); s.n(std::tuple_size_v<Res>);)
    ACC(index_l, s.g(r.template group<0>()); s.g(r.template group<1>()); s.g(r.template group<2>());)
    ACC(index_c, s.g(c.template group<0>()); s.g(c.template group<1>()); s.g(c.template group<2>());)
    ACC(index_r, s.g(std::move(r).template group<0>()); s.g(std::move(r).template group<1>()); s.g(std::move(r).template group<2>());)
    ACC(index_k, s.g(std::move(c).template group<0>()); s.g(std::move(c).template group<1>()); s.g(std::move(c).template group<2>());)
    ACC(get_l, s.g(r.template get<0>()); s.g(r.template get<1>()); s.g(r.template get<2>());)
    ACC(get_c, s.g(c.template get<0>()); s.g(c.template get<1>()); s.g(c.template get<2>());)
    ACC(get_r, s.g(std::move(r).template get<0>()); s.g(std::move(r).template get<1>()); s.g(std::move(r).template get<2>());)
    ACC(get_k, s.g(std::move(c).template get<0>()); s.g(std::move(c).template get<1>()); s.g(std::move(c).template get<2>());)
    ACC(named, s.g(r.template group<"n">()); s.g(c.template group<"n">()); s.g(std::move(c).template group<"n">()); s.g(std::move(r).template group<"n">());)
    ACC(project, s.g(meta::get_group<0>(r)); s.g(meta::get_group<1>(c)); s.g(meta::get_group<2>(std::move(c))); s.g(meta::get_group_named<"n">(r)); s.g(meta::get_group_named<"n">(c)); s.g(meta::get_group<1>(std::move(r)));)
    ACC(bind_l, auto &[x, y, z] = r; s.g(x); s.g(y); s.g(z);)
    ACC(bind_c, auto const &[x, y, z] = c; s.g(x); s.g(y); s.g(z);)
    ACC(bind_v, auto [x, y, z] = c; s.g(x); s.g(y); s.g(z);)
    ACC(bind_r, auto &&[x, y, z] = std::move(r); s.g(x); s.g(y); s.g(z);)
    ACC(same, s.f(&r.template group<1>() == &r.template get<1>()); s.f(&c.template group<2>() == &r.template group<2>()); s.f(&meta::get_group<0>(r) == &r.template group<0>()); s.f(&r.template group<"n">() == &c.template group<2>());)
    ACC(each_l, r.for_each_group([&](auto &g) noexcept { s.g(g); });)
    ACC(each_c, c.for_each_group([&](auto const &g) noexcept { s.g(g); });)
    ACC(each_r, std::move(r).for_each_group([&](auto const &g) noexcept { s.g(g); });)
    ACC(each_k, std::move(c).for_each_group([&](auto const &g) noexcept { s.g(g); });)
    ACC(transform, auto t = c.transform_groups([](auto const &g) noexcept { return to_raw(g.begin()); }); auto u = r.transform_groups([](auto const &g) noexcept { return to_raw(g.end()); });
        s.p(std::get<0>(t)); s.p(std::get<0>(u)); s.p(std::get<1>(t)); s.p(std::get<1>(u)); s.p(std::get<2>(t)); s.p(std::get<2>(u)); s.n(std::tuple_size_v<decltype(t)>);)
    ACC(opt_l, auto o = r.as_optional(); s.f(o.has_value()); if (o) { s.f(o->matched()); all(s, *o); })
    ACC(opt_c, auto o = c.as_optional(); s.f(o.has_value()); if (o) { s.f(o->matched()); all(s, *o); })
    ACC(opt_r, auto o = std::move(r).as_optional(); s.f(o.has_value()); if (o) { s.f(o->matched()); all(s, *o); })
    ACC(opt_k, auto o = std::move(c).as_optional(); s.f(o.has_value()); if (o) { s.f(o->matched()); all(s, *o); })
    ACC(kept, { auto o = r.as_optional(); auto p = c.as_optional(); auto q = std::move(c).as_optional(); (void)o; (void)p; (void)q; r.for_each_group([](auto &) noexcept {}); std::move(c).for_each_group([](auto const &) noexcept {}); (void)c.transform_groups([](auto const &g) noexcept { return g.length(); }); } s.f(r.matched()); all(s, r);)
    ACC(copy, Res k = c; all(s, k); s.f(k.matched()); Res m = std::move(k); all(s, m); s.f(m.matched()); Res a; s.f(a.matched()); a = c; all(s, a); s.f(a.matched()); Res z; z = std::move(m); all(s, z); s.f(z.matched());)
    ACC(fresh, Res a; s.f(a.matched()); s.f(a.length() == 0);)
    ACC(empty0, s.f(c.template group<0>().is_empty()); s.f(r.template group<0>().is_empty());)
    ACC(empty1, s.f(c.template group<1>().is_empty());)
    ACC(length0, s.n(c.template group<0>().length());)
    ACC(length1, s.n(c.template group<1>().length());)
    ACC(length2, s.n(r.template group<2>().length());)
    ACC(content_c, auto &&t = c.template group<0>().content(); s.p(t.data()); s.n(t.size()); auto &&u = c.template group<1>().content(); s.p(u.data()); s.n(u.size());)
    ACC(content_l, auto &&t = r.template group<0>().content(); s.p(t.data()); s.n(t.size()); auto &&u = r.template group<1>().content(); s.p(u.data()); s.n(u.size());)
    ACC(sv, s.v(c.template group<0>()); s.v(r.template group<1>()); s.v(c.template group<2>());)
    ACC(svr, s.v(c); s.v(r);)
    ACC(at0, s.p(&c.template group<0>()[at]); s.p(&r.template group<0>()[at]);)
    ACC(at1, s.p(&c.template group<1>()[at]); s.p(&r.template group<1>()[at]);)
    ACC(own, auto o = c.as_memory_owner(); s.f(o.matched()); all(s, o); s.f(!decltype(o)::is_view); all(s, r); s.f(r.matched());)
    ACC(names, using g0 = std::remove_cvref_t<decltype(c.template group<0>())>; using g1 = std::remove_cvref_t<decltype(c.template group<1>())>; using g2 = std::remove_cvref_t<decltype(c.template group<2>())>;
        constexpr bool h0 = g0::has_name(); constexpr bool h1 = g1::has_name(); constexpr bool h2 = g2::has_name(); constexpr bool e0 = g0::name() == std::string_view{""}; constexpr bool e1 = g1::name() == std::string_view{""}; constexpr bool e2 = g2::name() == std::string_view{"n"};
        s.f(h0); s.f(h1); s.f(h2); s.f(e0); s.f(e1); s.f(e2);)
#undef ACC

    // a temporary that owns its text
    template<typename Iter>
    struct orng : rng<Iter>
    {
        constexpr ~orng() {}
    };

#define HX_TMP(name)                                                                                                    \
    template<typename R, typename Iter>                                                                                 \
    bool name##_tmp(raw b, raw e, raw *out) noexcept                                                                    \
    {                                                                                                                   \
        auto r = R::name(orng<Iter>{{of_raw<Iter>(b), of_raw<Iter>(e)}});                                               \
        static_assert(!decltype(r)::is_view);                                                                           \
        return put(r, out);                                                                                             \
    }                                                                                                                   \
    template<typename R, typename Iter>                                                                                 \
    bool name##_ctmp(raw b, raw e, raw *out) noexcept                                                                   \
    {                                                                                                                   \
        orng<Iter> const x{{of_raw<Iter>(b), of_raw<Iter>(e)}};                                                         \
        auto r = R::name(std::move(x));                                                                                 \
        static_assert(!decltype(r)::is_view);                                                                           \
        return put(r, out);                                                                                             \
    }
    HX_TMP(match)
    HX_TMP(match_prefix)
    HX_TMP(search)
#undef HX_TMP
}
