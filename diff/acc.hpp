// Consistency of everything a match result exposes.
#pragma once
#include <algorithm>
#include <memory>
#include <sstream>

namespace dx
{
    inline void ck(bool ok, char const *what)
    {
        if (!ok)
            accessor_error(what);
    }

    template<typename G>
    std::string text(G const &g)
    {
        std::string s;
        for (auto it = g.begin(); it != g.end(); ++it)
            s += *it;
        return s;
    }

    template<typename G>
    void check_group(G &g, std::string const &t)
    {
        G const &c = g;
        ck(text(g) == t && text(c) == t, "begin/end");
        ck(c.length() == t.size(), "length");
        ck(c.is_empty() == t.empty(), "is_empty");
        ck(std::string(c.content()) == t, "content() const");
        ck(std::string(g.content()) == t, "content()");
        // owned text and text in one piece is usable as a string view without further ado
        if constexpr (std::contiguous_iterator<decltype(c.begin())>)
            ck(std::is_convertible_v<G, std::string_view> && std::is_convertible_v<G const &, std::string_view>, "implicit string_view");
        if constexpr (std::is_convertible_v<G, std::string_view>)
        {
            ck(static_cast<std::string_view>(c) == t, "string_view");
            ck(static_cast<std::string_view>(g) == t, "string_view");
        }
        if constexpr (requires { g[0]; })
            for (std::size_t i = 0; i < t.size(); ++i)
                ck(g[i] == t[i] && c[i] == t[i], "operator[]");
        std::ostringstream os;
        os << c;
        ck(os.str() == t, "operator<<");
    }

    template<typename Result>
    std::vector<std::string> texts(Result const &r)
    {
        return [&]<std::size_t... I>(std::index_sequence<I ...>) {
            return std::vector<std::string>{text(r.template group<I>()) ...};
        }(std::make_index_sequence<Result::group_count>{});
    }

    template<typename Result>
    std::vector<std::string> names(Result const &r)
    {
        return [&]<std::size_t... I>(std::index_sequence<I ...>) {
            return std::vector<std::string>{(std::remove_cvref_t<decltype(r.template group<I>())>::has_name() ? "+" : "-") + std::string(r.template group<I>().name()) ...};
        }(std::make_index_sequence<Result::group_count>{});
    }

    template<typename Result>
    void check_result(Result r, bool matched, std::vector<std::string> const &t, std::vector<std::string> const &nm)
    {
        Result const &c = r;
        ck(c.matched() == matched && static_cast<bool>(c) == matched && (c == true) == matched && (c == false) == !matched, "verdict");
        ck(Result::group_count == t.size() && std::tuple_size_v<Result> == t.size(), "group_count");
        ck(texts(c) == t, "groups");
        ck(names(c) == nm, "names");
        ck(c.length() == t[0].size(), "result length");
        ck(text(c) == t[0], "result begin/end");
        if constexpr (std::contiguous_iterator<decltype(c.begin())>)
            ck(std::is_convertible_v<Result, std::string_view>, "implicit string_view of a result");
        if constexpr (std::is_convertible_v<Result, std::string_view>)
            ck(static_cast<std::string_view>(c) == t[0], "result string_view");
        {
            std::ostringstream os;
            os << c;
            ck(os.str() == t[0], "result operator<<");
        }
        [&]<std::size_t... I>(std::index_sequence<I ...>) {
            (check_group(r.template group<I>(), t[I]), ...);
            ck(((text(c.template group<I>()) == t[I]) && ...), "group<I>() const &");
            ck(((text(r.template get<I>()) == t[I] && text(c.template get<I>()) == t[I]) && ...), "get<I>()");
            ck(((text(meta::get_group<I>(r)) == t[I] && text(meta::get_group<I>(c)) == t[I]) && ...), "get_group<I>");
            ck(((&r.template group<I>() == &r.template get<I>() && &c.template group<I>() == &r.template group<I>()) && ...), "group identity");
            ck(((text(Result(r).template group<I>()) == t[I]) && ...), "group<I>() &&");
            ck(((text(Result(r).template get<I>()) == t[I]) && ...), "get<I>() &&");
            ck(((text(static_cast<Result const &&>(r).template group<I>()) == t[I]) && ...), "group<I>() const &&");
            ck(((text(static_cast<Result const &&>(r).template get<I>()) == t[I]) && ...), "get<I>() const &&");
            auto tr = c.transform_groups([](auto const &g) { return text(g); });
            ck(((std::get<I>(tr) == t[I]) && ...), "transform_groups");
        }(std::make_index_sequence<Result::group_count>{});
        auto each = [&](auto &&rr, char const *what) {
            std::vector<std::string> v;
            std::forward<decltype(rr)>(rr).for_each_group([&](auto const &g) { v.push_back(text(g)); });
            ck(v == t, what);
        };
        each(r, "for_each_group &");
        each(c, "for_each_group const &");
        each(Result(r), "for_each_group &&");
        each(static_cast<Result const &&>(r), "for_each_group const &&");
        auto opt = [&](auto const &o, char const *what) {
            ck(o.has_value() == matched && (!o || (texts(*o) == t && o->matched())), what);
        };
        opt(r.as_optional(), "as_optional &");
        opt(c.as_optional(), "as_optional const &");
        opt(Result(r).as_optional(), "as_optional &&");
        opt(static_cast<Result const &&>(r).as_optional(), "as_optional const &&");
        {
            Result gone = r;
            gone.for_each_group([](auto &g) {
                if constexpr (requires { g.clear(); })
                {
                    g.clear();
                    ck(g.is_empty() && g.length() == 0 && g.begin() == g.end(), "clear");
                }
            });
        }
        Result copy = r, moved = std::move(copy), assigned;
        assigned = c;
        ck(texts(moved) == t && moved.matched() == matched && texts(assigned) == t && assigned.matched() == matched, "copies");
        ck(texts(r) == t && r.matched() == matched, "unchanged");
    }

    template<typename Result>
    void check_owner(Result const &r, bool matched, std::vector<std::string> const &t, std::vector<std::string> const &nm)
    {
        check_result(r, matched, t, nm);
        auto all = [&](auto own) {
            check_result(own, matched, t, nm);
            return own;
        };
        all(r.as_memory_owner());
    }

    template<typename R>
    int acc(int method, std::string const &in, res *out, int max)
    {
        auto go = [&]<typename C>(std::type_identity<C>, bool fill) {
            auto c = std::make_unique<C>(in.begin(), in.end());
            C const &cc = *c;
            auto r = method == 0 ? R::match(cc) : method == 1 ? R::match_prefix(cc) : R::search(cc);
            auto const t = texts(r);
            auto const nm = names(r);
            bool const ok = r.matched();
            for (auto const &x : t)
                ck(ok || x.empty(), "groups of a failed match");
            check_owner(r, ok, t, nm);
            auto own = r.as_memory_owner();
            auto temp = method == 0 ? R::match(C(cc)) : method == 1 ? R::match_prefix(C(cc)) : R::search(C(cc));
            check_result(temp, ok, t, nm);
            static_assert(!decltype(temp)::is_view);
            if (fill)
                put(*out, cc.begin(), r);
            // owning results do not depend on the input
            std::fill(c->begin(), c->end(), '#');
            c.reset();
            check_result(own, ok, t, nm);
            static_assert(std::is_same_v<decltype(own), meta::match_result<R>>);
        };
        go(std::type_identity<std::string>{}, true);
        go(std::type_identity<std::list<char>>{}, false);
        go(std::type_identity<std::deque<char>>{}, false);
        auto v = method == 0 ? R::match(std::string_view{in}) : method == 1 ? R::match_prefix(std::string_view{in}) : R::search(std::string_view{in});
        check_result(v, v.matched(), texts(v), names(v));
        res of_view{};
        put(of_view, std::string_view{in}.begin(), v);
        ck(of_view.ok == out->ok && of_view.n == out->n, "result over a string view");
        for (int i = 0; i < out->n; ++i)
            ck(of_view.g[i].b == out->g[i].b && of_view.g[i].e == out->g[i].e, "group over a string view");
        return 1;
    }

    // Input handed over as a whole: constant, variable, expiring, and as a string view
    template<typename R, typename Container>
    int whole(int method, std::string const &in, res *out, int max)
    {
        Container const c(in.begin(), in.end());
        Container var = c;
        int n = 0;
        auto call = [&](auto &&x) {
            using X = decltype(x);
            return method == 0 ? R::match(std::forward<X>(x)) : method == 1 ? R::match_prefix(std::forward<X>(x)) : R::search(std::forward<X>(x));
        };
        auto gen = [&](auto &x, auto base, res *o) {
            int k = 0;
            auto go = [&](auto g) {
                for (int more = 3; more && k < max; )
                {
                    auto r = g();
                    put(o[k++], base, r);
                    if (!r)
                        --more;
                }
            };
            auto all = [&](auto range) {
                for (auto &&r : range)
                    if (k < max)
                        put(o[k++], base, r);
            };
            if (method == 3)
                go(R::tokenizer(x));
            else if (method == 4)
                go(R::searcher(x));
            else if (method == 5)
                all(R::tokenize(x));
            else
                all(R::find_all(x));
            return k;
        };
        auto same = [&](res const *a, int k, char const *what) {
            bool ok = k == n;
            for (int i = 0; ok && i < k; ++i)
            {
                ok = a[i].ok == out[i].ok && a[i].n == out[i].n;
                for (int j = 0; ok && j < a[i].n; ++j)
                    ok = a[i].g[j].b == out[i].g[j].b && a[i].g[j].e == out[i].g[j].e;
            }
            ck(ok, what);
        };
        static res other[MAX];
        auto const sv = std::string_view{in};
        if (method < 3)
        {
            auto r = call(c);
            put(*out, c.begin(), r);
            n = 1;
            auto const t = texts(r);
            auto u = call(var);
            put(*other, var.cbegin(), u);
            same(other, 1, "result over a variable container");
            auto own = call(Container(c));
            ck(own.matched() == r.matched() && texts(own) == t, "result over an expiring container");
            auto kept = call(static_cast<Container const &&>(c));
            ck(kept.matched() == r.matched() && texts(kept) == t, "result over an expiring constant container");
            auto v = call(sv);
            put(*other, sv.begin(), v);
            same(other, 1, "result over a string view");
            if (in.find('\0') == in.npos)
            {
                auto z = call(in.c_str());
                ck(z.matched() == r.matched() && texts(z) == t, "result over a character array");
            }
            return n;
        }
        n = gen(c, c.begin(), out);
        same(other, gen(var, var.cbegin(), other), "results over a variable container");
        same(other, gen(sv, sv.begin(), other), "results over a string view");
        return n;
    }
}
