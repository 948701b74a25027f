// Drives the cases of one generated source: enumerates inputs, consults the oracle, reports disagreements.
#include "dxlib.hpp"
#include "oracle.hpp"
#include <csignal>
#include <cstdio>
#include <sys/time.h>
#include <unistd.h>

namespace dx
{
    char const *chk_lo, *chk_hi;
    static tcase const *cur;
    static std::string cur_in;
    static int cur_method;
    static int bounds_seen;

    void bounds_error(int kind) { bounds_seen = kind + 1; }

    static std::string accessor;

    void accessor_error(char const *what)
    {
        if (accessor.empty())
            accessor = what;
    }

    static std::string hex(std::string const &s)
    {
        std::string r;
        char b[3];
        for (unsigned char c : s)
        {
            std::snprintf(b, 3, "%02x", c);
            r += b;
        }
        return r;
    }

    static std::string show(res const *r, int n)
    {
        std::string o = "[";
        for (int i = 0; i < n; ++i)
        {
            o += i ? "," : "";
            o += r[i].ok ? "[true" : "[false";
            for (int j = 0; j < r[i].n; ++j)
                o += ",[" + std::to_string(r[i].g[j].b) + "," + std::to_string(r[i].g[j].e) + "]";
            o += "]";
        }
        return o + "]";
    }

    static void report(char const *what, std::string const &want, std::string const &got)
    {
        std::printf("{\"case\":%d,\"what\":\"%s\",\"method\":%d,\"input\":\"%s\",\"expected\":%s,\"got\":%s}\n", cur->id, what, cur_method, hex(cur_in).c_str(),
                    want.c_str(), got.c_str());
        std::fflush(stdout);
    }

    static void on_signal(int s)
    {
        report(s == SIGALRM ? "no answer" : "crash", "null", "null");
        _exit(3);
    }

    static res of(oracle::result const &r)
    {
        res o{};
        o.ok = r.ok;
        o.n = static_cast<int>(r.g.size());
        for (std::size_t i = 0; i < r.g.size(); ++i)
            o.g[i] = r.g[i].b == r.g[i].e || !r.ok ? span{-1, -1} : span{r.g[i].b, r.g[i].e};
        return o;
    }


    static int expected(oracle::node const &n, tcase const &c, int m, std::string const &in, res *out)
    {
        if (m < 3)
        {
            *out = of(oracle::find(n, in, c.flags, c.groups, m));
            return 1;
        }
        bool range = m >= 5;
        int mode = (m - 3) % 2 + 1;
        int k = 0, at = 0;
        bool active = true;
        while (k < MAX)
        {
            oracle::result r;
            r.g.assign(c.groups + 1, oracle::span{});
            if (active)
                r = oracle::find(n, in, c.flags, c.groups, mode, at);
            if (!r.ok)
            {
                if (!range)
                    for (int i = 0; i < 3 && k < MAX; ++i)
                        out[k++] = of(r);
                break;
            }
            out[k++] = of(r);
            active = r.g[0].b != r.g[0].e;
            at = r.g[0].e;
        }
        return k;
    }

    static bool same(res const *a, int n, res const *b, int k)
    {
        if (n != k)
            return false;
        for (int i = 0; i < n; ++i)
        {
            if (a[i].ok != b[i].ok || a[i].n != b[i].n)
                return false;
            for (int j = 0; j < a[i].n; ++j)
                if (a[i].g[j].b != b[i].g[j].b || a[i].g[j].e != b[i].g[j].e)
                    return false;
        }
        return true;
    }

    static long evals, accepted, rejected;

    // true while the case agrees
    static bool one(oracle::node const &n, tcase const &c, std::string const &in)
    {
        static res want[MAX], got[MAX];
        cur_in = in;
        for (int m = 0; m < 7; ++m)
        {
            if (!(c.methods >> m & 1))
                continue;
            cur_method = m;
            int k = expected(n, c, m, in, want);
            bounds_seen = 0;
            int g = c.f(m, in, got, MAX);
            ++evals;
            (want[0].ok && k ? accepted : rejected)++;
            if (bounds_seen)
            {
                report(bounds_seen == 1 ? "read outside the input" : "step outside the input", "null", "null");
                return false;
            }
            if (!accessor.empty())
            {
                report(("accessor: " + accessor).c_str(), "null", "null");
                accessor.clear();
                return false;
            }
            if (!same(want, k, got, g))
            {
                report("result", show(want, k), show(got, g));
                return false;
            }
        }
        return true;
    }

    static bool words(oracle::node const &n, tcase const &c, std::string &in, int left)
    {
        if (left == 0)
            return one(n, c, in);
        for (int i = 0; c.alphabet ? c.alphabet[i] != 0 : i < 256; ++i)
        {
            in += c.alphabet ? c.alphabet[i] : static_cast<char>(i);
            bool r = words(n, c, in, left - 1);
            in.pop_back();
            if (!r)
                return false;
        }
        return true;
    }

    int drive(tcase const *cases, int n)
    {
        static char stack[1 << 16];
        stack_t ss{};
        ss.ss_sp = stack;
        ss.ss_size = sizeof stack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGALRM, SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS})
            sigaction(s, &sa, nullptr);
        for (int i = 0; i < n; ++i)
        {
            cur = &cases[i];
            alarm(60);
            oracle::reader rd{cur->ast};
            auto node = rd.read();
            bool ok = true;
            for (int len = 0; ok && len <= cur->maxlen; ++len)
            {
                std::string in;
                ok = words(node, *cur, in, len);
            }
            if (ok && *cur->extra)
            {
                std::string all = cur->extra;
                std::size_t at = 0;
                while (ok && at != std::string::npos)
                {
                    auto e = all.find('\x1e', at);
                    ok = one(node, *cur, all.substr(at, e == std::string::npos ? e : e - at));
                    at = e == std::string::npos ? e : e + 1;
                }
            }
        }
        std::printf("{\"done\":%d,\"evals\":%ld,\"accepted\":%ld,\"rejected\":%ld}\n", n, evals, accepted, rejected);
        return 0;
    }
}
