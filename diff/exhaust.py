"""All 32896 character ranges, evaluated on all 256 bytes with and without icase on the real range node.

The contracts of the prover treat the two ends of a range at critical values; this closes the gap by complete enumeration.
A range that differs is handed to the cross-check as an ordinary pattern, which alone decides."""
import os
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor
import pools

REPO = os.environ.get('VERIF_REPO', '/repo')

SRC = r'''
#include <mregex.hpp>
#include <cstdio>
using W = bool (*)(char);
using plain = meta::regex_match_context<meta::regex<"a">, char const *>;
using icase = meta::regex_match_context<meta::regex<"a", meta::regex_flag::icase>, char const *>;
template<typename Node, typename Context>
bool one(char c) noexcept { Context ctx{}; return Node::match_one(c, ctx); }
static long bad, n;
static void check(int a, int b, W p, W i)
{
    for (int c = 0; c < 256; ++c, n += 2)
    {
        int o = c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c;
        bool in = a <= c && c <= b, io = in || (a <= o && o <= b);
        if (p(static_cast<char>(c)) != in)
            std::printf("%d %d %d 0\n", a, b, c);
        if (i(static_cast<char>(c)) != io)
            std::printf("%d %d %d 1\n", a, b, c);
    }
}
template<int A, int B>
using R = meta::ast::range<static_cast<char>(A), static_cast<char>(B)>;
template<int A, int... I>
void row(std::integer_sequence<int, I ...>) { (check(A, A + I, &one<R<A, A + I>, plain>, &one<R<A, A + I>, icase>), ...); }
int main()
{
    ROWS
    std::printf("done %ld\n", n);
}
'''


def scan(jobs=8, parts=32):
    """-> (cases to look at, evaluations, ranges not evaluated)"""
    d = tempfile.mkdtemp(prefix='ex_')

    def part(k):
        rows = range(k, 256, parts)
        src, exe = '%s/%d.cpp' % (d, k), '%s/%d' % (d, k)
        with open(src, 'w') as f:
            f.write(SRC.replace('ROWS', '\n    '.join('row<%d>(std::make_integer_sequence<int, %d>{});' % (a, 256 - a) for a in rows)))
        r = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-fbracket-depth=2048', '-ftemplate-depth=4096', '-I' + REPO + '/include', src, '-o', exe], capture_output=True, text=True)
        if r.returncode:
            return [], 0, sum(256 - a for a in rows)
        out = subprocess.run([exe], capture_output=True, text=True, timeout=300).stdout.split('\n')
        return [tuple(map(int, l.split())) for l in out if l and l[0].isdigit()], sum(int(l.split()[1]) for l in out if l.startswith('done')), 0
    try:
        with ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(part, range(parts)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sus = {}
    for bad, _, _ in rs:
        for a, b, c, i in bad:
            sus.setdefault((a, b, i), c)
    cases = [pools.Case('[\\x%02x-\\x%02x]' % (a, b), flags=('icase',) if i else (), alphabet=pools.BYTES, maxlen=1, methods=1) for a, b, i in sorted(sus)[:40]]
    return cases, sum(r[1] for r in rs), sum(r[2] for r in rs)


if __name__ == '__main__':
    import time
    t = time.time()
    c, n, miss = scan()
    print([x.pattern for x in c], n, miss, time.time() - t)
