// C05: mask reductions.
#include "common.hpp"
using namespace h;
using T = VT;
#ifdef SIZES
using ABIS = size_abis<T, SIZES>;
#else
using ABIS = abis<T>;
#endif
template<class M> void check(Case &c, const M &m, const std::array<bool, M::size()> &e, const char *how)
{
    constexpr std::size_t N = M::size();
    std::size_t n = 0, fi = 0, la = 0; bool seen = false;
    for (std::size_t i = 0; i < N; ++i) if (e[i]) { if (!seen) fi = i; la = i; seen = true; ++n; }
    auto ck = [&](const char *f, std::size_t got, std::size_t exp) { if (got != exp) c.fail(std::string(f) + " of " + show_arr(e) + " (" + how + ") is " + std::to_string(got) + " expected " + std::to_string(exp)); };
    ck("all_of", dpm::all_of(m), n == N);
    ck("any_of", dpm::any_of(m), n != 0);
    ck("none_of", dpm::none_of(m), n == 0);
    ck("some_of", dpm::some_of(m), n != 0 && n != N);
    ck("reduce_count", dpm::reduce_count(m), n);
    if (n) { ck("reduce_min_index", dpm::reduce_min_index(m), fi); ck("reduce_max_index", dpm::reduce_max_index(m), la); }
}
template<class A> void reg()
{
    using M = dpm::simd_mask<T, A>;
    using S = dpm::simd<T, A>;
    constexpr std::size_t N = M::size();
    sub<T, A>("reductions", +[](Tape &t, Case &c) {
        auto e = gen_mask<N>(t);
        const u64 k = t.next();
        const unsigned how = unsigned(t.below(6));
        c.mixv(e); c.mixv(how);
        c.nontrivial = N == 1 || !uniform(e);
        c.cls = uniform(e) ? "uniform" : "mixed";
        if (c.want_desc) c.desc = "mask=" + show_arr(e) + " route=" + std::to_string(how);
        M m = mk<M>(e, k);
        const char *hn = "loaded";
        auto ne = e; for (auto &b : ne) b = !b;
        switch (how)
        {
        case 1: m = !mk<M>(ne, k); hn = "operator!"; break;
        case 2: m = ~mk<M>(ne, k); hn = "operator~"; break;
        case 3: { std::array<T, N> x{}; for (std::size_t i = 0; i < N; ++i) x[i] = e[i] ? T(3) : T(7); m = mk<S>(x, k) == S(T(3)); hn = "operator=="; break; }
        case 4: { auto g = gen_mask<N>(t); std::array<bool, N> q{}; for (std::size_t i = 0; i < N; ++i) q[i] = g[i] != e[i]; m = mk<M>(g, k) ^ mk<M>(q, k >> 9); hn = "operator^"; break; }
        case 5: { std::array<T, N> x{}; for (std::size_t i = 0; i < N; ++i) x[i] = e[i] ? T(7) : T(3); m = !(mk<S>(x, k) <= S(T(3))); hn = "!(<=)"; break; }
        default: break;
        }
        check(c, m, e, hn);
    });
    if constexpr (N <= 10)
        sub<T, A>("exhaustive", +[](Tape &t, Case &c) {
            const u64 k = t.next();
            c.mixv(k % 64); c.nontrivial = true;
            if (c.want_desc) c.desc = "all " + std::to_string(1u << N) + " masks, padding variant " + std::to_string(k % 64);
            for (unsigned w = 0; w < (1u << N); ++w)
            {
                std::array<bool, N> e{};
                for (std::size_t i = 0; i < N; ++i) e[i] = w >> i & 1;
                check(c, mk<M>(e, k), e, "loaded");
                std::array<bool, N> ne = e; for (auto &b : ne) b = !b;
                check(c, !mk<M>(ne, k), e, "operator!");
            }
        }, 1);
}
H_MAIN(+[] { for_types(ABIS{}, []<class A>() { reg<A>(); }); })
