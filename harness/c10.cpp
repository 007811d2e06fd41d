// C10: shuffles.  Every index list is a program of its own; the lists are drawn at compile time from SHSEED.
#include "common.hpp"
using namespace h;
using T = VT;
#ifndef SHSEED
#define SHSEED 1
#endif
#ifndef SHLISTS
#define SHLISTS 9
#endif
constexpr u64 cmix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
constexpr std::size_t list_len(std::size_t N, unsigned k, u64 s) { return k % 3 != 2 || N == 1 ? N : 1 + cmix(s * 31 + 7) % N; }
template<std::size_t N, std::size_t M> constexpr std::array<std::size_t, M> make_list(unsigned kind, u64 s)
{
    std::array<std::size_t, M> r{};
    auto rnd = [&](std::size_t i) { return cmix(s * 1000003 + i); };
    constexpr std::size_t E = L<T>; // lanes per 128-bit vector
    switch (kind)
    {
    case 0: for (std::size_t i = 0; i < M; ++i) r[i] = rnd(i) % N; break;                       // independent
    case 1: case 2: { std::array<std::size_t, N> p{}; for (std::size_t i = 0; i < N; ++i) p[i] = i; for (std::size_t i = N; i-- > 1;) { auto j = rnd(i) % (i + 1); auto q = p[i]; p[i] = p[j]; p[j] = q; } for (std::size_t i = 0; i < M; ++i) r[i] = p[i % N]; break; } // permutation
    case 3: for (std::size_t i = 0; i < M; ++i) r[i] = N - 1 - i % N; break;                    // reversed
    case 4: for (std::size_t i = 0; i < M; ++i) r[i] = rnd(0) % N; break;                       // one element repeated
    case 5: for (std::size_t i = 0; i < M; ++i) r[i] = (i + 1 + rnd(0) % N) % N; break;         // rotated
    case 6: for (std::size_t i = 0; i < M; ++i) r[i] = ((i / 2) + rnd(0) % N) % N; break;       // each twice
    case 7: for (std::size_t i = 0; i < M; ++i) r[i] = (i * 2 + rnd(0) % 2) % N; break;         // every other
    case 8: for (std::size_t i = 0; i < M; ++i) { auto b = i / (E > 1 ? E : 1) * E; auto g = N - b < E ? N - b : E; r[i] = b >= N ? rnd(i) % N : b + rnd(i) % g; } break; // within each 128-bit vector
    case 9: for (std::size_t i = 0; i < M; ++i) r[i] = i % N; r[rnd(0) % M] = rnd(1) % N; break; // identity but one
    case 10: for (std::size_t i = 0; i < M; ++i) { auto j = i ^ 1; r[i] = j < N ? j : i % N; } break; // neighbours swapped
    case 11: for (std::size_t i = 0; i < M; ++i) { auto q = i / 4 * 4 % N, o = (rnd(i / 4) % ((N + 3) / 4)) * 4; r[i] = (o + rnd(i) % 4) % N; (void) q; } break; // groups of four from one group of four
    case 12: for (std::size_t i = 0; i < M; ++i) r[i] = (i + N / 2) % N; break;                 // halves exchanged
    case 13: for (std::size_t i = 0; i < M; ++i) r[i] = i % N; break;                            // identity / prefix
    default: // groups of consecutive elements, each from one aligned block of the operand
    {
        const std::size_t g = kind == 14 ? 2 : kind == 15 ? 4 : kind == 16 ? (E > 2 ? E / 2 : 2) : std::size_t(1) << rnd(2000) % 5;
        std::size_t u = kind < 17 ? E : std::size_t(1) << rnd(2001) % 5; // the size of the block
        if (u > 2 * E) u = 2 * E;
        const unsigned how = kind < 17 ? 0 : rnd(2002) % 4; // any elements, consecutive ones, reversed, or one of them
        for (std::size_t i = 0; i < M; ++i)
        {
            const std::size_t b = rnd(i / g) % ((N + u - 1) / u) * u, n = N - b < u ? N - b : u, o = i % g;
            r[i] = b + (how == 0 ? rnd(i + 1000) : how == 1 ? o : how == 2 ? g - 1 - o : rnd(i / g + 3000)) % n;
        }
        break;
    }
    }
    return r;
}
template<class A, unsigned K> void reg_list(const char *name)
{
    constexpr std::size_t N = dpm::simd<T, A>::size();
    constexpr u64 seed = cmix(SHSEED * 7919ull + K * 104729ull + N * 31 + sizeof(T) * 1009 + (A::alignment == SIZE_MAX ? 17 : A::alignment));
    constexpr std::size_t M = list_len(N, K + unsigned(seed >> 20) % 2, seed);
    sub<T, A>(name, +[](Tape &t, Case &c) {
        using S = dpm::simd<T, A>;
        using Mk = dpm::simd_mask<T, A>;
        constexpr unsigned kind = unsigned(K < 2 ? K : K >= 9 ? (K < 12 ? K + 5 : 17) : cmix(seed) % 18);
        constexpr auto idx = make_list<N, M>(kind, seed);
        const auto x = gen_lanes<T, N>(t);
        const auto b = gen_mask<N>(t);
        const u64 k = t.next();
        c.mixv(x); c.mixv(b); c.nontrivial = N == 1 || !uniform(x);
        c.cls = "list kind " + std::to_string(kind);
        std::string li; for (auto i : idx) li += (li.empty() ? "" : ",") + std::to_string(i);
        if (c.want_desc) c.desc = "shuffle<" + li + ">(" + show_arr(x) + ") and of mask " + show_arr(b);
        std::array<T, M> e; std::array<bool, M> eb;
        for (std::size_t i = 0; i < M; ++i) { e[i] = x[idx[i]]; eb[i] = b[idx[i]]; }
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            const auto r = dpm::ext::shuffle<idx[I]...>(mk<S>(x, k));
            const auto rb = dpm::ext::shuffle<idx[I]...>(mk<Mk>(b, k >> 8));
            static_assert(decltype(r)::size() == M && decltype(rb)::size() == M);
            expect(c, ("shuffle<" + li + ">").c_str(), r, e);
            expect(c, ("mask shuffle<" + li + ">").c_str(), rb, eb);
        }(std::make_index_sequence<M>{});
    });
}
template<class A> void reg()
{
    [&]<std::size_t... K>(std::index_sequence<K...>) { (reg_list<A, K>(("list" + std::to_string(K)).c_str()), ...); }(std::make_index_sequence<(dpm::simd<T, A>::size() > L<T> ? SHLISTS + 7 : SHLISTS)>{}); // several native vectors: more groupings
}
template<class U> using more_abis = std::conditional_t<std::is_same_v<U, long double>, tlist<>, tlist<abi::ext::aligned_vector<2 * L<U>, 16>, abi::ext::aligned_vector<4 * L<U>, H_MAXVEC>>>;
H_MAIN(+[] { for_types(more_abis<T>{}, []<class A>() { reg<A>(); }); for_types(vec_abis<T>{}, []<class A>() { reg<A>(); }); for_types(tlist<abi::scalar, abi::ext::packed_buffer<5>, fixed<4>, fixed<1>>{}, []<class A>() { reg<A>(); }); })
