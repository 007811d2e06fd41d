// C04: masks against an array of bool, over histories.
#include "common.hpp"
using namespace h;
using T = VT;
#ifdef SIZES
using ABIS = size_abis<T, SIZES>;
#else
using ABIS = abis<T>;
#endif
template<class A> void reg()
{
    sub<T, A>("history", +[](Tape &t, Case &c) {
        using M = dpm::simd_mask<T, A>;
        constexpr std::size_t N = M::size();
        using B = std::array<bool, N>;
        constexpr int K = 3;
        B m[K];
        M v[K] = {M(true), M(false), M(true)};
        m[0].fill(true); m[1].fill(false); m[2].fill(true);
        const unsigned steps = 1 + unsigned(t.below(12));
        unsigned changed = 0;
        std::string log;
        for (unsigned s = 0; s < steps && !c.failed; ++s)
        {
            const unsigned op = unsigned(t.below(29));
            const int d = int(t.below(K)), a = int(t.below(K)), b = int(t.below(K));
            const std::size_t i = t.below(N), j = t.below(N);
            const bool x = t.below(2);
            c.mixv(op); c.mixv(d); c.mixv(a); c.mixv(b); c.mixv(i); c.mixv(j); c.mixv(x);
            char nm[96];
            auto each = [&](auto f) { B r{}; for (std::size_t q = 0; q < N; ++q) r[q] = f(q); return r; };
            B r = m[d];
            const char *on = "?";
            switch (op)
            {
            case 0: { auto g = gen_mask<N>(t); const u64 k = t.next(); c.mixv(g); v[d] = mk<M>(g, k); r = g; on = "load"; log += " " + show_arr(g); break; }
            case 1: v[d] = v[a] & v[b]; r = each([&](auto q) { return m[a][q] && m[b][q]; }); on = "a&b"; break;
            case 2: v[d] = v[a] | v[b]; r = each([&](auto q) { return m[a][q] || m[b][q]; }); on = "a|b"; break;
            case 3: v[d] = v[a] ^ v[b]; r = each([&](auto q) { return m[a][q] != m[b][q]; }); on = "a^b"; break;
            case 4: v[d] = ~v[a]; r = each([&](auto q) { return !m[a][q]; }); on = "~a"; break;
            case 5: v[d] = !v[a]; r = each([&](auto q) { return !m[a][q]; }); on = "!a"; break;
            case 6: v[d] = v[a] && v[b]; r = each([&](auto q) { return m[a][q] && m[b][q]; }); on = "a&&b"; break;
            case 7: v[d] = v[a] || v[b]; r = each([&](auto q) { return m[a][q] || m[b][q]; }); on = "a||b"; break;
            case 8: v[d] = v[a] == v[b]; r = each([&](auto q) { return m[a][q] == m[b][q]; }); on = "a==b"; break;
            case 9: v[d] = v[a] != v[b]; r = each([&](auto q) { return m[a][q] != m[b][q]; }); on = "a!=b"; break;
            case 10: { M &rf = (v[d] &= v[a]); if (&rf != &v[d]) c.fail("&= does not return its left operand"); r = each([&](auto q) { return m[d][q] && m[a][q]; }); on = "d&=a"; break; }
            case 11: { M &rf = (v[d] |= v[a]); if (&rf != &v[d]) c.fail("|= does not return its left operand"); r = each([&](auto q) { return m[d][q] || m[a][q]; }); on = "d|=a"; break; }
            case 12: { M &rf = (v[d] ^= v[a]); if (&rf != &v[d]) c.fail("^= does not return its left operand"); r = each([&](auto q) { return m[d][q] != m[a][q]; }); on = "d^=a"; break; }
            case 13: v[d][i] = x; r[i] = x; on = "d[i]=x"; break;
            case 14: v[d][i] = v[a][j]; r[i] = m[a][j]; on = "d[i]=a[j]"; break;
            case 15: v[d][i] &= x; r[i] = r[i] & x; on = "d[i]&=x"; break;
            case 16: v[d][i] |= x; r[i] = r[i] | x; on = "d[i]|=x"; break;
            case 17: v[d][i] ^= x; r[i] = r[i] ^ x; on = "d[i]^=x"; break;
            case 18: { using std::swap; swap(v[d][i], v[d][j]); std::swap(r[i], r[j]); on = "swap(d[i],d[j])"; break; }
            case 19: v[d] = M(x); r.fill(x); on = "broadcast"; break;
            case 20: { const u64 w = t.next(); c.mixv(w); v[d] = M([w](auto q) -> bool { return w >> (std::size_t(q) % 61) & 1; }); r = each([&](auto q) { return bool(w >> (q % 61) & 1); }); on = "generator"; break; }
            case 21: { auto g = gen_mask<N>(t); c.mixv(g); v[d].copy_from(g.data(), v[a], dpm::element_aligned); r = each([&](auto q) { return m[a][q] ? g[q] : m[d][q]; }); on = "masked load"; log += " " + show_arr(g); break; }
            case 22: { auto g = gen_mask<N>(t); auto e = g; c.mixv(g); v[d].copy_to(g.data(), v[a], dpm::element_aligned); e = each([&](auto q) { return m[a][q] ? m[d][q] : e[q]; }); if (std::memcmp(g.data(), e.data(), N)) c.fail("masked store wrote " + show_arr(g) + " expected " + show_arr(e)); on = "masked store"; break; }
            case 23: v[d] = dpm::blend(v[a], v[b], v[d]); r = each([&](auto q) { return m[a][q] ? m[b][q] : m[d][q]; }); on = "blend"; break;
            case 24: { dpm::simd_mask<T, abi::ext::packed_buffer<N>> p(v[a]); expect(c, "conversion to the packed layout", p, m[a]); v[d] = static_cast<M>(!p); r = each([&](auto q) { return !m[a][q]; }); on = "via packed"; break; }
            case 25: { auto fx = dpm::to_fixed_size(v[a]); expect(c, "to_fixed_size", fx, m[a]); v[d] = static_cast<M>(fx); r = m[a]; on = "via fixed_size"; break; }
            case 26: { dpm::simd<T, A> sv(T(1)), sw(T(0)); auto w = dpm::blend(v[a], sv, sw); std::array<T, N> e{}; for (std::size_t q = 0; q < N; ++q) e[q] = m[a][q]; expect(c, "blend(a, 1, 0)", w, e); v[d] = w == sv; r = m[a]; on = "via vector"; break; }
            case 27: { if constexpr (std::is_same_v<decltype(dpm::ext::shuffle<0>(v[a])), M> || N == 1) { auto w = dpm::ext::shuffle<0>(v[a]); if (bool(w[0]) != m[a][0]) c.fail("shuffle<0>"); } M w = v[a]; w = +w; v[d] = w; r = m[a]; on = "+a"; break; }
            default: v[d] = v[a]; r = m[a]; on = "copy"; break;
            }
            std::snprintf(nm, sizeof nm, " %s(d%d,a%d,b%d,i%zu,j%zu,%d);", on, d, a, b, i, j, int(x));
            if (c.want_desc || c.failed) log += nm;
            changed += r != m[d];
            m[d] = r;
            for (int q = 0; q < K; ++q) expect(c, on, v[q], m[q]);
            // observers that look at the whole register
            std::size_t n = 0; for (bool z : m[d]) n += z;
            if (dpm::reduce_count(v[d]) != n) c.fail(std::string(on) + ": reduce_count is " + std::to_string(dpm::reduce_count(v[d])) + " expected " + std::to_string(n));
            if (dpm::all_of(v[d]) != (n == N) || dpm::any_of(v[d]) != (n != 0) || dpm::none_of(v[d]) != (n == 0)) c.fail(std::string(on) + ": all_of/any_of/none_of");
        }
        c.nontrivial = changed >= 2;
        c.cls = changed >= 6 ? "changes>=6" : changed >= 2 ? "changes2-5" : "changes<2";
        if (c.want_desc) c.desc = log;
    });
    using M = dpm::simd_mask<T, A>;
    struct Mk : h::M<T> {};
    lw<T, A, h::M<T>, h::M<T>>("laws", [](M a, M b) { return std::tuple{(~(a & b)) == (~a | ~b), a ^ a, (a | b) & a, !(!a)}; },
                              [](bool a, bool) -> std::tuple<bool, bool, bool, bool> { return {true, false, a, a}; });
}
H_MAIN(+[] { for_types(ABIS{}, []<class A>() { reg<A>(); }); })
