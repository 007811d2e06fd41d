// C08: vectors against arrays, over histories of accesses.
#include "common.hpp"
using namespace h;
using T = VT;
#ifdef SIZES
using ABIS = size_abis<T, SIZES>;
#else
using ABIS = abis<T>;
#endif
template<class A> void reg()
{
    sub<T, A>("history", +[](Tape &t, Case &c) {
        using S = dpm::simd<T, A>;
        using M = dpm::simd_mask<T, A>;
        constexpr std::size_t N = S::size();
        using B = std::array<T, N>;
        constexpr int K = 3;
        B m[K];
        S v[K] = {S(T(1)), S(T(2)), S(T(3))};
        for (int q = 0; q < K; ++q) m[q].fill(T(q + 1));
        const unsigned steps = 1 + unsigned(t.below(14));
        unsigned changed = 0;
        std::string log;
        for (unsigned s = 0; s < steps && !c.failed; ++s)
        {
            const unsigned op = unsigned(t.below(31));
            const int d = int(t.below(K)), a = int(t.below(K));
            const std::size_t i = t.below(N), j = t.below(N);
            const T x = gen<T>(t);
            c.mixv(op); c.mixv(d); c.mixv(a); c.mixv(i); c.mixv(j); c.mixv(x);
            B r = m[d];
            const char *on = "?";
            std::string extra;
            switch (op)
            {
            case 0: { auto g = gen_lanes<T, N>(t); c.mixv(g); v[d] = S(g.data(), dpm::element_aligned); r = g; on = "construct"; extra = show_arr(g); break; }
            case 1: { auto g = gen_lanes<T, N>(t); c.mixv(g); v[d].copy_from(g.data(), dpm::element_aligned); r = g; on = "copy_from"; extra = show_arr(g); break; }
            case 2: { auto g = gen_lanes<T, N>(t); auto k = gen_mask<N>(t); c.mixv(g); c.mixv(k); v[d].copy_from(g.data(), mk<M>(k, t.next()), dpm::element_aligned); for (std::size_t q = 0; q < N; ++q) if (k[q]) r[q] = g[q]; on = "masked copy_from"; extra = show_arr(g) + " under " + show_arr(k); break; }
            case 3: v[d] = S(x); r.fill(x); on = "broadcast"; break;
            case 4: { const u64 w = t.next(); c.mixv(w); v[d] = S([w](auto q) -> T { return T(w >> (std::size_t(q) % 57)); }); for (std::size_t q = 0; q < N; ++q) r[q] = T(w >> (q % 57)); on = "generator"; break; }
            case 5: v[d][i] = x; r[i] = x; on = "d[i]=x"; break;
            case 6: v[d][i] = v[a][j]; r[i] = m[a][j]; on = "d[i]=a[j]"; break;
            case 7: if constexpr (std::is_floating_point_v<T>) { v[d][i] += x; r[i] += x; } else { v[d][i] ^= x; r[i] = T(r[i] ^ x); } on = "d[i] op= x"; break;
            case 8: if constexpr (std::is_floating_point_v<T>) { v[d][i] *= T(2); r[i] *= T(2); } else { v[d][i] &= x; r[i] = T(r[i] & x); } on = "d[i] op= x (2)"; break;
            case 9: if (std::is_floating_point_v<T> || r[i] != std::numeric_limits<T>::max()) { T o = v[d][i]++; if (!eqv<T>(o, r[i])) c.fail("d[i]++ returned " + show(o) + " expected " + show(r[i])); ++r[i]; } on = "d[i]++"; break;
            case 10: if (std::is_floating_point_v<T> || r[i] != std::numeric_limits<T>::lowest()) { --v[d][i]; --r[i]; } on = "--d[i]"; break;
            case 11: { using std::swap; swap(v[d][i], v[d][j]); std::swap(r[i], r[j]); on = "swap(d[i],d[j])"; break; }
            case 12: v[d] = v[a]; r = m[a]; on = "copy assign"; break;
            case 13: { S w = v[d]; w[i] = x; B e = m[d]; e[i] = x; expect(c, "modified copy", w, e); on = "copy and modify the copy"; break; }
            case 14: { auto g = gen_lanes<T, N>(t); auto e = g; auto k = gen_mask<N>(t); c.mixv(g); c.mixv(k); v[d].copy_to(g.data(), mk<M>(k, t.next()), dpm::element_aligned); for (std::size_t q = 0; q < N; ++q) if (k[q]) e[q] = m[d][q]; if (std::memcmp(g.data(), e.data(), sizeof e)) for (std::size_t q = 0; q < N; ++q) if (!eqv<T>(g[q], e[q])) { c.fail("masked copy_to under " + show_arr(k) + " wrote " + show(g[q]) + " at " + std::to_string(q) + " expected " + show(e[q])); break; } on = "masked copy_to"; break; }
            case 15: { const S &w = v[d]; auto nd = dpm::ext::to_native_data(w); B e{}; if (nd.size_bytes() < sizeof e) c.fail("native data holds " + std::to_string(nd.size_bytes()) + " bytes"); else { std::memcpy(e.data(), nd.data(), sizeof e); for (std::size_t q = 0; q < N; ++q) if (!eqv<T>(e[q], m[d][q])) { c.fail("native data: element " + std::to_string(q) + " is " + show(e[q]) + " expected " + show(m[d][q])); break; } } on = "read native data"; break; }
            case 16: { auto nd = dpm::ext::to_native_data(v[d]); std::memcpy(reinterpret_cast<unsigned char *>(nd.data()) + i * sizeof(T), &x, sizeof x); r[i] = x; on = "write native data"; break; }
            case 17: { auto nd = dpm::ext::to_native_data(v[a]); if constexpr (std::is_constructible_v<S, std::span<const dpm::ext::native_data_type_t<S>, dpm::ext::native_data_size_v<S>>>) { std::span<const dpm::ext::native_data_type_t<S>, dpm::ext::native_data_size_v<S>> cs(nd.data(), nd.size()); v[d] = S(cs); r = m[a]; } on = "construct from native data"; break; }
            case 18: { auto k = gen_mask<N>(t); c.mixv(k); v[d] = dpm::blend(mk<M>(k, t.next()), v[a], v[d]); for (std::size_t q = 0; q < N; ++q) if (k[q]) r[q] = m[a][q]; on = "blend"; extra = show_arr(k); break; }
            case 19: { const S &w = v[d]; for (std::size_t q = 0; q < N; ++q) if (T e = w[q]; !eqv<T>(e, m[d][q])) c.fail("const access: element " + std::to_string(q) + " is " + show(e)); on = "const access"; break; }
            case 20: v[d] += v[a]; for (std::size_t q = 0; q < N; ++q) r[q] = addw(m[d][q], m[a][q]); on = "d+=a"; break;
            case 21: { S o = v[d]++; expect(c, "result of d++", o, m[d]); for (auto &q : r) q = addw(q, T(1)); on = "d++"; break; }
            case 22: { dpm::simd<T, abi::ext::packed_buffer<N>> p(v[a]); expect(c, "conversion to the packed layout", p, m[a]); p[i] = x; v[d] = static_cast<S>(p); r = m[a]; r[i] = x; on = "via packed"; break; }
            case 23: { auto &self = v[d]; v[d] = self; on = "self assign"; break; }
            case 24: { std::swap(v[d], v[a]); std::swap(m[d], m[a]); r = m[d]; on = "swap(d,a)"; break; }
            case 25: { auto &p = v[d][i]; auto &q = v[d][j]; p = x; T seen = q; if (!eqv<T>(seen, i == j ? x : m[d][j])) c.fail("reference read " + show(seen)); r[i] = x; q = m[a][i]; r[j] = m[a][i]; on = "two references"; break; }
            case 26: { auto fx = dpm::to_fixed_size(v[a]); expect(c, "to_fixed_size", fx, m[a]); v[d] = static_cast<S>(fx); r = m[a]; on = "via fixed_size"; break; }
            case 27: { std::array<S, 3> w{v[a], v[d], v[a]}; w[1][i] = x; expect(c, "neighbour in an array of vectors", w[0], m[a]); expect(c, "neighbour in an array of vectors", w[2], m[a]); v[d] = w[1]; r[i] = x; on = "array of vectors"; break; }
            case 28: { S w = std::move(v[d]); v[d] = w; on = "move"; break; }
            case 29: { auto f = [](S p, std::size_t q, T y) { p[q] = y; return p; }; v[d] = f(v[a], i, x); r = m[a]; r[i] = x; on = "pass and return by value"; break; }
            default: { alignas(64) T buf[N + 1]; buf[N] = x; v[d].copy_to(buf, dpm::vector_aligned); if (std::memcmp(&buf[N], &x, sizeof x == 16 ? 10 : sizeof x)) c.fail("copy_to wrote past the end"); v[a].copy_from(buf, dpm::vector_aligned); m[a] = m[d]; r = m[d]; on = "store d, load a"; break; }
            }
            if (c.want_desc || c.failed) { char nm[96]; std::snprintf(nm, sizeof nm, " %s(d%d,a%d,i%zu,j%zu,", on, d, a, i, j); log += nm + show(x) + ")" + extra + ";"; }
            changed += std::memcmp(r.data(), m[d].data(), sizeof r) != 0;
            m[d] = r;
            for (int q = 0; q < K; ++q) expect(c, on, v[q], m[q]);
            if (S::size() != N || v[d].size() != N) c.fail("size()");
        }
        c.nontrivial = changed >= 2;
        c.cls = changed >= 6 ? "changes>=6" : changed >= 2 ? "changes2-5" : "changes<2";
        if (c.want_desc) c.desc = log;
    });
}
H_MAIN(+[] { for_types(ABIS{}, []<class A>() { reg<A>(); }); })
