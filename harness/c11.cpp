// C11: blend.
#include "common.hpp"
using namespace h;
using T = VT;
#ifdef SIZES
using ABIS = size_abis<T, SIZES>;
#else
using ABIS = abis<T>;
#endif
template<class A> void reg()
{
    using S = dpm::simd<T, A>;
    using M = dpm::simd_mask<T, A>;
    constexpr std::size_t N = S::size();
    lw<T, A, h::M<T>, V<T>, V<T>>("blend", [](M m, S a, S b) { return dpm::blend(m, a, b); }, [](bool m, T a, T b) -> T { return m ? a : b; });
    lw<T, A, h::M<T>, h::M<T>, h::M<T>>("mask_blend", [](M m, M a, M b) { return dpm::blend(m, a, b); }, [](bool m, bool a, bool b) -> bool { return m ? a : b; });
    lw<T, A, h::M<T>, V<T>, V<T>>("inverted", [](M m, S a, S b) { return std::tuple{dpm::blend(!m, a, b), dpm::blend(~m, a, b), dpm::blend(m ^ M(true), a, b), dpm::blend(m == M(false), a, b)}; },
        [](bool m, T a, T b) -> std::tuple<T, T, T, T> { const T r = m ? b : a; return {r, r, r, r}; });
    lw<T, A, V<T>, V<T>, V<T>>("compared", [](S x, S a, S b) { return std::tuple{dpm::blend(x == a, a, b), dpm::blend(x < b, a, b), dpm::blend(!x, a, b), dpm::blend(x != a, a, b)}; },
        [](T x, T a, T b) -> std::tuple<T, T, T, T> { return {x == a ? a : b, x < b ? a : b, !x ? a : b, x != a ? a : b}; });
    lw<T, A, h::M<T>, V<T>, V<T>>("written", [](M m, S a, S b) {
        M w(false);
        for (std::size_t i = 0; i < N; ++i) w[i] = bool(m[i]);
        M z(true);
        for (std::size_t i = 0; i < N; ++i) z[i] &= bool(m[i]);
        M f = m;
        for (std::size_t i = 0; i < N; ++i) f[i] ^= true;
        return std::tuple{dpm::blend(w, a, b), dpm::blend(z, a, b), dpm::blend(f, b, a), dpm::blend(M([&](auto i) -> bool { return m[i]; }), a, b)};
    }, [](bool m, T a, T b) -> std::tuple<T, T, T, T> { const T r = m ? a : b; return {r, r, r, r}; });
    lw<T, A, h::M<T>, h::M<T>, V<T>, V<T>>("logic", [](M m, M k, S a, S b) { return std::tuple{dpm::blend(m & k, a, b), dpm::blend(m | k, a, b), dpm::blend(m && !k, a, b), dpm::blend(dpm::blend(m, k, !k), a, b)}; },
        [](bool m, bool k, T a, T b) -> std::tuple<T, T, T, T> { return {m && k ? a : b, m || k ? a : b, m && !k ? a : b, m == k ? a : b}; });
    // lanes of a mask may be set through its native data: every value that is not zero is true
    if constexpr (requires(M m) { dpm::ext::to_native_data(m); } && std::is_class_v<S> && sizeof(dpm::ext::native_data_type_t<M>) >= 16)
        lw<T, A, h::M<T>, V<T>, V<T>>("native_mask", [](M m, S a, S b) {
            using U = std::conditional_t<sizeof(T) == 1, u8, std::conditional_t<sizeof(T) == 2, u16, std::conditional_t<sizeof(T) == 4, u32, u64>>>;
            auto nd = dpm::ext::to_native_data(m);
            auto *p = reinterpret_cast<unsigned char *>(nd.data());
            for (std::size_t i = 0; i < N; ++i)
            {
                U u = m[i] ? U(Tape::mix(g_mix + i)) : U(0);
                if ((g_mix >> 9) & 1) u = U(u ? U(1) << (u % (8 * sizeof(T) - 1)) : 0);
                if (m[i] && U(u << 1) == 0) u = 1; // the sign bit alone is a negative zero
                std::memcpy(p + i * sizeof(T), &u, sizeof u);
            }
            asm volatile("" : "+m"(m) : : "memory");
            return std::tuple{dpm::blend(m, a, b), dpm::blend(m, a == b, a != b)};
        }, [](bool m, T a, T b) -> std::tuple<T, bool> { return {m ? a : b, m ? a == b : a != b}; });
    // conditional update through memory
    lw<T, A, h::M<T>, V<T>, V<T>>("update", [](M m, S a, S b) {
        std::array<T, N> x, y;
        a.copy_to(x.data(), dpm::element_aligned); b.copy_to(y.data(), dpm::element_aligned);
        S r = b; r.copy_from(x.data(), m, dpm::element_aligned);
        a.copy_to(y.data(), m, dpm::element_aligned);
        return std::tuple{r, S(y.data(), dpm::element_aligned)};
    }, [](bool m, T a, T b) -> std::tuple<T, T> { return {m ? a : b, m ? a : b}; });
    lw<T, A, V<T>, V<T>>("bool", [](S a, S b) { return std::tuple{dpm::blend(true, a, b), dpm::blend(false, a, b)}; }, [](T a, T b) -> std::tuple<T, T> { return {a, b}; }, Opt{.weight = 20});
}
H_MAIN(+[] { for_types(ABIS{}, []<class A>() { reg<A>(); }); })
