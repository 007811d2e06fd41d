// C09: conversions between element types and layouts.
#include "common.hpp"
using namespace h;
using T = VT;
#ifdef SIZES
using ABIS = size_abis<T, SIZES>;
#else
using ABIS = abis<T>;
#endif
// keeps static_cast<U>(x) defined
template<class U> void fix_cast(void *const *in)
{
    T v; std::memcpy(&v, in[0], sizeof v);
    if (cast_ok<U>(v)) return;
    if constexpr (std::is_floating_point_v<T> && std::is_integral_v<U>)
    {
        if (v == v) // fold into the range, staying near its ends
        {
            const T hi = std::ldexp(T(1), std::numeric_limits<U>::digits);
            v = v > 0 ? std::nextafter(hi, T(0)) : std::is_signed_v<U> ? -hi : T(-0.5);
            if (cast_ok<U>(v)) { std::memcpy(in[0], &v, sizeof v); return; }
        }
    }
    v = T(3);
    std::memcpy(in[0], &v, sizeof v);
}
template<class A> void reg()
{
    using S = dpm::simd<T, A>;
    using M = dpm::simd_mask<T, A>;
    constexpr std::size_t N = S::size();
    for_types(tlist<i8, u8, i16, u16, i32, u32, i64, u64, f32, f64>{}, []<class U>() {
        static const std::string n = std::string("to_") + ty_name(ty_of<U>());
        lw<T, A, V<T>>(n.c_str(), [](S x) { return std::tuple{static_cast<dpm::simd<U, fixed<N>>>(x), static_cast<dpm::simd<U, abi::ext::packed_buffer<N>>>(x), dpm::simd_cast<U>(x), dpm::static_simd_cast<dpm::rebind_simd_t<U, S>>(x)}; },
                       [](T x) -> std::tuple<U, U, U, U> { const U u = static_cast<U>(x); return {u, u, u, u}; }, Opt{.fix = fix_cast<U>});
        static const std::string mn = std::string("mask_to_") + ty_name(ty_of<U>());
        lw<T, A, h::M<T>>(mn.c_str(), [](M x) { return std::tuple{static_cast<dpm::simd_mask<U, fixed<N>>>(x), static_cast<dpm::rebind_simd_t<U, M>>(x)}; }, [](bool x) -> std::tuple<bool, bool> { return {x, x}; }, Opt{.weight = 30});
    });
    lw<T, A, V<T>>("layouts", [](S x) {
        const auto p = dpm::static_simd_cast<dpm::simd<T, abi::ext::packed_buffer<N>>>(x);
        const auto f = dpm::to_fixed_size(x);
        const auto a16 = static_cast<dpm::simd<T, abi::ext::aligned_vector<N, 16>>>(p);
        return std::tuple{static_cast<S>(p), static_cast<S>(f), a16, dpm::simd_cast<S>(static_cast<dpm::simd<T, fixed<N>>>(a16))};
    }, [](T x) -> std::tuple<T, T, T, T> { return {x, x, x, x}; });
    lw<T, A, h::M<T>>("mask_layouts", [](M x) {
        const auto p = static_cast<dpm::simd_mask<T, abi::ext::packed_buffer<N>>>(x);
        const auto f = dpm::to_fixed_size(x);
        const auto a16 = static_cast<dpm::simd_mask<T, abi::ext::aligned_vector<N, 16>>>(p);
        return std::tuple{static_cast<M>(p), static_cast<M>(f), a16, static_cast<M>(a16)};
    }, [](bool x) -> std::tuple<bool, bool, bool, bool> { return {x, x, x, x}; });
    if constexpr (N == dpm::simd<T, abi::native<T>>::size())
        lw<T, A, V<T>, h::M<T>>("native", [](S x, M m) { return std::tuple{dpm::to_native(x), dpm::to_compatible(x), dpm::to_native(m), dpm::to_compatible(m)}; }, [](T x, bool m) -> std::tuple<T, T, bool, bool> { return {x, x, m, m}; });
}
H_MAIN(+[] { for_types(ABIS{}, []<class A>() { reg<A>(); }); for_types(tlist<abi::native<T>>{}, []<class A>() { reg<A>(); }); })
