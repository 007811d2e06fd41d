// C13: min, max, minmax, clamp.
#include "common.hpp"
using namespace h;
using T = VT;
static bool veq(const void *g, const void *e, const void *const *) { T a, b; std::memcpy(&a, g, sizeof a); std::memcpy(&b, e, sizeof b); return a == b; }
static void unnan(void *p) { if constexpr (std::is_floating_point_v<T>) { T v; std::memcpy(&v, p, sizeof v); if (v != v) { v = std::copysign(T(2), v); std::memcpy(p, &v, sizeof v); } } }
template<int K> void ordered(void *const *in) { for (int i = 0; i < K; ++i) unnan(in[i]); }
static void bounds(void *const *in)
{
    ordered<3>(in);
    T lo, hi; std::memcpy(&lo, in[1], sizeof lo); std::memcpy(&hi, in[2], sizeof hi);
    if (hi < lo) { std::memcpy(in[1], &hi, sizeof hi); std::memcpy(in[2], &lo, sizeof lo); }
}
template<class A> void reg()
{
    using S = dpm::simd<T, A>;
    const Opt o2{.cmp = {veq, veq}, .fix = ordered<2>}, o3{.cmp = {veq, veq}, .fix = bounds};
    lw<T, A, V<T>, V<T>>("min", [](S a, S b) { return dpm::min(a, b); }, [](T a, T b) -> T { return std::min(a, b); }, o2);
    lw<T, A, V<T>, V<T>>("max", [](S a, S b) { return dpm::max(a, b); }, [](T a, T b) -> T { return std::max(a, b); }, o2);
    lw<T, A, V<T>, Sc<T>>("min_scalar", [](S a, T b) { return dpm::min(a, b); }, [](T a, T b) -> T { return std::min(a, b); }, o2);
    lw<T, A, V<T>, Sc<T>>("max_scalar", [](S a, T b) { return dpm::max(a, b); }, [](T a, T b) -> T { return std::max(a, b); }, o2);
    lw<T, A, V<T>, V<T>>("minmax", [](S a, S b) { auto [l, u] = dpm::minmax(a, b); return std::tuple{l, u}; }, [](T a, T b) -> std::tuple<T, T> { return {std::min(a, b), std::max(a, b)}; }, o2);
    lw<T, A, V<T>, Sc<T>>("minmax_scalar", [](S a, T b) { auto [l, u] = dpm::minmax(a, b); return std::tuple{l, u}; }, [](T a, T b) -> std::tuple<T, T> { return {std::min(a, b), std::max(a, b)}; }, o2);
    lw<T, A, V<T>, V<T>, V<T>>("clamp", [](S x, S l, S u) { return dpm::clamp(x, l, u); }, [](T x, T l, T u) -> T { return std::clamp(x, l, u); }, o3);
    lw<T, A, V<T>, Sc<T>, Sc<T>>("clamp_scalar", [](S x, T l, T u) { return dpm::clamp(x, l, u); }, [](T x, T l, T u) -> T { return std::clamp(x, l, u); }, o3);
    lw<T, A, V<T>, V<T>>("same", [](S a, S) { return std::tuple{dpm::min(a, a), dpm::max(a, a)}; }, [](T a, T) -> std::tuple<T, T> { return {a, a}; }, o2);
}
H_MAIN(+[] { for_types(abis<T>{}, []<class A>() { reg<A>(); }); })
