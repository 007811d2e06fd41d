// C23: transcendental functions without kernels of their own, and nexttoward.
#include "mcommon.hpp"
#include <cerrno>
using namespace h;
// within one unit in the last place of the scalar function; the accuracy of the kernels behind hypot and atan2 of
// operands of different types is that of rounding to nearest, so rounding in one direction may add up
template<class F> bool near1(const void *got, const void *exp, const void *const *)
{
#ifdef R_MODES
    constexpr int ulps = 6;
#else
    constexpr int ulps = 1;
#endif
    const F g = ldv<F>(got), e = ldv<F>(exp);
    if (eqv<F>(g, e)) return true;
    if (g != g || e != e) return false;
    F u = e, d = e;
    for (int k = 0; k < ulps; ++k)
    {
        u = std::nextafter(u, std::numeric_limits<F>::infinity()); d = std::nextafter(d, -std::numeric_limits<F>::infinity());
        if (g == u || g == d) return true;
    }
    return false;
}
// exponents for pow that keep most results finite
template<class T> void fix_pow(void *const *in)
{
    T p = ldv<T>(in[1]);
    u64 k = 0; std::memcpy(&k, in[1], sizeof(T) < 8 ? sizeof(T) : 8);
    k = Tape::mix(k);
    switch (k % 4) { case 0: p = T(int(k >> 8 & 31) - 16); break; case 1: p = T(int(k >> 8 & 255) - 128) / 8; break; case 2: p = T(int(k >> 8 & 0xffff) - 32768) / 4096; break; default: return; }
    std::memcpy(in[1], &p, sizeof p);
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
#define P1(NAME, D, W) lw<T, A, V<T>>(#NAME, [](S x) { return dpm::NAME(x); }, [](T x) -> T { return std::NAME(x); }, Opt{.dom = {Dom::D}, .cmp = {near1<T>}, .weight = W}); \
    lw<T, A, V<T>>(#NAME "_any", [](S x) { return dpm::NAME(x); }, [](T x) -> T { return std::NAME(x); }, Opt{.cmp = {near1<T>}, .weight = W / 2});
    P1(exp, moderate, 100) P1(exp2, moderate, 100) P1(expm1, moderate, 100) P1(cbrt, wide, 100)
    P1(sinh, moderate, 100) P1(cosh, moderate, 100) P1(tanh, moderate, 100) P1(asinh, wide, 100) P1(acosh, positive, 100) P1(atanh, unit, 100)
    P1(erf, moderate, 100) P1(erfc, moderate, 100) P1(tgamma, gammad, 60) P1(lgamma, gammad, 60)
    lw<T, A, V<T>, V<T>>("pow", [](S x, S p) { return dpm::pow(x, p); }, [](T x, T p) -> T { return std::pow(x, p); }, Opt{.dom = {Dom::moderate}, .cmp = {near1<T>}, .fix = fix_pow<T>});
    lw<T, A, V<T>, V<T>>("pow_any", [](S x, S p) { return dpm::pow(x, p); }, [](T x, T p) -> T { return std::pow(x, p); }, Opt{.cmp = {near1<T>}});
    lw<T, A, V<T>, Sc<T>>("pow_scalar", [](S x, T p) { return dpm::pow(x, p); }, [](T x, T p) -> T { return std::pow(x, p); }, Opt{.dom = {Dom::positive}, .cmp = {near1<T>}, .fix = fix_pow<T>});
    using P = std::conditional_t<std::is_same_v<T, long double>, long double, double>; // what mixed operands are promoted to
    lw<T, A, V<T>, Sc<int>>("pow_int", [](S x, int p) { return dpm::pow(x, p); }, [](T x, int p) -> P { return std::pow(P(x), P(p)); }, Opt{.dom = {Dom::moderate, Dom::small}, .cmp = {near1<P>}});
    using U = std::conditional_t<std::is_same_v<T, float>, double, float>;
    using SU = dpm::simd<U, A>;
    lw<T, A, V<T>, V<U>>("pow_mixed", [](S x, SU p) { return dpm::pow(x, p); }, [](T x, U p) -> P { return std::pow(P(x), P(p)); }, Opt{.dom = {Dom::positive, Dom::moderate}, .cmp = {near1<P>}});
    lw<T, A, V<T>, V<U>>("atan2_mixed", [](S x, SU p) { return dpm::atan2(x, p); }, [](T x, U p) -> P { return std::atan2(P(x), P(p)); }, Opt{.cmp = {near1<P>}});
    lw<T, A, V<T>, V<U>>("nextafter_mixed", [](S x, SU p) { return dpm::nextafter(x, p); }, [](T x, U p) -> P { return std::nextafter(P(x), P(p)); }, Opt{});
    lw<T, A, V<T>, V<U>>("copysign_mixed", [](S x, SU p) { return dpm::copysign(x, p); }, [](T x, U p) -> P { return std::copysign(P(x), P(p)); }, Opt{});
    lw<T, A, V<T>, V<U>>("hypot_mixed", [](S x, SU p) { return dpm::hypot(x, p); }, [](T x, U p) -> P { return std::hypot(P(x), P(p)); }, Opt{.cmp = {near1<P>}});
    lw<T, A, V<T>, Sc<U>>("pow_mixed_scalar", [](S x, U p) { return dpm::pow(x, p); }, [](T x, U p) -> P { return std::pow(P(x), P(p)); }, Opt{.dom = {Dom::positive, Dom::moderate}, .cmp = {near1<P>}});
    lw<T, A, V<T>, Sc<U>>("copysign_mixed_scalar", [](S x, U p) { return dpm::copysign(x, p); }, [](T x, U p) -> P { return std::copysign(P(x), P(p)); }, Opt{});
    if constexpr (std::is_same_v<T, long double>) // never vectorised: the scalar functions
    {
        P1(sqrt, positive, 100) P1(log, positive, 100) P1(log2, positive, 100) P1(log10, positive, 100) P1(log1p, positive, 100)
        P1(sin, angle, 100) P1(cos, angle, 100) P1(tan, angle, 100) P1(asin, unit, 100) P1(acos, unit, 100) P1(atan, wide, 100)
        lw<T, A, V<T>>("sincos", [](S x) { S s, c; dpm::ext::sincos(x, s, c); return std::tuple{s, c}; }, [](T x) -> std::tuple<T, T> { return {std::sin(x), std::cos(x)}; }, Opt{.dom = {Dom::angle}, .cmp = {near1<T>, near1<T>}});
        lw<T, A, V<T>, V<T>>("atan2", [](S x, S y) { return dpm::atan2(x, y); }, [](T x, T y) -> T { return std::atan2(x, y); }, Opt{.cmp = {near1<T>}});
        lw<T, A, V<T>, V<T>>("hypot", [](S x, S y) { return dpm::hypot(x, y); }, [](T x, T y) -> T { return std::hypot(x, y); }, Opt{.cmp = {near1<T>}});
        lw<T, A, V<T>>("rsqrt", [](S x) { return std::tuple{dpm::ext::rcp(x), dpm::ext::rsqrt(x)}; }, [](T x) -> std::tuple<T, T> { return {1 / x, 1 / std::sqrt(x)}; }, Opt{.cmp = {near1<T>, near1<T>}});
    }
    sub<T, A>("nexttoward", +[](Tape &t, Case &c) {
        constexpr std::size_t N = S::size();
        const auto x = gen_lanes<T, N>(t), y = gen_lanes<T, N>(t);
        const u64 k = t.next();
        c.mixv(x); c.mixv(y); c.nontrivial = N == 1 || !uniform(x);
        std::array<long double, N> to;
        for (std::size_t i = 0; i < N; ++i)
        {
            to[i] = (long double) y[i];
            const u64 m = Tape::mix(k + i);
            if (m % 3 == 0) to[i] = x[i]; // equal
            if (m % 6 == 1 && std::isfinite(x[i])) to[i] = std::nextafter((long double) x[i], m & 64 ? 1e4000L : -1e4000L); // closer than any T
        }
        if (c.want_desc) { c.desc = show_arr(x) + " toward"; for (auto l : to) { char b[64]; std::snprintf(b, sizeof b, " %La", l); c.desc += b; } }
        dpm::simd<long double, A> v;
        for (std::size_t i = 0; i < N; ++i) v[i] = to[i];
        std::array<T, N> e;
        for (std::size_t i = 0; i < N; ++i) e[i] = std::nexttoward(x[i], to[i]);
        expect<S>(c, "nexttoward", dpm::nexttoward(mk<S>(x, k), v), e);
    });
    sub<T, A>("nan", +[](Tape &t, Case &c) {
        char tag[24];
        const u64 k = t.below(4), v = t.next() & 0xffff;
        std::snprintf(tag, sizeof tag, k == 0 ? "" : k == 1 ? "%llu" : "0x%llx", (unsigned long long) v);
        c.mixv(k); c.mixv(v); c.nontrivial = true;
        if (c.want_desc) c.desc = tag;
        std::array<T, S::size()> e;
        e.fill(std::is_same_v<T, float> ? T(std::nanf(tag)) : std::is_same_v<T, double> ? T(std::nan(tag)) : T(std::nanl(tag)));
        const auto g = arr(dpm::ext::nan<T, A>(tag), t.next());
        for (std::size_t i = 0; i < e.size(); ++i) if (std::memcmp(&g[i], &e[i], sizeof(T) == 16 ? 10 : sizeof(T))) c.fail("lane " + std::to_string(i) + " is " + show(g[i]) + " expected " + show(e[i]));
    }, 10);
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
