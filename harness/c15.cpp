// C15: rounding to integral values, under every rounding mode.
#include "mcommon.hpp"
using namespace h;
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    const Opt o{.dom = {Dom::halfway}}, o2{.dom = {Dom::any}, .weight = 40};
#define F1(NAME, O) lw<T, A, V<T>, Sc<u8>>(NAME_(NAME, O), [](S x, u8 m) { return under(m, x, [](S &v) { return dpm::NAME(v); }); }, [](T x, u8 m) -> T { return under(m, x, LIBM(NAME)); }, O);
#define NAME_(NAME, O) (O.weight == 40 ? #NAME "_any" : #NAME)
#define F(NAME) F1(NAME, o) F1(NAME, o2)
    F(ceil) F(floor) F(trunc) F(round) F(rint) F(nearbyint)
    lw<T, A, V<T>, Sc<u8>>("fixed_points", [](S x, u8 m) { return under(m, x, [](S &v) { const S t = dpm::trunc(v); return std::tuple{t, dpm::ceil(t), dpm::floor(t), dpm::round(t)}; }); }, [](T x, u8) -> std::tuple<T, T, T, T> { const T t = std::trunc(x); return {t, t, t, t}; }, o);
    lw<T, A, V<T>, Sc<u8>>("fixed_points_mode", [](S x, u8 m) { return under(m, x, [](S &v) { const S t = dpm::trunc(v); return std::tuple{dpm::rint(t), dpm::nearbyint(t), dpm::rint(dpm::floor(v))}; }); }, [](T x, u8) -> std::tuple<T, T, T> { const T t = std::trunc(x); return {t, t, std::floor(x)}; }, o);
    if constexpr (sizeof(T) <= 8) sub<T, A>("exceptions", +[](Tape &t, Case &c) { // nearbyint raises none, rint raises inexact if a lane is not integral
        constexpr std::size_t N = S::size();
        const auto x = gen_lanes<T, N>(t, t.below(2) ? Dom::halfway : Dom::any);
        const u64 k = t.next();
        c.mixv(x); c.nontrivial = N == 1 || !uniform(x);
        if (c.want_desc) c.desc = show_arr(x);
        const S a = clean_tail(mk<S>(x, k));
        S r{};
        if (const int f = flags_of(r, [](const S &p) { return dpm::nearbyint(p); }, a)) c.fail("nearbyint raised floating-point exceptions " + std::to_string(f));
        bool inexact = false;
        for (T v : x) inexact |= std::isfinite(v) && std::trunc(v) != v;
        if (const int f = flags_of(r, [](const S &p) { return dpm::rint(p); }, a); inexact && !(f & FE_INEXACT)) c.fail("rint of a value that is not integral did not raise the inexact exception");
    });
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
