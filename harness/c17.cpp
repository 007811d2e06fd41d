// C17: floating-point decomposition and composition.
#include "mcommon.hpp"
using namespace h;
// exponents over the whole range that matters for T, and the ends of the integer range
template<class T, class I> void fix_exp(void *const *in)
{
    I e = ldv<I>(in[1]);
    const u64 k = Tape::mix(u64(e) * 7 + 3);
    if (k % 4) e = I(i64(k >> 8) % (2 * (std::numeric_limits<T>::max_exponent + std::numeric_limits<T>::digits + 8)));
    if (k % 8 == 7) e = I(i64(k >> 40) % 7);
    std::memcpy(in[1], &e, sizeof e);
}
// the second argument of nextafter next to or equal to the first in half of the cases
template<class T> void fix_near(void *const *in)
{
    const T x = ldv<T>(in[0]); T y = ldv<T>(in[1]);
    u64 k = 0; std::memcpy(&k, in[1], sizeof(T) < 8 ? sizeof(T) : 8);
    switch (Tape::mix(k) % 6) { case 0: y = x; break; case 1: y = -x; break; case 2: y = std::nextafter(x, T(0)); break; default: return; }
    std::memcpy(in[1], &y, sizeof y);
}
template<class T> bool cmp_fexp(const void *g, const void *e, const void *const *in) { return !std::isfinite(ldv<T>(in[0])) || ldv<int>(g) == ldv<int>(e); }
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    using SI = dpm::simd<int, A>;
    using SL = dpm::simd<long, A>;
    const Opt fe{.cmp = {nullptr, cmp_fexp<T>}};
    lw<T, A, V<T>>("frexp", [](S x) { SI e(99); S m = dpm::frexp(x, &e); return std::tuple{m, e}; }, [](T x) -> std::tuple<T, int> { int e = 0; T m = std::frexp(x, &e); return {m, e}; }, fe);
    lw<T, A, V<T>>("frexp_ref", [](S x) { SI e(99); S m = dpm::ext::frexp(x, e); return std::tuple{m, e}; }, [](T x) -> std::tuple<T, int> { int e = 0; T m = std::frexp(x, &e); return {m, e}; }, fe);
    lw<T, A, V<T>>("modf", [](S x) { S i(T(99)); S f = dpm::modf(x, &i); return std::tuple{f, i}; }, [](T x) -> std::tuple<T, T> { T i; T f = std::modf(x, &i); return {f, i}; });
    lw<T, A, V<T>>("modf_in_place", [](S x) { S f = dpm::modf(x, &x); return std::tuple{f, x}; }, [](T x) -> std::tuple<T, T> { T i; T f = std::modf(x, &i); return {f, i}; });
    lw<T, A, V<T>>("modf_halfway", [](S x) { S i(T(99)); S f = dpm::ext::modf(x, i); return std::tuple{f, i}; }, [](T x) -> std::tuple<T, T> { T i; T f = std::modf(x, &i); return {f, i}; }, Opt{.dom = {Dom::halfway}});
    lw<T, A, V<T>>("logb", [](S x) { return dpm::logb(x); }, [](T x) -> T { return std::logb(x); });
    lw<T, A, V<T>>("ilogb", [](S x) { return dpm::ilogb(x); }, [](T x) -> int { return std::ilogb(x); });
    const Opt le{.dom = {Dom::any, Dom::expn}, .fix = fix_exp<T, int>}, ll{.dom = {Dom::any, Dom::expn}, .fix = fix_exp<T, long>};
    lw<T, A, V<T>, V<int>>("ldexp", [](S x, SI e) { return dpm::ldexp(x, e); }, [](T x, int e) -> T { return std::ldexp(x, e); }, le);
    lw<T, A, V<T>, V<int>>("scalbn", [](S x, SI e) { return dpm::scalbn(x, e); }, [](T x, int e) -> T { return std::scalbn(x, e); }, le);
    lw<T, A, V<T>, V<long>>("scalbln", [](S x, SL e) { return dpm::scalbln(x, e); }, [](T x, long e) -> T { return std::scalbln(x, e); }, ll);
    lw<T, A, V<T>, Sc<int>>("ldexp_scalar", [](S x, int e) { return dpm::ldexp(x, e); }, [](T x, int e) -> T { return std::ldexp(x, e); }, le);
    lw<T, A, V<T>, Sc<int>>("scalbn_scalar", [](S x, int e) { return dpm::scalbn(x, e); }, [](T x, int e) -> T { return std::scalbn(x, e); }, le);
    lw<T, A, V<T>, Sc<long>>("scalbln_scalar", [](S x, long e) { return dpm::scalbln(x, e); }, [](T x, long e) -> T { return std::scalbln(x, e); }, ll);
    lw<T, A, V<T>, V<T>>("copysign", [](S a, S b) { return dpm::copysign(a, b); }, [](T a, T b) -> T { return std::copysign(a, b); });
    lw<T, A, V<T>, Sc<T>>("copysign_scalar", [](S a, T b) { return dpm::copysign(a, b); }, [](T a, T b) -> T { return std::copysign(a, b); });
    lw<T, A, V<T>, V<T>>("nextafter", [](S a, S b) { return dpm::nextafter(a, b); }, [](T a, T b) -> T { return std::nextafter(a, b); }, Opt{.weight = 200, .fix = fix_near<T>});
    lw<T, A, V<T>>("frexp_ldexp", [](S x) { SI e(0); S m = dpm::frexp(x, &e); return dpm::ldexp(m, e); }, [](T x) -> T { return x; }, Opt{.dom = {Dom::finite}});
    lw<T, A, V<T>>("modf_sum", [](S x) { S i; S f = dpm::modf(x, &i); return f + i; }, [](T x) -> T { return x; }, Opt{.dom = {Dom::finite}, .cmp = {cmp_value<T>}});
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
