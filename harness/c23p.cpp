// C23, promotion: mathematical functions of integer vectors compute in double, lane by lane.
#include "mcommon.hpp"
using namespace h;
// bounds of the functions themselves are checked elsewhere: this tells a right conversion from a wrong one
template<bool Tan> bool loose(const void *got, const void *exp, const void *const *)
{
    const double g = ldv<double>(got), e = ldv<double>(exp);
    if (e != e || g != g) return e != e && g != g;
    if (g == e || std::isinf(e)) return g == e;
    return std::fabs(g - e) <= 64 * double(ulp_of<double>(e)) + 8 * std::numeric_limits<double>::epsilon() * (Tan ? 1 + e * e : 1);
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    using O = std::conditional_t<std::is_same_v<T, i32>, i16, i32>; // another integer type
    using SO = dpm::simd<O, A>;
    using SF = dpm::simd<float, A>;
    using D = double;
    const Opt any{.cmp = {loose<false>}, .weight = 20}, sm{.dom = {Dom::small, Dom::small, Dom::small}, .cmp = {loose<false>}, .weight = 20}, tn{.cmp = {loose<true>}, .weight = 20}, ex{.weight = 20};
#define P1(NAME, O) lw<T, A, V<T>>(#NAME, [](S x) { return dpm::NAME(x); }, [](T x) -> D { return std::NAME(D(x)); }, O);
    P1(sqrt, any) P1(cbrt, any) P1(exp, sm) P1(exp2, sm) P1(expm1, sm) P1(log, any) P1(log2, any) P1(log10, any) P1(log1p, any)
    P1(sin, any) P1(cos, any) P1(tan, tn) P1(asin, sm) P1(acos, sm) P1(atan, any)
    P1(sinh, sm) P1(cosh, sm) P1(tanh, sm) P1(asinh, any) P1(acosh, any) P1(atanh, sm)
    P1(erf, sm) P1(erfc, sm) P1(tgamma, sm) P1(lgamma, any) P1(logb, ex)
    lw<T, A, V<T>>("rcp", [](S x) { return dpm::ext::rcp(x); }, [](T x) -> D { return 1.0 / D(x); }, any);
    lw<T, A, V<T>>("rsqrt", [](S x) { return dpm::ext::rsqrt(x); }, [](T x) -> D { return 1.0 / std::sqrt(D(x)); }, any);
    lw<T, A, V<T>>("ilogb", [](S x) { return dpm::ilogb(x); }, [](T x) -> int { return std::ilogb(D(x)); }, ex);
#define P2M(NAME, O2) \
    lw<T, A, V<T>, V<O>>(#NAME "_mixed", [](S a, SO b) { return dpm::NAME(a, b); }, [](T a, O b) -> D { return std::NAME(D(a), D(b)); }, O2); \
    lw<T, A, V<T>, V<float>>(#NAME "_float", [](S a, SF b) { return dpm::NAME(a, b); }, [](T a, float b) -> D { return std::NAME(D(a), D(b)); }, O2); \
    lw<T, A, V<float>, V<T>>(#NAME "_float1", [](SF a, S b) { return dpm::NAME(a, b); }, [](float a, T b) -> D { return std::NAME(D(a), D(b)); }, O2);
#define P2(NAME, O1) lw<T, A, V<T>, V<T>>(#NAME, [](S a, S b) { return dpm::NAME(a, b); }, [](T a, T b) -> D { return std::NAME(D(a), D(b)); }, O1); P2M(NAME, O1)
    P2(pow, sm) P2(hypot, any) P2(atan2, any) P2(nextafter, ex) P2(fmod, ex) P2(copysign, ex)
    P2M(remainder, ex) P2M(fdim, (Opt{.cmp = {cmp_value<D>}, .weight = 20}))  // of two vectors of one integer type: documented without promotion
    lw<T, A, V<T>, Sc<O>>("pow_scalar", [](S a, O b) { return dpm::pow(a, b); }, [](T a, O b) -> D { return std::pow(D(a), D(b)); }, sm);
    lw<T, A, V<T>, Sc<D>>("fmod_scalar", [](S a, D b) { return dpm::fmod(a, b); }, [](T a, D b) -> D { return std::fmod(D(a), b); }, ex);
    lw<T, A, V<T>, Sc<float>>("remainder_scalar", [](S a, float b) { return dpm::remainder(a, b); }, [](T a, float b) -> D { return std::remainder(D(a), D(b)); }, ex);
    lw<T, A, V<T>, Sc<D>>("copysign_scalar", [](S a, D b) { return dpm::copysign(a, b); }, [](T a, D b) -> D { return std::copysign(D(a), b); }, ex);
    lw<T, A, V<T>, V<O>>("fmax", [](S a, SO b) { return std::tuple{dpm::fmax(a, b), dpm::fmin(a, b)}; }, [](T a, O b) -> std::tuple<D, D> { return {std::fmax(D(a), D(b)), std::fmin(D(a), D(b))}; }, ex);
    lw<T, A, V<T>, V<O>, V<float>>("lerp", [](S a, SO b, SF f) { return dpm::lerp(a, b, f); }, [](T a, O b, float f) -> D { return D(a) + D(f) * (D(b) - D(a)); }, Opt{.dom = {Dom::small, Dom::small, Dom::small}, .weight = 20});
    lw<T, A, V<T>, V<O>, V<float>>("fma", [](S a, SO b, SF c) { return dpm::fma(a, b, c); }, [](T a, O b, float c) -> D { return D(a) * D(b) + D(c); }, Opt{.dom = {Dom::small, Dom::small, Dom::small}, .weight = 20});
    using I = dpm::simd<int, A>;
    using L = dpm::simd<long, A>;
    lw<T, A, V<T>>("frexp", [](S x) { I e(99); auto m = dpm::frexp(x, &e); return std::tuple{m, e}; }, [](T x) -> std::tuple<D, int> { int e = 0; D m = std::frexp(D(x), &e); return {m, e}; }, ex);
    const Opt le{.dom = {Dom::any, Dom::small}, .weight = 20};
    lw<T, A, V<T>, V<int>>("ldexp", [](S x, I e) { return dpm::ldexp(x, e); }, [](T x, int e) -> D { return std::ldexp(D(x), e); }, le);
    lw<T, A, V<T>, V<int>>("scalbn", [](S x, I e) { return dpm::scalbn(x, e); }, [](T x, int e) -> D { return std::scalbn(D(x), e); }, le);
    lw<T, A, V<T>, V<long>>("scalbln", [](S x, L e) { return dpm::scalbln(x, e); }, [](T x, long e) -> D { return std::scalbln(D(x), e); }, le);
    lw<T, A, V<T>, Sc<int>>("ldexp_scalar", [](S x, int e) { return dpm::ldexp(x, e); }, [](T x, int e) -> D { return std::ldexp(D(x), e); }, le);
    lw<T, A, V<T>>("class", [](S x) { return std::tuple{dpm::fpclassify(x), dpm::isfinite(x), dpm::isnormal(x), dpm::signbit(x)}; }, [](T x) -> std::tuple<int, bool, bool, bool> { return {std::fpclassify(D(x)), std::isfinite(D(x)), std::isnormal(D(x)), std::signbit(D(x))}; }, ex);
    lw<T, A, V<T>, V<O>>("isgreater", [](S a, SO b) { return std::tuple{dpm::isgreater(a, b), dpm::islessequal(a, b)}; }, [](T a, O b) -> std::tuple<bool, bool> { return {D(a) > D(b), D(a) <= D(b)}; }, ex);
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
