// C25/C30: special values, domain errors and their neighbours, under the error-handling options this file is built with.
#include "mcommon.hpp"
using namespace h;
#if defined(DPM_HANDLE_ERRORS)
static constexpr int mode = 2; // every input behaves as the standard says
#elif defined(DPM_PROPAGATE_NAN)
static constexpr int mode = 1; // NaN in, NaN out; other erroneous inputs are undefined
#else
static constexpr int mode = 0; // only valid inputs are defined
#endif
template<class T> T special(Tape &t)
{
    using L = std::numeric_limits<T>;
    static const T pool[] = {T(0), L::infinity(), L::quiet_NaN(), T(1), T(2), L::max(), L::denorm_min(), L::min(), T(0.5), T(3), T(1e5), L::epsilon(), L::min() / 2, T(1) + L::epsilon(), T(1.5), T(171.7), T(35.1), T(40), T(100), T(1e10)};
    const u64 w = t.next();
    T v = pool[w % std::size(pool)];
    if (v != v) // any quiet NaN
    {
        using U = std::conditional_t<sizeof(T) == 4, u32, u64>;
        U b = std::bit_cast<U>(v) | U(w >> 20 & 0xffff);
        v = std::bit_cast<T>(b);
    }
    return w >> 16 & 1 ? -v : v;
}
template<class T> bool same_class(T g, T e, double tolu, double tola, bool loose)
{
    if (e != e) return g != g;
    if (g != g) return false;
    using L = std::numeric_limits<T>;
    if (std::isinf(e)) return g == e || (loose && (g > 0) == (e > 0) && std::fabs(g) >= L::max() / 2);
    if (std::isinf(g)) return (g > 0) == (e > 0) && std::fabs(e) >= L::max() * (1 - 8 * L::epsilon());
    return std::fabs((long double) g - (long double) e) <= tolu * ulp_of<T>(e) + tola * (long double) L::epsilon();
}
// T2: operands per call; Op on vectors; Ref on elements; D: ordinary operands
template<class T, class A, std::size_t K, Dom D, class Op, class Ref> void fn(const char *name, Op, Ref, double tolu = 8, double tola = 0, unsigned weight = 100)
{
    using S = dpm::simd<T, A>;
    constexpr std::size_t N = S::size();
    pbt::add_subject(prefix<T, A>() + name, [=](Tape &t, Case &c) {
        using In = std::array<std::array<T, N>, K>;
        auto ref = [](const In &x, std::size_t i) { if constexpr (K == 1) return T(Ref{}(x[0][i])); else return T(Ref{}(x[0][i], x[1][i])); };
        In x, y;
        for (auto &a : x) a = gen_lanes<T, N>(t, D);
        for (std::size_t i = 0; i < N; ++i) // ordinary: finite operands with a finite result
        {
            auto ok = [&] { for (auto &a : x) if (!std::isfinite(a[i])) return false; const T r = ref(x, i); return std::isfinite(r) && (r == 0 || std::isnormal(r)); };
            for (int q = 0; q < 3 && !ok(); ++q) for (auto &a : x) a[i] = q == 0 ? std::fabs(a[i]) : q == 1 ? T(1.25) : T(0.5);
        }
        y = x;
        const u64 which = t.next(), k = t.next();
        bool hit[N]{}, any = false;
        for (std::size_t i = 0; i < N; ++i)
            for (std::size_t o = 0; o < K; ++o)
                if (Tape::mix(which + i * 3 + o) % 100 < (which & 1 ? 20 : 60)) { y[o][i] = special<T>(t); hit[i] = any = true; }
        for (auto &a : x) c.mixv(a);
        for (auto &a : y) c.mixv(a);
        c.nontrivial = any;
        if (c.want_desc) for (auto &a : y) c.desc += show_arr(a) + " ";
        auto ev = [&](const In &v, u64 s) { if constexpr (K == 1) return arr(Op{}(mk<S>(v[0], s)), s >> 7); else return arr(Op{}(mk<S>(v[0], s), mk<S>(v[1], s >> 3)), s >> 7); };
        const auto r0 = ev(x, k), r1 = ev(y, k >> 11);
        for (std::size_t i = 0; i < N; ++i)
        {
            std::string at = " in lane " + std::to_string(i) + " for";
            for (auto &a : y) at += " " + show(a[i]);
            if (!hit[i] && !eqv(r0[i], r1[i])) c.fail("the result" + at + " changes from " + show(r0[i]) + " to " + show(r1[i]) + " when other lanes become special");
            const T e = ref(y, i);
            bool nan_in = false, fin = true;
            for (auto &a : y) nan_in |= a[i] != a[i], fin &= std::isfinite(a[i]);
            const bool judged = mode == 2 || (mode == 1 && nan_in && e != e) || (fin && std::isfinite(e) && (e != 0 || y[0][i] == 0)); // a result that vanishes is a range error
            if (judged && !same_class(r1[i], e, tolu, tola * (tola < 0 ? -(1 + double(e) * double(e)) : 1), true)) c.fail("the result" + at + " is " + show(r1[i]) + " expected " + show(e));
            // the sign of an exact zero where there is no error
            if (mode == 2 && hit[i] && e == 0 && r1[i] == 0 && K == 1 && y[0][i] == 0 && std::signbit(e) != std::signbit(r1[i])) c.fail("the zero" + at + " is " + show(r1[i]) + " expected " + show(e));
        }
    }, weight);
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
#define F1(NAME, D, ...) fn<T, A, 1, Dom::D>(#NAME, [](S x) { return dpm::NAME(x); }, [](T x) -> T { return std::NAME(x); }, __VA_ARGS__);
#define F2(NAME, D, ...) fn<T, A, 2, Dom::D>(#NAME, [](S x, S y) { return dpm::NAME(x, y); }, [](T x, T y) -> T { return std::NAME(x, y); }, __VA_ARGS__);
    F1(sin, angle, 4, 4) F1(cos, angle, 4, 4) F1(tan, angle, 4, -4) F1(asin, unit, 8) F1(acos, unit, 8, 2) F1(atan, moderate, 8)
    fn<T, A, 1, Dom::angle>("sincos_s", [](S x) { S s(T(3)), c(T(4)); dpm::ext::sincos(x, s, c); return s; }, [](T x) -> T { return std::sin(x); }, 4, 4);
    fn<T, A, 1, Dom::angle>("sincos_c", [](S x) { S s(T(3)), c(T(4)); dpm::ext::sincos(x, s, c); return c; }, [](T x) -> T { return std::cos(x); }, 4, 4);
    F1(log, positive, 8, 2) F1(log2, positive, 8, 2) F1(log10, positive, 8, 2) F1(log1p, positive, 8, 2)
    F1(sqrt, positive, 1) F1(cbrt, wide, 8) F2(hypot, wide, 8) F2(atan2, wide, 8)
    F1(exp, moderate, 8) F1(exp2, moderate, 8) F1(expm1, moderate, 8) F1(sinh, moderate, 8) F1(cosh, moderate, 8) F1(tanh, moderate, 8) F1(asinh, moderate, 8) F1(acosh, positive, 8) F1(atanh, unit, 8)
    F1(erf, moderate, 8) F1(erfc, moderate, 8) F1(tgamma, gammad, 16) F1(lgamma, gammad, 16, 4)
    F2(pow, moderate, 16) F2(fmod, moderate, 0) F2(remainder, moderate, 0)
    F1(ceil, moderate, 0) F1(floor, moderate, 0) F1(trunc, moderate, 0) F1(round, halfway, 0) F1(rint, halfway, 0) F1(nearbyint, halfway, 0) F1(logb, wide, 0) F1(fabs, wide, 0)
    F2(fmax, wide, 0) F2(fmin, wide, 0) F2(nextafter, wide, 0) F2(copysign, wide, 0)
    fn<T, A, 1, Dom::wide>("frexp", [](S x) { dpm::simd<int, A> e(0); return dpm::frexp(x, &e); }, [](T x) -> T { int e; return std::frexp(x, &e); }, 0);
    fn<T, A, 1, Dom::wide>("modf_frac", [](S x) { S i; return dpm::modf(x, &i); }, [](T x) -> T { T i; return std::modf(x, &i); }, 0);
    fn<T, A, 1, Dom::wide>("modf_int", [](S x) { S i; (void) dpm::modf(x, &i); return i; }, [](T x) -> T { T i; (void) std::modf(x, &i); return i; }, 0);
    fn<T, A, 1, Dom::wide>("scalbn", [](S x) { return dpm::scalbn(x, 3); }, [](T x) -> T { return std::scalbn(x, 3); }, 0);
    fn<T, A, 1, Dom::wide>("ldexp", [](S x) { return dpm::ldexp(x, dpm::simd<int, A>(-5)); }, [](T x) -> T { return std::ldexp(x, -5); }, 0);
    fn<T, A, 2, Dom::wide>("fma", [](S x, S y) { return dpm::fma(x, y, S(T(0))); }, [](T x, T y) -> T { return std::fma(x, y, T(0)); }, 2);
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
