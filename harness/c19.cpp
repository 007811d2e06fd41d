// C19: logarithms.
#include "mcommon.hpp"
using namespace h;
// |error| <= K ulp of the exact result + E eps (the kernels subtract tabulated logarithms, so that the error next
// to a result of zero is relative to 1), and at most CAP ulp in all.
template<class F, class Fn> bool log_ok(const void *got, const void *, const void *const *in)
{
    const F x = ldv<F>(in[0]), g = ldv<F>(got);
    const long double r = Fn::ref((long double) x);
    if (r != r || std::isinf(r) || r == 0) return near_ulp<F>(Fn::name, g, r, 0, Fn::zero_sign, x);
    const bool near_zero = std::fabs((long double) x - (Fn::zero_sign ? 0 : 1)) < 1.0e-3L;
    if (!near_ulp<F>((std::string(Fn::name) + (near_zero ? "~0" : "")).c_str(), g, r, near_zero ? Fn::template cap0<F> : Fn::template cap<F>, false, x)) return false;
    const long double err = std::fabs((long double) g - r), lim = 3 * ulp_of<F>(r) + 2 * (long double) std::numeric_limits<F>::epsilon();
    return err <= lim;
}
#define FN(NAME, CAP32, CAP64, Z32, Z64) struct f_##NAME { static constexpr const char *name = #NAME; static constexpr bool zero_sign = std::string_view(#NAME) == "log1p"; \
    static long double ref(long double x) { return ::NAME##l(x); } \
    template<class F> static constexpr double cap = sizeof(F) == 4 ? CAP32 : CAP64; \
    template<class F> static constexpr double cap0 = sizeof(F) == 4 ? Z32 : Z64; };
FN(log, 100, 1500, 4, 4) FN(log10, 100, 1500, 4, 4) FN(log1p, 100, 1500, 4, 4) FN(log2, 100, 1500, 4, 1e300)
struct f_log2p { static constexpr const char *name = "log2p"; static long double ref(long double x) { return ::log2l(x); } template<class F> static constexpr double bound = 1.01; };
template<class T> void fix_pow2(void *const *in)
{
    T x = ldv<T>(in[0]);
    u64 k = 0; std::memcpy(&k, in[0], sizeof(T));
    using L = std::numeric_limits<T>;
    x = std::ldexp(T(1), int(k % u64(L::max_exponent - L::min_exponent + L::digits)) + L::min_exponent - L::digits);
    std::memcpy(in[0], &x, sizeof x);
}
// log1p: arguments above -1, of both signs, down to the smallest
template<class T> void fix_l1p(void *const *in)
{
    T x = ldv<T>(in[0]);
    u64 k = 0; std::memcpy(&k, in[0], sizeof(T));
    switch (Tape::mix(k) % 8)
    {
    case 0: x = x - 1; break;
    case 1: if (x < 1 && x > 0) x = -x; break;
    case 2: x = std::ldexp(x, -int(Tape::mix(k + 1) % 60)); break;
    case 3: if (x < 1 && x > 0) x = x - 1; break;
    default: break;
    }
    std::memcpy(in[0], &x, sizeof x);
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    lw<T, A, V<T>>("log", [](S x) { return dpm::log(x); }, [](T x) -> T { return std::log(x); }, Opt{.dom = {Dom::positive}, .cmp = {log_ok<T, f_log>}, .weight = 200});
    lw<T, A, V<T>>("log2", [](S x) { return dpm::log2(x); }, [](T x) -> T { return std::log2(x); }, Opt{.dom = {Dom::positive}, .cmp = {log_ok<T, f_log2>}, .weight = 200});
    lw<T, A, V<T>>("log10", [](S x) { return dpm::log10(x); }, [](T x) -> T { return std::log10(x); }, Opt{.dom = {Dom::positive}, .cmp = {log_ok<T, f_log10>}, .weight = 200});
    lw<T, A, V<T>>("log1p", [](S x) { return dpm::log1p(x); }, [](T x) -> T { return std::log1p(x); }, Opt{.dom = {Dom::positive}, .cmp = {log_ok<T, f_log1p>}, .weight = 200, .fix = fix_l1p<T>});
    // any bit pattern: negative arguments, zeros, infinities, NaN
    lw<T, A, V<T>>("log_any", [](S x) { return dpm::log(x); }, [](T x) -> T { return std::log(x); }, Opt{.cmp = {log_ok<T, f_log>}});
    lw<T, A, V<T>>("log2_any", [](S x) { return dpm::log2(x); }, [](T x) -> T { return std::log2(x); }, Opt{.cmp = {log_ok<T, f_log2>}});
    lw<T, A, V<T>>("log10_any", [](S x) { return dpm::log10(x); }, [](T x) -> T { return std::log10(x); }, Opt{.cmp = {log_ok<T, f_log10>}});
    lw<T, A, V<T>>("log1p_any", [](S x) { return dpm::log1p(x); }, [](T x) -> T { return std::log1p(x); }, Opt{.cmp = {log_ok<T, f_log1p>}});
    lw<T, A, V<T>>("log2_pow2", [](S x) { return dpm::log2(x); }, [](T x) -> T { return T(std::ilogb(x)); }, Opt{.cmp = {ulp1<T, f_log2p>}, .weight = 50, .fix = fix_pow2<T>});
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
