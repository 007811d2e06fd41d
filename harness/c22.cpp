// C22: square root, reciprocals, hypot.
#include "mcommon.hpp"
using namespace h;
struct f_hypot { static constexpr const char *name = "hypot"; static long double ref(long double a, long double b) { return std::isinf(a) || std::isinf(b) ? (long double) INFINITY : ::hypotl(a, b); } template<class F> static constexpr double bound = 2; };
// Relative error of the hardware approximations (1.5 * 2^-12), correctly rounded division otherwise; arguments or results
// outside the normal range may be flushed to zero or infinity by the hardware.
template<class F> bool approx(F x, F g, long double r)
{
    using L = std::numeric_limits<F>;
    if (r != r) return g != g;
    if (g != g) return false;
    if (x == 0 || std::isinf(x) || r == 0 || std::isinf(r)) return (long double) g == r && std::signbit(g) == std::signbit(r);
    const long double lim = sizeof(F) == 4 ? 1.6L / 4096 : 3 * (long double) L::epsilon();
    if (std::fabs((long double) g - r) <= lim * std::fabs(r) + (std::fabs(r) < (long double) L::min() ? (long double) L::denorm_min() : 0)) return true;
    if (std::signbit(g) != std::signbit(r)) return false;
    if (std::fabs(r) >= (long double) L::max() * (1 - lim) && std::isinf(g)) return true;
    if (sizeof(F) == 4 && std::fabs(x) < L::min() && std::isinf(g)) return true;
    if (sizeof(F) == 4 && std::fabs(r) <= (long double) L::min() * (1 + 2 * lim) && g == 0) return true;
    return false;
}
template<class F> bool rcp_ok(const void *got, const void *, const void *const *in)
{
    const F x = ldv<F>(in[0]);
    return approx<F>(x, ldv<F>(got), x == 0 ? std::copysign((long double) INFINITY, (long double) x) : std::isinf(x) ? std::copysign(0.0L, (long double) x) : 1.0L / x);
}
template<class F> bool rsqrt_ok(const void *got, const void *, const void *const *in)
{
    const F x = ldv<F>(in[0]), g = ldv<F>(got);
    if (sizeof(F) == 4 && x < 0 && x > -std::numeric_limits<F>::min() && std::isinf(g)) return true; // flushed to -0
    return approx<F>(x, g, x == 0 ? std::copysign((long double) INFINITY, (long double) x) : std::isinf(x) && x > 0 ? 0.0L : x < 0 ? (long double) NAN : 1.0L / std::sqrt((long double) x));
}
// exponents of the two arguments within, at and beyond the kernels' thresholds
template<class T> void fix_hypot(void *const *in)
{
    T a = ldv<T>(in[0]), b = ldv<T>(in[1]);
    u64 k = 0; std::memcpy(&k, in[1], sizeof(T) < 8 ? sizeof(T) : 8);
    k = Tape::mix(k);
    using L = std::numeric_limits<T>;
    switch (k % 8)
    {
    case 0: case 1: case 2: // a gap of a few up to twice as many binary digits as T has
        if (std::isfinite(a) && a != 0) b = std::ldexp(T(1) + T((k >> 16) & 0xffff) / 65536, std::ilogb(a) - int((k >> 32) % (L::digits + 15)));
        break;
    case 3: b = a; break;
    case 4: a = T(3) * T(k >> 8 & 0xff), b = T(4) * T(k >> 8 & 0xff); break;
    case 5: { const int e = int((k >> 8) % u64(L::max_exponent - L::min_exponent + L::digits)) + L::min_exponent - L::digits; a = std::ldexp(T(1) + T((k >> 24) & 0xffff) / 65536, e - 1); b = std::ldexp(T(1) + T((k >> 40) & 0xffff) / 65536, e - 1 - int((k >> 4) % 3)); break; }
    default: break;
    }
    if (k >> 63) std::swap(a, b);
    if (k >> 62 & 1) b = -b;
    std::memcpy(in[0], &a, sizeof a); std::memcpy(in[1], &b, sizeof b);
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    lw<T, A, V<T>>("sqrt", [](S x) { return dpm::sqrt(x); }, [](T x) -> T { return std::sqrt(x); }, Opt{.weight = 200});
    lw<T, A, V<T>>("sqrt_positive", [](S x) { return dpm::sqrt(x); }, [](T x) -> T { return std::sqrt(x); }, Opt{.dom = {Dom::positive}, .weight = 200});
    lw<T, A, V<T>, V<T>>("hypot", [](S a, S b) { return dpm::hypot(a, b); }, [](T a, T b) -> T { return std::hypot(a, b); }, Opt{.cmp = {ulp2<T, f_hypot>}, .weight = 400, .fix = fix_hypot<T>});
    lw<T, A, V<T>, V<T>>("hypot_any", [](S a, S b) { return dpm::hypot(a, b); }, [](T a, T b) -> T { return std::hypot(a, b); }, Opt{.cmp = {ulp2<T, f_hypot>}, .weight = 200});
    lw<T, A, V<T>>("rcp", [](S x) { return dpm::ext::rcp(x); }, [](T x) -> T { return T(1) / x; }, Opt{.cmp = {rcp_ok<T>}});
    lw<T, A, V<T>>("rcp_wide", [](S x) { return dpm::ext::rcp(x); }, [](T x) -> T { return T(1) / x; }, Opt{.dom = {Dom::wide}, .cmp = {rcp_ok<T>}});
    lw<T, A, V<T>>("rsqrt", [](S x) { return dpm::ext::rsqrt(x); }, [](T x) -> T { return T(1) / std::sqrt(x); }, Opt{.cmp = {rsqrt_ok<T>}});
    lw<T, A, V<T>>("rsqrt_positive", [](S x) { return dpm::ext::rsqrt(x); }, [](T x) -> T { return T(1) / std::sqrt(x); }, Opt{.dom = {Dom::positive}, .cmp = {rsqrt_ok<T>}});
    sub<T, A>("laws", +[](Tape &t, Case &c) { // hypot: symmetric, even in both arguments, scales by powers of two, not below the larger argument
        constexpr std::size_t N = S::size();
        auto x = gen_lanes<T, N>(t, Dom::any), y = gen_lanes<T, N>(t);
        const u64 k = t.next();
        c.mixv(x); c.mixv(y); c.nontrivial = N == 1 || !uniform(x);
        if (c.want_desc) c.desc = show_arr(x) + " " + show_arr(y);
        const S a = mk<S>(x, k), b = mk<S>(y, k >> 2);
        const auto h0 = arr(dpm::hypot(a, b)), h1 = arr(dpm::hypot(b, a)), h2 = arr(dpm::hypot(-a, b)), h3 = arr(dpm::hypot(a, -b));
        for (std::size_t i = 0; i < N; ++i)
        {
            const std::string at = " at " + show(x[i]) + "," + show(y[i]) + " in lane " + std::to_string(i);
            if (!eqv<T>(h0[i], h1[i])) c.fail("hypot is not symmetric" + at);
            if (!eqv<T>(h0[i], h2[i]) || !eqv<T>(h0[i], h3[i])) c.fail("hypot depends on signs" + at);
            if (x[i] == x[i] && y[i] == y[i] && !(h0[i] >= std::fmax(std::fabs(x[i]), std::fabs(y[i])))) c.fail("hypot is below its larger argument" + at);
        }
    });
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
