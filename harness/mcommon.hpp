// Comparison against a higher-precision reference, in units in the last place.
#pragma once
#include "common.hpp"
#include <cstdio>
#include <map>

namespace h
{
template<class F> F ldv(const void *p) { F v; std::memcpy(&v, p, sizeof v); return v; }
// distance between the neighbours of |r| in F (subnormals: the smallest subnormal)
template<class F> long double ulp_of(long double r)
{
    using L = std::numeric_limits<F>;
    r = std::fabs(r);
    if (!(r > (long double) L::min())) return (long double) L::denorm_min();
    if (r > (long double) L::max()) r = L::max();
    return std::ldexp((long double) 1, std::ilogb(r) - (L::digits - 1));
}
// largest error seen per comparison, printed at exit when PBT_ULP is set (used to choose the bounds)
struct UlpStat
{
    struct E { double mx = 0, x = 0, y = 0; };
    std::map<std::string, E> m;
    ~UlpStat() { if (std::getenv("PBT_ULP")) for (auto &[k, v] : m) std::printf("ULP %s %.3f at %a %a\n", k.c_str(), v.mx, v.x, v.y); }
};
inline UlpStat g_ulp;
template<class F> bool near_ulp(const char *name, F g, long double r, double bound, bool zero_sign, double x = 0, double y = 0)
{
    using L = std::numeric_limits<F>;
    if (r != r) return g != g;
    if (g != g) return false;
    if (std::isinf(r)) return std::isinf(g) && (g > 0) == (r > 0);
    const long double u = ulp_of<F>(r);
    if (std::isinf(g)) return (g > 0) == (r > 0) && std::fabs(r) >= (long double) L::max() - (long double) bound * u;
    if (zero_sign && r == 0 && g == 0) return std::signbit(r) == std::signbit(g);
    const double e = double(std::fabs((long double) g - r) / u);
    static const bool st = std::getenv("PBT_ULP") != nullptr;
    if (st) { auto &q = g_ulp.m[std::string(name) + "/" + tn<F>()]; if (e > q.mx) q = {e, x, y}; }
    return e <= bound;
}
// Fn: struct with static name, ref(long double...), bound<F>
template<class F, class Fn> bool ulp1(const void *got, const void *, const void *const *in)
{
    const F x = ldv<F>(in[0]);
    return near_ulp<F>(Fn::name, ldv<F>(got), Fn::ref((long double) x), Fn::template bound<F>, true, x);
}
template<class F, class Fn> bool ulp2(const void *got, const void *, const void *const *in)
{
    const F x = ldv<F>(in[0]), y = ldv<F>(in[1]);
    return near_ulp<F>(Fn::name, ldv<F>(got), Fn::ref((long double) x, (long double) y), Fn::template bound<F>, true, x, y);
}
// values equal, the sign of zero not compared, all NaN alike
template<class F> bool cmp_value(const void *g, const void *e, const void *const *) { const F a = ldv<F>(g), b = ldv<F>(e); return a == b || (a != a && b != b); }
// the sum or difference of a product, fused or rounded in between
template<class F> bool cmp_fma(const void *g, const void *, const void *const *in, int sp, int sc)
{
    const F a = ldv<F>(in[0]), b = ldv<F>(in[1]), c = ldv<F>(in[2]), got = ldv<F>(g);
    const F fused = std::fma(sp < 0 ? -a : a, b, sc < 0 ? -c : c);
    volatile F p = a * b;
    const F q = sp < 0 ? -p : p;
    volatile F s = sc < 0 ? q - c : q + c;
    const F sep = s;
    return eqv<F>(got, fused) || eqv<F>(got, sep);
}
}
namespace h
{
// Runs a computation under one of the four IEEE rounding modes, keeping the compiler from moving it out.
struct RoundMode
{
    int old;
    explicit RoundMode(u8 m) : old(std::fegetround()) { static const int k[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; std::fesetround(k[m & 3]); }
    ~RoundMode() { std::fesetround(old); }
};
// the C library's function itself: compilers inline some of these in ways that hold in the default rounding mode only
#define LIBM(NAME) [](T v) { static decltype(std::NAME(T())) (*volatile f)(T) = [] { if constexpr (sizeof(T) == 4) return ::NAME##f; else if constexpr (sizeof(T) == 8) return ::NAME; else return ::NAME##l; }(); return f(v); }
template<class X> void pin(X &x) { asm volatile("" : "+m"(x) : : "memory"); }
// The bytes behind the last element hold no particular value; a signaling NaN there would raise an exception of its own.
template<class S> S clean_tail(S x)
{
    constexpr std::size_t n = sizeof(typename S::value_type) * S::size();
    if constexpr (sizeof(S) > n) std::memset(reinterpret_cast<char *>(&x) + n, 0, sizeof(S) - n);
    return x;
}
// Floating-point exception flags (FE_*) raised by f on operands read from memory, entered with none raised.
template<class R, class F, class... X> [[gnu::noinline]] int flags_of(R &out, F f, const X &...x)
{
    const unsigned clean = 0x1f80;
    unsigned keep, got;
    R *po = &out;
    auto tp = std::tuple{&x...};
    asm volatile("stmxcsr %0\n\tldmxcsr %1" : "=m"(keep) : "m"(clean) : "memory");
    asm volatile("" : "+r"(po) : "g"(&tp) : "memory");
    *po = std::apply([&](auto *...p) { return f(*p...); }, tp);
    asm volatile("" : : "r"(po) : "memory");
    asm volatile("stmxcsr %0\n\tldmxcsr %1" : "=m"(got) : "m"(keep) : "memory");
    return int(got & (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW | FE_INEXACT));
}
template<class F, class X> [[gnu::noinline]] auto under(u8 mode, X x, F f)
{
    RoundMode m(mode);
    pin(x);
    auto r = f(x);
    pin(r);
    return r;
}
}
