// C20: sine, cosine, tangent.
#include "mcommon.hpp"
using namespace h;
template<class F> constexpr long double EPS = std::numeric_limits<F>::epsilon();
// the exact value, in long double; infinite arguments give NaN
inline long double x_sin(long double x) { return std::isinf(x) ? NAN : ::sinl(x); }
inline long double x_cos(long double x) { return std::isinf(x) ? NAN : ::cosl(x); }
inline long double x_tan(long double x) { return std::isinf(x) ? NAN : ::tanl(x); }
constexpr long double PIO4 = 0.785398163397448309616L;
template<class F> bool within(const char *name, F g, long double r, long double lim, F x)
{
    if (r != r) return g != g;
    if (g != g) return false;
    if (x == 0 && r == 0) return g == 0 && std::signbit(g) == std::signbit(x);
    const long double e = std::fabs((long double) g - r);
    static const bool st = std::getenv("PBT_ULP") != nullptr;
    if (st) { auto &q = g_ulp.m[std::string(name) + "/" + tn<F>()]; if (double(e / lim) > q.mx) q = {double(e / lim), double(x), 0}; }
    return e <= lim;
}
template<class F> bool sin_ok(const void *got, const void *, const void *const *in)
{
    const F x = ldv<F>(in[0]);
    const long double r = x_sin(x);
    return within<F>(std::fabs((long double) x) <= PIO4 ? "sin~0" : "sin", ldv<F>(got), r, std::fabs((long double) x) <= PIO4 ? 3 * ulp_of<F>(r) : 2 * EPS<F>, x);
}
template<class F> bool cos_ok(const void *got, const void *, const void *const *in)
{
    const F x = ldv<F>(in[0]);
    return within<F>("cos", ldv<F>(got), x_cos(x), 2 * EPS<F>, x);
}
template<class F> bool tan_ok(const void *got, const void *, const void *const *in)
{
    const F x = ldv<F>(in[0]), g = ldv<F>(got);
    const long double r = x_tan(x), ul = (sizeof(F) == 4 ? 8 : 24) * ulp_of<F>(r);
    if (std::fabs((long double) x) <= PIO4) return within<F>("tan~0", g, r, ul, x);
    if (std::isinf(g)) return std::fabs(r) * EPS<F> * 3 >= 1; // next to a pole
    return within<F>("tan", g, r, ul + 3 * (1 + r * r) * EPS<F>, x);
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    auto SIN = [](T x) -> T { return std::sin(x); };
    auto COS = [](T x) -> T { return std::cos(x); };
    auto TAN = [](T x) -> T { return std::tan(x); };
    auto SC = [](T x) -> std::tuple<T, T> { return {std::sin(x), std::cos(x)}; };
    lw<T, A, V<T>>("sin", [](S x) { return dpm::sin(x); }, SIN, Opt{.dom = {Dom::angle}, .cmp = {sin_ok<T>}, .weight = 200});
    lw<T, A, V<T>>("cos", [](S x) { return dpm::cos(x); }, COS, Opt{.dom = {Dom::angle}, .cmp = {cos_ok<T>}, .weight = 200});
    lw<T, A, V<T>>("tan", [](S x) { return dpm::tan(x); }, TAN, Opt{.dom = {Dom::angle}, .cmp = {tan_ok<T>}, .weight = 200});
    lw<T, A, V<T>>("sincos", [](S x) { S s(T(9)), c(T(9)); dpm::ext::sincos(x, s, c); return std::tuple{s, c}; }, SC, Opt{.dom = {Dom::angle}, .cmp = {sin_ok<T>, cos_ok<T>}, .weight = 200});
    lw<T, A, V<T>>("sincos_in_sine", [](S x) { S c(T(9)); dpm::ext::sincos(x, x, c); return std::tuple{x, c}; }, SC, Opt{.dom = {Dom::angle}, .cmp = {sin_ok<T>, cos_ok<T>}});
    lw<T, A, V<T>>("sincos_in_cosine", [](S x) { S s(T(9)); dpm::ext::sincos(x, s, x); return std::tuple{s, x}; }, SC, Opt{.dom = {Dom::angle}, .cmp = {sin_ok<T>, cos_ok<T>}});
    lw<T, A, V<T>>("sin_any", [](S x) { return dpm::sin(x); }, SIN, Opt{.cmp = {sin_ok<T>}});
    lw<T, A, V<T>>("cos_any", [](S x) { return dpm::cos(x); }, COS, Opt{.cmp = {cos_ok<T>}});
    lw<T, A, V<T>>("tan_any", [](S x) { return dpm::tan(x); }, TAN, Opt{.cmp = {tan_ok<T>}});
    lw<T, A, V<T>>("sincos_any", [](S x) { S s, c; dpm::ext::sincos(x, s, c); return std::tuple{s, c}; }, SC, Opt{.cmp = {sin_ok<T>, cos_ok<T>}});
    sub<T, A>("parity", +[](Tape &t, Case &c) { // sin and tan odd, cos even, bit for bit
        constexpr std::size_t N = S::size();
        const bool any = t.below(4) == 0;
        const auto x = gen_lanes<T, N>(t, any ? Dom::any : Dom::angle);
        const u64 k = t.next();
        c.mixv(x); c.nontrivial = N == 1 || !uniform(x);
        if (c.want_desc) c.desc = show_arr(x);
        std::array<T, N> n;
        for (std::size_t i = 0; i < N; ++i) n[i] = -x[i];
        const S a = mk<S>(x, k), b = mk<S>(n, k >> 2);
        S as, ac, bs, bc;
        dpm::ext::sincos(a, as, ac);
        dpm::ext::sincos(b, bs, bc);
        const auto s0 = arr(dpm::sin(a)), s1 = arr(dpm::sin(b)), c0 = arr(dpm::cos(a)), c1 = arr(dpm::cos(b)), t0 = arr(dpm::tan(a)), t1 = arr(dpm::tan(b));
        const auto p0 = arr(as), p1 = arr(bs), q0 = arr(ac), q1 = arr(bc);
        for (std::size_t i = 0; i < N; ++i)
        {
            const std::string at = " at " + show(x[i]) + " in lane " + std::to_string(i);
            if (!eqv<T>(s0[i], -s1[i])) c.fail("sin is not odd" + at);
            if (!eqv<T>(c0[i], c1[i])) c.fail("cos is not even" + at);
            if (!eqv<T>(t0[i], -t1[i])) c.fail("tan is not odd" + at);
            if (!eqv<T>(p0[i], -p1[i])) c.fail("sine of sincos is not odd" + at);
            if (!eqv<T>(q0[i], q1[i])) c.fail("cosine of sincos is not even" + at);
        }
    });
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
