// C21: inverse trigonometric functions.
#include "mcommon.hpp"
using namespace h;
#define FN(NAME, CNAME, B) struct f_##NAME { static constexpr const char *name = #NAME; static long double ref(long double x) { return CNAME(x); } template<class F> static constexpr double bound = B; };
FN(asin, ::asinl, 5) FN(acos, ::acosl, 4) FN(atan, ::atanl, 3)
struct f_atan2 { static constexpr const char *name = "atan2"; static long double ref(long double a, long double b) { return ::atan2l(a, b); } template<class F> static constexpr double bound = 3; };
// the second argument of the same magnitude, or much larger or smaller, or a special one
template<class T> void fix_atan2(void *const *in)
{
    const T a = ldv<T>(in[0]); T b = ldv<T>(in[1]);
    u64 k = 0; std::memcpy(&k, in[1], sizeof(T) < 8 ? sizeof(T) : 8);
    switch (Tape::mix(k) % 12) { case 0: b = a; break; case 1: b = -a; break; case 2: b = a * T(k % 100); break; case 3: b = T(0); break; case 4: b = -T(0); break; default: return; }
    std::memcpy(in[1], &b, sizeof b);
}
// |x| log-uniform around the thresholds of the kernels for half of the cases
template<class T> void fix_atan(void *const *in)
{
    T x = ldv<T>(in[0]);
    u64 k = 0; std::memcpy(&k, in[0], sizeof(T));
    k = Tape::mix(k);
    if (k % 2) return;
    static const double th[] = {0.4142135623730950488, 0.66, 1.0, 2.4142135623730950488, 0.625, 0x1p-12, 0x1p-26, 0x1p30};
    const double c = th[(k >> 1) % 8];
    const double f = (k >> 8) % 3 == 0 ? 1 + (double((k >> 16) % 65) - 32) * (sizeof(T) == 4 ? 0x1p-23 : 0x1p-52) : 0.5 + double((k >> 16) % 65537) / 65536;
    x = std::copysign(T(c * f), x);
    std::memcpy(in[0], &x, sizeof x);
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    auto ASIN = [](T x) -> T { return std::asin(x); };
    auto ACOS = [](T x) -> T { return std::acos(x); };
    auto ATAN = [](T x) -> T { return std::atan(x); };
    auto ATAN2 = [](T a, T b) -> T { return std::atan2(a, b); };
    const Opt as{.dom = {Dom::unit}, .cmp = {ulp1<T, f_asin>}, .weight = 200}, ac{.dom = {Dom::unit}, .cmp = {ulp1<T, f_acos>}, .weight = 200};
    lw<T, A, V<T>>("asin", [](S x) { return dpm::asin(x); }, ASIN, as);
    lw<T, A, V<T>>("acos", [](S x) { return dpm::acos(x); }, ACOS, ac);
    lw<T, A, V<T>>("asin_any", [](S x) { return dpm::asin(x); }, ASIN, Opt{.cmp = {ulp1<T, f_asin>}});
    lw<T, A, V<T>>("acos_any", [](S x) { return dpm::acos(x); }, ACOS, Opt{.cmp = {ulp1<T, f_acos>}});
    lw<T, A, V<T>>("atan", [](S x) { return dpm::atan(x); }, ATAN, Opt{.cmp = {ulp1<T, f_atan>}, .weight = 200, .fix = fix_atan<T>});
    lw<T, A, V<T>, V<T>>("atan2", [](S a, S b) { return dpm::atan2(a, b); }, ATAN2, Opt{.cmp = {ulp2<T, f_atan2>}, .fix = fix_atan2<T>});
    sub<T, A>("parity", +[](Tape &t, Case &c) { // asin, atan, atan2 in its first argument are odd; acos(-x) is pi - acos(x)
        constexpr std::size_t N = S::size();
        const auto x = gen_lanes<T, N>(t, t.below(2) ? Dom::any : Dom::unit), y = gen_lanes<T, N>(t);
        const u64 k = t.next();
        c.mixv(x); c.mixv(y); c.nontrivial = N == 1 || !uniform(x);
        if (c.want_desc) c.desc = show_arr(x) + " " + show_arr(y);
        std::array<T, N> n;
        for (std::size_t i = 0; i < N; ++i) n[i] = -x[i];
        const S a = mk<S>(x, k), b = mk<S>(n, k >> 2), d = mk<S>(y, k >> 4);
        const auto s0 = arr(dpm::asin(a)), s1 = arr(dpm::asin(b)), t0 = arr(dpm::atan(a)), t1 = arr(dpm::atan(b));
        const auto q0 = arr(dpm::atan2(a, d)), q1 = arr(dpm::atan2(b, d)), c0 = arr(dpm::acos(a)), c1 = arr(dpm::acos(b));
        for (std::size_t i = 0; i < N; ++i)
        {
            const std::string at = " at " + show(x[i]) + " in lane " + std::to_string(i);
            if (!eqv<T>(s0[i], -s1[i])) c.fail("asin is not odd" + at);
            if (!eqv<T>(t0[i], -t1[i])) c.fail("atan is not odd" + at);
            if (!eqv<T>(q0[i], -q1[i])) c.fail("atan2 is not odd" + at);
            if (x[i] == x[i] && std::fabs(x[i]) <= 1 && !(std::fabs(c0[i] + c1[i] - T(3.14159265358979323846L)) <= 8 * std::numeric_limits<T>::epsilon())) c.fail("acos(x) + acos(-x) is not pi" + at);
        }
    });
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
