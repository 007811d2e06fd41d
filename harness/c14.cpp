// C14: elementary floating-point functions.
#include "mcommon.hpp"
using namespace h;
template<class T> bool cmp_fdim(const void *g, const void *e, const void *const *in)
{
    const T a = ldv<T>(in[0]), b = ldv<T>(in[1]);
    if (std::isinf(a) && a == b) { const T v = ldv<T>(g); return v == 0 || v != v; } // documented as max(0, a - b), the standard says 0
    return cmp_value<T>(g, e, in);
}
// fdim of operands of any two types, promoted
template<class T, class U> using prom = std::conditional_t<std::is_same_v<T, long double> || std::is_same_v<U, long double>, long double, double>;
template<class T, class U> bool cmp_fdimm(const void *g, const void *e, const void *const *in)
{
    using P = prom<T, U>;
    const P p[2] = {P(ldv<T>(in[0])), P(ldv<U>(in[1]))};
    const void *q[2] = {&p[0], &p[1]};
    return cmp_fdim<P>(g, e, q);
}
template<class T, class U, class W> bool cmp_lerpm(const void *g, const void *, const void *const *in)
{
    using P = decltype(T() + U() + W());
    const P a = ldv<T>(in[0]), b = ldv<U>(in[1]), f = ldv<W>(in[2]), got = ldv<P>(g);
    const long double r = (long double) a + (long double) f * ((long double) b - (long double) a);
    const long double tol = 3 * (long double) std::numeric_limits<P>::epsilon() * (std::fabs((long double) a) + std::fabs((long double) f) * (std::fabs((long double) a) + std::fabs((long double) b)));
    if (!(std::fabs((long double) got - r) <= tol)) return false;
    return f != 0 || got == a; // the start point is exact
}
template<class T> bool cmp_lerp(const void *g, const void *e, const void *const *in) { return cmp_lerpm<T, T, T>(g, e, in); }
template<class T, class U, int SP, int SC> bool cmp_fmam(const void *g, const void *e, const void *const *in)
{
    using P = prom<T, U>;
    const P p[3] = {P(ldv<T>(in[0])), P(ldv<U>(in[1])), P(ldv<T>(in[2]))};
    const void *q[3] = {&p[0], &p[1], &p[2]};
    return cmp_fma<P>(g, e, q, SP, SC);
}
template<class T> bool cmp_quo(const void *g, const void *e, const void *const *in)
{
    const T a = ldv<T>(in[0]), b = ldv<T>(in[1]);
    if (!std::isfinite(a) || b != b || b == 0) return true; // unspecified
    const int x = ldv<int>(g), y = ldv<int>(e);
    return (unsigned(std::abs(x)) & 7) == (unsigned(std::abs(y)) & 7) && (x == 0 || y == 0 || (x < 0) == (y < 0)); // sign and low bits
}
template<class T, class U> bool cmp_quo2(const void *g, const void *e, const void *const *in)
{
    using P = prom<T, U>;
    const P p[2] = {P(ldv<T>(in[0])), P(ldv<U>(in[1]))};
    const void *q[2] = {&p[0], &p[1]};
    return cmp_quo<P>(g, e, q);
}
template<class T> bool fm(const void *g, const void *e, const void *const *in) { return cmp_fma<T>(g, e, in, 1, 1); }
template<class T> bool fs(const void *g, const void *e, const void *const *in) { return cmp_fma<T>(g, e, in, 1, -1); }
template<class T> bool nm(const void *g, const void *e, const void *const *in) { return cmp_fma<T>(g, e, in, -1, 1); }
template<class T> bool ns(const void *g, const void *e, const void *const *in) { return cmp_fma<T>(g, e, in, -1, -1); }
// makes a*b and c of like magnitude in some cases, so that fusing and cancellation matter
template<class T> void fix_fma(void *const *in)
{
    const T a = ldv<T>(in[0]), b = ldv<T>(in[1]); T c = ldv<T>(in[2]);
    std::uint64_t k = 0; std::memcpy(&k, in[2], sizeof(T) < 8 ? sizeof(T) : 8);
    if (k % 3 == 0 && std::isfinite(a * b)) { c = -(a * b); if (k % 2) c = std::nextafter(c, T(0)); std::memcpy(in[2], &c, sizeof c); }
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    if constexpr (std::is_integral_v<T>)
    {
        if constexpr (std::is_signed_v<T>)
            lw<T, A, V<T>>("abs", [](S x) { return dpm::abs(x); }, [](T x) -> T { return x < 0 ? subw(T(0), x) : x; });
    }
    else
    {
        using U = std::conditional_t<std::is_same_v<T, float>, double, float>;
        using SU = dpm::simd<U, A>;
        using I = dpm::rebind_simd_t<int, S>;
        constexpr Dom any = Dom::any, mo = Dom::moderate;
        lw<T, A, V<T>>("abs", [](S x) { return std::tuple{dpm::abs(x), dpm::fabs(x)}; }, [](T x) -> std::tuple<T, T> { return {std::fabs(x), std::fabs(x)}; });
#define BIN(NAME, O) \
        lw<T, A, V<T>, V<T>>(#NAME, [](S a, S b) { return dpm::NAME(a, b); }, [](T a, T b) -> T { return std::NAME(a, b); }, O);
#define BINS(NAME, O) BIN(NAME, O) \
        lw<T, A, V<T>, Sc<T>>(#NAME "_scalar", [](S a, T b) { return dpm::NAME(a, b); }, [](T a, T b) -> T { return std::NAME(a, b); }, O);
        BINS(fmod, (Opt{.weight = 50}))
        BINS(remainder, (Opt{.weight = 50}))
        BINS(fmax, (Opt{.cmp = {cmp_value<T>}}))
        BINS(fmin, (Opt{.cmp = {cmp_value<T>}}))
        BINS(fdim, (Opt{.cmp = {cmp_fdim<T>}}))
        const Opt qo{.cmp = {nullptr, cmp_quo<T>}};
        lw<T, A, V<T>, V<T>>("remquo", [](S a, S b) { dpm::simd<int, A> q(77); S r = dpm::remquo(a, b, &q); return std::tuple{r, q}; }, [](T a, T b) -> std::tuple<T, int> { int q = 0; T r = std::remquo(a, b, &q); return {r, q}; }, qo);
        lw<T, A, V<T>, V<T>>("remquo_rebound", [](S a, S b) { I q(77); S r = dpm::remquo(a, b, &q); return std::tuple{r, q}; }, [](T a, T b) -> std::tuple<T, int> { int q = 0; T r = std::remquo(a, b, &q); return {r, q}; }, qo);
        lw<T, A, V<T>, V<T>>("remquo_packed", [](S a, S b) { dpm::simd<int, abi::ext::packed_buffer<S::size()>> q(77); S r = dpm::remquo(a, b, &q); return std::tuple{r, q}; }, [](T a, T b) -> std::tuple<T, int> { int q = 0; T r = std::remquo(a, b, &q); return {r, q}; }, qo);
        const Opt lo{.dom = {mo, mo, mo}, .cmp = {cmp_lerp<T>}};
        lw<T, A, V<T>, V<T>, V<T>>("lerp", [](S a, S b, S f) { return dpm::lerp(a, b, f); }, [](T a, T b, T f) -> T { return std::lerp(a, b, f); }, lo);
        lw<T, A, V<T>, V<T>, Sc<T>>("lerp_scalar", [](S a, S b, T f) { return dpm::lerp(a, b, f); }, [](T a, T b, T f) -> T { return std::lerp(a, b, f); }, lo);
#define FMA(NAME, REF, CMP) \
        lw<T, A, V<T>, V<T>, V<T>>(#NAME, [](S a, S b, S c) { return dpm::NAME(a, b, c); }, [](T a, T b, T c) -> T { return REF; }, Opt{.dom = {any, any, any}, .cmp = {CMP<T>}, .fix = fix_fma<T>});
        FMA(ext::fmadd, std::fma(a, b, c), fm) FMA(ext::fmsub, std::fma(a, b, -c), fs) FMA(ext::fnmadd, std::fma(-a, b, c), nm) FMA(ext::fnmsub, std::fma(-a, b, -c), ns) FMA(fma, std::fma(a, b, c), fm)
        using P = prom<T, U>;
        // operands of different element types are promoted
#define MIX(NAME, C) \
        lw<T, A, V<T>, V<U>>(#NAME "_mixed", [](S a, SU b) { return dpm::NAME(a, b); }, [](T a, U b) -> P { return std::NAME(P(a), P(b)); }, Opt{.cmp = {C}, .weight = 25});
        MIX(fmod, nullptr) MIX(remainder, nullptr) MIX(fmax, cmp_value<P>) MIX(fmin, cmp_value<P>) MIX(fdim, (cmp_fdimm<T, U>))
        const Opt mq{.cmp = {nullptr, cmp_quo2<T, U>}, .weight = 25};
        lw<T, A, V<T>, V<U>>("remquo_mixed", [](S a, SU b) { dpm::simd<int, A> q(77); auto r = dpm::remquo(a, b, &q); return std::tuple{r, q}; }, [](T a, U b) -> std::tuple<P, int> { int q = 0; P r = std::remquo(P(a), P(b), &q); return {r, q}; }, mq);
        lw<T, A, V<T>, V<U>>("remquo_mixed_ref", [](S a, SU b) { dpm::simd<int, A> q(77); auto r = dpm::ext::remquo(a, b, q); return std::tuple{r, q}; }, [](T a, U b) -> std::tuple<P, int> { int q = 0; P r = std::remquo(P(a), P(b), &q); return {r, q}; }, mq);
        if constexpr (std::is_same_v<A, abi::ext::packed_buffer<5>>) // quotients in vectors of a stricter alignment
        {
            using Q8 = abi::ext::packed_buffer<8>;
            // locals of different sizes beside it move the storage the function uses within the frame
#define RQ(K) lw<T, Q8, V<T>, V<T>>("remquo_aligned" #K, [](dpm::simd<T, Q8> a, dpm::simd<T, Q8> b) { volatile char pad[16 * K + 4]; pad[0] = 0; dpm::simd<int, abi::ext::aligned_vector<8, 32>> q(77); auto r = dpm::remquo(a, b, &q); pad[16 * K] = 0; return std::tuple{r, q}; }, [](T a, T b) -> std::tuple<T, int> { int q = 0; T r = std::remquo(a, b, &q); return {r, q}; }, qo);
            RQ(0) RQ(1) RQ(2) RQ(3)
        }
        lw<T, A, V<T>, V<T>>("remquo_ref", [](S a, S b) { I q(77); S r = dpm::ext::remquo(a, b, q); return std::tuple{r, q}; }, [](T a, T b) -> std::tuple<T, int> { int q = 0; T r = std::remquo(a, b, &q); return {r, q}; }, qo);
        // scalars of another type: the other floating-point type, and integers that float cannot represent
#define MIXS(NAME, C, CI) \
        lw<T, A, V<T>, Sc<U>>(#NAME "_mixed_scalar", [](S a, U b) { return dpm::NAME(a, b); }, [](T a, U b) -> P { return std::NAME(P(a), P(b)); }, Opt{.cmp = {C}, .weight = 25}); \
        lw<T, A, V<T>, Sc<i32>>(#NAME "_int_scalar", [](S a, i32 b) { return dpm::NAME(a, b); }, [](T a, i32 b) -> P { return std::NAME(P(a), P(b)); }, Opt{.cmp = {CI}, .weight = 25});
        MIXS(fmod, nullptr, nullptr) MIXS(remainder, nullptr, nullptr) MIXS(fmax, cmp_value<P>, cmp_value<P>) MIXS(fmin, cmp_value<P>, cmp_value<P>) MIXS(fdim, (cmp_fdimm<T, U>), (cmp_fdimm<T, i32>))
        lw<T, A, V<T>, V<U>, V<T>>("lerp_mixed", [](S a, SU b, S f) { return dpm::lerp(a, b, f); }, [](T a, U b, T f) -> P { return std::lerp(P(a), P(b), P(f)); }, Opt{.dom = {mo, mo, mo}, .cmp = {cmp_lerpm<T, U, T>}, .weight = 25});
        lw<T, A, V<T>, V<T>, Sc<U>>("lerp_mixed_scalar", [](S a, S b, U f) { return dpm::lerp(a, b, f); }, [](T a, T b, U f) -> P { return std::lerp(P(a), P(b), P(f)); }, Opt{.dom = {mo, mo, mo}, .cmp = {cmp_lerpm<T, T, U>}, .weight = 25});
#define FMAM(NAME, SP, SC) \
        lw<T, A, V<T>, V<U>, V<T>>(#NAME "_mixed", [](S a, SU b, S c) { return dpm::NAME(a, b, c); }, [](T a, U b, T c) -> P { return std::fma(SP P(a), P(b), SC P(c)); }, Opt{.cmp = {cmp_fmam<T, U, SP 1, SC 1>}, .weight = 25});
        FMAM(ext::fmadd, +, +) FMAM(ext::fmsub, +, -) FMAM(ext::fnmadd, -, +) FMAM(ext::fnmsub, -, -) FMAM(fma, +, +)
        lw<T, A, V<T>>("nan", [](S a) { return std::tuple{dpm::ext::nan<T, A>(""), a}; }, [](T a) -> std::tuple<T, T> { return {std::numeric_limits<T>::quiet_NaN(), a}; }, Opt{.weight = 5});
    }
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
