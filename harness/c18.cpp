// C18: classification and quiet comparisons.
#include "mcommon.hpp"
using namespace h;
// equal operands, and ones that only differ in the bits the narrower type lacks
template<class T, class U> void fix_same(void *const *in)
{
    unsigned char k; std::memcpy(&k, in[1], 1);
    T a; std::memcpy(&a, in[0], sizeof a);
    if (k % 4 == 0) { const U b = U(a); std::memcpy(in[1], &b, sizeof b); }
    if (k % 4 == 1) { U b; std::memcpy(&b, in[1], sizeof b); a = T(b); std::memcpy(in[0], &a, sizeof a); }
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    lw<T, A, V<T>>("fpclassify", [](S x) { return dpm::fpclassify(x); }, [](T x) -> int { return std::fpclassify(x); });
#define P1(NAME) lw<T, A, V<T>>(#NAME, [](S x) { return dpm::NAME(x); }, [](T x) -> bool { return std::NAME(x); });
    P1(isfinite) P1(isinf) P1(isnan) P1(isnormal) P1(signbit)
    using U = std::conditional_t<std::is_same_v<T, float>, double, float>; // operands of another type are promoted
#define P2(NAME) lw<T, A, V<T>, V<T>>(#NAME, [](S a, S b) { return dpm::NAME(a, b); }, [](T a, T b) -> bool { return std::NAME(a, b); }); \
    lw<T, A, V<T>, V<U>>(#NAME "_mixed", [](S a, dpm::simd<U, A> b) { return dpm::NAME(a, b); }, [](T a, U b) -> bool { return std::NAME(a, b); }, Opt{.weight = 30, .fix = fix_same<T, U>});
    P2(isgreater) P2(isgreaterequal) P2(isless) P2(islessequal) P2(islessgreater) P2(isunordered)
    sub<T, A>("quiet", +[](Tape &t, Case &c) { // no exception flag, also with quiet NaNs
        constexpr std::size_t N = S::size();
        const auto x = gen_lanes<T, N>(t), y = gen_lanes<T, N>(t);
        const u64 k = t.next();
        c.mixv(x); c.mixv(y); c.nontrivial = N == 1 || !uniform(x);
        if (c.want_desc) c.desc = show_arr(x) + ", " + show_arr(y);
        const S a = clean_tail(mk<S>(x, k)), b = clean_tail(mk<S>(y, k >> 3));
        typename S::mask_type r{};
#define Q(NAME) if (const int f = flags_of(r, [](const S &p, const S &q) { return dpm::NAME(p, q); }, a, b)) c.fail(#NAME " raised floating-point exceptions " + std::to_string(f));
        Q(isgreater) Q(isgreaterequal) Q(isless) Q(islessequal) Q(islessgreater)
    });
    sub<T, A>("partition", +[](Tape &t, Case &c) { // one class per value, and the predicates agree with it
        constexpr std::size_t N = S::size();
        const auto x = gen_lanes<T, N>(t);
        const u64 k = t.next();
        c.mixv(x); c.nontrivial = N == 1 || !uniform(x);
        if (c.want_desc) c.desc = show_arr(x);
        const S v = mk<S>(x, k);
        const auto cls = arr(dpm::fpclassify(v), k >> 3);
        const auto fin = arr(dpm::isfinite(v)), inf = arr(dpm::isinf(v)), nan = arr(dpm::isnan(v)), nor = arr(dpm::isnormal(v)), sgn = arr(dpm::signbit(v)), nsgn = arr(dpm::signbit(-v));
        const auto uno = arr(dpm::isunordered(v, v));
        for (std::size_t i = 0; i < N; ++i)
        {
            const int q = cls[i];
            if (q != FP_NAN && q != FP_INFINITE && q != FP_ZERO && q != FP_SUBNORMAL && q != FP_NORMAL) c.fail("no class for " + show(x[i]));
            if (fin[i] != (q != FP_NAN && q != FP_INFINITE) || inf[i] != (q == FP_INFINITE) || nan[i] != (q == FP_NAN) || nor[i] != (q == FP_NORMAL) || uno[i] != nan[i]) c.fail("predicates disagree with the class of " + show(x[i]));
            if (sgn[i] == nsgn[i]) c.fail("sign bit of " + show(x[i]) + " and of its negation agree");
        }
        if (dpm::reduce_count(dpm::isnan(v)) + dpm::reduce_count(dpm::isinf(v)) + dpm::reduce_count(dpm::isfinite(v)) != int(N)) c.fail("counts of the classes do not add up");
    });
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
