// C16: rounding to integers.
#include "mcommon.hpp"
using namespace h;
// keeps every rounding of x representable in I
template<class T, class I> void fix_int(void *const *in)
{
    T x = ldv<T>(in[0]);
    auto ok = [](T v) { return cast_ok<I>(std::floor(v)) && cast_ok<I>(std::ceil(v)); };
    if (x != x) x = T(-2.5);
    if (!ok(x))
    {
        const T hi = std::ldexp(T(1), std::numeric_limits<I>::digits);
        x = x < 0 ? -hi : std::nextafter(hi, T(0));
        if (!ok(x)) x = std::floor(x);
    }
    std::memcpy(in[0], &x, sizeof x);
}
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
#define F(NAME, R, FN, REF) lw<T, A, V<T>, Sc<u8>>(NAME, [](S x, u8 m) { return under(m, x, [](S &v) { return FN(v); }); }, [](T x, u8 m) -> R { return under(m, x, [](T v) { return static_cast<R>(LIBM(REF)(v)); }); }, (Opt{.dom = {Dom::halfway}, .fix = fix_int<T, R>}));
    F("lround", long, dpm::lround, lround) F("llround", long long, dpm::llround, llround)
    F("lrint", long, dpm::lrint, lrint) F("llrint", long long, dpm::llrint, llrint)
    F("ltrunc", long, dpm::ext::ltrunc, trunc) F("lltrunc", long long, dpm::ext::lltrunc, trunc)
    F("iround<int>", i32, dpm::ext::iround<i32>, lround) F("irint<int>", i32, dpm::ext::irint<i32>, lrint) F("itrunc<int>", i32, dpm::ext::itrunc<i32>, trunc)
    F("iround<i64>", i64, dpm::ext::iround<i64>, lround) F("irint<i64>", i64, dpm::ext::irint<i64>, lrint) F("itrunc<i64>", i64, dpm::ext::itrunc<i64>, trunc)
    F("iround<i16>", i16, dpm::ext::iround<i16>, lround) F("irint<i16>", i16, dpm::ext::irint<i16>, lrint) F("itrunc<i16>", i16, dpm::ext::itrunc<i16>, trunc)
    F("iround<i8>", i8, dpm::ext::iround<i8>, lround) F("irint<i8>", i8, dpm::ext::irint<i8>, lrint) F("itrunc<i8>", i8, dpm::ext::itrunc<i8>, trunc)
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
