// C02: bitwise operations and shifts.
#include "common.hpp"
using namespace h;
using T = VT;
template<class A> void reg()
{
    using S = dpm::simd<T, A>;
    const Opt sh{.dom = {Dom::any, Dom::shamt}};
#define BIN(NAME, OP, REF) \
    lw<T, A, V<T>, V<T>>(NAME, [](S a, S b) { return a OP b; }, [](T a, T b) -> T { return T(REF); }); \
    lw<T, A, V<T>, V<T>>(NAME "_assign", [](S a, S b) { S c = a; S &r = (c OP##= b); r = c; return std::tuple{c, a, b}; }, [](T a, T b) -> std::tuple<T, T, T> { return {T(REF), a, b}; }); \
    lw<T, A, V<T>, Sc<T>>(NAME "_scalar", [](S a, T b) { return a OP b; }, [](T a, T b) -> T { return T(REF); }); \
    lw<T, A, V<T>, Sc<T>>(NAME "_assign_scalar", [](S a, T b) { a OP##= b; return a; }, [](T a, T b) -> T { return T(REF); });
    BIN("and", &, a & b)
    BIN("or", |, a | b)
    BIN("xor", ^, a ^ b)
    lw<T, A, V<T>>("not", [](S a) { return ~a; }, [](T a) -> T { return T(~a); });
#define SH(NAME, OP, REF) \
    lw<T, A, V<T>, V<T>>(NAME, [](S a, S b) { return a OP b; }, [](T a, T b) -> T { return T(REF); }, sh); \
    lw<T, A, V<T>, V<T>>(NAME "_assign", [](S a, S b) { S c = a; S &r = (c OP##= b); r = c; return std::tuple{c, a, b}; }, [](T a, T b) -> std::tuple<T, T, T> { return {T(REF), a, b}; }, sh); \
    lw<T, A, V<T>, Sc<T>>(NAME "_scalar", [](S a, T b) { return a OP b; }, [](T a, T b) -> T { return T(REF); }, sh); \
    lw<T, A, V<T>, Sc<u8>>(NAME "_byte", [](S a, u8 b) { return a OP int(b % (sizeof(T) * 8)); }, [](T a, u8 c) -> T { int b = c % (sizeof(T) * 8); return T(REF); }); \
    lw<T, A, V<T>, Sc<T>>(NAME "_assign_scalar", [](S a, T b) { a OP##= b; return a; }, [](T a, T b) -> T { return T(REF); }, sh);
    SH("shl", <<, wu<T>(a) << b)
    SH("shr", >>, a >> b)
    constexpr int W = sizeof(T) * 8, D = std::numeric_limits<T>::digits;
    using UT = std::make_unsigned_t<T>;
#define CSH(N) if constexpr ((N) < D) { \
    lw<T, A, V<T>>("lsl_" #N, [](S a) { return dpm::ext::lsl<(N)>(a); }, [](T a) -> T { return T(UT(UT(a) << ((N) % W))); }); \
    lw<T, A, V<T>>("lsr_" #N, [](S a) { return dpm::ext::lsr<(N)>(a); }, [](T a) -> T { return T(UT(UT(a) >> ((N) % W))); }); \
    if constexpr (std::is_signed_v<T>) { \
        lw<T, A, V<T>>("asl_" #N, [](auto a) { if constexpr (std::is_signed_v<T>) return dpm::ext::asl<(N)>(a); else return a; }, [](T a) -> T { return T(UT(UT(a) << ((N) % W))); }); \
        lw<T, A, V<T>>("asr_" #N, [](auto a) { if constexpr (std::is_signed_v<T>) return dpm::ext::asr<(N)>(a); else return a; }, [](T a) -> T { return T(a >> ((N) % W)); }); } }
    CSH(0) CSH(1) CSH(5) CSH(W / 2) CSH(W / 2 + 1) CSH(W - 2) CSH(W - 1)
#ifdef H_MORE_ABIS
    CSH(2) CSH(3) CSH(4) CSH(6) CSH(8) CSH(16) CSH(31) CSH(32) CSH(33) CSH(47)
#endif
}
H_MAIN(+[] { for_types(abis<T>{}, []<class A>() { reg<A>(); }); })
