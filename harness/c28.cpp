// C28: operations on the portable layouts evaluated by the compiler and by the program.
#include "common.hpp"
#include <bit>
using namespace h;
using T = VT;
#ifndef SHSEED
#define SHSEED 1
#endif
#ifndef SHROWS
#define SHROWS 16
#endif
constexpr u64 cmix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
enum class Kind { moderate, any };
template<class T = VT> constexpr T elem(u64 w, Kind k)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        using U = std::conditional_t<sizeof(T) == 4, u32, u64>;
        using Lm = std::numeric_limits<T>;
        if (k == Kind::any && w % 3 == 0) { constexpr T sp[] = {T(0), -T(0), Lm::infinity(), -Lm::infinity(), Lm::max(), Lm::lowest(), Lm::min(), Lm::denorm_min(), T(1), T(-1), T(0.5), T(-2.5)}; return sp[(w >> 8) % 12]; }
        if (k == Kind::any && w % 3 == 1) { T v = std::bit_cast<T>(static_cast<U>(w >> 3)); return v != v ? T(3) : v; }
        return T(i64(w >> 20 & 0xfffff) - 0x80000) / T(1u << (w >> 8 & 15));
    }
    else
    {
        using Lm = std::numeric_limits<T>;
        // overflow is not a constant expression
        if (k == Kind::moderate && sizeof(T) > 1) return T(int(w >> 8 & 127) - (std::is_signed_v<T> ? 64 : 0));
        if (w % 4 == 0) { constexpr T sp[] = {T(0), T(1), Lm::max(), Lm::min(), T(-1), T(Lm::max() - 1), T(Lm::max() / 2), T(2)}; return sp[(w >> 8) % 8]; }
        return w % 4 == 1 ? T(w >> 40 & 15) : T(w >> 8);
    }
}
template<std::size_t N> struct Row { std::array<T, N> a{}, b{}; std::array<bool, N> m{}; };
template<std::size_t N> constexpr Row<N> row(std::size_t i, Kind k)
{
    Row<N> r;
    const u64 s = cmix(SHSEED * 48271ull + i * 16807 + sizeof(T) * 131 + N);
    for (std::size_t q = 0; q < N; ++q)
    {
        r.a[q] = elem(cmix(s + q * 4), k); r.b[q] = elem(cmix(s + q * 4 + 1), k); r.m[q] = cmix(s + q * 4 + 2) >> 40 & 1;
        if (cmix(s + q * 4 + 3) % 5 == 0) r.b[q] = r.a[q];
    }
    return r;
}
template<class R> struct out_array;
template<class U, class A> struct out_array<dpm::simd<U, A>> { using type = std::array<U, dpm::simd<U, A>::size()>; };
template<class U, class A> struct out_array<dpm::simd_mask<U, A>> { using type = std::array<bool, dpm::simd_mask<U, A>::size()>; };
template<class R> constexpr auto flat(const R &r)
{
    if constexpr (dpm::is_simd_v<R> || dpm::is_simd_mask_v<R>)
    {
        typename out_array<R>::type o{};
        for (std::size_t i = 0; i < o.size(); ++i) o[i] = r[i];
        return o;
    }
    else return std::array<R, 1>{r};
}
template<class A, class Op> constexpr auto eval(Op op, const Row<dpm::simd<T, A>::size()> &r)
{
    return flat(op(dpm::simd<T, A>(r.a.data(), dpm::element_aligned), dpm::simd<T, A>(r.b.data(), dpm::element_aligned), dpm::simd_mask<T, A>(r.m.data(), dpm::element_aligned)));
}
template<class A, Kind K, class Op> void op(const char *name, Op)
{
    static constexpr std::size_t N = dpm::simd<T, A>::size();
    using R = decltype(eval<A>(Op{}, Row<N>{}));
    static constexpr std::array<R, SHROWS> table = [] { std::array<R, SHROWS> t{}; for (std::size_t i = 0; i < SHROWS; ++i) t[i] = eval<A>(Op{}, row<N>(i, K)); return t; }();
    sub<T, A>(name, +[](Tape &t, Case &c) {
        const std::size_t i = t.below(SHROWS);
        Row<N> r = row<N>(i, K);
        asm volatile("" : "+m"(r) : : "memory");
        c.mixv(i); c.nontrivial = N == 1 || !uniform(r.a) || !uniform(r.b);
        if (c.want_desc) c.desc = "row " + std::to_string(i) + ": " + show_arr(r.a) + " " + show_arr(r.b) + " mask " + show_arr(r.m);
        const R got = eval<A>(Op{}, r);
        for (std::size_t q = 0; q < got.size(); ++q) if (!eqv(got[q], table[i][q])) c.fail("element " + std::to_string(q) + " is " + show(table[i][q]) + " when evaluated by the compiler and " + show(got[q]) + " at run time");
    });
}
template<class A> void reg()
{
    using S = dpm::simd<T, A>;
    using M = dpm::simd_mask<T, A>;
    static constexpr std::size_t N = S::size();
    constexpr Kind mod = Kind::moderate, any = Kind::any;
#define O(NAME, K, ...) op<A, K>(NAME, [](S a, S b, M m) { (void) a; (void) b; (void) m; return __VA_ARGS__; });
    O("add", mod, a + b) O("sub", mod, a - b) O("mul", mod, a * b) O("neg", mod, -a) O("plus", any, +a)
    O("add_scalar", mod, a + b[0]) O("sub_scalar", mod, a - b[0]) O("mul_scalar", mod, a * b[0])
    op<A, mod>("compound", [](S a, S b, M) { a += b; a -= b[N - 1]; a *= b; return a; });
    op<A, mod>("increments", [](S a, S b, M) { S c = a++; ++b; c += b--; return --c; });
    op<A, mod>("div", [](S a, S b, M m) { for (std::size_t i = 0; i < N; ++i) if (b[i] == T(0) || b[i] == T(-1)) b[i] = T(3); (void) m; return a / b; });
    O("eq", any, a == b) O("ne", any, a != b) O("lt", any, a < b) O("le", any, a <= b) O("gt", any, a > b) O("ge", any, a >= b) O("not", any, !a)
    O("blend", any, dpm::blend(m, a, b)) O("min", any, dpm::min(a, b)) O("max", any, dpm::max(a, b)) O("clamp", any, dpm::clamp(a, dpm::min(a, b), dpm::max(a, b)))
    op<A, any>("minmax", [](S a, S b, M) { auto [l, h] = dpm::minmax(a, b); return dpm::blend(l == a, l, h); });
    O("mask_logic", any, (m && (a < b)) || (!m ^ (a == b))) O("mask_bits", any, (~m & (a > b)) | (m ^ (a != b))) O("mask_eq", any, m == (a < b)) O("mask_ne", any, m != (a < b)) O("mask_blend", any, dpm::blend(m, a < b, a > b))
    O("all_of", any, dpm::all_of(a <= b)) O("any_of", any, dpm::any_of(a < b)) O("none_of", any, dpm::none_of(a == b)) O("some_of", any, dpm::some_of(m)) O("count", any, u64(dpm::reduce_count(m)))
    op<A, any>("first_last", [](S, S, M m) { m[0] = true; return u64(dpm::reduce_min_index(m)) * 100 + u64(dpm::reduce_max_index(m)); });
    O("hmin", any, dpm::reduce_min(a)) O("hmax", any, dpm::reduce_max(a))
    op<A, any>("access", [](S a, S b, M m) { for (std::size_t i = 0; i < N; ++i) { if (m[i]) a[i] = b[N - 1 - i]; m[i] = !m[i]; } return dpm::blend(m, a, b); });
    op<A, any>("masked_copy", [](S a, S b, M m) { T buf[N]{}; b.copy_to(buf, m, dpm::element_aligned); a.copy_from(buf, m, dpm::element_aligned); return a; });
    op<A, any>("masked_construct", [](S a, S b, M m) { T buf[N]{}; a.copy_to(buf, dpm::element_aligned); return dpm::blend(m, S(buf, m, dpm::element_aligned), b); });
    op<A, any>("generator", [](S a, S, M) { return S([&](auto i) { return T(a[N - 1 - i]); }); });
    op<A, any>("to_packed", [](S a, S, M) { return dpm::simd<T, abi::ext::packed_buffer<N>>(a); });
    O("broadcast", any, S(a[N - 1]))
#ifndef __clang__ // the result has a native layout, which clang does not evaluate
        O("shuffle", any, dpm::ext::shuffle<N - 1, 0, N / 2>(a)) O("mask_shuffle", any, dpm::ext::shuffle<N - 1, 0, N / 2>(m))
#endif
    if constexpr (std::is_integral_v<T>)
    {
        O("and", any, a & b) O("or", any, a | b) O("xor", any, a ^ b) O("inv", any, ~a) O("and_scalar", any, a & b[0]) O("or_scalar", any, a | b[0]) O("xor_scalar", any, a ^ b[0])
        O("shl", any, a << 1) O("shr", any, a >> 2) O("lsl", any, dpm::ext::lsl<3>(a)) O("lsr", any, dpm::ext::lsr<3>(a)) 
        op<A, any>("shifts", [](S a, S b, M) { b &= T(7); if (a[0] & 1) a <<= b; else a >>= b; return a; });
        op<A, any>("mod", [](S a, S b, M) { for (std::size_t i = 0; i < N; ++i) if (b[i] == T(0) || b[i] == T(-1)) b[i] = T(3); return a % b; });
        O("reduce", mod, dpm::reduce(a)) O("reduce_xor", any, dpm::reduce(a, std::bit_xor<>{})) O("to_f64", any, dpm::static_simd_cast<dpm::rebind_simd_t<double, S>>(a)) O("to_i8", any, dpm::static_simd_cast<dpm::rebind_simd_t<i8, S>>(a)) O("to_u64", any, dpm::static_simd_cast<dpm::rebind_simd_t<u64, S>>(a))
        if constexpr (std::is_signed_v<T>) { O("asr", any, dpm::ext::asr<2>(a)) }
    }
    else
    {
        // the product is exact: whether it is rounded before the subtraction is up to the compiler and its options
        op<A, mod>("fmadd", [](S a, S b, M) { for (std::size_t i = 0; i < N; ++i) { a[i] = T((long long)(a[i]) % 512); b[i] = T((long long)(b[i]) % 512); } return dpm::ext::fmsub(a, b, a); });
        O("reduce", mod, dpm::reduce(a)) O("reduce_mul", mod, dpm::reduce(dpm::clamp(a, S(T(-4)), S(T(4))), std::multiplies<>{}))
        O("to_f64", any, dpm::static_simd_cast<dpm::rebind_simd_t<double, S>>(a)) O("to_f32", mod, dpm::static_simd_cast<dpm::rebind_simd_t<float, S>>(a)) O("to_i32", mod, dpm::static_simd_cast<dpm::rebind_simd_t<i32, S>>(a)) O("to_i64", mod, dpm::static_simd_cast<dpm::rebind_simd_t<i64, S>>(a))
#ifndef __clang__ // the standard functions these call are constant expressions with GCC only
        O("abs", any, dpm::abs(a)) O("fabs", any, dpm::fabs(a)) O("fmax", mod, dpm::fmax(a, b)) O("fmin", mod, dpm::fmin(a, b)) O("fdim", mod, dpm::fdim(a, b)) 
        O("copysign", any, dpm::copysign(a, b)) O("signbit", any, dpm::signbit(a)) O("isnan", any, dpm::isnan(a)) O("isinf", any, dpm::isinf(a)) O("isfinite", any, dpm::isfinite(a)) O("isnormal", any, dpm::isnormal(a)) O("isgreater", any, dpm::isgreater(a, b)) O("islessequal", any, dpm::islessequal(a, b)) O("isunordered", any, dpm::isunordered(a, b))
        O("floor", any, dpm::floor(a)) O("ceil", any, dpm::ceil(a)) O("trunc", any, dpm::trunc(a)) O("round", any, dpm::round(a)) O("rcp", mod, dpm::ext::rcp(dpm::max(a, S(T(0.125))))) O("sqrt", mod, dpm::sqrt(dpm::max(a, S(T(0)))))
        op<A, mod>("sincos_in_place", [](S a, S b, M m) { // outputs may be the operand; the values themselves may differ in the last place
            S s0(T(9)), c0(T(9)), s1 = a, c1(T(9)), s2(T(9)), c2 = a;
            dpm::ext::sincos(a, s0, c0), dpm::ext::sincos(s1, s1, c1), dpm::ext::sincos(c2, s2, c2);
            m = m && s0 == s1 && s0 == s2 && c0 == c1 && c0 == c2;
            return dpm::blend(m, a, b);
        });
#endif
    }
}
H_MAIN(+[] { reg<abi::scalar>(); reg<abi::ext::packed_buffer<2>>(); reg<abi::ext::packed_buffer<7>>(); reg<abi::ext::packed_buffer<16>>(); })
