// Shared adapters between the engine and dpm: ABI lists, operand loading with poisoned padding lanes, and
// registration of lane-wise differential subjects.
#pragma once
#include <dpm/simd.hpp>
#include <array>
#include <bit>
#include <cfenv>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <numeric>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "pbt.hpp"

namespace h
{
using namespace pbt;
using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t; using i64 = std::int64_t;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using f32 = float; using f64 = double;
namespace abi = dpm::simd_abi;

#if defined(__AVX512F__)
#define H_MAXVEC 64
#elif defined(__AVX__)
#define H_MAXVEC 32
#else
#define H_MAXVEC 16
#endif

template<class... Ts> struct tlist {};
template<class F, class... Ts> void for_types(tlist<Ts...>, F f) { (f.template operator()<Ts>(), ...); }
template<std::size_t N> using fixed = abi::fixed_size<N>;
template<class T> constexpr std::size_t L = 16 / sizeof(T); // lanes of a 128-bit vector

// The ABIs every property is run over.  Chosen so that each storage shape occurs: generic scalar and packed
// buffer, full and partial single vectors, several vectors with and without a partial tail, vectors narrower
// and wider than the default for their size, 256-bit vectors of which only the lower half is occupied.
template<class, class> struct cat2;
template<class... A, class... B> struct cat2<tlist<A...>, tlist<B...>> { using type = tlist<A..., B...>; };
template<class A, class B> using cat = typename cat2<A, B>::type;
using generic_abis = tlist<abi::scalar, abi::ext::packed_buffer<5>>;
#if defined(__AVX__)
template<class T> using vec_abis = tlist<
    std::conditional_t<(L<T> > 2), fixed<L<T> - 1>, abi::ext::aligned_vector<3, 16>>, fixed<L<T>>, fixed<2 * L<T> - 1>,
    fixed<2 * L<T> + 1>, abi::ext::aligned_vector<(L<T> > 2 ? L<T> / 2 + 1 : 2), 32>
#else
template<class T> using vec_abis = tlist<fixed<(L<T> > 2 ? L<T> - 1 : 3)>, fixed<L<T>>, fixed<2 * L<T> + 1>
#endif
#ifdef H_MORE_ABIS
    , fixed<1>, fixed<2 * L<T>>, fixed<4 * L<T> + L<T> / 2 + 1>, abi::ext::aligned_vector<3 * L<T>, 16>, abi::ext::aligned_vector<L<T> + 1, 16>,
    abi::ext::aligned_vector<L<T> + 1, 32>
#endif
    >;
template<class T> struct ld_abis { using type = vec_abis<T>; };
template<> struct ld_abis<long double> { using type = tlist<fixed<1>, fixed<3>, abi::ext::aligned_vector<4, 32>>; };
#if defined(H_MORE_ABIS) || !defined(__AVX__) && !defined(__SSE3__) || defined(__AVX2__)
template<class T> using abis = cat<generic_abis, typename ld_abis<T>::type>;
#else
template<class T> using abis = typename ld_abis<T>::type; // the generic ABIs do not depend on the instruction set: sse2 and avx2 cover them
#endif

// Every length from 8 * K + 1 to 8 * K + 8 that one 128-bit or 256-bit vector and one more element can hold, so
// that every fill level of the last vector occurs.
template<std::size_t N, std::size_t Al, bool Use> using size_abi = std::conditional_t<Use, tlist<abi::ext::aligned_vector<N, Al>>, tlist<>>;
template<class... Ls> struct catn { using type = tlist<>; };
template<class X, class... Ls> struct catn<X, Ls...> { using type = cat<X, typename catn<Ls...>::type>; };
template<class T, std::size_t B, class> struct size_list;
template<class T, std::size_t B, std::size_t... I> struct size_list<T, B, std::index_sequence<I...>>
{
    using type = cat<typename catn<size_abi<B + I, 16, (B + I <= L<T> + 1)>...>::type, typename catn<size_abi<B + I, 32, (H_MAXVEC > 16 && B + I <= 2 * L<T> + 1)>...>::type>;
};
template<class T, std::size_t K> using size_abis = typename size_list<T, 8 * K + 1, std::make_index_sequence<8>>::type;
template<class A> struct abi_name_ { static std::string get() { return "?"; } };
template<> struct abi_name_<abi::scalar> { static std::string get() { return "scalar"; } };
template<std::size_t N, std::size_t Al> struct abi_name_<abi::ext::aligned_vector<N, Al>>
{
    static std::string get()
    {
        if (Al == 0) return "fixed" + std::to_string(N);
        if (Al == SIZE_MAX) return "packed" + std::to_string(N);
        return "av" + std::to_string(N) + "a" + std::to_string(Al);
    }
};
template<class A> std::string abi_name() { return abi_name_<A>::get(); }
template<class T> std::string tn() { return ty_name(ty_of<T>()); }

// ---------- operand loading ----------
template<class T> T poison(u64 k)
{
    if constexpr (std::is_same_v<T, bool>) return k & 1;
    else if constexpr (std::is_floating_point_v<T>)
    {
        using N = std::numeric_limits<T>;
        switch (k % 8) { case 0: return 0; case 1: return N::quiet_NaN(); case 2: return N::infinity(); case 3: return -N::infinity(); case 4: return -1; case 5: return N::max(); case 6: return T(-0.0); default: return T(1234.5); }
    }
    else
    {
        using N = std::numeric_limits<T>;
        switch (k % 6) { case 0: return 0; case 1: return T(-1); case 2: return N::min(); case 3: return N::max(); case 4: return T(0x5a5a5a5a5a5a5a5aull); default: return 1; }
    }
}
// Builds a vector with the given elements along one of several public routes; the route decides what the
// padding lanes of the native storage hold.
template<class S> [[gnu::noinline]] S load_simd(const void *p, u64 k)
{
    using T = typename S::value_type;
    constexpr std::size_t n = S::size();
    T e[n];
    std::memcpy(e, p, sizeof e);
    switch (k % 4)
    {
    case 0: { S x(e, dpm::element_aligned); return x; }
    case 1: { S x(poison<T>(k >> 3)); x.copy_from(e, dpm::element_aligned); return x; }
    default: { S x(poison<T>(k >> 3)); for (std::size_t i = 0; i < n; ++i) x[i] = e[i]; return x; }
    }
}
template<class M> [[gnu::noinline]] M load_mask(const void *p, u64 k)
{
    constexpr std::size_t n = M::size();
    bool e[n];
    std::memcpy(e, p, sizeof e);
    switch (k % 4)
    {
    case 0: { M x(e, dpm::element_aligned); return x; }
    case 1: { M x(bool(k & 8)); x.copy_from(e, dpm::element_aligned); return x; }
    default: { M x(bool(k & 8)); for (std::size_t i = 0; i < n; ++i) x[i] = e[i]; return x; }
    }
}
template<class X> [[gnu::noinline]] void store(const X &x, void *p, u64 k)
{
    using T = typename X::value_type;
    constexpr std::size_t n = X::size();
    T e[n];
    if (k & 1) for (std::size_t i = 0; i < n; ++i) e[i] = T(x[i]);
    else x.copy_to(e, dpm::element_aligned);
    std::memcpy(p, e, sizeof e);
}
template<class> struct is_simd : std::false_type {};
template<class T, class A> struct is_simd<dpm::simd<T, A>> : std::true_type {};
template<class> struct is_mask : std::false_type {};
template<class T, class A> struct is_mask<dpm::simd_mask<T, A>> : std::true_type {};

// ---------- argument tags ----------
template<class T> struct V { using elem = T; static constexpr bool shared = false; template<class A> static auto load(const void *p, u64 k) { return load_simd<dpm::simd<T, A>>(p, k); } };
template<class T> struct M { using elem = bool; static constexpr bool shared = false; template<class A> static auto load(const void *p, u64 k) { return load_mask<dpm::simd_mask<T, A>>(p, k); } };
template<class T> struct Sc { using elem = T; static constexpr bool shared = true; template<class A> static T load(const void *p, u64) { T v; std::memcpy(&v, p, sizeof v); return v; } };

template<class R> struct result { static constexpr std::size_t n = 1; };
template<class... R> struct result<std::tuple<R...>> { static constexpr std::size_t n = sizeof...(R); };

struct Opt
{
    Dom dom[6] = {};
    CmpFn cmp[4] = {};
    unsigned weight = 100;
    void (*fix)(void *const *) = nullptr;
};
struct ArgD { Ty ty; bool shared; };
struct Sig { const ArgD *in; unsigned nin; const Ty *out; unsigned nout; std::size_t n; OpFn op; RefFn ref; };
// Kept out of line: thousands of call sites.
[[gnu::noinline]] inline void lw_add(const std::string &prefix, const char *name, const Sig &g, const Opt &o)
{
    Lanewise l;
    l.name = prefix + name;
    l.n = g.n;
    for (unsigned k = 0; k < g.nin; ++k) { l.in.push_back({g.in[k].ty, o.dom[k]}); l.scalar_mask |= unsigned(g.in[k].shared) << k; }
    for (unsigned k = 0; k < g.nout; ++k) l.out.push_back({g.out[k], o.cmp[k]});
    l.op = g.op; l.ref = g.ref; l.weight = o.weight; l.fix = o.fix;
    add_lanewise(std::move(l));
}
template<class T, class A> const std::string &prefix() { static const std::string s = tn<T>() + "/" + abi_name<A>() + "/"; return s; }

template<class A, class Op, class Ref, class... Args> struct lw_impl
{
    template<std::size_t... I> static void op_(const void *const *in, void *const *out, std::index_sequence<I...>)
    {
        u64 k = g_mix;
        auto r = Op{}(Args::template load<A>(in[I], Tape::mix(k + I))...);
        put(r, out, k >> 7);
    }
    template<class... R> static void put(const std::tuple<R...> &r, void *const *out, u64 k) { putt(r, out, k, std::index_sequence_for<R...>{}); }
    template<class R, std::size_t... I> static void putt(const R &r, void *const *out, u64 k, std::index_sequence<I...>) { (put1(std::get<I>(r), out[I], k >> I), ...); }
    template<class R> static void put(const R &r, void *const *out, u64 k) { put1(r, out[0], k); }
    template<class R> static void put1(const R &r, void *out, u64 k) { store(r, out, k); }
    static void op(const void *const *in, void *const *out) { op_(in, out, std::index_sequence_for<Args...>{}); }
    template<class T> static T get(const void *p) { T v; std::memcpy(&v, p, sizeof v); return v; }
    template<std::size_t... I> static void ref_(const void *const *in, void *const *out, std::index_sequence<I...>) { rput(Ref{}(get<typename Args::elem>(in[I])...), out); }
    template<class... R> static void rput(const std::tuple<R...> &r, void *const *out) { [&]<std::size_t... I>(std::index_sequence<I...>) { (std::memcpy(out[I], &std::get<I>(r), sizeof(std::get<I>(r))), ...); }(std::index_sequence_for<R...>{}); }
    template<class R> static void rput(const R &r, void *const *out) { std::memcpy(out[0], &r, sizeof r); }
    [[gnu::noinline]] static void ref(const void *const *in, void *const *out) { ref_(in, out, std::index_sequence_for<Args...>{}); }
};
template<class R> struct outs { static constexpr Ty ty[] = {ty_of<typename R::value_type>()}; };
template<class... R> struct outs<std::tuple<R...>> { static constexpr Ty ty[] = {ty_of<typename R::value_type>()...}; };
// The reference must return, per output, exactly the element type of the result: checked here.
template<class R, class E> struct same_elems { static constexpr bool value = std::is_same_v<typename R::value_type, E>; };
template<class... R, class... E> struct same_elems<std::tuple<R...>, std::tuple<E...>> { static constexpr bool value = (std::is_same_v<typename R::value_type, E> && ...); };

template<class R, class... Args> struct sigd { static constexpr ArgD in[] = {{ty_of<typename Args::elem>(), Args::shared}...}; };
template<class T, class A, class... Args, class Op, class Ref> inline void lw(const char *name, Op, Ref, const Opt &o = {})
{
    using impl = lw_impl<A, Op, Ref, Args...>;
    using R = decltype(Op{}(Args::template load<A>(nullptr, 0)...));
    using E = decltype(Ref{}(std::declval<typename Args::elem>()...));
    static_assert(same_elems<R, E>::value, "result element type differs from the documented one");
    static constexpr Sig g{sigd<void, Args...>::in, sizeof...(Args), outs<R>::ty, unsigned(result<R>::n), dpm::simd<T, A>::size(), impl::op, impl::ref};
    lw_add(prefix<T, A>(), name, g, o);
}

// wrap-around integer arithmetic for references
template<class T> using wu = std::conditional_t<(sizeof(T) < 4), u32, std::make_unsigned_t<T>>;
template<class T> T addw(T a, T b) { if constexpr (std::is_floating_point_v<T>) return a + b; else return T(wu<T>(a) + wu<T>(b)); }
template<class T> T subw(T a, T b) { if constexpr (std::is_floating_point_v<T>) return a - b; else return T(wu<T>(a) - wu<T>(b)); }
template<class T> T mulw(T a, T b) { if constexpr (std::is_floating_point_v<T>) return a * b; else return T(wu<T>(a) * wu<T>(b)); }
template<class T> T modw(T a, T b) { if constexpr (std::is_floating_point_v<T>) return a; else return T(a % b); }
// keeps integer division defined: no zero divisor, no MIN / -1
template<class T> void fix_div(void *const *in)
{
    if constexpr (std::is_integral_v<T>)
    {
        T a, b; std::memcpy(&a, in[0], sizeof a); std::memcpy(&b, in[1], sizeof b);
        if (b == 0) b = 1;
        if constexpr (std::is_signed_v<T>) if (b == T(-1) && a == std::numeric_limits<T>::min()) b = 1;
        std::memcpy(in[1], &b, sizeof b);
    }
}
// Custom subjects.
template<class T, class A> void sub(const char *name, void (*fn)(Tape &, Case &), unsigned weight = 100) { add_subject(prefix<T, A>() + name, fn, weight); }
// A lane array drawn with the shapes used for lane-wise cases.
template<class T, std::size_t N> std::array<T, N> gen_lanes(Tape &t, Dom d = Dom::any)
{
    std::array<T, N> r{};
    const unsigned shape = unsigned(t.below(8));
    const std::size_t odd = shape == 6 ? t.below(N) : 0;
    for (std::size_t i = 0; i < N; ++i)
    {
        if (shape == 7 && i) r[i] = r[0];
        else if (shape == 6 && i && i != odd && !(i == 1 && odd == 0)) r[i] = r[odd == 0];
        else r[i] = gen<T>(t, d);
    }
    return r;
}
// Masks: independent bits, all equal, one odd lane, prefix/suffix runs.
template<std::size_t N> std::array<bool, N> gen_mask(Tape &t)
{
    std::array<bool, N> r{};
    const u64 w = t.next();
    const std::size_t k = (w >> 8) % N;
    switch (w & 7)
    {
    case 0: break;
    case 1: r.fill(true); break;
    case 2: r[k] = true; break;
    case 3: r.fill(true); r[k] = false; break;
    case 4: for (std::size_t i = 0; i < N; ++i) r[i] = i <= k; break;
    case 5: for (std::size_t i = 0; i < N; ++i) r[i] = i >= k; break;
    default: for (std::size_t i = 0; i < N; ++i) r[i] = Tape::mix(w + i * 77) & 1; break;
    }
    return r;
}
template<class T, std::size_t N> std::string show_arr(const std::array<T, N> &a)
{
    std::string s = "[";
    for (std::size_t i = 0; i < N; ++i) s += (i ? "," : "") + show(a[i]);
    return s + "]";
}
template<std::size_t N> std::string show_arr(const std::array<bool, N> &a)
{
    std::string s;
    for (bool b : a) s += b ? '1' : '0';
    return s;
}
template<class T> bool eqv(const T &a, const T &b) { return cmp_exact(ty_of<T>(), &a, &b); }
template<class S, class T, std::size_t N> S mk(const std::array<T, N> &a, u64 k) { static_assert(S::size() == N); if constexpr (is_mask<S>::value) return load_mask<S>(a.data(), k); else return load_simd<S>(a.data(), k); }
template<class X> auto arr(const X &x, u64 k = 0) { std::array<typename X::value_type, X::size()> r; store(x, r.data(), k); return r; }
template<class T, std::size_t N> bool uniform(const std::array<T, N> &a) { for (auto &x : a) if (std::memcmp(&x, &a[0], sizeof x)) return false; return true; }
// True when static_cast<To>(v) is defined.
template<class To, class From> bool cast_ok(From v)
{
    if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To> && !std::is_same_v<To, bool>)
    {
        if (v != v) return false;
        const From t = std::trunc(v);
        const From hi = std::ldexp(From(1), std::numeric_limits<To>::digits);
        return t < hi && (std::is_signed_v<To> ? t >= -hi : t >= 0);
    }
    else return true;
}
// A source value whose conversion to To is defined, still covering the ends of To's range.
template<class To, class From> From gen_castable(Tape &t, Dom d = Dom::any)
{
    From v = gen<From>(t, d);
    if (cast_ok<To>(v)) return v;
    v = From(gen<To>(t));
    if (cast_ok<To>(v)) return v;
    if constexpr (std::is_floating_point_v<From>) { v = std::nextafter(v, From(0)); if (cast_ok<To>(v)) return v; }
    return From(1);
}
// Fails the case when the vector differs from the expected array; both ways of reading must agree.
template<class X, class T, std::size_t N> void expect(Case &c, const char *what, const X &x, const std::array<T, N> &e)
{
    static_assert(X::size() == N);
    for (u64 k = 0; k < 2; ++k)
    {
        auto g = arr(x, k);
        for (std::size_t i = 0; i < N; ++i)
            if (!eqv<T>(g[i], e[i])) { c.fail(std::string(what) + (k ? " (read by element)" : " (read by copy_to)") + ": lane " + std::to_string(i) + " of " + std::to_string(N) + " is " + show(g[i]) + " expected " + show(e[i])); return; }
    }
}
#ifdef R_MODES // every case under a random rounding mode
#define H_MAIN(fn) int main(int c, char **v) { pbt::g_rounding = true; return pbt::run_main(c, v, fn); }
#else
#define H_MAIN(fn) int main(int c, char **v) { return pbt::run_main(c, v, fn); }
#endif
}
