// C26: the type-level interface of generated combinations of element type, length and alignment, against the objects.
#include "common.hpp"
#include <memory>
#include <span>
using namespace h;
using T = VT;
#ifndef SHSEED
#define SHSEED 1
#endif
#ifndef SHCOMBOS
#define SHCOMBOS 14
#endif
constexpr u64 cmix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
constexpr std::size_t L128 = 16 / sizeof(T) ? 16 / sizeof(T) : 1;
constexpr std::size_t gen_len(u64 s) // lengths around multiples of the vector widths, else any up to 70
{
    const u64 a = cmix(s), b = cmix(s + 1);
    if (a % 3 == 0) return 1 + b % 70;
    const std::size_t m = L128 * (1 + b % 4) + (b >> 20) % 3;
    return m > 1 ? m - 1 : 1;
}
constexpr std::size_t gen_align(u64 s) { constexpr std::size_t k[] = {0, 0, SIZE_MAX, 16, 32, 64, 128, 8}; return k[cmix(s + 2) % 8]; }
#define IS(WHAT, ...) do { if (!(__VA_ARGS__)) c.fail(std::string(WHAT) + " does not hold: " #__VA_ARGS__); } while (0)
template<class U, class X> void rebinds(Case &c)
{
    using R = dpm::rebind_simd_t<U, X>;
    if constexpr (dpm::is_simd_v<X>)
    {
        IS("rebinding the element type", dpm::is_simd_v<R> && std::is_same_v<typename R::value_type, U> && R::size() == X::size());
        IS("rebinding a mask", std::is_same_v<dpm::rebind_simd_t<U, typename X::mask_type>, typename R::mask_type>);
        IS("rebinding back", dpm::rebind_simd_t<typename X::value_type, R>::size() == X::size());
        IS("an explicit conversion between layouts of one length", std::is_constructible_v<R, X> && std::is_constructible_v<typename R::mask_type, typename X::mask_type>);
        R r(U(3)); // the layout the trait names is usable
        IS("a broadcast into the rebound type", r[0] == U(3) && r[R::size() - 1] == U(3));
        IS("the result of a cast", std::is_same_v<decltype(dpm::static_simd_cast<R>(std::declval<X>())), R>);
    }
}
// the layouts named after registers
template<class U> void registers(Case &c)
{
    if constexpr (!std::is_same_v<U, long double>)
    {
        // the compatible layout is the same in every build for the architecture, the named ones are registers of that name
        using Co = dpm::simd<U, dpm::simd_abi::compatible<U>>; using Na = dpm::native_simd<U>; using Se = dpm::simd<U, dpm::simd_abi::ext::sse<U>>;
        IS("the compatible layout", Co::size() == 16 / sizeof(U) && sizeof(Co) == 16 && alignof(Co) == 16);
        IS("the SSE layout", Se::size() == 16 / sizeof(U) && sizeof(Se) == 16 && dpm::ext::native_data_size_v<Se> == 1 && sizeof(dpm::ext::native_data_type_t<Se>) == 16);
#ifdef __AVX__
        using Av = dpm::simd<U, dpm::simd_abi::ext::avx<U>>;
        IS("the AVX layout", Av::size() == 32 / sizeof(U) && sizeof(Av) == 32 && dpm::ext::native_data_size_v<Av> == 1 && sizeof(dpm::ext::native_data_type_t<Av>) == 32);
#endif
        IS("the native layout is one register", dpm::ext::native_data_size_v<Na> == 1 && sizeof(dpm::ext::native_data_type_t<Na>) == sizeof(Na) && Na::size() * sizeof(U) == sizeof(Na) && Na::size() >= Co::size());
        IS("the layout deduced for the size of the native one", std::is_same_v<dpm::simd_abi::deduce_t<U, Na::size()>, dpm::simd_abi::native<U>>);
        IS("the layout deduced for the size of the compatible one", std::is_same_v<dpm::simd_abi::deduce_t<U, Co::size()>, dpm::simd_abi::compatible<U>>);
    }
}
template<std::size_t M, class X> void resized(Case &c)
{
    using R = dpm::resize_simd_t<M, X>;
    using RM = dpm::resize_simd_t<M, typename X::mask_type>;
    IS("resizing", dpm::is_simd_v<R> && std::is_same_v<typename R::value_type, typename X::value_type> && R::size() == M);
    IS("resizing a mask", std::is_same_v<RM, typename R::mask_type>);
    IS("no conversion between different lengths", M == X::size() || !std::is_constructible_v<R, X>);
    IS("no conversion between masks of different lengths", M == X::size() || !std::is_constructible_v<RM, typename X::mask_type>);
    const R r(T(5));
    IS("a broadcast into the resized type", r[0] == T(5) && r[M - 1] == T(5));
}
template<class A, std::size_t N, std::size_t Al> void combo(const std::string &name)
{
    pbt::add_subject(name, [](Tape &t, Case &c) {
        using S = dpm::simd<T, A>;
        using M = dpm::simd_mask<T, A>;
        // --- predicates ---
        IS("vector and mask predicates", dpm::is_simd_v<S> && !dpm::is_simd_mask_v<S> && dpm::is_simd_mask_v<M> && !dpm::is_simd_v<M> && !dpm::is_simd_v<T> && !dpm::is_simd_mask_v<bool> && !dpm::is_simd_v<A>);
        IS("layout predicate", dpm::is_abi_tag_v<A> && !dpm::is_abi_tag_v<S> && !dpm::is_abi_tag_v<M> && !dpm::is_abi_tag_v<T>);
        IS("flag predicate", dpm::is_simd_flag_type_v<dpm::element_aligned_tag> && dpm::is_simd_flag_type_v<dpm::vector_aligned_tag> && dpm::is_simd_flag_type_v<dpm::overaligned_tag<64>> && !dpm::is_simd_flag_type_v<A> && !dpm::is_simd_flag_type_v<int>);
        IS("nested types", std::is_same_v<typename S::value_type, T> && std::is_same_v<typename S::abi_type, A> && std::is_same_v<typename S::mask_type, M> && std::is_same_v<typename M::simd_type, S> && std::is_same_v<typename M::value_type, bool> && std::is_same_v<typename M::abi_type, A>);
        IS("regularity", std::is_nothrow_default_constructible_v<S> && std::is_nothrow_default_constructible_v<M> && std::is_copy_constructible_v<S> && std::is_copy_assignable_v<S> && std::is_copy_constructible_v<M> && std::is_copy_assignable_v<M> && std::is_trivially_destructible_v<S> && std::is_trivially_copyable_v<S> && std::is_trivially_copyable_v<M>);
        // --- sizes ---
        IS("size", S::size() == N && M::size() == N && dpm::simd_size_v<T, A> == N && dpm::simd_size<T, A>::value == N && decltype(S::size)::value == N);
        // --- storage ---
        constexpr auto pow2 = [](std::size_t x) { return x && !(x & (x - 1)); };
        IS("storage", sizeof(S) >= N * sizeof(T) && sizeof(S) % alignof(S) == 0 && alignof(S) >= alignof(T) && pow2(alignof(S)));
        IS("the requested alignment", Al == 0 || Al == SIZE_MAX || (alignof(S) >= Al && alignof(M) >= Al));
        IS("a packed layout is not padded", Al != SIZE_MAX || (sizeof(S) == N * sizeof(T) && alignof(S) == alignof(T)));
        IS("memory alignment", pow2(dpm::memory_alignment_v<S>) && pow2(dpm::memory_alignment_v<M>) && dpm::memory_alignment_v<S> >= alignof(T) && dpm::memory_alignment_v<S, double> >= alignof(double) && dpm::memory_alignment_v<S, char> >= 1);
        IS("memory alignment of the layout", Al == 0 || Al == SIZE_MAX || dpm::memory_alignment_v<S> >= Al);
        using ND = dpm::ext::native_data_type_t<S>;
        constexpr std::size_t ns = dpm::ext::native_data_size_v<S>;
        IS("native storage covers the elements", ns * sizeof(ND) >= N * sizeof(T) && ns * sizeof(ND) <= sizeof(S) && (ns - 1) * sizeof(ND) < N * sizeof(T));
        // --- layouts ---
        using D = dpm::simd_abi::deduce_t<T, N>;
        using DA = dpm::simd_abi::deduce_t<T, N, A>;
        IS("the deduced layout", dpm::is_abi_tag_v<D> && dpm::simd_size_v<T, D> == N && dpm::simd<T, D>::size() == N && std::is_default_constructible_v<dpm::simd<T, D>>);
        IS("the layout deduced with a hint", dpm::is_abi_tag_v<DA> && dpm::simd_size_v<T, DA> == N && (N == 1 || std::is_same_v<DA, A>));
        IS("the common layout of one", std::is_same_v<dpm::simd_abi::ext::common_t<A>, A> && std::is_same_v<dpm::simd_abi::ext::common_t<A, A>, A> && std::is_same_v<dpm::simd_abi::ext::common_t<A, dpm::simd_abi::scalar>, A> && std::is_same_v<dpm::simd_abi::ext::common_t<dpm::simd_abi::scalar, A>, A>);
        if constexpr (!std::is_same_v<A, dpm::simd_abi::scalar>)
        {
            using W = dpm::simd_abi::ext::aligned_vector<N + 3, Al>;
            using B = dpm::simd_abi::ext::aligned_vector<N, Al == SIZE_MAX || Al == 0 ? 32 : Al * 2>;
            IS("the common layout is the widest", std::is_same_v<dpm::simd_abi::ext::common_t<A, W>, W> && std::is_same_v<dpm::simd_abi::ext::common_t<W, A>, W>);
            IS("the common layout is the most aligned", Al == SIZE_MAX || (std::is_same_v<dpm::simd_abi::ext::common_t<A, B>, B> && std::is_same_v<dpm::simd_abi::ext::common_t<B, A, A>, B>));
        }
        IS("fixed layouts", std::is_same_v<dpm::fixed_size_simd<T, N>, dpm::simd<T, dpm::simd_abi::fixed_size<N>>> && std::is_same_v<dpm::fixed_size_simd_mask<T, N>, dpm::simd_mask<T, dpm::simd_abi::fixed_size<N>>>);
        IS("native layout", dpm::native_simd<T>::size() >= 1 && std::is_same_v<dpm::native_simd<T>, dpm::simd<T, dpm::simd_abi::native<T>>> && std::is_same_v<dpm::simd<T>, dpm::native_simd<T>> && std::is_same_v<dpm::simd_mask<T>, dpm::native_simd_mask<T>> && dpm::simd_size_v<T> == dpm::simd<T>::size() && dpm::simd_size_v<T, dpm::simd_abi::compatible<T>> == dpm::simd<T, dpm::simd_abi::compatible<T>>::size() && dpm::simd_abi::max_fixed_size<T> >= 32);
        registers<T>(c);
        IS("the default alignment is the fixed-size one", std::is_same_v<dpm::simd_abi::fixed_size<N>, dpm::simd_abi::ext::aligned_vector<N>>);
        rebinds<double, S>(c); rebinds<float, S>(c); rebinds<i8, S>(c); rebinds<u16, S>(c); rebinds<i32, S>(c); rebinds<u64, S>(c); rebinds<T, S>(c);
        IS("rebinding to itself", N == 1 || std::is_same_v<dpm::rebind_simd_t<T, S>, S>);
        IS("resizing to itself", N == 1 || std::is_same_v<dpm::resize_simd_t<N, S>, S>);
        resized<1, S>(c); resized<N, S>(c); resized<N + 1, S>(c); resized<2 * N, S>(c); resized<(N + 1) / 2, S>(c);
        // --- conversions and results ---
        IS("result types", std::is_same_v<decltype(std::declval<S>() + std::declval<S>()), S> && std::is_same_v<decltype(std::declval<S>() == std::declval<S>()), M> && std::is_same_v<decltype(!std::declval<S>()), M> && std::is_same_v<decltype(std::declval<M>() && std::declval<M>()), M> && std::is_same_v<decltype(dpm::blend(std::declval<M>(), std::declval<S>(), std::declval<S>())), S>);
        IS("element access types", std::is_same_v<std::decay_t<decltype(std::declval<const S &>()[0])>, T> && std::is_convertible_v<decltype(std::declval<S &>()[0]), T> && std::is_convertible_v<decltype(std::declval<M &>()[0]), bool>);
        IS("construction from an element", std::is_convertible_v<T, S> && std::is_constructible_v<M, bool>);
        // --- objects ---
        const auto x = gen_lanes<T, N>(t), y = gen_lanes<T, N>(t);
        const auto mk_ = gen_mask<N>(t);
        const u64 k = t.next();
        c.mixv(x); c.mixv(mk_); c.nontrivial = true;
        if (c.want_desc) c.desc = "size " + std::to_string(N) + " alignment " + (Al == SIZE_MAX ? "packed" : std::to_string(Al)) + " elements " + show_arr(x);
        auto holder = std::make_unique<std::array<S, 3>>();
        auto mh = std::make_unique<std::array<M, 3>>();
        IS("objects are aligned", reinterpret_cast<std::uintptr_t>(&(*holder)[1]) % alignof(S) == 0);
        (*holder)[0] = mk<S>(y, k); (*holder)[2] = mk<S>(y, k >> 3); (*holder)[1] = mk<S>(x, k >> 5);
        (*mh)[0] = M(true); (*mh)[2] = M(false); (*mh)[1] = mk<M>(mk_, k >> 7);
        const S copy = (*holder)[1];
        const M mcopy = (*mh)[1];
        for (std::size_t i = 0; i < N; ++i)
        {
            if (!eqv(T((*holder)[0][i]), y[i]) || !eqv(T((*holder)[2][i]), y[i]) || !eqv(T(copy[i]), x[i])) c.fail("element " + std::to_string(i) + " of an array of vectors is not what was stored");
            if (!bool((*mh)[0][i]) || bool((*mh)[2][i]) || bool(mcopy[i]) != mk_[i]) c.fail("element " + std::to_string(i) + " of an array of masks is not what was stored");
        }
        // the native storage is the vector's storage
        S v = mk<S>(x, k >> 9);
        const auto sp = dpm::ext::to_native_data(v);
        IS("native span", sp.size() == ns && sp.size_bytes() == ns * sizeof(ND) && reinterpret_cast<const char *>(sp.data()) >= reinterpret_cast<const char *>(&v) && reinterpret_cast<const char *>(sp.data() + sp.size()) <= reinterpret_cast<const char *>(&v + 1));
        T raw[N];
        std::memcpy(raw, sp.data(), sizeof raw);
        for (std::size_t i = 0; i < N; ++i) if (!eqv(raw[i], x[i])) c.fail("native storage holds " + show(raw[i]) + " for element " + std::to_string(i) + ", which is " + show(x[i]));
        std::memcpy(sp.data(), y.data(), sizeof raw);
        for (std::size_t i = 0; i < N; ++i) if (!eqv(T(v[i]), y[i])) c.fail("element " + std::to_string(i) + " does not follow its native storage");
        const M cm = mcopy;
        IS("native span of a mask", dpm::ext::to_native_data(cm).size() == dpm::ext::native_data_size_v<M>);
        // loads at the reported alignment
        alignas(dpm::memory_alignment_v<S>) T buf[N];
        std::memcpy(buf, x.data(), sizeof buf);
        const S l(buf, dpm::vector_aligned);
        alignas(dpm::memory_alignment_v<S>) T out[N];
        l.copy_to(out, dpm::vector_aligned);
        for (std::size_t i = 0; i < N; ++i) if (!eqv(out[i], x[i])) c.fail("a load and store at the reported alignment change element " + std::to_string(i));
        alignas(dpm::memory_alignment_v<M>) bool mb[N], mo[N];
        std::copy_n(mk_.begin(), N, mb);
        M(mb, dpm::vector_aligned).copy_to(mo, dpm::vector_aligned);
        for (std::size_t i = 0; i < N; ++i) if (mo[i] != mk_[i]) c.fail("a load and store at the reported alignment change mask element " + std::to_string(i));
        // conversion into the deduced layout and back keeps the elements
        const dpm::simd<T, D> d(v);
        const S back(d);
        const dpm::simd_mask<T, D> dm(cm);
        const M mback(dm);
        for (std::size_t i = 0; i < N; ++i) if (!eqv(T(d[i]), y[i]) || !eqv(T(back[i]), y[i]) || bool(dm[i]) != mk_[i] || bool(mback[i]) != mk_[i]) c.fail("converting to the deduced layout and back changes element " + std::to_string(i));
    });
}
// scalar counterparts of the mask functions
template<class A, unsigned K> void one()
{
    if constexpr (K == 0) combo<abi::scalar, 1, SIZE_MAX>(tn<T>() + "/scalar");
    else
    {
        constexpr u64 s = cmix(SHSEED * 6151ull + K * 12289ull + sizeof(T) * 97 + std::is_signed_v<T> * 11);
        constexpr std::size_t N = gen_len(s), Al = gen_align(s);
        combo<abi::ext::aligned_vector<N, Al>, N, Al>(tn<T>() + "/" + std::to_string(K) + "/" + abi_name<abi::ext::aligned_vector<N, Al>>());
    }
}
H_MAIN(+[] {
    [&]<unsigned... K>(std::integer_sequence<unsigned, K...>) { (one<void, K>(), ...); }(std::make_integer_sequence<unsigned, SHCOMBOS>{});
    pbt::add_subject(tn<T>() + "/bool", [](Tape &t, Case &c) {
        const bool b = t.below(2), p = t.below(2);
        const T x = gen<T>(t), y = gen<T>(t);
        c.mixv(b); c.mixv(x); c.nontrivial = true;
        IS("reductions of a bool", dpm::all_of(b) == b && dpm::any_of(b) == b && dpm::none_of(b) == !b && !dpm::some_of(b) && int(dpm::reduce_count(b)) == int(b) && dpm::reduce_min_index(true) == 0 && dpm::reduce_max_index(true) == 0);
        if (!eqv(dpm::blend(b, x, y), b ? x : y)) c.fail("blend of scalars");
        (void) p;
        const auto s = dpm::ext::shuffle<0, 0, 0>(x);
        static_assert(decltype(s)::size() == 3);
        for (std::size_t i = 0; i < 3; ++i) if (!eqv(T(s[i]), x)) c.fail("shuffle of a scalar");
    });
})
