// C07: stores.
#include "common.hpp"
using namespace h;
using T = VT;
#ifdef SIZES
using ABIS = size_abis<T, SIZES>;
#else
using ABIS = abis<T>;
#endif
static Guard &guard() { static Guard g; return g; }
template<class X, class U, class Flags> [[gnu::noinline]] void do_store(U *p, const X &x, const typename X::mask_type &m, unsigned api)
{
    if (api == 0) x.copy_to(p, Flags{});
    else x.copy_to(p, m, Flags{});
}
template<class X, class U> void store_case(Tape &t, Case &c)
{
    using E = typename X::value_type;
    using MT = typename X::mask_type;
    constexpr std::size_t N = X::size();
    const unsigned api = unsigned(t.below(2)), flag = unsigned(t.below(3)), where = unsigned(t.below(5));
    std::array<E, N> src{};
    const unsigned shape = unsigned(t.below(8));
    for (std::size_t i = 0; i < N; ++i)
        if (shape == 7 && i) src[i] = src[0];
        else if constexpr (std::is_same_v<E, bool>) src[i] = t.next() & 1;
        else src[i] = gen_castable<U, E>(t);
    const auto mask = gen_mask<N>(t);
    const u64 k = t.next();
    const unsigned char fillb = (unsigned char) (0x5a + (k >> 40) % 7 * 31);
    c.mixv(api); c.mixv(flag); c.mixv(where); c.mixv(src); if (api) c.mixv(mask);
    c.nontrivial = N == 1 || !uniform(src);
    static const char *an[] = {"copy_to", "masked copy_to"}, *fn[] = {"element_aligned", "vector_aligned", "overaligned<64>"}, *wn[] = {"up to an unmapped page", "right after an unmapped page", "at offset 0", "at offset 1", "at offset 2"};
    c.cls = an[api];
    if (c.want_desc) c.desc = std::string(an[api]) + " " + fn[flag] + " to " + ty_name(ty_of<U>()) + " " + wn[where] + " src=" + show_arr(src) + (api ? " mask=" + show_arr(mask) : "");
    std::size_t lo = 0, hi = N - 1;
    if (api)
    {
        bool any = false;
        for (std::size_t i = 0; i < N; ++i) if (mask[i]) { if (!any) lo = i; hi = i; any = true; }
        if (!any) { lo = 0; hi = 0; }
    }
    std::size_t align = 1;
    if (flag == 1) { if constexpr (is_simd<X>::value && !std::is_same_v<U, bool>) align = dpm::memory_alignment_v<X, U>; else align = 64; }
    if (flag == 2) align = 64;
    Guard &g = guard();
    unsigned char *const b = g.begin_at(), *const e = b + Guard::area;
    // canaries: 256 bytes on either side of the destination, clipped to the accessible area
    unsigned char *p;
    if (where == 0) p = g.end_at((hi + 1) * sizeof(U));
    else if (where == 1) p = b - lo * sizeof(U);
    else p = b + 64 * 3 + (where - 2) * sizeof(U);
    if (align > 1) p = where == 1 ? b : reinterpret_cast<unsigned char *>(reinterpret_cast<std::uintptr_t>(p) / align * align);
    unsigned char *const c0 = p - 256 < b ? b : p - 256, *const c1 = p + N * sizeof(U) + 256 > e ? e : p + N * sizeof(U) + 256;
    std::memset(c0, fillb, std::size_t(c1 - c0));
    const X x = mk<X>(src, k);
    const MT m = mk<MT>(mask, k >> 8);
    U *d = reinterpret_cast<U *>(p);
    switch (flag)
    {
    case 0: do_store<X, U, dpm::element_aligned_tag>(d, x, m, api); break;
    case 1: do_store<X, U, dpm::vector_aligned_tag>(d, x, m, api); break;
    default: do_store<X, U, dpm::overaligned_tag<64>>(d, x, m, api); break;
    }
    for (unsigned char *q = c0; q < c1;)
    {
        const std::ptrdiff_t off = q - p;
        if (off >= 0 && off % std::ptrdiff_t(sizeof(U)) == 0 && std::size_t(off) < N * sizeof(U) && (!api || mask[std::size_t(off) / sizeof(U)]))
        {
            const std::size_t i = std::size_t(off) / sizeof(U);
            U got, exp = static_cast<U>(src[i]);
            std::memcpy(&got, q, sizeof got);
            const bool same = std::is_same_v<U, E> ? std::memcmp(&got, &exp, sizeof got) == 0 : eqv<U>(got, exp);
            if (!same) { c.fail(std::string(an[api]) + " " + fn[flag] + ": element " + std::to_string(i) + " of " + std::to_string(N) + " is " + show(got) + " expected " + show(exp) + " from " + show(src[i])); return; }
            q += sizeof(U);
        }
        else
        {
            if (*q != fillb) { c.fail(std::string(an[api]) + " " + fn[flag] + ": wrote to the byte at offset " + std::to_string(off) + " of the destination (" + std::to_string(N) + " elements of " + std::to_string(sizeof(U)) + " bytes" + (api ? ", mask " + show_arr(mask) : "") + ")"); return; }
            ++q;
        }
    }
    // what was stored loads back bit for bit
    if constexpr (std::is_same_v<U, E>)
        if (!api)
        {
            X y(d, dpm::element_aligned);
            const auto z = arr(y, k >> 20);
            for (std::size_t i = 0; i < N; ++i) if (std::memcmp(&z[i], &src[i], sizeof(E))) { c.fail("store then load changed lane " + std::to_string(i) + " from " + show(src[i]) + " to " + show(z[i])); return; }
        }
}
template<class A> void reg()
{
    using S = dpm::simd<T, A>;
    using M = dpm::simd_mask<T, A>;
    for_types(tlist<i8, u8, i16, u16, i32, u32, i64, u64, f32, f64>{}, []<class U>() {
        static const std::string n = std::string("store_") + ty_name(ty_of<U>());
        sub<T, A>(n.c_str(), store_case<S, U>, std::is_same_v<T, U> ? 300 : 100);
    });
    sub<T, A>("mask_store_bool", store_case<M, bool>, 200);
    sub<T, A>("mask_store_i32", store_case<M, i32>);
}
H_MAIN(+[] { for_types(ABIS{}, []<class A>() { reg<A>(); }); })
