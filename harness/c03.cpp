// C03: comparisons.
#include "common.hpp"
using namespace h;
using T = VT;
template<class A> void reg()
{
    using S = dpm::simd<T, A>;
#define CMP(NAME, OP) \
    lw<T, A, V<T>, V<T>>(NAME, [](S a, S b) { return a OP b; }, [](T a, T b) -> bool { return a OP b; });
    CMP("eq", ==) CMP("ne", !=) CMP("lt", <) CMP("le", <=) CMP("gt", >) CMP("ge", >=)
    lw<T, A, V<T>>("self", [](S a) { return std::tuple{a == a, a != a, a <= a, a < a}; }, [](T a) -> std::tuple<bool, bool, bool, bool> { return {a == a, a != a, a <= a, a < a}; });
    // the masks feed reductions, logic and selection
    sub<T, A>("mask_use", +[](Tape &t, Case &c) {
        constexpr std::size_t N = S::size();
        auto x = gen_lanes<T, N>(t), y = gen_lanes<T, N>(t);
        if (t.chance(1, 3)) y = x;
        for (std::size_t i = 0; i < N; ++i) if (t.chance(1, 4)) y[i] = x[i];
        const u64 k = t.next();
        c.mixv(x); c.mixv(y); c.nontrivial = !uniform(x) || N == 1;
        if (c.want_desc) c.desc = "a=" + show_arr(x) + " b=" + show_arr(y);
        const S a = mk<S>(x, k), b = mk<S>(y, k >> 8);
        std::array<bool, N> lt{}, ge{}, eq{}, mix{};
        std::array<T, N> sel{};
        std::size_t n = 0, ne = 0, fi = N, la = N;
        for (std::size_t i = 0; i < N; ++i)
        {
            lt[i] = x[i] < y[i]; ge[i] = x[i] >= y[i]; eq[i] = x[i] == y[i]; mix[i] = (lt[i] | eq[i]) != ge[i];
            n += lt[i]; ne += eq[i]; sel[i] = lt[i] ? x[i] : y[i];
            if (lt[i]) { if (fi == N) fi = i; la = i; }
        }
        const auto m = a < b, e = a == b, g = a >= b;
        if (dpm::reduce_count(m) != n || dpm::reduce_count(e) != ne) c.fail("reduce_count of a comparison");
        if (dpm::any_of(m) != (n != 0) || dpm::all_of(m) != (n == N) || dpm::none_of(m) != (n == 0)) c.fail("any_of/all_of/none_of of a < b");
        if (dpm::all_of(e) != (ne == N) || dpm::any_of(e) != (ne != 0)) c.fail("any_of/all_of of a == b");
        if (n && (dpm::reduce_min_index(m) != fi || dpm::reduce_max_index(m) != la)) c.fail("index of first/last true lane of a < b");
        expect(c, "(a < b | a == b) ^ (a >= b)", (m | e) ^ g, mix);
        expect(c, "blend(a < b, a, b)", dpm::blend(m, a, b), sel);
        expect(c, "!(a < b)", !m, [&] { auto r = lt; for (auto &v : r) v = !v; return r; }());
    }, 60);
}
H_MAIN(+[] { for_types(abis<T>{}, []<class A>() { reg<A>(); }); })
