// C08: generated straight-line programs over vectors, masks and the caller's memory, run on dpm and on plain arrays.
// Every program is a function of its own with compile-time operations and (mostly) compile-time indices, so that
// the optimizer sees the whole history: what an access means must not depend on what is known about it.
#include "common.hpp"
using namespace h;
using T = VT;
#ifndef SHSEED
#define SHSEED 1
#endif
#ifndef NPROG
#define NPROG 10
#endif
constexpr int STEPS = 12;
#define AI [[gnu::always_inline]] inline
constexpr u64 cmix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

// The model: arrays with the part of the interface the programs use.
template<std::size_t N> struct mm
{
    std::array<bool, N> e{};
    mm() = default;
    explicit mm(bool b) { e.fill(b); }
    static constexpr std::size_t size() { return N; }
    bool &operator[](std::size_t i) & { return e[i]; }
    bool operator[](std::size_t i) const & { return e[i]; }
    template<class F> void copy_to(bool *p, F) const { for (std::size_t i = 0; i < N; ++i) p[i] = e[i]; }
    template<class F> void copy_from(const bool *p, F) { for (std::size_t i = 0; i < N; ++i) e[i] = p[i]; }
    friend mm operator&(const mm &a, const mm &b) { mm r; for (std::size_t i = 0; i < N; ++i) r.e[i] = a.e[i] && b.e[i]; return r; }
    friend mm operator^(const mm &a, const mm &b) { mm r; for (std::size_t i = 0; i < N; ++i) r.e[i] = a.e[i] != b.e[i]; return r; }
    friend mm operator!(const mm &a) { mm r; for (std::size_t i = 0; i < N; ++i) r.e[i] = !a.e[i]; return r; }
};
template<std::size_t N> struct mv
{
    std::array<T, N> e{};
    mv() = default;
    explicit mv(T x) { e.fill(x); }
    template<class F> mv(const T *p, F) { for (std::size_t i = 0; i < N; ++i) e[i] = p[i]; }
    static constexpr std::size_t size() { return N; }
    T &operator[](std::size_t i) & { return e[i]; }
    T operator[](std::size_t i) const & { return e[i]; }
    template<class F> void copy_to(T *p, F) const { for (std::size_t i = 0; i < N; ++i) p[i] = e[i]; }
    template<class F> void copy_to(T *p, const mm<N> &m, F) const { for (std::size_t i = 0; i < N; ++i) if (m.e[i]) p[i] = e[i]; }
    template<class F> void copy_from(const T *p, F) { for (std::size_t i = 0; i < N; ++i) e[i] = p[i]; }
    template<class F> void copy_from(const T *p, const mm<N> &m, F) { for (std::size_t i = 0; i < N; ++i) if (m.e[i]) e[i] = p[i]; }
    friend mv operator+(const mv &a, const mv &b) { mv r; for (std::size_t i = 0; i < N; ++i) r.e[i] = T(a.e[i] + b.e[i]); return r; }
    friend mv operator-(const mv &a, const mv &b) { mv r; for (std::size_t i = 0; i < N; ++i) r.e[i] = T(a.e[i] - b.e[i]); return r; }
    friend mv operator&(const mv &a, const mv &b) requires std::is_integral_v<T> { mv r; for (std::size_t i = 0; i < N; ++i) r.e[i] = T(a.e[i] & b.e[i]); return r; }
    friend mv operator^(const mv &a, const mv &b) requires std::is_integral_v<T> { mv r; for (std::size_t i = 0; i < N; ++i) r.e[i] = T(a.e[i] ^ b.e[i]); return r; }
    friend mm<N> operator==(const mv &a, const mv &b) { mm<N> r; for (std::size_t i = 0; i < N; ++i) r.e[i] = a.e[i] == b.e[i]; return r; }
    friend mm<N> operator<(const mv &a, const mv &b) { mm<N> r; for (std::size_t i = 0; i < N; ++i) r.e[i] = a.e[i] < b.e[i]; return r; }
};
template<std::size_t N> mv<N> blend(const mm<N> &m, const mv<N> &a, const mv<N> &b) { mv<N> r; for (std::size_t i = 0; i < N; ++i) r.e[i] = m.e[i] ? a.e[i] : b.e[i]; return r; }
template<std::size_t N> T reduce_max(const mv<N> &a) { T r = a.e[0]; for (T x : a.e) if (x > r) r = x; return r; }
template<std::size_t N> std::size_t reduce_count(const mm<N> &a) { std::size_t r = 0; for (bool b : a.e) r += b; return r; }
template<std::size_t N> mv<N> max(const mv<N> &a, const mv<N> &b) { mv<N> r; for (std::size_t i = 0; i < N; ++i) r.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; return r; }

struct input { T x[8]; std::size_t i[4]; };
template<std::size_t N> struct output { T v[3][N], buf[2][N], s; bool m[2][N], bb[N]; };
template<class S_, class M_, class P_, class PM_> struct machine
{
    using S = S_; using M = M_; using P = P_; using PM = PM_;
    S v[3];
    M m[2];
    alignas(64) T buf[2][(S::size() * sizeof(T) + 63) / 64 * 64 / sizeof(T)]; // both rows are aligned
    alignas(64) bool bb[S::size()];
    T s;
};
template<class X> AI X low(X x) { if constexpr (std::is_integral_v<X>) return X(x & X(15)); else return x; }
template<class S> AI S vlow(const S &x) { if constexpr (std::is_integral_v<T>) return x & S(T(15)); else return x; }

constexpr const char *const NAMES[] = {"v[d]=S(x)", "v[d]=v[a]+v[b]", "v[d]=v[a]^v[b]", "auto &r=v[d][i]; r=x", "v[d][i]=x", "swap(v[d][i],v[a][j])", "v[d][i]=v[a][j]", "v[a].copy_to(buf,aligned)", "v[a].copy_to(buf)",
    "buf[i]=x", "v[d].copy_from(buf,aligned)", "v[d].copy_from(buf)", "s+=buf[j]", "for (auto &r : v[d]) r=...", "v[d]=S(buf,aligned)", "v[d] via packed, p[i]=x", "m[p]=v[a]==v[b]", "m[p]=v[a]<v[b]",
    "m[p][i]=bool", "auto &r=m[p][i]; r=!r", "swap(m[0][i],m[1][j])", "v[d]=blend(m[p],v[a],v[b])", "s+=reduce_max(v[a])", "s+=reduce_count(m[p])", "v[a].copy_to(buf,m[p])", "v[d].copy_from(buf,m[p])", "m[p].copy_to(bb)",
    "m[p].copy_from(bb,aligned)", "bb[i]=!bb[i]", "[](auto &r){r=x;}(v[d][i])", "++v[d][i]", "const auto &c=v[a]; s+=c[j]", "v[d]=max(v[a],v[b])", "m[p]=m[0]^m[1]", "auto w=v[d]; w[i]=x; v[a]=w", "m[p] via packed, p[i]=!p[i]", "v[d]=v[a]-v[b]; v[d][i]=x; s+=v[d][j]"};
constexpr unsigned NOPS = sizeof NAMES / sizeof *NAMES;

template<u64 W, class Q> AI void step(Q &q, const input &in)
{
    using S = typename Q::S; using M = typename Q::M; using P = typename Q::P; using PM = typename Q::PM;
    constexpr std::size_t N = S::size();
    constexpr unsigned op = W % NOPS;
    constexpr u64 w = cmix(W);
    constexpr int d = w % 3, a = (w >> 8) % 3, b = (w >> 16) % 3, p = (w >> 24) & 1;
    constexpr std::size_t ci = (w >> 28) % N, cj = (w >> 36) % N;
    const std::size_t i = (w >> 44) % 3 ? ci : in.i[(w >> 46) & 3] % N, j = (w >> 48) % 3 ? cj : in.i[(w >> 50) & 3] % N;
    const T x = in.x[(w >> 52) & 7];
    using std::swap;
    if constexpr (op == 0) q.v[d] = S(x);
    else if constexpr (op == 1) q.v[d] = vlow<S>(q.v[a] + q.v[b]);
    else if constexpr (op == 2) { if constexpr (std::is_integral_v<T>) q.v[d] = q.v[a] ^ q.v[b]; else q.v[d] = q.v[a] - q.v[b]; }
    else if constexpr (op == 3) { auto &r = q.v[d][i]; r = x; }
    else if constexpr (op == 4) q.v[d][i] = x;
    else if constexpr (op == 5) swap(q.v[d][i], q.v[a][j]);
    else if constexpr (op == 6) q.v[d][i] = q.v[a][j];
    else if constexpr (op == 7) q.v[a].copy_to(q.buf[p], dpm::overaligned<64>);
    else if constexpr (op == 8) q.v[a].copy_to(q.buf[p], dpm::element_aligned);
    else if constexpr (op == 9) q.buf[p][i] = x;
    else if constexpr (op == 10) q.v[d].copy_from(q.buf[p], dpm::vector_aligned);
    else if constexpr (op == 11) q.v[d].copy_from(q.buf[p], dpm::element_aligned);
    else if constexpr (op == 12) q.s = low(T(q.s + q.buf[p][j]));
    else if constexpr (op == 13) { for (std::size_t k = 0; k < N; ++k) { auto &r = q.v[d][k]; r = in.x[k & 7]; } }
    else if constexpr (op == 14) q.v[d] = S(q.buf[p], dpm::vector_aligned);
    else if constexpr (op == 15) { P t(q.v[a]); t[i] = x; q.v[d] = static_cast<S>(t); }
    else if constexpr (op == 16) q.m[p] = q.v[a] == q.v[b];
    else if constexpr (op == 17) q.m[p] = q.v[a] < q.v[b];
    else if constexpr (op == 18) q.m[p][i] = x == in.x[(w >> 56) & 7];
    else if constexpr (op == 19) { auto &r = q.m[p][i]; r = !r; }
    else if constexpr (op == 20) swap(q.m[0][i], q.m[1][j]);
    else if constexpr (op == 21) q.v[d] = blend(q.m[p], q.v[a], q.v[b]);
    else if constexpr (op == 22) q.s = low(T(q.s + T(reduce_max(q.v[a]))));
    else if constexpr (op == 23) q.s = low(T(q.s + T(reduce_count(q.m[p]))));
    else if constexpr (op == 24) q.v[a].copy_to(q.buf[p], q.m[!p], dpm::element_aligned);
    else if constexpr (op == 25) q.v[d].copy_from(q.buf[p], q.m[p], dpm::element_aligned);
    else if constexpr (op == 26) q.m[p].copy_to(q.bb, dpm::element_aligned);
    else if constexpr (op == 27) q.m[p].copy_from(q.bb, dpm::vector_aligned);
    else if constexpr (op == 28) q.bb[i] = !q.bb[i];
    else if constexpr (op == 29) [](auto &r, T y) { r = y; }(q.v[d][i], x);
    else if constexpr (op == 30) { ++q.v[d][i]; q.v[d] = vlow(q.v[d]); }
    else if constexpr (op == 31) { const auto &c = q.v[a]; q.s = low(T(q.s + c[j])); }
    else if constexpr (op == 32) q.v[d] = max(q.v[a], q.v[b]);
    else if constexpr (op == 33) q.m[p] = q.m[0] ^ q.m[1];
    else if constexpr (op == 34) { auto c = q.v[d]; c[i] = x; q.v[a] = c; }
    else if constexpr (op == 35) { PM t(q.m[p]); t[i] = !t[i]; q.m[!p] = static_cast<M>(t); }
    else { q.v[d] = vlow<S>(q.v[a] - q.v[b]); q.v[d][i] = x; q.s = low(T(q.s + q.v[d][j])); }
}
template<u64 SEED, class Q> [[gnu::noinline]] void program(const input &in, output<Q::S::size()> &out)
{
    using S = typename Q::S; using M = typename Q::M;
    constexpr std::size_t N = S::size();
    Q q = {{S(in.x[0]), S(in.x[1]), S(in.x[2])}, {M(true), M(false)}, {}, {}, in.x[3]};
    [&]<std::size_t... K>(std::index_sequence<K...>) { (step<cmix(SEED + K)>(q, in), ...); }(std::make_index_sequence<STEPS>{});
    for (int k = 0; k < 3; ++k)
        if ((cmix(SEED) >> k) & 1) q.v[k].copy_to(out.v[k], dpm::element_aligned);
        else for (std::size_t l = 0; l < N; ++l) out.v[k][l] = q.v[k][l];
    for (int k = 0; k < 2; ++k) for (std::size_t l = 0; l < N; ++l) { out.m[k][l] = bool(q.m[k][l]); out.buf[k][l] = q.buf[k][l]; }
    for (std::size_t l = 0; l < N; ++l) out.bb[l] = q.bb[l];
    out.s = q.s;
}
template<u64 SEED> std::string listing()
{
    std::string r;
    for (int k = 0; k < STEPS; ++k)
    {
        const u64 W = cmix(SEED + k), w = cmix(W);
        char b[160];
        std::snprintf(b, sizeof b, "%s d%d a%d b%d p%d; ", NAMES[W % NOPS], int(w % 3), int((w >> 8) % 3), int((w >> 16) % 3), int((w >> 24) & 1));
        r += b;
    }
    return r;
}
template<class A, u64 SEED> void prog(int k)
{
    static const std::string name = "program" + std::to_string(k);
    sub<T, A>(name.c_str(), +[](Tape &t, Case &c) {
        using S = dpm::simd<T, A>;
        constexpr std::size_t N = S::size();
        using Q = machine<S, dpm::simd_mask<T, A>, dpm::simd<T, abi::ext::packed_buffer<N>>, dpm::simd_mask<T, abi::ext::packed_buffer<N>>>;
        using R = machine<mv<N>, mm<N>, mv<N>, mm<N>>;
        input in;
        for (T &x : in.x) x = T(t.below(16));
        for (std::size_t &i : in.i) i = std::size_t(t.below(64));
        c.mixv(in.x); c.mixv(in.i);
        output<N> got{}, exp{};
        program<SEED, Q>(in, got);
        program<SEED, R>(in, exp);
        std::string where;
        auto cmp = [&](const char *n, int q, const auto &g, const auto &e) {
            for (std::size_t l = 0; l < N && where.empty(); ++l)
                if (!(g[l] == e[l])) where = n + std::to_string(q) + "[" + std::to_string(l) + "] is " + show(g[l]) + " expected " + show(e[l]);
        };
        for (int q = 0; q < 3; ++q) cmp("v", q, got.v[q], exp.v[q]);
        for (int q = 0; q < 2; ++q) { cmp("m", q, got.m[q], exp.m[q]); cmp("buf", q, got.buf[q], exp.buf[q]); }
        cmp("bb", 0, got.bb, exp.bb);
        if (where.empty() && !(got.s == exp.s)) where = "s is " + show(got.s) + " expected " + show(exp.s);
        if (!where.empty()) c.fail("after the program, " + where);
        bool eq = true;
        for (T x : in.x) eq = eq && x == in.x[0];
        c.nontrivial = !eq;
        c.cls = "program";
        if (c.want_desc || c.failed)
        {
            c.desc = listing<SEED>() + "x =";
            for (T x : in.x) c.desc += " " + show(x);
            for (std::size_t i : in.i) c.desc += " i" + std::to_string(i % N);
        }
    });
}
template<class A> void reg()
{
    constexpr u64 base = cmix(SHSEED * 7919ull + dpm::simd_size_v<T, A> * 131 + sizeof(T) * 1009 + std::is_floating_point_v<T> * 7 + (A::alignment == SIZE_MAX ? 17 : A::alignment));
    []<std::size_t... K>(std::index_sequence<K...>) { (prog<A, cmix(base + K)>(K), ...); }(std::make_index_sequence<NPROG>{});
}
H_MAIN(+[] { for_types(abis<T>{}, []<class A>() { reg<A>(); }); })
