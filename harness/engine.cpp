#include "pbt.hpp"
#include <algorithm>
#include <bit>
#include <cfenv>
#include <climits>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <xmmintrin.h>
#include <unordered_set>

namespace pbt
{
const char *ty_name(Ty t)
{
    static const char *n[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bool", "size", "ld"};
    return n[int(t)];
}
std::string fmt(Ty t, const void *p)
{
    char b[96];
    switch (t)
    {
    case Ty::i8: { std::int8_t v; std::memcpy(&v, p, 1); std::snprintf(b, 96, "%d", int(v)); break; }
    case Ty::u8: { std::uint8_t v; std::memcpy(&v, p, 1); std::snprintf(b, 96, "%u", unsigned(v)); break; }
    case Ty::i16: { std::int16_t v; std::memcpy(&v, p, 2); std::snprintf(b, 96, "%d", int(v)); break; }
    case Ty::u16: { std::uint16_t v; std::memcpy(&v, p, 2); std::snprintf(b, 96, "%u", unsigned(v)); break; }
    case Ty::i32: { std::int32_t v; std::memcpy(&v, p, 4); std::snprintf(b, 96, "%d", v); break; }
    case Ty::u32: { std::uint32_t v; std::memcpy(&v, p, 4); std::snprintf(b, 96, "%u", v); break; }
    case Ty::i64: { std::int64_t v; std::memcpy(&v, p, 8); std::snprintf(b, 96, "%lld", (long long) v); break; }
    case Ty::u64: case Ty::sz: { std::uint64_t v; std::memcpy(&v, p, 8); std::snprintf(b, 96, "%llu", (unsigned long long) v); break; }
    case Ty::f32: { float v; std::uint32_t u; std::memcpy(&v, p, 4); std::memcpy(&u, p, 4); std::snprintf(b, 96, "%.9g(0x%08x)", v, u); break; }
    case Ty::f64: { double v; std::uint64_t u; std::memcpy(&v, p, 8); std::memcpy(&u, p, 8); std::snprintf(b, 96, "%.17g(0x%016llx)", v, (unsigned long long) u); break; }
    case Ty::ld: { long double v; std::memcpy(&v, p, 10); std::snprintf(b, 96, "%.21Lg(%La)", v, v); break; }
    case Ty::b: { unsigned char v; std::memcpy(&v, p, 1); std::snprintf(b, 96, "%s", v == 1 ? "true" : v == 0 ? "false" : "bool(non-canonical)"); break; }
    }
    return b;
}

// ---------------- generators ----------------
static void put_int(Ty t, u64 v, void *out) { std::memcpy(out, &v, ty_size(t)); }
static u64 gen_int(Tape &t, Ty ty, Dom d)
{
    const unsigned bits = unsigned(ty_size(ty)) * 8;
    const bool sgn = ty == Ty::i8 || ty == Ty::i16 || ty == Ty::i32 || ty == Ty::i64;
    const u64 mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    const u64 w = t.next();
    const u64 p = w >> 8;
    u64 v = 0;
    if (d == Dom::shamt) return p % bits;
    if (d == Dom::small) return sgn ? u64(std::int64_t(p % 5) - std::int64_t((w & 1) ? 2 : 0)) & mask : p % 4;
    if (d == Dom::expn)
    {
        static const int tab[] = {0, 1, -1, 2, 23, 24, -23, -24, 52, 53, -52, 126, 127, 128, 129, -125, -126, -127, -128, -149, -150, 254, 255, 256, -252, -253, -254, -255, 1021, 1022, 1023, 1024, 1025, -1021, -1022, -1023, -1074, -1075, 2045, 2046, 2047, -2044, -2045, -2046, -2098, -2099, 3000, -3000, 277, -277, 278, 2096, 2097, 2098, INT_MAX, INT_MIN, 100000, -100000};
        switch (w & 3)
        {
        case 0: return u64(std::int64_t(p % 9) - ((w & 4) ? 4 : 0)) & mask;
        case 1: return u64(std::int64_t(tab[p % (sizeof tab / sizeof *tab)])) & mask;
        case 2: return u64(std::int64_t(p % 601) - 300) & mask;
        default: return u64(std::int64_t(p % 4801) - 2400) & mask;
        }
    }
    switch (w & 7)
    {
    case 0: case 1: v = p % 20; if (w & 8) v = 0 - v; break;
    case 2: case 3: case 4:
        switch (p % 12)
        {
        case 0: v = 0; break;
        case 1: v = 1; break;
        case 2: v = ~0ull; break;
        case 3: v = mask >> 1; break;         // signed max
        case 4: v = (mask >> 1) + 1; break;   // signed min
        case 5: v = (mask >> 1) - (p >> 8) % 3; break;
        case 6: v = (mask >> 1) + 1 + (p >> 8) % 3; break;
        case 7: v = 1ull << ((p >> 8) % bits); break;
        case 8: v = (1ull << ((p >> 8) % bits)) - 1; break;
        case 9: v = ~(1ull << ((p >> 8) % bits)); break;
        case 10: v = (p >> 9) & 1 ? 0x5555555555555555ull : 0xaaaaaaaaaaaaaaaaull; break;
        default: v = mask - (p >> 8) % 3; break;
        }
        break;
    case 5: { unsigned sh = unsigned(p % bits); v = (Tape::mix(w) & mask) >> sh; if (w & 8) v = 0 - v; break; }
    default: v = Tape::mix(w); break;
    }
    v &= mask;
    if (d == Dom::nonzero && v == 0) v = 1;
    if (d == Dom::nonneg && sgn) v &= mask >> 1;
    return v;
}
template<class F> static F gen_float(Tape &t, Dom d)
{
    using L = std::numeric_limits<F>;
    using U = std::conditional_t<sizeof(F) == 4, std::uint32_t, std::uint64_t>;
    constexpr int mb = L::digits - 1;
    constexpr U emask = (U(1) << (sizeof(F) * 8 - 1 - mb)) - 1;
    const u64 w = t.next();
    const u64 p = w >> 8, h = Tape::mix(w);
    const bool neg = w & 8;
    auto sg = [&](F x) { return neg ? -x : x; };
    auto unit01 = [&] { return F(double(h >> 11) * 0x1p-53); };
    auto nudge = [&](F x, int k) { for (; k > 0; --k) x = std::nextafter(x, L::infinity()); for (; k < 0; ++k) x = std::nextafter(x, -L::infinity()); return x; };
    auto logu = [&](int lo, int hi) { return std::ldexp(F(1) + unit01(), lo + int(p % u64(hi - lo + 1))); };
    auto special = [&]() -> F {
        switch (p % 22)
        {
        case 0: return sg(F(0));
        case 1: return sg(F(1));
        case 2: return sg(L::infinity());
        case 3: return std::copysign(L::quiet_NaN(), sg(F(1)));
        case 4: return sg(L::denorm_min());
        case 5: return sg(L::min());
        case 6: return sg(L::max());
        case 7: return sg(nudge(L::min(), -1));
        case 8: return sg(nudge(F(1), (p >> 8) & 1 ? 1 : -1));
        case 9: return sg(F(0.5));
        case 10: return sg(F(2));
        case 11: return sg(L::epsilon());
        case 12: return sg(std::ldexp(F(1), 31) + F(int((p >> 8) % 3) - 1));
        case 13: return sg(std::ldexp(F(1), 63));
        case 14: return sg(std::ldexp(F(1), L::digits - 1) + F(int((p >> 8) % 5) - 2));
        case 15: return sg(std::bit_cast<F>(U(h % (U(1) << mb))));                      // denormal
        case 16: return std::bit_cast<F>(U(U(h) | (emask << mb) | (U(1) << (mb - 1)))); // quiet NaN with payload
        case 17: return sg(F(3));
        case 18: return sg(F(1.5));
        case 19: return sg(nudge(L::max(), -1));
        case 20: return sg(F(0));
        default: return sg(F(10));
        }
    };
    auto bits = [&]() -> F {
        F x = std::bit_cast<F>(U(h ^ p));
        if (x != x) x = std::bit_cast<F>(U(std::bit_cast<U>(x) | (U(1) << (mb - 1)))); // no signalling NaNs
        return x;
    };
    auto finite = [&](F x) { return std::isfinite(x) ? x : sg(F(p % 97)); };
    switch (d)
    {
    case Dom::small: return F(int(p % 9) - ((w & 1) ? 4 : 0));
    case Dom::moderate:
        switch (w & 3) { case 0: return sg(F(p % 17)); case 1: return sg(logu(-10, 9)); case 2: return sg(F(int(p % 2001)) / F(8)); default: return sg(unit01() * F(20)); }
    case Dom::halfway:
        switch (w & 7)
        {
        case 0: return sg(F(p % 9));
        case 1: case 2: return sg(F(p % 4096) + F(0.5));
        case 3: return sg(nudge(F(p % 64) * F(0.5), int((p >> 8) % 3) - 1));
        case 4: { static const int e[] = {22, 23, 24, 30, 31, 32, 51, 52, 53, 62, 63, 64}; return sg(nudge(std::ldexp(F(1), e[p % 12]), int((p >> 8) % 5) - 2)); }
        case 5: return sg(logu(-4, 66));
        case 6: { static const int e[] = {20, 21, 22, 23, 30, 31, 50, 51, 52}; F b = std::ldexp(F(1), e[p % 9]); return sg(b + F(int((p >> 8) % 17) - 8) * F(0.5)); }
        default: return (w & 16) ? special() : bits();
        }
    case Dom::unit:
        switch (w & 7)
        {
        case 0: return sg(F(p % 3) * F(0.5));
        case 1: return sg(nudge(F(1), int((p % 9)) - 4));
        case 2: return sg(nudge(F(0.5), int((p % 9)) - 4));
        case 3: return sg(std::ldexp(F(1) + unit01(), -int(p % 40) - 1));
        case 4: return sg(F(1) - std::ldexp(F(1) + unit01(), -int(p % 20) - 2));
        case 5: return sg(unit01() * F(1.25));
        default: return (w & 16) && !(w & 32) ? special() : sg(unit01());
        }
    case Dom::angle:
        switch (w & 7)
        {
        case 0: return sg(F(p % 8));
        case 1: return sg(nudge(F(double(p % 64) * 0.78539816339744830962), int((p >> 8) % 7) - 3));
        case 2: return sg(nudge(F(double(p % 4096) * 0.78539816339744830962), int((p >> 16) % 7) - 3));
        case 3: return sg((w & 16) ? logu(-30, 12) : (w & 32) ? logu(8, 34) : logu(L::min_exponent - 1, L::max_exponent - 2));
        case 4: { static const int e[] = {13, 22, 30, 31, 51}; return (w & 16) ? sg(unit01() * F(8000)) : sg(nudge(std::ldexp(F(1), e[p % 5]), int((p >> 8) % 5) - 2)); }
        case 5: return sg((w & 16) ? unit01() * F(7) : unit01() * F(0.2));
        case 6: return sg(F(double(p % 1024) * 0.78539816339744830962) + unit01() * F(0.01));
        default: return (w & 16) && !(w & 32) ? special() : sg(unit01() * F(100));
        }
    case Dom::positive:
        switch (w & 7)
        {
        case 0: return F(1 + p % 16);
        case 1: return nudge(F(1), int(p % 17) - 8);
        case 2: return logu(-4, 4);
        case 3: return logu(L::min_exponent - 1, L::max_exponent - 2);
        case 4: return std::bit_cast<F>(U(1 + h % ((U(1) << mb) - 1)));
        case 5: return std::ldexp(F(1), int(p % u64(L::max_exponent - L::min_exponent)) + L::min_exponent - 1);
        case 6: return (w & 16) ? F(0.5) + unit01() : F(1) + sg(std::ldexp(F(1) + unit01(), -int(p % u64(L::digits)) - 1));
        default: return (w & 16) ? special() : unit01() * F(100);
        }
    case Dom::wide: return finite((w & 7) ? sg(logu(L::min_exponent - 1, L::max_exponent - 2)) : special());
    case Dom::finite: return finite((w & 3) == 0 ? special() : (w & 3) == 1 ? bits() : (w & 3) == 2 ? sg(F(p % 1000) / F(4)) : sg(logu(-20, 20)));
    case Dom::gammad:
        switch (w & 3) { case 0: return F(1 + p % 20); case 1: return sg(unit01() * F(30)); case 2: return sg(logu(-10, 5)); default: return (w & 16) ? special() : unit01() * F(170); }
    default:
        switch (w & 7)
        {
        case 0: return sg(F(p % 17));
        case 1: case 2: return special();
        case 3: return bits();
        case 4: return sg(logu(-30, 30));
        case 5: return sg(F(p % 2049) / F(8));
        case 6: return sg(unit01());
        default: { F x = sg(logu(L::min_exponent - 1, L::max_exponent - 2)); return x; }
        }
    }
}
// A double's generator, and values with more bits or a larger exponent than a double has.
static long double gen_long(Tape &t, Dom d)
{
    const u64 w = t.next();
    long double v = gen_float<double>(t, d);
    if (!std::isfinite(v)) return v;
    if (w & 1) v += v * (long double) ((w >> 8) & 2047) * 0x1p-64L;
    if ((d == Dom::any || d == Dom::finite || d == Dom::wide || d == Dom::positive) && (w & 0xe) == 0xe) v = std::ldexp(v, int((w >> 20) % 31000) - 15500);
    return std::isfinite(v) ? v : 1;
}
void gen_value(Tape &t, Ty ty, Dom d, void *out)
{
    if (ty == Ty::ld) { const long double f = gen_long(t, d); std::memset(out, 0, sizeof f); std::memcpy(out, &f, 10); return; }
    if (ty == Ty::f32) { float f = gen_float<float>(t, d); std::memcpy(out, &f, 4); }
    else if (ty == Ty::f64) { double f = gen_float<double>(t, d); std::memcpy(out, &f, 8); }
    else if (ty == Ty::b) { bool b = t.next() & 1; std::memcpy(out, &b, 1); }
    else put_int(ty, gen_int(t, ty, d), out);
}
bool cmp_exact(Ty t, const void *a, const void *b)
{
    if (t == Ty::f32) { float x, y; std::memcpy(&x, a, 4); std::memcpy(&y, b, 4); if (x != x || y != y) return (x != x) && (y != y); }
    if (t == Ty::f64) { double x, y; std::memcpy(&x, a, 8); std::memcpy(&y, b, 8); if (x != x || y != y) return (x != x) && (y != y); }
    if (t == Ty::ld) { long double x = 0, y = 0; std::memcpy(&x, a, 10); std::memcpy(&y, b, 10); return (x != x) ? (y != y) : std::memcmp(a, b, 10) == 0; }
    return std::memcmp(a, b, ty_size(t)) == 0;
}

// ---------------- guarded memory ----------------
Guard::Guard()
{
    const std::size_t pg = 4096;
    len = area + 2 * pg;
    map = static_cast<unsigned char *>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (map == MAP_FAILED) { std::perror("mmap"); std::exit(2); }
    mprotect(map, pg, PROT_NONE);
    mprotect(map + pg + area, pg, PROT_NONE);
}
unsigned char *Guard::end_at(std::size_t bytes) const { return map + 4096 + area - bytes; }
unsigned char *Guard::begin_at() const { return map + 4096; }

// ---------------- subjects ----------------
struct Subject { std::string name; RunFn fn; unsigned weight; };
static std::vector<Subject> &subjects() { static std::vector<Subject> s; return s; }
void add_subject(const std::string &name, RunFn fn, unsigned weight) { subjects().push_back({name, std::move(fn), weight}); }

u64 g_mix = 0;
// Calls with the stack moved by a multiple of 16 bytes: over-aligned objects must not rely on the luck of a frame.
[[gnu::noinline]] static void call_at(unsigned k, OpFn f, const void *const *in, void *const *out)
{
    volatile unsigned char *pad = static_cast<volatile unsigned char *>(__builtin_alloca(16 * k + 1));
    pad[0] = 0;
    f(in, out);
    pad[16 * k] = 0;
}
static void run_lanewise(const Lanewise &L, Tape &t, Case &c)
{
    constexpr std::size_t MAXB = 16 * 256;
    alignas(64) static unsigned char ib[6][MAXB];
    alignas(64) static unsigned char ob[4][MAXB];
    const std::size_t n = L.n, ni = L.in.size(), no = L.out.size();
    const unsigned shape = unsigned(t.below(8));
    std::size_t odd = shape == 6 ? t.below(n) : 0;
    bool any_nz = false, differ = n == 1;
    for (std::size_t k = 0; k < ni; ++k)
    {
        const std::size_t sz = ty_size(L.in[k].ty);
        const bool sc = L.scalar_mask >> k & 1;
        const std::size_t cnt = sc ? 1 : n;
        for (std::size_t i = 0; i < cnt; ++i)
        {
            unsigned char *dst = ib[k] + i * sz;
            if (shape == 7 && i) { std::memcpy(dst, ib[k], sz); continue; }                     // all lanes equal
            if (shape == 6 && i && i != odd && !(i == 1 && odd == 0)) { std::memcpy(dst, ib[k] + (odd == 0 ? sz : 0), sz); continue; } // one odd lane
            if (shape == 5 && k && !sc && !(L.scalar_mask & 1) && L.in[k].ty == L.in[0].ty && L.in[k].dom == L.in[0].dom && !(t.next() & 3)) { std::memcpy(dst, ib[0] + i * sz, sz); continue; }
            gen_value(t, L.in[k].ty, L.in[k].dom, dst);
        }
    }
    const void *ip[6]; void *op[4];
    auto lane_in = [&](std::size_t i) { for (std::size_t k = 0; k < ni; ++k) ip[k] = ib[k] + ((L.scalar_mask >> k & 1) ? 0 : i) * ty_size(L.in[k].ty); };
    if (L.fix)
        for (std::size_t i = 0; i < n; ++i) { lane_in(i); L.fix(const_cast<void *const *>(reinterpret_cast<const void *const *>(ip))); }
    for (std::size_t k = 0; k < ni; ++k)
    {
        const std::size_t sz = ty_size(L.in[k].ty), cnt = (L.scalar_mask >> k & 1) ? 1 : n;
        for (std::size_t b = 0; b < cnt * sz; ++b) if (ib[k][b]) { any_nz = true; break; }
        for (std::size_t i = 1; i < cnt && !differ; ++i) differ = std::memcmp(ib[k], ib[k] + i * sz, sz) != 0;
        c.mixin(ib[k], cnt * sz);
    }
    c.nontrivial = any_nz && differ;
    if (c.want_desc)
        for (std::size_t k = 0; k < ni; ++k)
        {
            c.desc += (k ? "; in" : "in") + std::to_string(k) + "=[";
            const std::size_t cnt = (L.scalar_mask >> k & 1) ? 1 : n;
            for (std::size_t i = 0; i < cnt; ++i) c.desc += (i ? "," : "") + fmt(L.in[k].ty, ib[k] + i * ty_size(L.in[k].ty));
            c.desc += "]";
        }
    for (std::size_t o = 0; o < no; ++o) { std::memset(ob[o], 0xcd, n * ty_size(L.out[o].ty)); op[o] = ob[o]; }
    for (std::size_t k = 0; k < ni; ++k) ip[k] = ib[k];
    g_mix = Tape::mix(c.hash);
    call_at(unsigned(c.hash >> 20) & 3, L.op, ip, op);
    alignas(16) unsigned char exp[4][16];
    void *ep[4] = {exp[0], exp[1], exp[2], exp[3]};
    for (std::size_t i = 0; i < n; ++i)
    {
        lane_in(i);
        std::memset(exp, 0, sizeof exp);
        L.ref(ip, ep);
        for (std::size_t o = 0; o < no; ++o)
        {
            const void *got = ob[o] + i * ty_size(L.out[o].ty);
            const bool ok = L.out[o].cmp ? L.out[o].cmp(got, exp[o], ip) : cmp_exact(L.out[o].ty, got, exp[o]);
            if (!ok)
            {
                std::string m = "lane " + std::to_string(i) + " of " + std::to_string(n) + ":";
                for (std::size_t k = 0; k < ni; ++k) m += " in" + std::to_string(k) + "=" + fmt(L.in[k].ty, ip[k]);
                m += " -> out" + std::to_string(o) + "=" + fmt(L.out[o].ty, got) + " expected " + fmt(L.out[o].ty, exp[o]);
                c.fail(m);
                return;
            }
        }
    }
}
void add_lanewise(Lanewise l)
{
    auto p = std::make_shared<Lanewise>(std::move(l));
    if (p->n > 256 || p->in.size() > 6 || p->out.size() > 4) { std::fprintf(stderr, "lanewise too wide: %s\n", p->name.c_str()); std::exit(2); }
    add_subject(p->name, [p](Tape &t, Case &c) { run_lanewise(*p, t, c); }, p->weight);
}

// ---------------- runner ----------------
static sigjmp_buf g_jmp;
static volatile sig_atomic_t g_in_case = 0;
static volatile u64 g_counter = 0;
static void on_sig(int s)
{
    if (g_in_case) { g_in_case = 0; siglongjmp(g_jmp, s); }
    signal(s, SIG_DFL);
    raise(s);
}
static void on_tick(int)
{
    static u64 last = ~0ull; static int same = 0;
    if (g_in_case && last == g_counter) { if (++same >= 5) { same = 0; g_in_case = 0; siglongjmp(g_jmp, SIGVTALRM); } }
    else { same = 0; last = g_counter; }
}
// Called by the address sanitizer, where linked in, after each report.
static std::string g_asan;
extern "C" const char *__asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error() { g_asan = __asan_get_report_description ? __asan_get_report_description() : "error"; }
static std::string json_str(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char ch : s)
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += char(ch);
    return r + "\"";
}
// With g_rounding every case runs under one of the four rounding modes and must leave the control state as it was.
bool g_rounding = false;
struct X87 { std::uint16_t cw, r0, sw, r1, tag, r2, rest[8]; };
static X87 x87() { X87 e; asm volatile("fnstenv %0\n\tfldenv %0" : "=m"(e)); return e; }
static unsigned mxcsr() { unsigned v; asm volatile("stmxcsr %0" : "=m"(v)); return v; }
static void run_case(const Subject &s, Tape &t, Case &c)
{
    ++g_counter;
    std::fesetenv(FE_DFL_ENV);
    unsigned mode = 0, mx = 0, flags = 0;
    X87 fp{};
    if (g_rounding)
    {
        static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
        mode = unsigned(t.below(4));
        std::fesetround(modes[mode]);
        flags = unsigned(t.below(64)); // some exception flags are raised already
        mx = mxcsr() | flags; fp = x87();
        asm volatile("ldmxcsr %0" : : "m"(mx));
        c.mixv(mode);
    }
    const int sig = sigsetjmp(g_jmp, 1);
    if (sig == 0)
    {
        g_in_case = 1;
        s.fn(t, c);
        g_in_case = 0;
        if (g_rounding)
        {
            static const char *names[] = {"to nearest", "upward", "downward", "toward zero"};
            if (((mxcsr() ^ mx) & ~0x3fu) != 0) c.fail("changed the SSE control state (rounding mode, exception masks, flushing of subnormals)");
            if ((mxcsr() & flags) != flags) c.fail("lowered a floating-point exception flag that was raised before");
            const X87 now = x87();
            if (now.cw != fp.cw || now.tag != fp.tag) c.fail("changed the x87 control or register state");
            if (c.want_desc) c.desc += std::string("; rounding ") + names[mode];
            if (c.failed) c.msg += std::string(" (rounding ") + names[mode] + ")";
        }
        if (!g_asan.empty()) c.fail("access to memory it may not use: " + g_asan);
    }
    else
    {
        c.failed = true;
        c.msg = sig == SIGVTALRM ? "did not return within 25 s of CPU time" : std::string("crashed with signal ") + std::to_string(sig) + " (" + strsignal(sig) + ")" + (__asan_get_report_description && sig == SIGILL ? ": undefined behaviour (shift, conversion, overflow, alignment or invalid value)" : "");
    }
    g_asan.clear();
    std::fesetenv(FE_DFL_ENV);
}
static Case run_tape(const Subject &s, const std::vector<u64> &w, bool desc)
{
    Tape t; t.w = w; t.gen = false;
    Case c; c.want_desc = desc;
    run_case(s, t, c);
    return c;
}
static std::vector<u64> shrink(const Subject &s, std::vector<u64> w)
{
    int budget = 4000;
    auto fails = [&](const std::vector<u64> &v) { if (budget-- <= 0) return false; return run_tape(s, v, false).failed; };
    bool progress = true;
    while (progress && budget > 0)
    {
        progress = false;
        for (std::size_t cut = w.size(); cut > 0 && budget > 0; cut /= 2) // truncate (missing words read as 0)
            if (cut <= w.size()) { auto v = w; v.resize(w.size() - cut); if (fails(v)) { w = v; progress = true; } }
        for (std::size_t blk = 8; blk >= 1; blk /= 2) // delete blocks
            for (std::size_t i = 0; i + blk <= w.size() && budget > 0;)
            { auto v = w; v.erase(v.begin() + long(i), v.begin() + long(i + blk)); if (fails(v)) { w = v; progress = true; } else ++i; }
        for (std::size_t blk = 16; blk >= 1; blk /= 2) // zero blocks
            for (std::size_t i = 0; i + blk <= w.size() && budget > 0; i += blk)
            {
                bool nz = false; for (std::size_t j = 0; j < blk; ++j) nz |= w[i + j] != 0;
                if (!nz) continue;
                auto v = w; std::fill(v.begin() + long(i), v.begin() + long(i + blk), 0); if (fails(v)) { w = v; progress = true; }
            }
        for (std::size_t i = 0; i < w.size() && budget > 0; ++i) // simplify words
        {
            if (!w[i]) continue;
            const u64 cand[] = {w[i] & 0xff, w[i] & 0xffff, w[i] >> 32, w[i] >> 16, (w[i] >> 8 >> 1 << 8) | (w[i] & 0xff), w[i] & ~8ull, w[i] - 256};
            for (u64 x : cand) if (x < w[i]) { auto v = w; v[i] = x; if (fails(v)) { w = v; progress = true; break; } }
        }
    }
    while (!w.empty() && w.back() == 0) w.pop_back();
    return w;
}
int run_main(int argc, char **argv, void (*register_all)())
{
    u64 seed = 1, cases = 1000; std::string out, rdir = ".", replay, only, prop = "?", cfg = "?", unit = "?";
    bool list = false;
    double max_secs = 0;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = std::strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--cases") cases = std::strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--out") out = nx();
        else if (a == "--rdir") rdir = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--only") only = nx();
        else if (a == "--prop") prop = nx();
        else if (a == "--cfg") cfg = nx();
        else if (a == "--unit") unit = nx();
        else if (a == "--max-secs") max_secs = std::atof(nx().c_str());
        else if (a == "--list") list = true;
    }
    register_all();
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT})
    {
        struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER; sigaction(s, &sa, nullptr);
    }
    { struct sigaction sa{}; sa.sa_handler = on_tick; sa.sa_flags = SA_NODEFER; sigaction(SIGVTALRM, &sa, nullptr);
      itimerval tv{{5, 0}, {5, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr); }
    if (list) { for (auto &s : subjects()) std::puts(s.name.c_str()); return 0; }
    if (!replay.empty())
    {
        FILE *f = std::fopen(replay.c_str(), "r"); if (!f) { std::perror("replay"); return 2; }
        char line[65536]; std::string subj; std::vector<u64> w;
        while (std::fgets(line, sizeof line, f))
        {
            std::string l = line; if (!l.empty() && l.back() == '\n') l.pop_back();
            if (l.rfind("subject ", 0) == 0) subj = l.substr(8);
            else if (l.rfind("tape", 0) == 0) { char *p = line + 4; while (true) { char *e; u64 v = std::strtoull(p, &e, 16); if (e == p) break; w.push_back(v); p = e; } }
        }
        std::fclose(f);
        for (auto &s : subjects()) if (s.name == subj)
        {
            Case c = run_tape(s, w, true);
            std::printf("%s %s\n  case: %s\n  %s\n", c.failed ? "FAILS" : "PASSES", s.name.c_str(), c.desc.c_str(), c.msg.c_str());
            return c.failed ? 1 : 0;
        }
        std::printf("no subject %s\n", subj.c_str());
        return 2;
    }
    struct Agg { u64 eval = 0, nt = 0, excl = 0; std::map<std::string, u64> cls; };
    std::map<std::string, Agg> agg;
    u64 total = 0, nontriv = 0, excluded = 0, distinct = 0;
    std::unordered_set<u64> seen; // hashes of the non-trivial cases (capped; beyond the cap cases are not counted)
    std::vector<std::string> samples;
    std::string fails_json; std::size_t nfail = 0;
    timeval tv0; gettimeofday(&tv0, nullptr);
    bool truncated = false;
    const auto &subs = subjects();
    for (std::size_t si = 0; si < subs.size() && !truncated; ++si)
    {
        const Subject &s = subs[si];
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        u64 sh = 1469598103934665603ull; for (char ch : s.name) { sh ^= (unsigned char) ch; sh *= 1099511628211ull; }
        const u64 n = std::max<u64>(1, cases * s.weight / 100);
        const std::size_t sl = s.name.rfind('/');
        Agg &a = agg[sl == std::string::npos ? s.name : s.name.substr(sl + 1)];
        for (u64 i = 0; i < n; ++i)
        {
            Tape t; t.gen = true; t.s = Tape::mix(seed * 0x9e3779b97f4a7c15ull ^ sh) + Tape::mix(i + 1);
            Case c; c.want_desc = (i == 3 && (si % 37) == (seed % 37) && samples.size() < 12);
            run_case(s, t, c);
            ++total; ++a.eval;
            if (!c.cls.empty()) ++a.cls[c.cls];
            if (c.excluded) { ++excluded; ++a.excl; }
            if (c.nontrivial) { ++nontriv; ++a.nt; if (seen.size() < 3000000 && seen.insert(Tape::mix(c.hash ^ sh)).second) ++distinct; }
            if (c.want_desc && !c.desc.empty()) samples.push_back(s.name + ": " + c.desc.substr(0, 600));
            if (c.failed)
            {
                auto w = shrink(s, t.w);
                int conf = 0; Case fc;
                for (int k = 0; k < 3; ++k) { fc = run_tape(s, w, true); conf += fc.failed; }
                if (conf != 3) { w = t.w; conf = 0; for (int k = 0; k < 3; ++k) { fc = run_tape(s, w, true); conf += fc.failed; } }
                std::string fn = s.name; for (char &ch : fn) if (!std::isalnum((unsigned char) ch)) ch = '_';
                fn = rdir + "/" + prop + "-" + cfg + "-" + unit + "-" + fn + ".replay";
                if (FILE *f = std::fopen(fn.c_str(), "w"))
                {
                    std::fprintf(f, "property %s\nconfig %s\nunit %s\nsubject %s\nseed %llu case %llu\ncase %s\nfailure %s\ntape", prop.c_str(), cfg.c_str(), unit.c_str(), s.name.c_str(), (unsigned long long) seed, (unsigned long long) i, fc.desc.c_str(), fc.msg.c_str());
                    for (u64 x : w) std::fprintf(f, " %llx", (unsigned long long) x);
                    std::fprintf(f, "\n"); std::fclose(f);
                }
                fails_json += std::string(nfail ? ",\n" : "") + "{\"subject\":" + json_str(s.name) + ",\"msg\":" + json_str(fc.msg) + ",\"case\":" + json_str(fc.desc.substr(0, 1500)) + ",\"replay\":" + json_str(fn) + ",\"confirmed\":" + std::to_string(conf) + "}";
                ++nfail;
                break; // next subject
            }
        }
        timeval tv; gettimeofday(&tv, nullptr);
        const double el = double(tv.tv_sec - tv0.tv_sec) + double(tv.tv_usec - tv0.tv_usec) * 1e-6;
        if (max_secs > 0 && el > max_secs) truncated = true;
        if (nfail >= 40) truncated = true;
    }
    FILE *f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
    if (!f) { std::perror("out"); return 2; }
    std::fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"excluded\":%llu,\"subjects\":%zu,\"truncated\":%s,\n\"samples\":[", (unsigned long long) total, (unsigned long long) nontriv, (unsigned long long) distinct, (unsigned long long) excluded, subs.size(), truncated ? "true" : "false");
    for (std::size_t i = 0; i < samples.size(); ++i) std::fprintf(f, "%s%s", i ? ",\n" : "", json_str(samples[i]).c_str());
    std::fprintf(f, "],\n\"ops\":{");
    bool first = true;
    for (auto &[k, a] : agg)
    {
        std::fprintf(f, "%s%s:{\"eval\":%llu,\"nontrivial\":%llu,\"excluded\":%llu,\"classes\":{", first ? "" : ",\n", json_str(k).c_str(), (unsigned long long) a.eval, (unsigned long long) a.nt, (unsigned long long) a.excl);
        bool f2 = true; for (auto &[ck, cv] : a.cls) { std::fprintf(f, "%s%s:%llu", f2 ? "" : ",", json_str(ck).c_str(), (unsigned long long) cv); f2 = false; }
        std::fprintf(f, "}}"); first = false;
    }
    std::fprintf(f, "},\n\"failures\":[%s]}\n", fails_json.c_str());
    if (f != stdout) std::fclose(f);
    return nfail ? 1 : 0;
}
}
