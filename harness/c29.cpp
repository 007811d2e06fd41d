// C29: the processor feature query on generated processors and operating systems.
// A child process (this program again) turns on single-stepping before the library initialises itself; its trap handler
// carries out every CPUID, XGETBV and access to /proc/cpuinfo on a generated machine instead of this one.
#include <dpm/detail/x86/cpuid.hpp>
#include "pbt.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
using namespace pbt;
using u32 = std::uint32_t;
struct Machine
{
    u32 leaf0[4], leaf1[4], leaf7[4], leaf7n[4], xcr0; // eax, ebx, ecx, edx; leaf7n: sub-leaves other than 0
    int osinfo;                                        // descriptor of the text of /proc/cpuinfo, or -1 if there is none
};
static Machine *g_machine;

static void step(int, siginfo_t *, void *u)
{
    auto &g = static_cast<ucontext_t *>(u)->uc_mcontext.gregs;
    for (;;)
    {
        auto *p = reinterpret_cast<const unsigned char *>(g[REG_RIP]);
        if (p[0] == 0x0f && p[1] == 0xa2)
        {
            static const u32 none[4] = {};
            const u32 leaf = u32(g[REG_RAX]), sub = u32(g[REG_RCX]);
            const auto &m = *g_machine;
            // leaves beyond the highest basic one read as the highest one does on this maker's processors
            const u32 *r = leaf == 0 ? m.leaf0 : leaf <= m.leaf0[0] && leaf == 1 ? m.leaf1 : leaf <= m.leaf0[0] && leaf == 7 ? (sub == 0 ? m.leaf7 : m.leaf7n) : leaf > m.leaf0[0] && leaf < 0x80000000u ? m.leaf7n : none;
            g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3];
            g[REG_RIP] += 2;
        }
        else if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xd0)
        {
            if (!(g_machine->leaf1[2] >> 27 & 1)) { static const char m[] = "XGETBV without OSXSAVE\n"; (void) !write(1, m, sizeof m - 1); _exit(3); } // #UD on a real processor
            g[REG_RAX] = u32(g[REG_RCX]) == 0 ? g_machine->xcr0 : 0; g[REG_RDX] = 0;
            g[REG_RIP] += 3;
        }
        else break;
    }
}
static int sim_open(const char *path, int fl, int mode)
{
    if (g_machine && std::strcmp(path, "/proc/cpuinfo") == 0) return g_machine->osinfo < 0 ? -1 : int(syscall(SYS_dup, g_machine->osinfo));
    return int(syscall(SYS_openat, AT_FDCWD, path, fl, mode));
}
extern "C" int open(const char *path, int fl, ...) { va_list v; va_start(v, fl); const int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(v, int) : 0; va_end(v); return sim_open(path, fl, m); }
extern "C" int open64(const char *path, int fl, ...) { va_list v; va_start(v, fl); const int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(v, int) : 0; va_end(v); return sim_open(path, fl, m); }

// runs before the initialisers of the library, which is linked behind this file
__attribute__((constructor)) static void begin()
{
    const char *e = std::getenv("C29_MACHINE");
    if (!e) return;
    static Machine m;
    char *q = const_cast<char *>(e);
    auto *w = reinterpret_cast<u32 *>(&m);
    for (std::size_t i = 0; i < sizeof m / 4; ++i) w[i] = u32(std::strtoul(q, &q, 16));
    g_machine = &m;
    struct sigaction sa{}; sa.sa_sigaction = step; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr);
    asm volatile("pushfq; orq $0x100,(%%rsp); popfq" : : : "memory", "cc");
}
#define FEATURES(X) X(intel, is_intel) X(amd, is_amd) X(msr, has_msr) X(cx8, has_cx8) X(sep, has_sep) X(cmov, has_cmov) X(clfsh, has_clfsh) X(xsave, has_xsave) X(f16c, has_f16c) X(cmpxchg16b, has_cmpxchg16b) \
    X(sse, has_sse) X(sse2, has_sse2) X(sse3, has_sse3) X(ssse3, has_ssse3) X(sse4_1, has_sse4_1) X(sse4_2, has_sse4_2) X(avx, has_avx) X(avx2, has_avx2) X(fma, has_fma) \
    X(avx512f, has_avx512f) X(avx512cd, has_avx512cd) X(avx512bw, has_avx512bw) X(avx512dq, has_avx512dq) X(avx512vl, has_avx512vl)
static const char *const names[] = {
#define X(n, f) #f,
    FEATURES(X)
#undef X
};
constexpr int nfeat = sizeof names / sizeof *names;
static void query(char *s)
{
#define X(n, f) *s++ = char('0' + dpm::ext::cpuid::f());
    FEATURES(X)
#undef X
}

// one machine as the manuals describe it
static std::string expect(const Machine &m, const std::string &maker, unsigned osflags)
{
    const bool has1 = m.leaf0[0] >= 1, has7 = m.leaf0[0] >= 7;
    const u32 c1 = has1 ? m.leaf1[2] : 0, d1 = has1 ? m.leaf1[3] : 0, b7 = has7 ? m.leaf7[1] : 0;
    const bool osx = c1 >> 27 & 1;
    auto sse = [&](unsigned k) { return osx ? (m.xcr0 & 2) != 0 : (osflags >> k & 1) != 0; };
    const bool ymm = osx && (m.xcr0 & 6) == 6, zmm = osx && (m.xcr0 & 0xe6) == 0xe6;
    const bool r[nfeat] = {maker == "GenuineIntel", maker == "AuthenticAMD", bool(d1 >> 5 & 1), bool(d1 >> 8 & 1), bool(d1 >> 11 & 1), bool(d1 >> 15 & 1), bool(d1 >> 19 & 1), osx, (c1 >> 29 & 1) && ymm, bool(c1 >> 13 & 1),
        (d1 >> 25 & 1) && sse(0), (d1 >> 26 & 1) && sse(1), (c1 & 1) && sse(2), (c1 >> 9 & 1) && sse(3), (c1 >> 19 & 1) && sse(4), (c1 >> 20 & 1) && sse(5), (c1 >> 28 & 1) && ymm, (b7 >> 5 & 1) && ymm, (c1 >> 12 & 1) && ymm,
        (b7 >> 16 & 1) && zmm, (b7 >> 28 & 1) && zmm, (b7 >> 30 & 1) && zmm, (b7 >> 17 & 1) && zmm, (b7 >> 31 & 1) && zmm};
    std::string s;
    for (bool b : r) s += b ? '1' : '0';
    return s;
}
extern char **environ;
static std::string run(const Machine &m)
{
    std::string e = "C29_MACHINE=";
    auto *w = reinterpret_cast<const u32 *>(&m);
    char b[16];
    for (std::size_t i = 0; i < sizeof m / 4; ++i) { std::snprintf(b, sizeof b, "%x ", w[i]); e += b; }
    int p[2];
    if (pipe(p)) return "no pipe";
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, p[1], 1); posix_spawn_file_actions_addclose(&fa, p[0]); posix_spawn_file_actions_addclose(&fa, p[1]);
    char name[] = "c29"; char *av[] = {name, nullptr}; char *ev[] = {e.data(), nullptr};
    pid_t pid;
    const int rc = posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, av, ev);
    posix_spawn_file_actions_destroy(&fa); close(p[1]);
    std::string out;
    if (rc == 0)
    {
        char buf[256]; ssize_t n;
        struct pollfd pf = {p[0], POLLIN, 0};
        while (poll(&pf, 1, 20000) > 0 && (n = read(p[0], buf, sizeof buf)) > 0) out.append(buf, std::size_t(n));
        if (out.empty()) kill(pid, SIGKILL);
        int st; waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) out += " (child ended with status " + std::to_string(st) + ")";
    }
    close(p[0]);
    return rc ? "no child" : out;
}
enum class Mode { any, realistic, old };
static void subject(Tape &t, Case &c, Mode mode)
{
    Machine m{};
    static const char *makers[] = {"GenuineIntel", "AuthenticAMD", "HygonGenuine", "CentaurHauls", "  Shanghai  ", "GenuineIotel"};
    const std::string maker = makers[t.chance(1, 4) ? t.below(6) : t.below(2)];
    std::memcpy(&m.leaf0[1], maker.data(), 4); std::memcpy(&m.leaf0[3], maker.data() + 4, 4); std::memcpy(&m.leaf0[2], maker.data() + 8, 4);
    static const u32 leaves[] = {0x16, 0xd, 7, 0xa, 6, 5, 2, 1, 0, 0x20};
    m.leaf0[0] = leaves[t.below(mode == Mode::old ? 10 : mode == Mode::realistic ? 5 : 10)];
    auto word = [&] { return u32(t.next() >> 16); };
    for (u32 *r : {m.leaf1, m.leaf7, m.leaf7n}) for (int i = 0; i < 4; ++i) r[i] = word();
    if (t.chance(1, 2)) for (u32 &x : m.leaf7n) x = 0; // as on processors with one sub-leaf
    if (mode != Mode::any)
    {
        // a generation of processors: everything up to a level, minus what a hypervisor hides
        const unsigned level = unsigned(t.below(8));
        u32 c1 = 0, d1 = 1u << 5 | 1u << 8 | 1u << 11 | 1u << 15 | 1u << 19 | 1u << 25 | 1u << 26, b7 = 0;
        if (level > 0) c1 |= 1 | 1u << 13;
        if (level > 1) c1 |= 1u << 9;
        if (level > 2) c1 |= 1u << 19;
        if (level > 3) c1 |= 1u << 20;
        if (level > 4) c1 |= 1u << 28 | 1u << 26;
        if (level > 5) { c1 |= 1u << 12 | 1u << 29; b7 |= 1u << 5 | 1u << 3 | 1u << 8; }
        if (level > 6) b7 |= 1u << 16 | 1u << 28 | 1u << 30 | 1u << 17 | 1u << 31;
        if (t.chance(1, 3)) { c1 &= ~(1u << t.below(32)); b7 &= ~(1u << t.below(32)); d1 &= ~(1u << t.below(32)); }
        m.leaf1[2] = c1 | 1u << 27; m.leaf1[3] = d1; m.leaf7[1] = b7; m.leaf7[0] = u32(t.below(3));
    }
    if (mode == Mode::old || (mode == Mode::any && t.chance(1, 2))) m.leaf1[2] &= ~(1u << 27); else if (mode == Mode::any) m.leaf1[2] |= 1u << 27;
    static const u32 x[] = {7, 0xe7, 3, 1, 0x1f, 0x67, 0x27, 5, 0xe3, 0x2e7, 0xc7, 0xa7, 0xe5};
    m.xcr0 = t.chance(1, 3) ? (word() & 0xff) | 1 : x[t.below(13)];
    // the operating system's list of flags, which only counts without OSXSAVE
    unsigned os = 63;
    if (t.chance(1, 2)) { os = unsigned(t.below(64)); if (!(os & 1)) os = 0; else if (!(os & 2)) os = 1; }
    static const char *fl[] = {"sse", "sse2", "pni", "ssse3", "sse4_1", "sse4_2"};
    std::string text;
    const unsigned cpus = 1 + unsigned(t.below(4));
    for (unsigned k = 0; k < cpus; ++k)
    {
        text += "processor\t: " + std::to_string(k) + "\nvendor_id\t: " + maker + "\ncpu family\t: 6\nmodel\t\t: " + std::to_string(t.below(200)) + "\nmodel name\t: Some Processor @ 2.66GHz\nstepping\t: 5\ncpu MHz\t\t: 2660.000\ncache size\t: 8192 KB\nfpu\t\t: yes\ncpuid level\t: 11\nwp\t\t: yes\nflags\t\t: fpu vme de pse tsc msr pae mce cx8 apic sep mtrr pge mca cmov pat clflush dts acpi mmx fxsr";
        for (int i = 0; i < 2; ++i) if (os >> i & 1) text += std::string(" ") + fl[i];
        text += " ss ht tm pbe syscall nx rdtscp lm constant_tsc arch_perfmon pebs bts rep_good nopl xtopology";
        if (os >> 2 & 1) text += " pni";
        text += " dtes64 monitor ds_cpl vmx est tm2";
        if (os >> 3 & 1) text += " ssse3";
        text += " cx16 xtpr pdcm";
        if (os >> 4 & 1) text += " sse4_1";
        if (os >> 5 & 1) text += " sse4_2";
        text += " popcnt lahf_lm\nbugs\t\t: spectre_v1\nbogomips\t: 5320.00\nclflush size\t: 64\naddress sizes\t: 36 bits physical, 48 bits virtual\npower management:\n\n";
    }
    m.osinfo = -1;
    if (t.chance(1, 12)) os = 0;
    else
    {
        m.osinfo = memfd_create("cpuinfo", 0);
        (void) !write(m.osinfo, text.data(), text.size()); lseek(m.osinfo, 0, SEEK_SET);
    }
    if (m.leaf0[0] < 1) m.leaf1[2] &= ~(1u << 27);
    const int fd = m.osinfo;
    m.osinfo = -1; c.mixv(m); c.mixv(os); c.mixv(fd < 0); m.osinfo = fd;
    c.nontrivial = true;
    c.cls = m.leaf0[0] < 7 ? "no leaf 7" : !(m.leaf1[2] >> 27 & 1) ? "no OSXSAVE" : (m.xcr0 & 0xe6) == 0xe6 ? "zmm state" : (m.xcr0 & 6) == 6 ? "ymm state" : "xmm state or less";
    if (c.want_desc)
    {
        char b[200]; std::snprintf(b, sizeof b, "%s, highest leaf %u, leaf 1 ecx %08x edx %08x, leaf 7 ebx %08x, other sub-leaves ebx %08x, xcr0 %x, /proc/cpuinfo flags %x%s", maker.c_str(), m.leaf0[0], m.leaf1[2], m.leaf1[3], m.leaf7[1], m.leaf7n[1], m.xcr0, os, fd < 0 ? " (no file)" : "");
        c.desc = b;
    }
    const std::string want = expect(m, maker, os), got = run(m);
    if (fd >= 0) close(fd);
    if (got == want) return;
    if (got.size() != want.size()) { c.fail("the query gave \"" + got + "\""); return; }
    for (int i = 0; i < nfeat; ++i) if (got[i] != want[i]) { c.fail(std::string(names[i]) + "() is " + (got[i] == '1' ? "true" : "false") + ", the processor and operating system say " + (want[i] == '1' ? "true" : "false")); return; }
}
int main(int argc, char **argv)
{
    if (g_machine)
    {
        char a[nfeat], b[nfeat];
        query(a); query(b);
        asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" : : : "memory", "cc");
        (void) !write(1, a, nfeat);
        if (std::memcmp(a, b, nfeat)) (void) !write(1, " then ", 6), (void) !write(1, b, nfeat);
        _exit(0);
    }
    return run_main(argc, argv, +[] {
        add_subject("any_registers", [](Tape &t, Case &c) { subject(t, c, Mode::any); });
        add_subject("processor_generations", [](Tape &t, Case &c) { subject(t, c, Mode::realistic); });
        add_subject("without_osxsave", [](Tape &t, Case &c) { subject(t, c, Mode::old); });
    });
}
