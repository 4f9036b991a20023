// Native driver: replays a file of inputs against the real code, or searches for failing inputs at random.
//   drv replay HARNESS FILE          exit 0 holds, 77 contract broken (or a crash), 3 inputs outside the precondition
//   drv fuzz HARNESS SEED SECONDS OUT MAXLEN
// libFuzzer build (VF_LIBFUZZER): harness chosen by the VF_HARNESS variable.
#include "vf.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <sstream>
#include <csignal>
#include <ctime>
#include <unistd.h>
struct Rec { int w; uint64_t v; std::vector<uint8_t> b; };
static std::vector<Rec>* g_in = new std::vector<Rec>;   // replay inputs
static std::vector<Rec>* g_log = new std::vector<Rec>;  // inputs of the current run
static size_t g_pos;
static int g_mode;                                      // 0 replay 1 random 2 libFuzzer
struct Skip {};
static const char* g_out = nullptr;
static const char* g_label = "crash";
static uint64_t g_s;
static size_t g_maxlen = 300;
static const uint8_t* g_d;
static size_t g_n;
static bool g_over;
static uint64_t rnd() { g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return g_s * 0x2545F4914F6CDD1DULL; }
static uint8_t nb() { if (g_n) { --g_n; return *g_d++; } return 0; }
static void dump()
{
    if (!g_out) return;
    FILE* f = fopen(g_out, "w");
    if (!f) return;
    fprintf(f, "# %s\n", g_label);
    for (auto& r: *g_log) {
        if (r.w) fprintf(f, "u %d %llu\n", r.w, (unsigned long long)r.v);
        else { fprintf(f, "b %zu", r.b.size()); for (auto x: r.b) fprintf(f, " %u", x); fprintf(f, "\n"); }
    }
    fclose(f);
}
[[noreturn]] static void fail(const char* l)
{
    g_label = l;
    dump();
    fprintf(stderr, "CONTRACT BROKEN: %s\n", l);
    if (g_mode == 2) abort();
    _exit(77);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_death() { dump(); }
static uint64_t num(int w)
{
    uint64_t v = 0;
    if (g_mode == 0) {
        if (g_pos >= g_in->size()) { g_over = true; v = 0; }
        else { auto& r = (*g_in)[g_pos++]; v = r.v; }
    } else if (g_mode == 1) {
        switch (rnd() % 10) {
            case 0: v = 0; break;
            case 1: v = ~0ULL; break;
            case 2: case 3: case 4: v = rnd() % 16; break;
            case 5: v = rnd() % 256; break;
            case 6: v = (1ULL << (rnd() % 64)) + (rnd() % 3) - 1; break;
            case 7: v = 0 - (rnd() % 16); break;
            default: v = rnd();
        }
    } else
        for (int i = 0; i < w / 8; ++i) v |= uint64_t(nb()) << (8 * i);
    if (w < 64) v &= (1ULL << w) - 1;
    g_log->push_back(Rec{w, v, {}});
    return v;
}
extern "C" {
uint8_t __vf_u8() VF_NX { return num(8); }
uint16_t __vf_u16() VF_NX { return num(16); }
uint32_t __vf_u32() VF_NX { return num(32); }
uint64_t __vf_u64() VF_NX { return num(64); }
uint64_t __vf_index() VF_NX
{
    if (g_mode == 1) { uint64_t v = rnd() % 4 ? rnd() % 12 : rnd() % 300; g_log->push_back(Rec{64, v, {}}); return v; }
    return num(64);
}
size_t __vf_size(size_t max) VF_NX
{
    uint64_t v;
    if (g_mode == 0) v = num(64);
    else {
        if (g_mode == 1) {
            switch (rnd() % 8) { case 0: v = 0; break; case 1: case 2: case 3: v = rnd() % 5; break; case 4: case 5: v = rnd() % 17; break; default: v = rnd() % (g_maxlen + 1); }
        } else { v = nb(); if (v == 255) v += nb(); }
        if (v > max) v = max;
        g_log->push_back(Rec{64, v, {}});
    }
    if (v > max || v > (1u << 20)) { if (g_mode) throw Skip(); _exit(3); }
    return v;
}
void __vf_bytes(void* p, size_t n) VF_NX
{
    uint8_t* q = (uint8_t*)p;
    Rec r{0, 0, {}};
    static const char* alpha = "0123456789abcxyzABZ_=!<>|&()-. /+$#'\"";
    int style = g_mode == 1 ? rnd() % 4 : 0;
    if (g_mode == 0 && g_pos < g_in->size()) r = (*g_in)[g_pos++];
    for (size_t i = 0; i < n; ++i) {
        uint8_t x = 0;
        if (g_mode == 0) x = i < r.b.size() ? r.b[i] : 0;
        else if (g_mode == 1) x = style == 0 ? rnd() : style == 1 ? alpha[rnd() % 38] : style == 2 ? rnd() % 4 : (rnd() & 1 ? 0xFF : 0) ^ (rnd() % 3 ? 0 : rnd() % 16);
        else x = nb();
        q[i] = x;
    }
    r.b.assign(q, q + n);
    r.w = 0;
    g_log->push_back(r);
}
void __vf_assume(bool c) VF_NX { if (!c) { if (g_mode) throw Skip(); _exit(3); } }
void __vf_assert(bool c, const char* l) VF_NX { if (!c) fail(l); }
void __vf_cover(const char*) VF_NX {}
uint64_t __vf_digest(uint64_t tag, const void* p, size_t n) VF_NX
{
    uint64_t h = 1469598103934665603ULL ^ tag * 0x9E3779B97F4A7C15ULL;
    for (size_t i = 0; i < n; ++i) { h ^= ((const uint8_t*)p)[i]; h *= 1099511628211ULL; }
    return h ^ (h >> 29);
}
uint64_t __vf_split(uint64_t v) VF_NX { return v; }
void __vf_unroll(size_t) VF_NX {}
void __vf_callee(const char*, void*) VF_NX {}
bool __vf_proving() VF_NX { return false; }

}
#include "vf_table.inc"   // struct { const char* name; void (*fn)(); } vf_table[]
static void (*find(const char* n))()
{
    for (auto& e: vf_table) if (!strcmp(e.name, n)) return e.fn;
    fprintf(stderr, "no harness %s\n", n);
    _exit(4);
}
static void on_alarm(int) { fail("does not terminate"); }
static double Now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void run1(void (*fn)())
{
    signal(SIGALRM, on_alarm);
    alarm(10);
    g_log->clear();
    g_pos = 0;
    {
        try { fn(); }
        catch (const Skip&) {}
        catch (const std::exception& e) { static std::string m; m = std::string("unexpected exception: ") + e.what(); fail(m.c_str()); }
    }
}
#ifdef VF_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    static void (*fn)() = find(getenv("VF_HARNESS"));
    static bool once = (g_out = getenv("VF_OUT"), __sanitizer_set_death_callback(on_death), true);
    (void)once;
    g_mode = 2; g_d = d; g_n = n;
    run1(fn);
    return 0;
}
#else
int main(int argc, char** argv)
{
    auto fn = find(argv[2]);
    std::set_terminate([] { fail("terminate"); });
    if (!strcmp(argv[1], "replay")) {
        std::ifstream f(argv[3]);
        std::string line;
        while (getline(f, line)) {
            std::istringstream s(line);
            std::string k;
            s >> k;
            if (k == "u") { Rec r; s >> r.w >> r.v; g_in->push_back(r); }
            else if (k == "b") { size_t n; s >> n; Rec r{0, 0, {}}; for (size_t i = 0; i < n; ++i) { unsigned x; s >> x; r.b.push_back(x); } g_in->push_back(r); }
        }
        g_mode = 0;
        run1(fn);
        fprintf(stderr, "held%s\n", g_over ? " (inputs exhausted)" : "");
        return 0;
    }
    g_mode = 1;
    uint64_t seed = strtoull(argv[3], 0, 10);
    double secs = atof(argv[4]);
    g_out = argv[5];
    if (argc > 6) g_maxlen = atoi(argv[6]);
    __sanitizer_set_death_callback(on_death);
    auto t0 = Now();
    unsigned long i = 0;
    for (;; ++i) {
        if (i % 64 == 0 && (Now() - t0) > secs) break;
        g_s = (seed + 1) * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL + 1;
        rnd(); rnd();
        run1(fn);
    }
    printf("%lu\n", i);
    return 0;
}
#endif
