// Contract language: nondeterministic inputs (the universally quantified variables of a contract),
// __vf_assume (requires), VF_ENSURES (ensures). In the proof build the primitives are interpreted by the
// verifier; in the native build (VF_NATIVE) they replay or generate concrete inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#ifdef VF_NATIVE
#define VF_NX
#define VF_NM
#else
#define VF_NX noexcept
#define VF_NM __attribute__((nomerge))
#endif
extern "C" {
uint8_t __vf_u8() VF_NX;
uint16_t __vf_u16() VF_NX;
uint32_t __vf_u32() VF_NX;
uint64_t __vf_u64() VF_NX;
size_t __vf_size(size_t max) VF_NX;                     // arbitrary length <= max
uint64_t __vf_index() VF_NX;                            // arbitrary index (skolem constant of a "for all i")
void __vf_bytes(void* p, size_t n) VF_NX;               // p[0..n) become arbitrary inputs
void __vf_assume(bool c) VF_NX;
VF_NM void __vf_assert(bool c, const char* label) VF_NX;
VF_NM void __vf_cover(const char* label) VF_NX;               // must be reachable (vacuity guard)
uint64_t __vf_digest(uint64_t tag, const void* p, size_t n) VF_NX; // uninterpreted function of the bytes
uint64_t __vf_split(uint64_t v) VF_NX;                  // case split on a small value
void __vf_callee(const char* prefix, void* contract) VF_NX; // calls from the code to functions of that name use the contract (proof only)
bool __vf_proving() VF_NX;
void __vf_unroll(size_t n) VF_NX;                       // unrolling attempts before a loop is summarised
}
#define VF_ENSURES(c) __vf_assert((c), #c)
#define VF_ASSERT(c, l) __vf_assert((c), l)
#define VF_REQUIRES(c) __vf_assume(c)
#define VF_NEVER(l) __vf_assert(false, l)
#define VF_HARNESS(n) extern "C" void n()
static const size_t VF_MAX = size_t(1) << 40;

inline bool vf_bool() { return __vf_u8() & 1; }
inline void vf_fill(std::vector<uint8_t>& v, size_t n)
{
#ifdef VF_NATIVE
    v.resize(n);
#else
    v.__vf_uninit(n);
#endif
    __vf_bytes(v.data(), n);
}
inline std::vector<uint8_t> vf_vec(size_t n) { std::vector<uint8_t> v; vf_fill(v, n); return v; }
inline std::string vf_str(size_t n)
{
    std::string s;
#ifdef VF_NATIVE
    s.resize(n);
    __vf_bytes(&s[0], n);
#else
    s.__vf_uninit(n);
    __vf_bytes(s.__vf_p(), n);
#endif
    return s;
}
