// C02: integer <-> byte sequence conversions and bit masks.
#include "vf.h"
#include <iterator>
#include "bin_utils.cpp"
using namespace BinUtils;

template<class T> static void GetLE()
{
    uint8_t b[sizeof(T)];
    __vf_bytes(b, sizeof(T));
    size_t n = __vf_split(__vf_size(sizeof(T)));
    T s = 0;
    for (size_t i = 0; i < n; ++i)
        s |= T(T(b[i]) << (8 * i));
    VF_ASSERT(Get<T>(b, b + n) == s, "little-endian read weighs byte i by 256^i");
    if (n == sizeof(T)) {
        VF_ASSERT(GetFrom<T>(&b[0]) == s, "GetFrom reads exactly the width of the type");
        __vf_cover("full width");
    }
}
template<class T> static void GetBE()
{
    uint8_t b[sizeof(T)];
    __vf_bytes(b, sizeof(T));
    size_t n = __vf_split(__vf_size(sizeof(T)));
    T s = 0;
    for (size_t i = 0; i < n; ++i)
        s |= T(T(b[i]) << (8 * (n - 1 - i)));
    VF_ASSERT(GetBigEndian<T>(b, b + n) == s, "big-endian read weighs byte i by 256^(n-1-i)");
    if (n == sizeof(T)) {
        VF_ASSERT(GetFromBigEndian<T>(&b[0]) == s, "GetFromBigEndian reads exactly the width of the type");
        __vf_cover("full width");
    }
}
template<class T> static T In()
{
    T v;
    __vf_bytes(&v, sizeof(v));
    return v;
}
template<class T> static void AppLE()
{
    T v = In<T>();
    size_t n = __vf_split(__vf_size(sizeof(T)));
    uint8_t head = __vf_u8();
    std::vector<uint8_t> out{head};
    Append(std::back_inserter(out), v, n);
    VF_ASSERT(out.size() == 1 + n, "exactly byteCount bytes are appended");
    VF_ASSERT(out[0] == head, "existing content is kept");
    for (size_t i = 0; i < n; ++i)
        VF_ASSERT(out[1 + i] == uint8_t(uint64_t(v) >> (8 * i)), "little-endian byte i");
    if (n == sizeof(T)) {
        std::vector<uint8_t> d;
        Append(std::back_inserter(d), v);
        VF_ASSERT(d.size() == sizeof(T), "default width is the type's");
        VF_ASSERT(Get<typename std::make_unsigned<T>::type>(d.begin(), d.end()) == typename std::make_unsigned<T>::type(v), "append then read gives the value back");
        __vf_cover("full width");
    }
}
template<class T> static void AppBE()
{
    T v = In<T>();
    size_t n = __vf_split(__vf_size(sizeof(T)));
    VF_REQUIRES(n >= 1);
    uint8_t head = __vf_u8();
    std::vector<uint8_t> out{head};
    AppendBigEndian(std::back_inserter(out), v, n);
    VF_ASSERT(out.size() == 1 + n, "exactly byteCount bytes are appended");
    VF_ASSERT(out[0] == head, "existing content is kept");
    for (size_t i = 0; i < n; ++i)
        VF_ASSERT(out[1 + i] == uint8_t(uint64_t(v) >> (8 * (n - 1 - i))), "big-endian byte i");
    if (n == sizeof(T)) {
        std::vector<uint8_t> d;
        AppendBigEndian(std::back_inserter(d), v);
        VF_ASSERT(d.size() == sizeof(T), "default width is the type's");
        VF_ASSERT(GetBigEndian<typename std::make_unsigned<T>::type>(d.begin(), d.end()) == typename std::make_unsigned<T>::type(v), "append then read gives the value back");
        __vf_cover("full width");
    }
}
#define ALL(T) VF_HARNESS(le_get_##T) { GetLE<T>(); } VF_HARNESS(be_get_##T) { GetBE<T>(); } VF_HARNESS(le_app_##T) { AppLE<T>(); } VF_HARNESS(be_app_##T) { AppBE<T>(); }
ALL(uint8_t)
ALL(uint16_t)
ALL(uint32_t)
ALL(uint64_t)
VF_HARNESS(le_app_int32) { AppLE<int32_t>(); }
VF_HARNESS(be_app_int32) { AppBE<int32_t>(); }
VF_HARNESS(append_list)
{
    std::vector<uint8_t> out{__vf_u8()};
    uint8_t a = __vf_u8(), b = __vf_u8(), h = out[0];
    Append(std::back_inserter(out), {a, b});
    VF_ENSURES(out.size() == 3 && out[0] == h && out[1] == a && out[2] == b);
    __vf_cover("list");
}
VF_HARNESS(lsb_mask)
{
    uint8_t n = __vf_u8();
    uint64_t m = GetLSBMask(n);
    uint64_t i = __vf_index();
    VF_REQUIRES(i < 64);
    VF_ASSERT(((m >> i) & 1) == (i < n ? 1u : 0u), "bit i of the mask is set exactly when i < bitCount");
    __vf_cover("mask");
}
VF_HARNESS(write_2_bytes)
{
    uint8_t b[4] = {__vf_u8(), 0, 0, __vf_u8()};
    uint8_t x = b[0], y = b[3];
    uint16_t v = __vf_u16();
    WriteAs2Bytes(b + 1, v);
    VF_ENSURES(b[1] == v >> 8 && b[2] == (v & 0xFF));
    VF_ASSERT(b[0] == x && b[3] == y, "only two bytes are written");
    VF_ENSURES(GetFromBigEndian<uint16_t>(&b[1]) == v);
    __vf_cover("written");
}
