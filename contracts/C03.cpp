// C03: BCD conversions are mutually inverse on decimal values that fit the word.
#include "vf.h"
#include "bcd_utils.cpp"
static uint8_t Digit()
{
    uint8_t d = __vf_u8();
    VF_REQUIRES(d < 10);
    return d;
}
static const uint32_t P10[8] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000};

template<int SZ> static void Run()
{
    const WordSizes size = static_cast<WordSizes>(SZ);
    // decoding: every digit string
    uint8_t d[2 * SZ];                              // d[0] least significant
    uint32_t value = 0, packed = 0;
    uint8_t bytes[SZ];
    for (int i = 0; i < 2 * SZ; ++i) {
        d[i] = Digit();
        value += d[i] * P10[i];
        packed |= uint32_t(d[i]) << (4 * i);
    }
    for (int i = 0; i < SZ; ++i)
        bytes[i] = d[2 * (SZ - 1 - i)] | d[2 * (SZ - 1 - i) + 1] << 4;
    VF_ASSERT(PackBytes(bytes, size) == packed, "bytes are packed most significant first");
    VF_ASSERT(PackedBCD2Int(packed, size) == value, "packed BCD decodes to the decimal value");
    // encoding: every value; of values too wide for the word the lowest digits
    uint32_t v = __vf_u32();
    const bool fits = v <= P10[2 * SZ - 1] * 9 + (P10[2 * SZ - 1] - 1);
    auto a = IntToBCDArray(v, size);
    VF_ASSERT(a.size() == size_t(SZ), "array has the word's width");
    uint64_t t = v;
    uint32_t pk = 0, sum = 0;
    for (int i = 0; i < 2 * SZ; ++i) {
        uint32_t digit = t % 10;
        t /= 10;
        pk |= digit << (4 * i);
        sum += digit * P10[i];
        VF_ASSERT(((a[SZ - 1 - i / 2] >> (i & 1 ? 4 : 0)) & 0xF) == digit, "decimal digit i is nibble i counted from the last byte");
    }
    uint32_t p = IntToPackedBCD(v, size);
    VF_ASSERT(p == pk, "packed BCD holds the digits of the value");
    // with the decoding contract above (for every digit string) this makes the two conversions inverse
    VF_ASSERT(!fits || sum == v, "the digits add up to the value");
    __vf_cover("done");
}
VF_HARNESS(bcd8) { Run<1>(); }
VF_HARNESS(bcd16) { Run<2>(); }
VF_HARNESS(bcd24) { Run<3>(); }
VF_HARNESS(bcd32) { Run<4>(); }
// bits above the word are ignored when decoding, digits above it when encoding
VF_HARNESS(bcd_high_bits)
{
    uint64_t p = __vf_u64();
    size_t sz = __vf_split(__vf_size(4));
    VF_REQUIRES(sz >= 1);
    uint64_t m = (uint64_t(1) << (8 * sz)) - 1;
    VF_ENSURES(PackedBCD2Int(p, static_cast<WordSizes>(sz)) == PackedBCD2Int(p & m, static_cast<WordSizes>(sz)));
    __vf_cover("done");
}
VF_HARNESS(pack_bytes_all)
{
    uint8_t b[4];
    __vf_bytes(b, 4);
    VF_ENSURES(PackBytes(b, WordSizes::W8_SZ) == b[0]);
    VF_ENSURES(PackBytes(b, WordSizes::W16_SZ) == (uint32_t(b[0]) << 8 | b[1]));
    VF_ENSURES(PackBytes(b, WordSizes::W24_SZ) == (uint32_t(b[0]) << 16 | uint32_t(b[1]) << 8 | b[2]));
    VF_ENSURES(PackBytes(b, WordSizes::W32_SZ) == (uint32_t(b[0]) << 24 | uint32_t(b[1]) << 16 | uint32_t(b[2]) << 8 | b[3]));
    __vf_cover("done");
}
