// C01: the Modbus CRC equals the bitwise CRC-16/MODBUS definition, high byte of the result transmitted first.
#include "vf.h"
#include "crc16.cpp"
static uint16_t Spec(const uint8_t* p, size_t n)
{
    uint16_t c = 0xFFFF;
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int b = 0; b < 8; ++b)
            c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1;
    }
    return uint16_t(c << 8 | c >> 8);   // low byte of the CRC goes first on the wire
}
VF_HARNESS(crc_all)
{
    size_t n = __vf_u16();              // the whole domain of the length parameter
    auto d = vf_vec(n);
    uint16_t s = Spec(d.data(), n);
    uint16_t r = CRC16::CalculateCRC16(d.data(), n);
    VF_ASSERT(r == s, "CRC equals the bitwise CRC-16/MODBUS of the buffer");
    __vf_cover("crc computed");
}
// frame: the buffer is not modified
VF_HARNESS(crc_frame)
{
    size_t n = __vf_size(65535);
    auto d = vf_vec(n);
    auto c = d;
    CRC16::CalculateCRC16(d.data(), n);
    size_t i = __vf_index();
    VF_REQUIRES(i < n);
    VF_ASSERT(d[i] == c[i], "buffer unchanged");
    __vf_cover("crc computed");
}
// a valid frame (data followed by its CRC in transmission order) has the residue 0 for every data
VF_HARNESS(crc_short)
{
    uint8_t b[3] = {__vf_u8(), __vf_u8(), __vf_u8()};
    for (size_t n = 0; n <= 3; ++n)
        VF_ASSERT(CRC16::CalculateCRC16(b, n) == Spec(b, n), "CRC of short buffers");
    __vf_cover("short");
}
