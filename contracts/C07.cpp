// C07: the expected response size agrees with the responses that are accepted.
#include "vf.h"
#include "serial_exc.cpp"
#include "bin_utils.cpp"
#include "crc16.cpp"
#include "modbus_base.cpp"
using namespace Modbus;
static size_t Spec(uint8_t fn, size_t count)
{
    switch (fn) {
        case 1: case 2: return 2 + (count + 7) / 8;
        case 5: case 6: case 15: case 16: return 5;
        default: return 2 + 2 * count;
    }
}
VF_HARNESS(size_formula)
{
    uint8_t fn = __vf_u8();
    VF_REQUIRES((fn >= 1 && fn <= 6) || fn == 15 || fn == 16 || fn == 0x17);
    size_t count = __vf_size(65535);
    VF_ASSERT(CalcResponsePDUSize(static_cast<EFunction>(fn), count) == Spec(fn, count), "expected size is header plus data of the requested quantity");
    __vf_cover("done");
}
// a device that answers a request with the requested quantity produces exactly that size, and it is accepted
VF_HARNESS(conforming_answer)
{
    uint8_t fn = __vf_u8();
    VF_REQUIRES((fn >= 1 && fn <= 6) || fn == 15 || fn == 16 || fn == 0x17);
    size_t count = __vf_size((fn == 1 || fn == 2) ? 2040 : 127);
    bool wr = fn == 5 || fn == 6 || fn == 15 || fn == 16;
    auto p = vf_vec(CalcResponsePDUSize(static_cast<EFunction>(fn), count));
    p[0] = fn;
    if (!wr)
        p[1] = (fn == 1 || fn == 2) ? (count + 7) / 8 : count * 2;
    try {
        auto r = ExtractResponseData(static_cast<EFunction>(fn), p);
        VF_ASSERT(r.size() == (wr ? 0 : p.size() - 2), "the answer's data is returned");
        __vf_cover("accepted");
    } catch (const TErrorBase&) {
        VF_NEVER("a conforming answer of the expected size is accepted");
    }
}
// an answer of another size is not accepted as data for a read
VF_HARNESS(other_size)
{
    uint8_t fn = __vf_u8();
    VF_REQUIRES((fn >= 1 && fn <= 4) || fn == 0x17);
    size_t count = __vf_size((fn == 1 || fn == 2) ? 2040 : 127);
    size_t n = __vf_size(VF_MAX);
    auto p = vf_vec(n);
    VF_REQUIRES(n >= 2);
    VF_REQUIRES(p[1] == ((fn == 1 || fn == 2) ? (count + 7) / 8 : count * 2));
    VF_REQUIRES(n != CalcResponsePDUSize(static_cast<EFunction>(fn), count));
    try {
        ExtractResponseData(static_cast<EFunction>(fn), p);
        VF_NEVER("a truncated or padded answer is refused");
    } catch (const TErrorBase&) {
        __vf_cover("refused");
    }
}
