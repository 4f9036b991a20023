// C06: response data is taken only from a PDU that matches the request and is consistent; device exceptions always surface.
#include "vf.h"
#include "serial_exc.cpp"
#include "bin_utils.cpp"
#include "crc16.cpp"
#include "modbus_base.cpp"
using namespace Modbus;
static bool IsRd(uint8_t f) { return (f >= 1 && f <= 4) || f == 0x17; }
static bool IsWr(uint8_t f) { return f == 5 || f == 6 || f == 15 || f == 16; }
VF_HARNESS(extract)
{
    auto p = vf_vec(__vf_size(VF_MAX));
    uint8_t fn = __vf_u8();
    size_t n = p.size();
    std::vector<uint8_t> r;
    bool valid = n >= 2 && p[0] == fn && ((IsRd(fn) && n == size_t(p[1]) + 2) || (IsWr(fn) && n == 5));
    try {
        r = ExtractResponseData(static_cast<EFunction>(fn), p);
    } catch (const TModbusExceptionError& e) {
        VF_ASSERT(n >= 2 && p[0] == (fn | 0x80), "an exception is reported only for an exception PDU of this request");
        VF_ASSERT(e.GetExceptionCode() == p[1], "the exception code is the device's");
        __vf_cover("exception");
        return;
    } catch (const TErrorBase&) {
        VF_ASSERT(!valid, "a valid response is not rejected");
        VF_ASSERT(!(n >= 2 && fn < 0x80 && p[0] == (fn | 0x80) && p[1] != 0), "a device exception is reported as such");
        __vf_cover("rejected");
        return;
    }
    VF_ASSERT(valid, "accepted responses match the request's function and are consistent in length");
    if (IsRd(fn)) {
        VF_ASSERT(r.size() == n - 2, "all data bytes are returned");
        size_t i = __vf_index();
        VF_REQUIRES(i < r.size());
        VF_ASSERT(r[i] == p[2 + i], "data bytes are returned in order");
        __vf_cover("read data");
    } else {
        VF_ASSERT(r.empty(), "a write response carries no data");
        __vf_cover("write ok");
    }
}
VF_HARNESS(exception_code)
{
    uint8_t c = __vf_u8();
    TModbusExceptionError e(c);
    VF_ENSURES(e.GetExceptionCode() == c);
    __vf_cover("done");
}
