// C05: every Modbus request PDU that is built is well formed; parameters that cannot be encoded are refused.
#include "vf.h"
#include "serial_exc.cpp"
#include "bin_utils.cpp"
#include "crc16.cpp"
#include "modbus_base.cpp"
using namespace Modbus;

struct Req { uint8_t fn; uint16_t a, c, wa, wc; std::vector<uint8_t> d; };
static Req Arb()
{
    Req r;
    r.fn = __vf_u8();
    r.a = __vf_u16();
    r.c = __vf_u16();
    r.wa = __vf_u16();
    r.wc = __vf_u16();
    r.d = vf_vec(__vf_size(VF_MAX));
    return r;
}
static bool IsRead(uint8_t f) { return f >= 1 && f <= 4; }

// contract of the request builder for an accepted request
template<bool rw> static void Accepted(const Req& q, const std::vector<uint8_t>& p)
{
    size_t n = q.d.size();
    if (IsRead(q.fn)) {
        VF_ASSERT(p.size() == 5, "read request is 5 bytes");
        VF_ASSERT(p[0] == q.fn && p[1] == q.a >> 8 && p[2] == (q.a & 0xFF) && p[3] == q.c >> 8 && p[4] == (q.c & 0xFF), "read request: function, address, quantity");
        __vf_cover("read");
    } else if (q.fn == 5 || q.fn == 6) {
        VF_ASSERT(n == 2, "single write takes exactly one value");
        VF_ASSERT(p.size() == 5, "single write request is 5 bytes");
        VF_ASSERT(p[0] == q.fn && p[1] == q.a >> 8 && p[2] == (q.a & 0xFF) && p[3] == q.d[0] && p[4] == q.d[1], "single write: function, address, value");
        __vf_cover("single");
    } else if (q.fn == 15 || q.fn == 16) {
        VF_ASSERT(n == (q.fn == 16 ? size_t(q.c) * 2 : (size_t(q.c) + 7) / 8), "multiple write: quantity matches the data");
        VF_ASSERT(p.size() == 6 + n, "multiple write: size");
        VF_ASSERT(p[0] == q.fn && p[1] == q.a >> 8 && p[2] == (q.a & 0xFF) && p[3] == q.c >> 8 && p[4] == (q.c & 0xFF), "multiple write: function, address, quantity");
        VF_ASSERT(p[5] == n, "multiple write: the byte count field holds the number of data bytes");
        size_t i = __vf_index();
        VF_REQUIRES(i < n);
        VF_ASSERT(p[6 + i] == q.d[i], "multiple write: data");
        __vf_cover("multi");
    } else if (constexpr bool on = rw; on && q.fn == 0x17) {
        VF_ASSERT(n == size_t(q.wc) * 2, "read/write: quantity matches the data");
        VF_ASSERT(p.size() == 10 + n, "read/write: size");
        VF_ASSERT(p[0] == q.fn && p[1] == q.a >> 8 && p[2] == (q.a & 0xFF) && p[3] == q.c >> 8 && p[4] == (q.c & 0xFF), "read/write: function, address, quantity");
        VF_ASSERT(p[5] == q.wa >> 8 && p[6] == (q.wa & 0xFF) && p[7] == q.wc >> 8 && p[8] == (q.wc & 0xFF), "read/write: write address, write quantity");
        VF_ASSERT(p[9] == n, "read/write: the byte count field holds the number of data bytes");
        size_t i = __vf_index();
        VF_REQUIRES(i < n);
        VF_ASSERT(p[10 + i] == q.d[i], "read/write: data");
        __vf_cover("rw");
    } else {
        VF_ASSERT(p.empty(), "no request exists for other functions");
        __vf_cover("other");
    }
}
// a request may be refused only if its data does not fit its function code
static void Refused(const Req& q, bool rw)
{
    size_t n = q.d.size();
    bool ok = IsRead(q.fn) || ((q.fn == 5 || q.fn == 6) && n == 2) || (q.fn == 16 && n == size_t(q.c) * 2 && n < 256) ||
              (q.fn == 15 && n == (size_t(q.c) + 7) / 8 && n < 256) || (rw && q.fn == 0x17 && n == size_t(q.wc) * 2 && n < 256);
    VF_ASSERT(!ok, "an encodable request is not refused");
    __vf_cover("refused");
}
VF_HARNESS(make_pdu)
{
    Req q = Arb();
    std::vector<uint8_t> p;
    try {
        p = MakePDU(static_cast<EFunction>(q.fn), q.a, q.c, q.d);
    } catch (const TMalformedRequestError&) {
        Refused(q, false);
        return;
    }
    Accepted<false>(q, p);
}
VF_HARNESS(make_pdu_rw)
{
    Req q = Arb();
    std::vector<uint8_t> p;
    try {
        p = MakePDU(static_cast<EFunction>(q.fn), q.a, q.c, q.wa, q.wc, q.d);
    } catch (const TMalformedRequestError&) {
        Refused(q, true);
        return;
    }
    Accepted<true>(q, p);
}
VF_HARNESS(supported)
{
    uint8_t f = __vf_u8();
    VF_ENSURES(IsSupportedFunction(f) == ((f >= 1 && f <= 6) || f == 15 || f == 16 || f == 0x17));
    VF_ENSURES(IsException(f) == (f >= 0x80));
    __vf_cover("done");
}
