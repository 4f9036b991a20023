// C08: one Modbus RTU exchange. Contracts used at call sites: TPort (WriteBytes, ReadFrame, see Port below) and
// CRC16::CalculateCRC16 (a function of the bytes; C01 decides which one).
#include "vf.h"
#include <optional>
#include "serial_exc.cpp"
#include "bin_utils.cpp"
#include "modbus_base.cpp"
using namespace Modbus;
uint16_t CRC16::CalculateCRC16(const uint8_t* p, uint16_t n) { return uint16_t(__vf_digest(1, p, n)); }
static uint16_t Crc(const uint8_t* p, size_t n) { return uint16_t(__vf_digest(1, p, n)); }
using us = std::chrono::microseconds;

// Contract of a port: a written frame is recorded; a read returns at most the requested number of arbitrary bytes (any line,
// any device), or times out.
struct Port: TPort
{
    std::vector<uint8_t> Sent;
    int Writes = 0;
    int Reads = 0;
    bool GoodCrc = false;
    std::vector<uint8_t> Got;     // what the line delivered for the first read
    size_t Requested = 0;
    us Rt{0}, Ft{0}, Time{0};
    bool Timeout = false;
    TFrameCompletePred Pred;
    bool Extra = false, ExtraTimeout = false;
    us Rt2{0}, Ft2{0};

    void Open() override {}
    void Close() override {}
    bool IsOpen() const override { return true; }
    void CheckPortOpen() const override {}
    void WriteBytes(const uint8_t* buf, int count) override
    {
        VF_ASSERT(Reads == 0, "the request is sent before the answer is read");
        ++Writes;
        Sent = std::vector<uint8_t>(buf, buf + count);
    }
    uint8_t ReadByte(const us&) override { return 0; }
    TReadFrameResult ReadFrame(uint8_t* buf, size_t count, const us& rt, const us& ft, TFrameCompletePred pred = 0) override
    {
        TReadFrameResult r;
        ++Reads;
        if (Reads > 1) {
            Extra = true;
            Rt2 = rt;
            Ft2 = ft;
            if (ExtraTimeout)
                throw TResponseTimeoutException();
            size_t n = __vf_size(count);
            __vf_bytes(buf, n);
            r.Count = n;
            return r;
        }
        VF_ASSERT(Writes == 1, "exactly one request frame is sent");
        Requested = count;
        Rt = rt;
        Ft = ft;
        Pred = pred;
        if (Timeout)
            throw TResponseTimeoutException();
        size_t n = __vf_size(count);
        __vf_bytes(buf, n);
        if (GoodCrc) {
            VF_REQUIRES(n >= 2);
            uint16_t c = Crc(buf, n - 2);
            buf[n - 2] = c >> 8;
            buf[n - 1] = c & 0xFF;
        }
        Got = std::vector<uint8_t>(buf, buf + n);
        r.Count = n;
        r.ResponseTime = Time;
        return r;
    }
    void SkipNoise() override {}
    void SleepSinceLastInteraction(const us&) override {}
    us GetSendTimeBytes(double) const override { return us(0); }
    us GetSendTimeBits(size_t) const override { return us(0); }
    std::string GetDescription(bool = true) const override { return std::string(); }
};
// definitions of src/port/port.cpp that this exchange never reaches
void TPort::Reopen() {}
void TPort::ApplySerialPortSettings(const TSerialPortConnectionSettings&) {}
void TPort::ResetSerialPortSettings() {}
static const size_t PDU = 60000;

static void Sent(const Port& p, uint8_t slave, const std::vector<uint8_t>& pdu)
{
    VF_ASSERT(p.Writes == 1, "exactly one request frame is sent");
    size_t n = pdu.size();
    VF_ASSERT(p.Sent.size() == n + 3, "frame: slave id, PDU, CRC");
    VF_ASSERT(p.Sent[0] == slave, "frame starts with the slave id");
    uint16_t c = Crc(p.Sent.data(), n + 1);
    VF_ASSERT(p.Sent[n + 1] == c >> 8 && p.Sent[n + 2] == (c & 0xFF), "frame ends with the CRC of everything before it");
    size_t i = __vf_index();
    VF_REQUIRES(i < n);
    VF_ASSERT(p.Sent[i + 1] == pdu[i], "frame carries the PDU");
}
template<bool good, bool timeout, bool force> static void Exchange()
{
    Port p;
    p.GoodCrc = good;
    p.Timeout = timeout;
    p.ExtraTimeout = vf_bool();
    p.Time = us(__vf_u32());
    uint8_t slave = __vf_u8();
    auto pdu = vf_vec(__vf_size(PDU));
    size_t exp = __vf_size(PDU);
    bool match = vf_bool();
    std::chrono::milliseconds rt(__vf_u32()), ft(__vf_u32());
    TModbusRTUTraits t(force);
    TReadResult r;
    bool crcOk = good;
    try {
        r = t.Transaction(p, slave, pdu, exp, rt, ft, match);
    } catch (const TResponseTimeoutException&) {
        VF_ASSERT(timeout, "a timeout is reported only if nothing was received");
        if constexpr (timeout)
            __vf_cover("timeout");
        Sent(p, slave, pdu);
        return;
    } catch (const TMalformedResponseError&) {
        size_t n = p.Got.size();
        VF_ASSERT(!timeout, "a timeout surfaces as a timeout");
        VF_ASSERT(n < 3 || !(p.Got[n - 2] == Crc(p.Got.data(), n - 2) >> 8 && p.Got[n - 1] == (Crc(p.Got.data(), n - 2) & 0xFF)), "a frame with a valid CRC is not malformed");
        if constexpr (!timeout)
            __vf_cover("malformed");
        Sent(p, slave, pdu);
        return;
    } catch (const TUnexpectedResponseError&) {
        VF_ASSERT(!timeout && match && p.Got.size() >= 3 && p.Got[0] != slave, "unexpected: only an answer of another slave");
        if constexpr (!timeout)
            __vf_cover("other slave");
        Sent(p, slave, pdu);
        return;
    }
    size_t n = p.Got.size();
    VF_ASSERT(!timeout, "a timeout surfaces as a timeout");
    VF_ASSERT(n >= 3, "shorter answers are refused");
    uint16_t c = Crc(p.Got.data(), n - 2);
    VF_ASSERT(p.Got[n - 2] == c >> 8 && p.Got[n - 1] == (c & 0xFF), "an accepted answer has a valid CRC");
    VF_ASSERT(!match || p.Got[0] == slave, "an accepted answer comes from the addressed slave");
    VF_ASSERT(r.SlaveId == p.Got[0], "the reported slave id is the one that answered");
    VF_ASSERT(r.ResponseTime == p.Time, "the response time is the port's");
    VF_ASSERT(r.Pdu.size() == n - 3, "the PDU is the answer without slave id and CRC");
    VF_ASSERT(p.Requested == exp + 3, "room for exactly the expected answer");
    VF_ASSERT(p.Rt == rt && p.Ft == ft, "timeouts are those of the caller");
    VF_ASSERT(p.Extra == force, "the line is drained only if asked for");
    VF_ASSERT(!force || (p.Rt2 == ft && p.Ft2 == ft), "draining waits one frame timeout");
    if constexpr (!timeout)
        __vf_cover("accepted");
    if (vf_bool()) {
        Sent(p, slave, pdu);
        return;
    }
    size_t i = __vf_index();
    VF_REQUIRES(i < r.Pdu.size());
    VF_ASSERT(r.Pdu[i] == p.Got[i + 1], "the PDU's bytes are the answer's");
}
VF_HARNESS(rtu_any_answer) { Exchange<false, false, false>(); }
VF_HARNESS(rtu_any_answer_drain) { Exchange<false, false, true>(); }
VF_HARNESS(rtu_valid_crc) { Exchange<true, false, false>(); }
VF_HARNESS(rtu_valid_crc_drain) { Exchange<true, false, true>(); }
VF_HARNESS(rtu_timeout) { Exchange<false, true, true>(); }
// When is a frame complete?
VF_HARNESS(rtu_complete)
{
    Port p;
    p.Timeout = true;
    std::vector<uint8_t> pdu(5);
    size_t exp = __vf_size(PDU);
    TModbusRTUTraits t(false);
    try {
        t.Transaction(p, 1, pdu, exp, std::chrono::milliseconds(1), std::chrono::milliseconds(1), true);
    } catch (const TResponseTimeoutException&) {
        auto b = vf_vec(__vf_size(PDU));
        size_t n = b.size();
        bool done = p.Pred(b.data(), n);
        VF_ASSERT(done == (n >= 2 && n >= (b[1] >= 0x80 ? 5 : exp + 3)), "complete: 5 bytes for an exception, otherwise the expected length");
        if (done)
            __vf_cover("complete");
        else
            __vf_cover("incomplete");
        return;
    }
    VF_NEVER("the timeout surfaces");
}
