// C09: one Modbus TCP exchange. Contracts used at call sites: port (WriteBytes, ReadFrame, GetDescription), clock.
#include "vf.h"
#include <cstring>
#include "serial_exc.cpp"
#include "bin_utils.cpp"
#include "modbus_base.cpp"
#include "port/port.cpp"
using namespace Modbus;
uint16_t CRC16::CalculateCRC16(const uint8_t* p, uint16_t n) { return uint16_t(__vf_digest(1, p, n)); }
using us = std::chrono::microseconds;
using ms = std::chrono::milliseconds;
// A clock that never goes back. Coarse: it stands still until an arbitrary moment, when it goes on by an hour.
static bool Coarse;
static std::chrono::steady_clock::time_point Clock, First;
static bool Started;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    if (Coarse) {
        if (Started && vf_bool())
            Clock = First + std::chrono::hours(1);
    } else {
        Clock += us(__vf_u32());
    }
    if (!Started) {
        Started = true;
        First = Clock;
    }
    return Clock;
}
// Contract of a port. It remembers the last header and body it delivered.
struct Port: TPort
{
    std::string Name;
    std::vector<uint8_t> Sent;
    int Writes = 0;
    bool Body = false;            // a header was delivered, its body comes next
    uint16_t HdrId = 0, HdrLen = 0;
    uint8_t HdrUnit = 0;
    size_t HdrCount = 0;
    std::vector<uint8_t> Got = std::vector<uint8_t>(65536); // its first GotCount bytes
    size_t GotCount = 0;
    us Time{0};
    bool Thrown = false;

    void Open() override {}
    void Close() override {}
    bool IsOpen() const override { return true; }
    void CheckPortOpen() const override {}
    void WriteBytes(const uint8_t* buf, int count) override
    {
        ++Writes;
        Id = buf[0] << 8 | buf[1];
        Sent = std::vector<uint8_t>(buf, buf + count);
    }
    uint8_t ReadByte(const us&) override { return 0; }
    size_t Len() const { return size_t(HdrLen) - 1; }
    uint16_t Id = 0;
    bool Mine = false;            // an answer to this transaction was delivered
    bool Ours() const { return HdrId == Id; }
    us Rt{0}, Ft{0};
    TReadFrameResult ReadFrame(uint8_t* buf, size_t count, const us& rt, const us& ft, TFrameCompletePred = 0) override
    {
        TReadFrameResult r;
        VF_ASSERT(Writes == 1, "exactly one request frame is sent, before reading");
        VF_ASSERT(ft == Ft && rt == (Body ? Ft : Rt), "timeouts are those of the caller");
        if (__vf_u8() & 1) {
            Thrown = true;
            throw TResponseTimeoutException();
        }
        size_t n = __vf_size(count);
        __vf_bytes(buf, n);
        if (!Body) {
            VF_ASSERT(count == 7, "a header is read");
            VF_ASSERT(!Mine, "only answers to other transactions are skipped");
            HdrId = buf[0] << 8 | buf[1];
            HdrLen = buf[4] << 8 | buf[5];
            HdrUnit = buf[6];
            HdrCount = n;
            Body = true;
        } else {
            VF_ASSERT(HdrCount == 7 && Len() == count, "the body has the announced length");
            memcpy(Got.data(), buf, n);
            GotCount = n;
            if (Ours())
                Mine = true;
            Body = false;
        }
        r.Count = n;
        return r;
    }
    void SkipNoise() override {}
    void SleepSinceLastInteraction(const us&) override {}
    us GetSendTimeBytes(double) const override { return us(0); }
    us GetSendTimeBits(size_t) const override { return us(0); }
    std::string GetDescription(bool = true) const override { return Name; }
};
static const size_t PDU = 65000;
static void Sent(const Port& p, uint8_t slave, uint16_t id, const std::vector<uint8_t>& pdu)
{
    VF_ASSERT(p.Writes == 1, "exactly one request frame is sent");
    size_t n = pdu.size();
    VF_ASSERT(p.Sent.size() == n + 7, "frame: MBAP header, PDU");
    VF_ASSERT(p.Sent[0] == id >> 8 && p.Sent[1] == (id & 0xFF), "transaction id");
    VF_ASSERT(p.Sent[2] == 0 && p.Sent[3] == 0, "protocol id");
    VF_ASSERT(p.Sent[4] == (n + 1) >> 8 && p.Sent[5] == ((n + 1) & 0xFF), "length: unit id and PDU");
    VF_ASSERT(p.Sent[6] == slave, "unit id");
    size_t i = __vf_index();
    VF_REQUIRES(i < n);
    VF_ASSERT(p.Sent[i + 7] == pdu[i], "frame carries the PDU");
}
VF_HARNESS(tcp_exchange)
{
    Coarse = true;
    Port p;
    p.Name = "p";
    uint8_t slave = __vf_u8();
    auto pdu = vf_vec(1 + __vf_size(PDU));
    size_t exp = __vf_size(PDU);
    bool match = vf_bool();
    ms rt(__vf_u16()), ft(__vf_u16());
    p.Rt = rt;
    p.Ft = ft;
    TModbusTCPTraits t;
    TModbusTCPTraits::ResetTransactionId(p);
    TReadResult r;
    Clock = {};
    Started = false;
    __vf_unroll(0);
    try {
        r = t.Transaction(p, slave, pdu, exp, rt, ft, match);
    } catch (const TResponseTimeoutException&) {
        VF_ASSERT(p.Thrown || std::chrono::duration_cast<us>(Clock - First) >= us(rt + ft), "a timeout is reported only if nothing was received or the time is over");
        VF_ASSERT(p.Thrown || !p.Mine, "an answer to this transaction is never skipped");
        __vf_cover("timeout");
        return;
    } catch (const TMalformedResponseError&) {
        VF_ASSERT(!p.Thrown, "a timeout surfaces as a timeout");
        VF_ASSERT(p.HdrCount < 7 || (p.HdrLen == 0) || p.GotCount < p.Len(), "malformed: short header, zero length or short body");
        __vf_cover("malformed");
        return;
    } catch (const TUnexpectedResponseError&) {
        VF_ASSERT(match && p.Ours() && p.HdrUnit != slave, "unexpected: only an answer of another unit");
        __vf_cover("other unit");
        return;
    }
    VF_ASSERT(!p.Thrown, "a timeout surfaces as a timeout");
    VF_ASSERT(p.HdrCount == 7 && p.Ours(), "an accepted answer belongs to this transaction");
    VF_ASSERT(!match || p.HdrUnit == slave, "an accepted answer comes from the addressed unit");
    VF_ASSERT(r.SlaveId == p.HdrUnit, "the reported unit id is the one that answered");
    VF_ASSERT(r.Pdu.size() == p.Len() && p.GotCount == p.Len(), "the PDU has the announced length");
    __vf_cover("accepted");
    size_t i = __vf_index();
    VF_REQUIRES(i < r.Pdu.size());
    VF_ASSERT(r.Pdu[i] == p.Got[i], "the PDU's bytes are the answer's");
}
// Every header announces an answer of one byte; arbitrary ids, an arbitrary clock.
struct ShortPort: Port
{
    bool Mine = false;
    TReadFrameResult ReadFrame(uint8_t* buf, size_t count, const us&, const us&, TFrameCompletePred = 0) override
    {
        if (count == 7) {
            VF_ASSERT(!Mine, "an answer to this transaction is never skipped");
            VF_ASSERT(std::chrono::duration_cast<us>(Clock - First) < Rt + Ft, "nothing is awaited after the timeouts are over");
            __vf_bytes(buf, 2);
            Mine = (buf[0] << 8 | buf[1]) == Id;
            buf[2] = buf[3] = buf[4] = 0;
            buf[5] = 2;
            buf[6] = 1;
        } else {
            buf[0] = 5;
        }
        TReadFrameResult r;
        r.Count = count;
        return r;
    }
};
VF_HARNESS(tcp_time)
{
    ShortPort p;
    p.Name = "p";
    ms rt(__vf_u16()), ft(__vf_u16());
    p.Rt = rt;
    p.Ft = ft;
    TModbusTCPTraits t;
    TModbusTCPTraits::ResetTransactionId(p);
    Clock = {};
    Started = false;
    std::vector<uint8_t> pdu(1);
    __vf_unroll(0);
    try {
        t.Transaction(p, 1, pdu, 1, rt, ft, true);
    } catch (const TResponseTimeoutException&) {
        VF_ASSERT(std::chrono::duration_cast<us>(Clock - First) >= us(rt + ft), "a timeout is reported only when both timeouts are over");
        VF_ASSERT(!p.Mine, "an answer to this transaction is never skipped");
        __vf_cover("timeout");
        return;
    }
    VF_ASSERT(p.Mine, "an accepted answer belongs to this transaction");
    __vf_cover("accepted");
}
// The ids of a port count its requests modulo 2^16, starting with 1 when nothing is remembered; other ports do not matter.
VF_HARNESS(tcp_ids)
{
    Port a, b;
    a.Name = "a";
    b.Name = "b";
    using T = TModbusTCPTraits;
    T::ResetTransactionId(a);
    T::ResetTransactionId(b);
    VF_ASSERT(T::TransactionIds.count("a") == 0 && T::TransactionIds.count("b") == 0, "nothing is remembered after a reset");
    uint16_t x = __vf_u16(), y = __vf_u16();
    bool ka = vf_bool(), kb = vf_bool();
    // any history
    if (kb)
        T::TransactionIds.emplace("b", y);
    if (ka)
        T::TransactionIds.emplace("a", x);
    uint16_t id = T::GetTransactionId(a);
    VF_ASSERT(id == (ka ? uint16_t(x + 1) : 1), "the next id of the port");
    VF_ASSERT(T::TransactionIds.at("a") == id, "the id is remembered");
    VF_ASSERT(T::TransactionIds.count("b") == kb && (!kb || T::TransactionIds.at("b") == y), "other ports are not affected");
    T::ResetTransactionId(a);
    VF_ASSERT(T::TransactionIds.count("a") == 0, "nothing is remembered after a reset");
    VF_ASSERT(T::TransactionIds.count("b") == kb && (!kb || T::TransactionIds.at("b") == y), "other ports are not affected");
    VF_ASSERT(T::GetTransactionId(a) == 1, "the first id after a reset");
    __vf_cover("ids");
}
