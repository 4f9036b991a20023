// C17: one Fast Modbus event request. Contracts used at call sites: the transport (IModbusTraits::Transaction), port timing, the event
// visitor.
#include "vf.h"
#include "serial_exc.cpp"
#include "bin_utils.cpp"
#include "modbus_base.cpp"
#include "port/port.cpp"
#include "modbus_ext_common.cpp"
using us = std::chrono::microseconds;
using ms = std::chrono::milliseconds;
WBMQTT::TLogger Warn, Debug, Error, Info;
uint16_t CRC16::CalculateCRC16(const uint8_t* p, uint16_t n) { return uint16_t(__vf_digest(1, p, n)); }
struct Port: TPort
{
    us ByteTime{0}, BitTime{0};
    bool Sent = false;
    int Pauses = 0, Before = 0;
    void Open() override {}
    void Close() override {}
    bool IsOpen() const override { return true; }
    void CheckPortOpen() const override {}
    void WriteBytes(const uint8_t*, int) override {}
    uint8_t ReadByte(const us&) override { return 0; }
    TReadFrameResult ReadFrame(uint8_t*, size_t, const us&, const us&, TFrameCompletePred = 0) override { return TReadFrameResult(); }
    void SkipNoise() override {}
    void SleepSinceLastInteraction(const us&) override
    {
        ++Pauses;
        if (!Sent)
            ++Before;
    }
    us GetSendTimeBytes(double) const override { return ByteTime; }
    us GetSendTimeBits(size_t) const override { return BitTime; }
    std::string GetDescription(bool = true) const override { return "p"; }
};
struct Traits: Modbus::IModbusTraits
{
    std::vector<uint8_t> Request, Answer;
    uint8_t Slave = 0, To = 0;
    bool Timeout = false, Match = true;
    int Calls = 0;
    Modbus::TReadResult Transaction(TPort& port, uint8_t slave, const std::vector<uint8_t>& pdu, size_t, const ms&, const ms&, bool match) override
    {
        ++Calls;
        static_cast<Port&>(port).Sent = true;
        To = slave;
        Match = match;
        Request = pdu;
        if (Timeout)
            throw TResponseTimeoutException();
        Modbus::TReadResult r;
        r.SlaveId = Slave;
        r.Pdu = Answer;
        return r;
    }
};
struct Visitor: ModbusExt::IEventsVisitor
{
    const std::vector<uint8_t>* A = nullptr;
    uint8_t Slave = 0;
    size_t Pos = 5;
    void Event(uint8_t slave, uint8_t type, uint16_t id, const uint8_t* data, size_t size) override
    {
        const auto& a = *A;
        VF_ASSERT(slave == Slave, "an event belongs to the device that answered");
        VF_ASSERT(Pos + 4 <= a.size(), "an event is reported only if the answer contains it");
        if (Pos + 4 > a.size())
            return;
        VF_ASSERT(size == a[Pos], "size of the event's data");
        VF_ASSERT(type == a[Pos + 1], "type of the event");
        VF_ASSERT(id == (a[Pos + 2] << 8 | a[Pos + 3]), "id of the event");
        VF_ASSERT(Pos + 4 + size <= a.size(), "the event's data are in the answer");
        if (Pos + 4 + size > a.size())
            return;
        size_t k = __vf_index();
        if (k < size)
            VF_ASSERT(data[k] == a[Pos + 4 + k], "data of the event");
        Pos += 4 + size;
    }
};
VF_HARNESS(events)
{
    Port p;
    p.ByteTime = us(100);
    p.BitTime = us(10);
    Traits t;
    t.Slave = __vf_u8();
    t.Answer = vf_vec(__vf_size(VF_MAX));
    t.Timeout = vf_bool();
    const auto& a = t.Answer;
    Visitor v;
    v.A = &a;
    v.Slave = t.Slave;
    ModbusExt::TEventConfirmationState st;
    uint8_t s0 = st.SlaveId = __vf_u8();
    uint8_t f0 = st.Flag = __vf_u8();
    uint8_t start = __vf_u8();
    bool more, malformed = false, timeout = false;
    try {
        __vf_unroll(0);
        more = ModbusExt::ReadEvents(p, t, ms(100), start, st, v);
    } catch (const TResponseTimeoutException&) {
        timeout = true;
    } catch (const Modbus::TMalformedResponseError&) {
        malformed = true;
    }
    VF_ASSERT(t.Calls == 1 && t.To == 0xFD && !t.Match, "one request to all devices; any of them may answer");
    VF_ASSERT(p.Before == 1 && p.Pauses == 2, "the line is left free before the request and after the answer");
    const auto& q = t.Request;
    VF_ASSERT(q.size() == 6 && q[0] == 0x46 && q[1] == 0x10 && q[2] == start && q[4] == s0 && q[5] == f0, "the request asks from the given device on and confirms the last answer");
    VF_ASSERT(timeout == t.Timeout, "a timeout is reported as such");
    if (timeout) {
        VF_ASSERT(st.SlaveId == s0 && st.Flag == f0 && v.Pos == 5, "nothing is confirmed or reported without an answer");
        __vf_cover("timeout");
        return;
    }
    bool has = a.size() >= 5 && a[1] == 0x11 && a.size() == size_t(5) + a[4];
    bool none = a.size() >= 2 && a[1] == 0x12;
    if (malformed) {
        VF_ASSERT(!none, "an answer without events is accepted");
        if (has) {
            VF_ASSERT(v.Pos < a.size() && v.Pos + 4 + a[v.Pos] > a.size(), "an answer with events is refused only where an event does not fit in it");
            __vf_cover("an event too long");
        } else {
            VF_ASSERT(v.Pos == 5 && st.SlaveId == s0 && st.Flag == f0, "nothing is confirmed or reported after a malformed answer");
            __vf_cover("malformed");
        }
        return;
    }
    VF_ASSERT(has || none, "only well-formed answers are accepted");
    VF_ASSERT(more == has, "there may be more events exactly after an answer with events");
    if (has) {
        VF_ASSERT(v.Pos == a.size(), "every event of the answer is reported, once and in order");
        VF_ASSERT(st.SlaveId == t.Slave && st.Flag == a[2], "the next request confirms this answer");
        __vf_cover("events");
    } else {
        VF_ASSERT(v.Pos == 5, "no events are reported");
        VF_ASSERT(st.SlaveId == s0 && st.Flag == f0, "the confirmation is kept");
        __vf_cover("no events");
    }
}
// The maximum size of the answer: what fits in the time, but at least one event.
template<unsigned byteTime> static void Limit()
{
    Port p;
    p.ByteTime = us(byteTime);
    p.BitTime = us(byteTime / 11);
    Traits t;
    t.Timeout = true;
    Visitor v;
    ModbusExt::TEventConfirmationState st;
    int64_t time = __vf_u16();
    if (vf_bool())
        time = -time;
    try {
        ModbusExt::ReadEvents(p, t, ms(time), 0, st, v);
    } catch (const TResponseTimeoutException&) {
    }
    VF_ASSERT(t.Request.size() == 6, "request");
    if (t.Request.size() != 6)
        return;
    unsigned max = t.Request[3];
    VF_ASSERT(max >= 6, "room for at least one event");
    VF_ASSERT(max + 8 <= 256, "the answer fits in a packet");
    if (byteTime == 0)
        VF_ASSERT(max == (time <= 0 ? 6 : 248), "without a send time the limit is that of a packet");
    else {
        VF_ASSERT(max == 6 || (max + 8) * int64_t(byteTime) <= time * 1000, "the answer can be sent in the time");
        VF_ASSERT(max + 8 == 256 || max <= 7 || (max + 9) * int64_t(byteTime) > time * 1000, "the time is used");
    }
    __vf_cover("limited");
}
VF_HARNESS(limit_115200) { Limit<96>(); }
VF_HARNESS(limit_9600) { Limit<1146>(); }
VF_HARNESS(limit_1200) { Limit<9167>(); }
VF_HARNESS(limit_0) { Limit<0>(); }
