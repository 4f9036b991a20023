// C18: Fast Modbus framing: answers preceded by arbitration bytes, requests addressed by serial number, scanning.
#include "vf.h"
#include <cstring>
#include "serial_exc.cpp"
#include "bin_utils.cpp"
#include "modbus_base.cpp"
#include "port/port.cpp"
#include <optional>
namespace ModbusExt { __attribute__((noinline)) const uint8_t* GetRTUPacketStart(const uint8_t* data, size_t size); } // used through its contract below
#include "modbus_ext_common.cpp"
using us = std::chrono::microseconds;
using ms = std::chrono::milliseconds;
WBMQTT::TLogger Warn, Debug, Error, Info;
// The CRC is an arbitrary function of the bytes (C01 proves which one); where only the ends of one text are considered, it is given as
// an arbitrary function of their length.
static const std::vector<uint8_t>* ByLength;
static const std::vector<uint8_t>* Text;
static uint16_t Crc(const uint8_t* p, size_t n)
{
    if (ByLength) {
        VF_ASSERT(n + 2 <= Text->size() && p == Text->data() + (Text->size() - 2 - n), "the CRC covers the whole packet");
        return (*ByLength)[2 * n] << 8 | (*ByLength)[2 * n + 1];
    }
    return uint16_t(__vf_digest(1, p, n));
}
uint16_t CRC16::CalculateCRC16(const uint8_t* p, uint16_t n) { return Crc(p, n); }
struct Port: TPort
{
    std::vector<uint8_t> Sent, Got;
    int Writes = 0, Reads = 0;
    us Rt{0}, Ft{0}, Time{0};
    bool Timeout = false, Whole = false;
    void Open() override {}
    void Close() override {}
    bool IsOpen() const override { return true; }
    void CheckPortOpen() const override {}
    void WriteBytes(const uint8_t* buf, int count) override
    {
        ++Writes;
        Sent = std::vector<uint8_t>(buf, buf + count);
    }
    uint8_t ReadByte(const us&) override { return 0; }
    TReadFrameResult ReadFrame(uint8_t* buf, size_t count, const us& rt, const us& ft, TFrameCompletePred pred = 0) override
    {
        VF_ASSERT(Writes == 1, "exactly one request frame is sent, before reading");
        ++Reads;
        Rt = rt;
        Ft = ft;
        if (Timeout)
            throw TResponseTimeoutException();
        VF_ASSERT(count >= 288, "room for the arbitration bytes and the longest packet");
        TReadFrameResult r;
        r.Count = Got.size();
        r.ResponseTime = Time;
        memcpy(buf, Got.data(), Got.size());
        if (pred)
            Whole = pred(buf, r.Count);
        return r;
    }
    void SkipNoise() override {}
    void SleepSinceLastInteraction(const us&) override {}
    us GetSendTimeBytes(double) const override { return us(100); }
    us GetSendTimeBits(size_t) const override { return us(10); }
    std::string GetDescription(bool = true) const override { return "p"; }
};
// a Fast Modbus packet: slave id, command, subcommand of an answer with its size, CRC
static bool Packet(const std::vector<uint8_t>& d, size_t p)
{
    size_t n = d.size() - p;
    if (n < 5 || d[p] == 0xFF || (d[p + 1] != 0x46 && d[p + 1] != 0x60))
        return false;
    size_t want = 0;
    if (d[p + 2] == 0x03)
        want = 10;
    else if (d[p + 2] == 0x04 || d[p + 2] == 0x12)
        want = 5;
    else if (d[p + 2] == 0x11 && n > 5)
        want = 8 + d[p + 5];
    if (n != want)
        return false;
    uint16_t c = Crc(d.data() + p, n - 2);
    return d[d.size() - 2] == c >> 8 && d[d.size() - 1] == (c & 0xFF);
}
static const size_t PACKET = 65000;
// The first packet that ends where the data end.
VF_HARNESS(packet_start)
{
    auto d = vf_vec(__vf_size(PACKET));
    auto crc = vf_vec(2 * PACKET);
    Text = &d;
    ByLength = &crc;
    __vf_unroll(0);
    const uint8_t* p = ModbusExt::GetRTUPacketStart(d.data(), d.size());
    size_t j = __vf_index();
    if (p) {
        size_t at = p - d.data();
        VF_ASSERT(at < d.size() && Packet(d, at), "a packet is found only where one is");
        if (j < at)
            VF_ASSERT(!Packet(d, j), "the first packet is found");
        __vf_cover("found");
    } else {
        if (j < d.size())
            VF_ASSERT(!Packet(d, j), "a packet is found if there is one");
        __vf_cover("none");
    }
}
// One exchange, given where the packet begins in the received bytes (packet_start).
static const uint8_t* Buf;
static size_t Begin;
static const uint8_t* Start(const uint8_t* d, size_t n)
{
    VF_ASSERT(n == Text->size(), "all received bytes are searched");
    Buf = d;
    return Begin < n ? d + Begin : nullptr;
}
static void Exchange(Port& p, size_t len, size_t at, const std::vector<uint8_t>& pdu)
{
    p.Time = us(__vf_u32());
    p.Timeout = vf_bool();
    uint8_t slave = __vf_u8();
    bool match = vf_bool();
    ms rt(__vf_u16()), ft(__vf_u16());
    ModbusExt::TModbusRTUWithArbitrationTraits t;
    Modbus::TReadResult r;
    int what = 0;
    try {
        r = t.Transaction(p, slave, pdu, 300, rt, ft, match);
    } catch (const TResponseTimeoutException&) {
        what = 1;
    } catch (const Modbus::TMalformedResponseError&) {
        what = 2;
    } catch (const Modbus::TUnexpectedResponseError&) {
        what = 3;
    }
    VF_ASSERT(p.Writes == 1 && p.Reads == 1 && p.Rt == rt && p.Ft == ft, "one request, one answer, with the caller's timeouts");
    VF_ASSERT(p.Sent.size() == pdu.size() + 3 && p.Sent[0] == slave, "frame: slave id, PDU, CRC");
    size_t i = __vf_index();
    if (i < pdu.size())
        VF_ASSERT(p.Sent[i + 1] == pdu[i], "frame carries the PDU");
    uint16_t c = Crc(p.Sent.data(), pdu.size() + 1);
    VF_ASSERT(p.Sent[pdu.size() + 1] == c >> 8 && p.Sent[pdu.size() + 2] == (c & 0xFF), "CRC of the request");
    VF_ASSERT((what == 1) == p.Timeout, "a timeout is reported as such");
    if (p.Timeout) {
        __vf_cover("timeout");
        return;
    }
    VF_ASSERT(p.Whole == (at < len), "the answer is complete exactly if it ends with a packet");
    VF_ASSERT((what == 2) == (at >= len), "an answer without a valid packet at its end is malformed");
    if (at >= len) {
        __vf_cover("no packet");
        return;
    }
    VF_ASSERT((what == 3) == (match && p.Got[at] != slave), "an answer of another device is refused if devices are matched");
    if (what)
        return;
    VF_ASSERT(r.SlaveId == p.Got[at], "the device that answered");
    VF_ASSERT(r.ResponseTime == p.Time, "response time");
    VF_ASSERT(r.Pdu.size() == len - at - 3, "PDU: the packet without slave id and CRC");
    if (i < r.Pdu.size())
        VF_ASSERT(r.Pdu[i] == p.Got[at + 1 + i], "PDU of the answer");
    __vf_cover("accepted");
}
VF_HARNESS(exchange)
{
    Port p;
    size_t len = __vf_size(288);
    p.Got = vf_vec(len);
    Text = &p.Got;
    Begin = __vf_size(288);
    VF_REQUIRES(Begin >= len || Begin + 5 <= len);
    auto pdu = vf_vec(__vf_size(PACKET));
    __vf_callee("ModbusExt::GetRTUPacketStart(", (void*)&Start);
    Exchange(p, len, Begin, pdu);
}
VF_HARNESS(arbitration)
{
    Port p;
    size_t len = __vf_split(__vf_size(40));
    p.Got = vf_vec(len);
    if (vf_bool() && len > 6) { // likely answers
        size_t b = __vf_size(len - 5);
        p.Got[b + 1] = 0x46;
        if (vf_bool())
            p.Got[b] = 0x46;
        p.Got[b + 2] = __vf_u8() % 32;
        if (len - b > 8)
            p.Got[b + 5] = uint8_t(len - b - 8);
        auto c = Crc(p.Got.data() + b, len - b - 2);
        p.Got[len - 2] = c >> 8;
        p.Got[len - 1] = c & 0xFF;
    }
    auto pdu = vf_vec(__vf_split(__vf_size(2)));
    size_t at = len;
    for (size_t i = 0; i < len && at == len; ++i)
        if (Packet(p.Got, i))
            at = i;
    Exchange(p, len, at, pdu);
}
// Requests addressed by serial number: wrapped in a broadcast; the answer is accepted only from that serial number.
struct Base: Modbus::IModbusTraits
{
    std::vector<uint8_t>* Request;
    const std::vector<uint8_t>* Answer;
    uint8_t* To;
    uint8_t Slave;
    us Time;
    size_t Expected;
    ms Rt, Ft;
    bool Match, Timeout;
    Modbus::TReadResult Transaction(TPort&, uint8_t slave, const std::vector<uint8_t>& pdu, size_t expected, const ms& rt, const ms& ft, bool match) override
    {
        VF_ASSERT(expected == Expected && rt == Rt && ft == Ft && match == Match, "size of the answer, timeouts and matching are passed on");
        *To = slave;
        *Request = pdu;
        if (Timeout)
            throw TResponseTimeoutException();
        Modbus::TReadResult r;
        r.SlaveId = Slave;
        r.ResponseTime = Time;
        r.Pdu = *Answer;
        return r;
    }
};
VF_HARNESS(by_serial_number)
{
    Port p;
    auto pdu = vf_vec(__vf_size(VF_MAX));
    auto a = vf_vec(__vf_size(VF_MAX));
    uint32_t sn = __vf_u32();
    auto cmd = vf_bool() ? ModbusExt::ACTUAL : ModbusExt::DEPRECATED;
    std::vector<uint8_t> q;
    uint8_t to = 0;
    auto b = std::make_unique<Base>();
    b->Request = &q;
    b->Answer = &a;
    b->To = &to;
    uint8_t slave = b->Slave = __vf_u8();
    us time = b->Time = us(__vf_u32());
    size_t exp = __vf_size(VF_MAX);
    b->Expected = exp + 6;
    ms rt = b->Rt = ms(__vf_u16()), ft = b->Ft = ms(__vf_u16());
    bool match = b->Match = vf_bool();
    bool timedOut = b->Timeout = vf_bool();
    ModbusExt::TModbusTraits t(std::move(b));
    t.SetSn(sn);
    t.SetModbusExtCommand(cmd);
    Modbus::TReadResult r;
    int what = 0;
    try {
        r = t.Transaction(p, __vf_u8(), pdu, exp, rt, ft, match);
    } catch (const TResponseTimeoutException&) {
        what = 1;
    } catch (const Modbus::TMalformedResponseError&) {
        what = 2;
    } catch (const Modbus::TUnexpectedResponseError&) {
        what = 3;
    }
    VF_ASSERT(to == 0xFD, "the request goes to the broadcast address");
    VF_ASSERT(q.size() == pdu.size() + 6 && q[0] == uint8_t(cmd) && q[1] == 0x08, "request: command and subcommand");
    VF_ASSERT((uint32_t(q[2]) << 24 | q[3] << 16 | q[4] << 8 | q[5]) == sn, "request: serial number");
    size_t i = __vf_index();
    if (i < pdu.size())
        VF_ASSERT(q[6 + i] == pdu[i], "the request carries the PDU");
    VF_ASSERT((what == 1) == timedOut, "a timeout is reported as such");
    if (timedOut) {
        __vf_cover("timeout");
        return;
    }
    VF_ASSERT((what == 2) == (a.size() < 6), "a short answer is malformed");
    if (a.size() < 6) {
        __vf_cover("short");
        return;
    }
    bool mine = a[0] == uint8_t(cmd) && a[1] == 0x09 && (uint32_t(a[2]) << 24 | a[3] << 16 | a[4] << 8 | a[5]) == sn;
    VF_ASSERT((what == 3) == !mine, "accepted exactly if it answers the command for this serial number");
    if (!mine) {
        __vf_cover("not mine");
        return;
    }
    VF_ASSERT(r.SlaveId == slave && r.ResponseTime == time, "device and response time");
    VF_ASSERT(r.Pdu.size() == a.size() - 6, "the answer without its header");
    if (i < r.Pdu.size())
        VF_ASSERT(r.Pdu[i] == a[6 + i], "PDU of the answer");
    __vf_cover("accepted");
}
// Scanning: one request and its answer.
struct One: Modbus::IModbusTraits
{
    uint8_t Cmd = 0, Sub = 0;
    std::vector<uint8_t> Answer;
    bool Timeout = false;
    int Calls = 0;
    Modbus::TReadResult Transaction(TPort&, uint8_t slave, const std::vector<uint8_t>& pdu, size_t, const ms&, const ms&, bool) override
    {
        ++Calls;
        VF_ASSERT(slave == 0xFD, "scan requests go to the broadcast address");
        VF_ASSERT(pdu.size() == 2 && pdu[0] == Cmd && pdu[1] == Sub, "scan request");
        if (Timeout)
            throw TResponseTimeoutException();
        Modbus::TReadResult r;
        r.SlaveId = 1;
        r.Pdu = Answer;
        return r;
    }
};
template<bool first> static void ScanStep()
{
    Port p;
    One t;
    auto cmd = vf_bool() ? ModbusExt::ACTUAL : ModbusExt::DEPRECATED;
    t.Cmd = uint8_t(cmd);
    t.Sub = first ? 0x01 : 0x02;
    t.Answer = vf_vec(__vf_size(VF_MAX));
    t.Timeout = vf_bool();
    const auto& a = t.Answer;
    std::optional<ModbusExt::TScannedDevice> r;
    int what = 0;
    try {
        r = first ? ModbusExt::ScanStart(p, t, cmd) : ModbusExt::ScanNext(p, t, cmd);
    } catch (const TResponseTimeoutException&) {
        what = 1;
    } catch (const Modbus::TMalformedResponseError&) {
        what = 2;
    }
    VF_ASSERT(t.Calls == 1, "one request");
    VF_ASSERT((what == 1) == (t.Timeout && !first), "no answer to the first request means that there are no devices, later it is an error");
    if (t.Timeout) {
        VF_ASSERT(!r, "no device without an answer");
        __vf_cover("timeout");
        return;
    }
    bool none = a.size() >= 2 && a[1] == 0x04;
    bool found = a.size() >= 7 && a[1] == 0x03;
    VF_ASSERT((what == 2) == (!none && !found), "other answers are malformed");
    VF_ASSERT(r.has_value() == found, "a device is reported exactly if one answered");
    if (found) {
        VF_ASSERT(r->SlaveId == a[6], "slave id of the device");
        VF_ASSERT(r->Sn == (uint32_t(a[2]) << 24 | a[3] << 16 | a[4] << 8 | a[5]), "serial number of the device");
        __vf_cover("found");
    }
}
VF_HARNESS(scan_start) { ScanStep<true>(); }
VF_HARNESS(scan_next) { ScanStep<false>(); }
// Scanning: devices are reported in order until there are no more; errors end the scan and keep what was found.
struct Scanner: Modbus::IModbusTraits
{
    size_t Calls = 0, Found = 0;
    uint8_t Cmd = 0;
    std::vector<ModbusExt::TScannedDevice>* Out;
    uint8_t Slave = 0;
    uint32_t Sn = 0;
    int End = 0; // 1: no more devices, 2: timeout, 3: malformed
    Modbus::TReadResult Transaction(TPort&, uint8_t slave, const std::vector<uint8_t>& pdu, size_t, const ms&, const ms&, bool match) override
    {
        VF_ASSERT(End == 0, "the scan ends with the first other answer");
        VF_ASSERT(slave == 0xFD, "scan requests go to the broadcast address");
        VF_ASSERT(pdu.size() == 2 && pdu[0] == Cmd && pdu[1] == (Calls == 0 ? 0x01 : 0x02), "start, then continue");
        VF_REQUIRES(Calls < 4); // bound of this harness
        VF_ASSERT(Out->size() == Found, "every device found is reported");
        if (Found > 0)
            VF_ASSERT(Out->back().SlaveId == Slave && Out->back().Sn == Sn, "slave id and serial number of the device");
        ++Calls;
        Modbus::TReadResult r;
        r.SlaveId = 1;
        if (!vf_bool()) {
            End = 2;
            throw TResponseTimeoutException();
        }
        r.Pdu = vf_vec(7);
        const auto& a = r.Pdu;
        if (a.size() >= 2 && a[1] == 0x04)
            End = 1;
        else if (a.size() >= 7 && a[1] == 0x03) {
            ++Found;
            Slave = a[6];
            Sn = uint32_t(a[2]) << 24 | a[3] << 16 | a[4] << 8 | a[5];
        } else
            End = 3;
        return r;
    }
};
VF_HARNESS(scan)
{
    Port p;
    std::vector<ModbusExt::TScannedDevice> out;
    Scanner t;
    t.Out = &out;
    auto cmd = vf_bool() ? ModbusExt::ACTUAL : ModbusExt::DEPRECATED;
    t.Cmd = uint8_t(cmd);
    int what = 0;
    __vf_unroll(8);
    try {
        ModbusExt::Scan(p, t, cmd, out);
    } catch (const TResponseTimeoutException&) {
        what = 2;
    } catch (const Modbus::TMalformedResponseError&) {
        what = 3;
    }
    VF_ASSERT(t.End != 0 && t.Calls == t.Found + 1, "the scan goes on until there are no more devices");
    VF_ASSERT(what == (t.End == 1 || (t.End == 2 && t.Calls == 1) ? 0 : t.End), "a timeout of the first request means that there are no devices, other errors are reported");
    VF_ASSERT(out.size() == t.Found, "the devices found are reported");
    if (t.Found > 0)
        VF_ASSERT(out.back().SlaveId == t.Slave && out.back().Sn == t.Sn, "slave id and serial number of the device");
    __vf_cover("scanned");
}
