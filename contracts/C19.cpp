// C19: setting up Fast Modbus events: which registers are addressed in the requests, and what is reported from the answers.
#include "vf.h"
#include "serial_exc.cpp"
#include "bin_utils.cpp"
#include "modbus_base.cpp"
#include "port/port.cpp"
#include <optional>
#include "modbus_ext_common.cpp"
using us = std::chrono::microseconds;
using ms = std::chrono::milliseconds;
using namespace ModbusExt;
WBMQTT::TLogger Warn, Debug, Error, Info;
uint16_t CRC16::CalculateCRC16(const uint8_t* p, uint16_t n) { return uint16_t(__vf_digest(1, p, n)); }
struct Port: TPort
{
    void Open() override {}
    void Close() override {}
    bool IsOpen() const override { return true; }
    void CheckPortOpen() const override {}
    void WriteBytes(const uint8_t*, int) override {}
    uint8_t ReadByte(const us&) override { return 0; }
    TReadFrameResult ReadFrame(uint8_t*, size_t, const us&, const us&, TFrameCompletePred = 0) override { return TReadFrameResult(); }
    void SkipNoise() override {}
    void SleepSinceLastInteraction(const us&) override {}
    us GetSendTimeBytes(double) const override { return us(100); }
    us GetSendTimeBits(size_t) const override { return us(10); }
    std::string GetDescription(bool = true) const override { return "p"; }
};
struct Reg { uint16_t Addr; uint8_t Type, Prio; int Seen; };
// A device that follows the protocol.
struct Device: Modbus::IModbusTraits
{
    std::vector<Reg>* Regs;
    bool Holes = false;
    uint8_t Slave = 0;
    size_t Calls = 0;
    std::vector<Reg> Expected;      // what must be reported from the last answer (Prio: the bit)
    size_t Reported = 0;
    bool Short = false;             // the answer lacks bytes it announces
    Modbus::TReadResult Transaction(TPort&, uint8_t slave, const std::vector<uint8_t>& q, size_t, const ms&, const ms&, bool) override
    {
        ++Calls;
        VF_ASSERT(slave == Slave, "the request goes to the device");
        VF_ASSERT(Reported == Expected.size(), "every register of the last answer was reported");
        VF_ASSERT(q.size() > 3 && q.size() + 3 <= 256, "the request has a setting and fits in a packet");
        VF_ASSERT(q[0] == 0x46 && q[1] == 0x18 && q[2] == q.size() - 3, "command, subcommand, size of the settings");
        Expected.clear();
        Reported = 0;
        Modbus::TReadResult r;
        r.SlaveId = slave;
        r.Pdu = {0x46, 0x18, 0};
        for (size_t p = 3; p < q.size();) {
            VF_ASSERT(p + 5 <= q.size(), "a whole record");
            size_t n = q[p + 3];
            VF_ASSERT(n > 0 && p + 4 + n <= q.size(), "as many priorities as registers");
            if (p + 5 > q.size() || p + 4 + n > q.size())
                return r;
            for (size_t k = 0; k < n; ++k) {
                uint16_t addr = (q[p + 1] << 8 | q[p + 2]) + k;
                if (k % 8 == 0) {
                    r.Pdu.push_back(__vf_u8());
                    ++r.Pdu[2];
                }
                bool known = false;
                for (auto& x: *Regs)
                    if (x.Type == q[p] && x.Addr == addr) {
                        known = true;
                        VF_ASSERT(x.Seen == 0, "every register is addressed once");
                        ++x.Seen;
                        VF_ASSERT(q[p + 4 + k] == x.Prio, "priority of the register");
                        break;
                    }
                if (!known)
                    VF_ASSERT(Holes && q[p + 4 + k] == 0, "events of other registers are disabled, if they are addressed at all");
                Expected.push_back(Reg{addr, q[p], uint8_t(r.Pdu.back() >> k % 8 & 1), 0});
            }
            p += 4 + n;
        }
        if (Short && vf_bool())
            r.Pdu.resize(r.Pdu.size() - 1);
        else
            Short = false;
        return r;
    }
    void Report(uint8_t type, uint16_t addr, bool enabled)
    {
        VF_ASSERT(Reported < Expected.size(), "only registers of the request are reported");
        if (Reported >= Expected.size())
            return;
        const auto& e = Expected[Reported++];
        VF_ASSERT(e.Type == type && e.Addr == addr, "registers are reported in the order of the request");
        VF_ASSERT(enabled == (e.Prio != 0), "the bit of the register says if its events are enabled");
    }
};
static Reg Any()
{
    Reg r;
    r.Addr = __vf_u16();
    r.Type = 1 + __vf_u8() % 4;
    r.Prio = __vf_u8() % 3;
    r.Seen = 0;
    return r;
}
template<bool cut> static void Setup(std::vector<Reg>& regs, bool holes)
{
    Port p;
    Device d;
    d.Regs = &regs;
    d.Holes = holes;
    d.Slave = __vf_u8();
    d.Short = cut;
    TEventsEnabler e(d.Slave, p, d, [&](uint8_t type, uint16_t addr, bool on) { d.Report(type, addr, on); }, holes ? TEventsEnabler::DISABLE_EVENTS_IN_HOLES : TEventsEnabler::NO_HOLES);
    VF_ASSERT(!e.HasEventsToSetup(), "nothing to set up");
    for (const auto& r: regs)
        e.AddRegister(r.Addr, TEventType(r.Type), TEventPriority(r.Prio));
    if (!cut && !regs.empty() && vf_bool())
        e.AddRegister(regs[0].Addr, TEventType(regs[0].Type), TEventPriority(regs[0].Prio)); // again
    VF_ASSERT(e.HasEventsToSetup() == !regs.empty(), "registers to set up");
    bool malformed = false;
    try {
        e.SendRequests();
    } catch (const Modbus::TMalformedResponseError&) {
        malformed = true;
    }
    if (regs.empty()) {
        VF_ASSERT(d.Calls == 0, "no request without registers");
        return;
    }
    VF_ASSERT(malformed == d.Short, "an answer is malformed exactly if it lacks bytes");
    if (malformed) {
        if constexpr (cut)
            __vf_cover("malformed");
        return;
    }
    for (const auto& r: regs)
        VF_ASSERT(r.Seen == 1, "every register is addressed once");
    VF_ASSERT(d.Reported == d.Expected.size(), "every register of the answer is reported");
    __vf_cover("set up");
}
template<bool holes> static void Few()
{
    std::vector<Reg> regs;
    size_t n = __vf_split(__vf_size(3));
    for (size_t i = 0; i < n; ++i) {
        auto r = Any();
        for (const auto& x: regs)
            VF_REQUIRES(holes && n == 3 ? x.Type < r.Type || x.Type == r.Type && x.Addr < r.Addr : x.Addr != r.Addr || x.Type != r.Type);
        regs.push_back(r);
    }
    Setup<false>(regs, holes);
}
VF_HARNESS(apart) { Few<false>(); }
VF_HARNESS(with_holes) { Few<true>(); }
VF_HARNESS(cut_short)
{
    std::vector<Reg> regs;
    regs.push_back(Any());
    regs.push_back(Any());
    VF_REQUIRES(regs[0].Addr < regs[1].Addr);
    Setup<true>(regs, vf_bool());
}
// more registers in a row than a byte has bits
VF_HARNESS(row)
{
    std::vector<Reg> regs;
    uint16_t addr = __vf_u16();
    uint8_t type = 1 + __vf_u8() % 4;
    VF_REQUIRES(addr <= 0xFFFF - 10);
    for (size_t n = 0; n < 10; ++n)
        regs.push_back(Reg{uint16_t(addr + n), type, uint8_t(__vf_u8() % 3), 0});
    Setup<true>(regs, false);
}
VF_HARNESS(many)
{
    std::vector<Reg> regs;
    uint16_t addr = __vf_u16() % 1000;
    uint8_t type = 1;
    bool holes = vf_bool();
    for (size_t n = 1 + __vf_size(300); n; --n) {
        Reg r;
        r.Addr = addr;
        r.Type = type;
        r.Prio = __vf_u8() % 3;
        r.Seen = 0;
        regs.push_back(r);
        addr += 1 + (vf_bool() ? 0 : __vf_u8() % 8);
        if (__vf_u8() == 0 && type < 4)
            ++type;
    }
    Setup<true>(regs, holes);
}
// Answers of any form: an exception is reported as such, other wrong answers are malformed, nothing is read beyond the answer.
struct Any1: Modbus::IModbusTraits
{
    std::vector<uint8_t> Answer;
    Modbus::TReadResult Transaction(TPort&, uint8_t, const std::vector<uint8_t>&, size_t, const ms&, const ms&, bool) override
    {
        Modbus::TReadResult r;
        r.SlaveId = 1;
        r.Pdu = Answer;
        return r;
    }
};
VF_HARNESS(any_answer)
{
    Port p;
    Any1 t;
    t.Answer = vf_vec(__vf_size(VF_MAX));
    const auto& a = t.Answer;
    uint16_t a0 = __vf_u16(), a1 = __vf_u16();
    VF_REQUIRES(a0 < a1);
    bool gap = a1 - a0 > 1;
    int what = 0, code = -1, n = 0;
    bool on[2];
    TEventsEnabler e(1, p, t, [&](uint8_t type, uint16_t addr, bool enabled) {
        VF_ASSERT(n < 2 && type == 1 && addr == (n ? a1 : a0), "the registers of the request");
        on[n++ & 1] = enabled;
    });
    e.AddRegister(a0, TEventType(1), TEventPriority(1));
    e.AddRegister(a1, TEventType(1), TEventPriority(1));
    try {
        e.SendRequests();
    } catch (const Modbus::TMalformedResponseError&) {
        what = 1;
    } catch (const Modbus::TModbusExceptionError& x) {
        what = 2;
        code = x.GetExceptionCode();
    }
    bool exc = a.size() == 2 && a[0] >= 0x80;
    VF_ASSERT((what == 2) == exc && (!exc || code == a[1]), "exceptions are reported with their code");
    if (exc) {
        __vf_cover("exception");
        return;
    }
    bool good = a.size() >= 3 && a[1] == 0x18 && a.size() >= size_t(3) + a[2] && a[2] >= (gap ? 2 : 1);
    VF_ASSERT((what == 0) == good, "accepted exactly if it answers the command and has the bits of all registers");
    if (!good) {
        __vf_cover("malformed");
        return;
    }
    VF_ASSERT(n == 2 && on[0] == (a[3] & 1) && on[1] == (gap ? a[4] & 1 : a[3] >> 1 & 1), "the bits of the registers");
    __vf_cover("accepted");
}
