// Common part of the contracts over modbus_common.cpp: the real sources, and the contracts of what lies outside.
#include "vf.h"
#include <cstring>
#include <cstdarg>
#include "serial_exc.cpp"
#include "bin_utils.cpp"
#include "modbus_base.cpp"
#include "bcd_utils.cpp"
#include "register_value.cpp"
#undef LOG
#include "port/port.cpp"
#include "register.cpp"
#undef LOG
#include "serial_device.cpp"
#undef LOG
#include "modbus_common.cpp"
#undef LOG
#include "wb_registers.h"
#ifndef VF_NATIVE
// the compiled part of std::list
namespace std::__detail
{
void _List_node_base::_M_hook(_List_node_base* p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _M_prev->_M_next = _M_next;
    _M_next->_M_prev = _M_prev;
}
}
#endif
using us = std::chrono::microseconds;
using ms = std::chrono::milliseconds;
WBMQTT::TLogger Warn, Debug, Error, Info;
std::string WBMQTT::StringFormat(const char*, ...) { return std::string(); }
uint16_t CRC16::CalculateCRC16(const uint8_t* p, uint16_t n) { return uint16_t(__vf_digest(1, p, n)); }
PRegisterConfig WbRegisters::GetRegisterConfig(const std::string&) { return nullptr; }
// TModbusDevice: only its type matters here
PRegisterRange TModbusDevice::CreateRegisterRange() const { return nullptr; }
void TModbusDevice::ReadRegisterRange(TPort&, PRegisterRange, bool) {}
void TModbusDevice::WriteSetupRegisters(TPort&, const TDeviceSetupItems&, bool) {}
ms TModbusDevice::GetFrameTimeout(TPort&) const { return ms(0); }
void TModbusDevice::PrepareImpl(TPort&) {}
void TModbusDevice::WriteRegisterImpl(TPort&, const TRegisterConfig&, const TRegisterValue&) {}
TModbusDevice::TModbusDevice(std::unique_ptr<Modbus::IModbusTraits> t, const TModbusDeviceConfig& c, PProtocol p): TSerialDevice(c.CommonConfig, p), TUInt32SlaveId(std::string(), true), ModbusTraits(std::move(t)), ResponseTime(ms::zero()), EnableWbContinuousRead(false), ContinuousReadEnabled(false) {}
#ifndef FORCE
bool TModbusDevice::GetForceFrameTimeout() { return false; }
#endif
bool TModbusDevice::GetContinuousReadEnabled() { return ContinuousReadEnabled; }
struct Port: TPort
{
    int Noise = 0, Pauses = 0;
    us Pause{0};
    void Open() override {}
    void Close() override {}
    bool IsOpen() const override { return true; }
    void CheckPortOpen() const override {}
    void WriteBytes(const uint8_t*, int) override {}
    uint8_t ReadByte(const us&) override { return 0; }
    TReadFrameResult ReadFrame(uint8_t*, size_t, const us&, const us&, TFrameCompletePred = 0) override { return TReadFrameResult(); }
    void SkipNoise() override { ++Noise; }
    void SleepSinceLastInteraction(const us& t) override
    {
        ++Pauses;
        Pause = t;
    }
    us GetSendTimeBytes(double n) const override { return us(int64_t(n) * 100); }
    us GetSendTimeBits(size_t) const override { return us(10); }
    std::string GetDescription(bool = true) const override { return std::string(); }
};
// texts for messages: any
inline std::string AnyText(const TRegisterConfig*) { return std::string("r"); }
inline void MessagesAreIrrelevant() { __vf_callee("TRegisterConfig::ToString", (void*)&AnyText); }
