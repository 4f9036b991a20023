// Stand-in for serial_config.h (loading of JSON configurations): the declarations devices/modbus_device.h refers to.
#pragma once
#include "serial_device.h"
namespace Json { class Value; }
namespace WBMQTT { namespace JSON { template<class T> bool Get(const Json::Value&, const char*, T&) { return false; } } }
class IRegisterAddressFactory
{
public:
    virtual ~IRegisterAddressFactory() = default;
};
class TUint32RegisterAddressFactory: public IRegisterAddressFactory
{
public:
    TUint32RegisterAddressFactory(size_t, bool) {}
};
class IDeviceFactory
{
public:
    IDeviceFactory(std::unique_ptr<IRegisterAddressFactory>, const char*, const char*) {}
    virtual ~IDeviceFactory() = default;
    virtual PSerialDevice CreateDevice(const Json::Value&, PDeviceConfig, PProtocol) const = 0;
};
class TSerialDeviceFactory;
