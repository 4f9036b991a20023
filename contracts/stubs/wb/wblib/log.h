// Stand-in for wblib/log.h: logging has no effect on the properties.
#pragma once
#include <chrono>
#include <iosfwd>
#include <string>
namespace WBMQTT
{
    struct TNullStream
    {
        template<class T> TNullStream& operator<<(const T&) { return *this; }
        TNullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
    };
    class TLogger
    {
    public:
        TNullStream Log() { return TNullStream(); }
        bool IsEnabled() const { return false; }
        void SetEnabled(bool) {}
    };
}
