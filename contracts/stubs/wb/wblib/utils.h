// Stand-in for wblib/utils.h: what the sources under contract use of it.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
namespace WBMQTT
{
    inline bool StringStartsWith(const std::string& s, const std::string& prefix)
    {
        return s.size() >= prefix.size() && memcmp(s.data(), prefix.data(), prefix.size()) == 0;
    }
    std::string StringFormat(const char* format, ...); // its contract is given where it is needed
}
