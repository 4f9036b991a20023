// Stand-in for wblib/exceptions.h: exceptions with a message.
#pragma once
#include <exception>
#include <string>
namespace WBMQTT
{
    class TBaseException: public std::exception
    {
        std::string Message;

    public:
        TBaseException(const char*, int, const std::string& message): Message(message) {}
        const char* what() const noexcept override { return Message.c_str(); }
    };
}
#define wb_throw(what, args) throw what(__FILE__, __LINE__, args)
