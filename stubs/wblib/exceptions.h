// Stand-in for libwbmqtt1's exceptions.h
#pragma once
#include <stdexcept>
#include <string>
namespace WBMQTT
{
    class TBaseException: public std::exception
    {
        std::string Message;

    public:
        TBaseException(const char* file, int line, const std::string& message): Message(message)
        {}
        const char* what() const noexcept override
        {
            return Message.c_str();
        }
    };
}
#define wb_throw(Type, ...) throw Type(__FILE__, __LINE__, ##__VA_ARGS__)
