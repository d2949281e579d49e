// Stand-in for libwbmqtt1's json_utils.h
#pragma once
#include "exceptions.h"
#include "json/json.h"
#include <chrono>
#include <memory>
#include <string>
#include <type_traits>
namespace WBMQTT
{
    namespace JSON
    {
        class TValidator
        {
            std::shared_ptr<const Json::Value> Schema;

        public:
            TValidator(const Json::Value& schema): Schema(std::make_shared<Json::Value>(schema))
            {}
            void Validate(const Json::Value& json)
            {}
        };
        Json::Value Parse(const std::string& fileName);
        Json::Value ParseWithSettings(const std::string& fileName, const Json::Value& settings);
        inline void Validate(const Json::Value& json, const Json::Value& schema)
        {}
        template<class T> struct TIsDuration: std::false_type
        {};
        template<class R, class P> struct TIsDuration<std::chrono::duration<R, P>>: std::true_type
        {};
        template<class T> bool Is(const Json::Value& v)
        {
            if constexpr (std::is_same_v<T, bool>)
                return v.isBool();
            else if constexpr (std::is_same_v<T, std::string>)
                return v.isString();
            else if constexpr (std::is_floating_point_v<T>)
                return v.isNumeric();
            else if constexpr (TIsDuration<T>::value)
                return v.isUInt64();
            else if constexpr (std::is_unsigned_v<T>)
                return sizeof(T) == 8 ? v.isUInt64() : v.isUInt();
            else
                return sizeof(T) == 8 ? v.isInt64() : v.isInt();
        }
        template<class T> T As(const Json::Value& v)
        {
            if constexpr (std::is_same_v<T, bool>)
                return v.asBool();
            else if constexpr (std::is_same_v<T, std::string>)
                return v.asString();
            else if constexpr (std::is_floating_point_v<T>)
                return (T)v.asDouble();
            else if constexpr (TIsDuration<T>::value)
                return T((int64_t)v.asUInt64());
            else if constexpr (std::is_unsigned_v<T>)
                return (T)(sizeof(T) == 8 ? v.asUInt64() : v.asUInt());
            else
                return (T)(sizeof(T) == 8 ? v.asInt64() : v.asInt());
        }
        class TBadConfigError_: public TBaseException
        {
        public:
            using TBaseException::TBaseException;
        };
        template<class T> bool Get(const Json::Value& item, const std::string& key, T& value)
        {
            if (!item.isMember(key))
                return false;
            const Json::Value& v = item[key];
            if (!Is<T>(v))
                throw std::runtime_error(key + " has wrong type");
            value = As<T>(v);
            return true;
        }
    }
}
