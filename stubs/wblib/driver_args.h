// Stand-in for libwbmqtt1's driver_args.h, driver.h, declarations.h, wbmqtt.h: a local MQTT driver that records every
// publication in TControl::Log, so that a harness can observe what a broker would receive.
#pragma once
#include <algorithm>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "exceptions.h"
#include "utils.h"
namespace WBMQTT
{
    struct TPublishParameters
    {
        enum TPublishPolicy
        {
            PublishOnlyOnChange,
            PublishAll,
            PublishSomeUnchanged
        };
        TPublishPolicy Policy = PublishOnlyOnChange;
        std::chrono::milliseconds PublishUnchangedInterval = std::chrono::milliseconds(0);
        void Set(int64_t ms)
        {
            if (ms < 0)
                Policy = PublishOnlyOnChange;
            else if (ms == 0)
                Policy = PublishAll;
            else {
                Policy = PublishSomeUnchanged;
                PublishUnchangedInterval = std::chrono::milliseconds(ms);
            }
        }
    };
    class TAny
    {
        std::shared_ptr<void> P;

    public:
        TAny()
        {}
        template<class T> TAny(const T& v): P(std::make_shared<T>(v))
        {}
        template<class T> const T& As() const
        {
            return *static_cast<T*>(P.get());
        }
        template<class T> T& As()
        {
            return *static_cast<T*>(P.get());
        }
    };
    struct TLocalDeviceArgs
    {
        std::string Id, Title;
        bool IsVirtual = false, DoLoadPrevious = false;
        TLocalDeviceArgs& SetId(const std::string& v)
        {
            Id = v;
            return *this;
        }
        TLocalDeviceArgs& SetTitle(const std::string& v)
        {
            Title = v;
            return *this;
        }
        TLocalDeviceArgs& SetIsVirtual(bool v)
        {
            IsVirtual = v;
            return *this;
        }
        TLocalDeviceArgs& SetDoLoadPrevious(bool v)
        {
            DoLoadPrevious = v;
            return *this;
        }
    };
    struct TControlArgs
    {
        std::string Id, Type, Units, Error, RawValue;
        std::map<std::string, std::string> Titles;
        std::map<std::string, std::map<std::string, std::string>> EnumTitles;
        int Order = 0;
        bool Readonly = false, Hidden = false, Durable = false, HasMax = false, HasMin = false;
        double Max = 0, Min = 0, Precision = 0;
        TAny UserData;
        TControlArgs& SetId(const std::string& v)
        {
            Id = v;
            return *this;
        }
        TControlArgs& SetOrder(int v)
        {
            Order = v;
            return *this;
        }
        TControlArgs& SetType(const std::string& v)
        {
            Type = v;
            return *this;
        }
        TControlArgs& SetReadonly(bool v)
        {
            Readonly = v;
            return *this;
        }
        TControlArgs& SetUserData(const TAny& v)
        {
            UserData = v;
            return *this;
        }
        TControlArgs& SetUnits(const std::string& v)
        {
            Units = v;
            return *this;
        }
        TControlArgs& SetHidden(bool v)
        {
            Hidden = v;
            return *this;
        }
        TControlArgs& SetMax(double v)
        {
            Max = v;
            HasMax = true;
            return *this;
        }
        TControlArgs& SetMin(double v)
        {
            Min = v;
            HasMin = true;
            return *this;
        }
        TControlArgs& SetPrecision(double v)
        {
            Precision = v;
            return *this;
        }
        TControlArgs& SetTitle(const std::string& v, const std::string& lang = "en")
        {
            Titles[lang] = v;
            return *this;
        }
        TControlArgs& SetEnumValueTitles(const std::string& k, const std::map<std::string, std::string>& t)
        {
            EnumTitles[k] = t;
            return *this;
        }
        template<class M> TControlArgs& SetEnumValueTitles(const std::string& k, const M& t)
        {
            EnumTitles[k] = std::map<std::string, std::string>(t.begin(), t.end());
            return *this;
        }
        TControlArgs& SetDurable()
        {
            Durable = true;
            return *this;
        }
    };
    template<class T> class TFuture
    {
        T V;

    public:
        TFuture(const T& v): V(v)
        {}
        T GetValue()
        {
            return V;
        }
        void Sync()
        {}
    };
    template<> class TFuture<void>
    {
    public:
        void Sync()
        {}
    };
    class TDevice;
    class TLocalDevice;
    class TDriverTx;
    class TDeviceDriver;
    typedef std::shared_ptr<TDriverTx> PDriverTx;
    typedef std::shared_ptr<TDeviceDriver> PDeviceDriver;
    typedef std::shared_ptr<TDevice> PDevice;
    typedef std::shared_ptr<TLocalDevice> PLocalDevice;
    struct TPublication
    {
        bool HasValue;
        std::string Value, Error;
    };
    class TControl
    {
    public:
        TControlArgs Args;
        TDevice* Device = nullptr;
        std::vector<TPublication> Log;
        const std::string& GetId() const
        {
            return Args.Id;
        }
        TDevice* GetDevice() const
        {
            return Device;
        }
        const TAny& GetUserData() const
        {
            return Args.UserData;
        }
        TFuture<void> UpdateRawValueAndError(const PDriverTx&, const std::string& v, const std::string& e)
        {
            Log.push_back({true, v, e});
            Args.RawValue = v;
            Args.Error = e;
            return TFuture<void>();
        }
        TFuture<void> SetError(const PDriverTx&, const std::string& e)
        {
            Log.push_back({false, "", e});
            Args.Error = e;
            return TFuture<void>();
        }
    };
    typedef std::shared_ptr<TControl> PControl;
    class TDevice
    {
    public:
        virtual ~TDevice() = default;
        TLocalDeviceArgs Args;
        std::vector<PControl> Controls;
        const std::string& GetId() const
        {
            return Args.Id;
        }
    };
    class TLocalDevice: public TDevice
    {
    public:
        std::vector<std::string> Errors;
        TFuture<PControl> CreateControl(const PDriverTx&, const TControlArgs& a)
        {
            auto c = std::make_shared<TControl>();
            c->Args = a;
            c->Device = this;
            Controls.push_back(c);
            return TFuture<PControl>(c);
        }
        TFuture<void> RemoveUnusedControls(const PDriverTx&)
        {
            return TFuture<void>();
        }
        TFuture<void> SetError(const PDriverTx&, const std::string& e)
        {
            Errors.push_back(e);
            return TFuture<void>();
        }
    };
    struct TControlOnValueEvent
    {
        PControl Control;
        std::string RawValue;
    };
    class TDeviceDriver: public std::enable_shared_from_this<TDeviceDriver>
    {
    public:
        std::vector<PLocalDevice> Devices;
        PDriverTx BeginTx();
        template<class E, class F> void On(F f)
        {}
        void StartLoop()
        {}
        void StopLoop()
        {}
        void WaitForReady()
        {}
        void Close()
        {}
    };
    class TDriverTx
    {
    public:
        TDeviceDriver* D = nullptr;
        TFuture<PLocalDevice> CreateDevice(const TLocalDeviceArgs& a)
        {
            auto d = std::make_shared<TLocalDevice>();
            d->Args = a;
            D->Devices.push_back(d);
            return TFuture<PLocalDevice>(d);
        }
        PDevice GetDevice(const std::string& id)
        {
            for (auto& d: D->Devices)
                if (d->Args.Id == id)
                    return d;
            return nullptr;
        }
        TFuture<void> RemoveDeviceById(const std::string& id)
        {
            for (size_t i = 0; i < D->Devices.size(); ++i)
                if (D->Devices[i]->Args.Id == id) {
                    D->Devices.erase(D->Devices.begin() + i);
                    break;
                }
            return TFuture<void>();
        }
    };
    inline PDriverTx TDeviceDriver::BeginTx()
    {
        auto t = std::make_shared<TDriverTx>();
        t->D = this;
        return t;
    }
    struct TMqttMessage
    {
        std::string Topic, Payload;
        int Qos;
        bool Retained;
        TMqttMessage(const std::string& t, const std::string& p, int q = 0, bool r = false): Topic(t), Payload(p), Qos(q), Retained(r)
        {}
    };
    class TMqttClient
    {
    public:
        std::vector<TMqttMessage> Log;
        void Publish(const TMqttMessage& m)
        {
            Log.push_back(m);
        }
    };
    typedef std::shared_ptr<TMqttClient> PMqttClient;
}
