// Stand-in for libwbmqtt1 (the API subset wb-mqtt-serial uses), written for /verif.
// Values published to MQTT go to a TMqttClient; the tests and monitors plug their own client in.
#pragma once
#include "json/json.h"

#include <any>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <vector>

namespace WBMQTT
{
    // ---------------------------------------------------------------- log
    class TLogger
    {
    public:
        enum TOutput
        {
            StdErr,
            StdOut
        };
        enum class EColorUsage
        {
            AUTO,
            ON,
            OFF
        };
        static constexpr int RED = 31, GREEN = 32, YELLOW = 33, GREY = 90, WHITE = 97;

        explicit TLogger(std::string prefix,
                         TOutput output = StdErr,
                         int color = -1,
                         bool enabled = true,
                         EColorUsage = EColorUsage::AUTO)
            : Prefix(std::move(prefix)),
              Enabled(enabled)
        {
            (void)output;
            (void)color;
        }

        class TLine
        {
        public:
            explicit TLine(TLogger* l): L(l)
            {
                if (L && L->Wanted()) {
                    S = std::make_unique<std::ostringstream>();
                }
            }
            TLine(TLine&&) = default;
            ~TLine()
            {
                if (S) {
                    L->Flush(S->str());
                }
            }
            template<class T> TLine& operator<<(const T& v)
            {
                if (S) {
                    *S << v;
                }
                return *this;
            }
            TLine& operator<<(std::ostream& (*f)(std::ostream&))
            {
                if (S) {
                    *S << f;
                }
                return *this;
            }

        private:
            TLogger* L;
            std::unique_ptr<std::ostringstream> S;
        };

        TLine Log()
        {
            return TLine(this);
        }
        bool IsEnabled() const
        {
            return Enabled.load(std::memory_order_relaxed);
        }
        void SetEnabled(bool e)
        {
            Enabled.store(e, std::memory_order_relaxed);
        }

        // Hook of the monitors: receives every enabled line (prefix, text). Set before threads start.
        static std::function<void(const std::string&, const std::string&)> Sink;
        static bool Mute;

    private:
        friend class TLine;
        bool Wanted() const
        {
            return IsEnabled() && (!Mute || Sink);
        }
        void Flush(const std::string& text);
        std::string Prefix;
        std::atomic<bool> Enabled;
    };

    extern TLogger Error, Warn, Info, Debug;

    // ---------------------------------------------------------------- exceptions
    class TBaseException: public std::exception
    {
    public:
        TBaseException(const char* file, int line, const std::string& message)
        {
            std::ostringstream s;
            s << message << " (" << file << ":" << line << ")";
            Msg = s.str();
            (void)line;
        }
        const char* what() const noexcept override
        {
            return Msg.c_str();
        }

    private:
        std::string Msg;
    };

    // ---------------------------------------------------------------- utils
    std::string StringFormat(const std::string& fmt, ...);
    bool StringStartsWith(const std::string& s, const std::string& prefix);
    bool StringHasSuffix(const std::string& s, const std::string& suffix);
    std::vector<std::string> StringSplit(const std::string& s, const std::string& delim);
    std::vector<std::string> StringSplit(const std::string& s, char delim);
    std::string HexDump(const uint8_t* buf, size_t size);
    std::string HexDump(const std::vector<uint8_t>& v);
    void SetThreadName(const std::string& name);

    template<class K, class V> class TMap: public std::map<K, V>
    {
    public:
        using std::map<K, V>::map;
        template<class D> V& GetOrCreate(const K& k, D d)
        {
            auto it = this->find(k);
            if (it == this->end()) {
                it = this->emplace(k, d()).first;
            }
            return it->second;
        }
    };

    std::vector<std::string> GetUnitTypes();

    // ---------------------------------------------------------------- promise
    namespace Detail
    {
        struct TShared
        {
            std::mutex M;
            std::condition_variable Cv;
            bool Done = false;
            std::exception_ptr Err;
            std::any Val;
        };
    }

    template<class T> class TFuture
    {
    public:
        TFuture(): S(std::make_shared<Detail::TShared>())
        {}
        explicit TFuture(std::shared_ptr<Detail::TShared> s): S(std::move(s))
        {}
        void Wait() const
        {
            std::unique_lock<std::mutex> l(S->M);
            S->Cv.wait(l, [&] { return S->Done; });
        }
        void Sync() const
        {
            Wait();
            if (S->Err) {
                std::rethrow_exception(S->Err);
            }
        }
        bool IsReady() const
        {
            std::unique_lock<std::mutex> l(S->M);
            return S->Done;
        }
        template<class U = T> U GetValue() const
        {
            Sync();
            if constexpr (!std::is_void_v<U>) {
                return std::any_cast<U>(S->Val);
            }
        }

    private:
        std::shared_ptr<Detail::TShared> S;
    };

    template<class T> class TPromise
    {
    public:
        TPromise(): S(std::make_shared<Detail::TShared>())
        {}
        TFuture<T> GetFuture() const
        {
            return TFuture<T>(S);
        }
        bool IsFulfilled() const
        {
            std::unique_lock<std::mutex> l(S->M);
            return S->Done;
        }
        void Complete()
        {
            std::unique_lock<std::mutex> l(S->M);
            S->Done = true;
            S->Cv.notify_all();
        }
        template<class U> void Complete(U v)
        {
            std::unique_lock<std::mutex> l(S->M);
            S->Val = std::move(v);
            S->Done = true;
            S->Cv.notify_all();
        }
        void SetException(std::exception_ptr e)
        {
            std::unique_lock<std::mutex> l(S->M);
            S->Err = e;
            S->Done = true;
            S->Cv.notify_all();
        }

    private:
        std::shared_ptr<Detail::TShared> S;
    };

    inline TFuture<void> Ready()
    {
        TPromise<void> p;
        p.Complete();
        return p.GetFuture();
    }
    template<class T> TFuture<T> Ready(T v)
    {
        TPromise<T> p;
        p.Complete(std::move(v));
        return p.GetFuture();
    }

    // ---------------------------------------------------------------- JSON
    namespace JSON
    {
        Json::Value Parse(const std::string& fname);
        Json::Value ParseWithSettings(const std::string& fname, const Json::Value& settings);

        template<class T> struct TIsDuration: std::false_type
        {};
        template<class R, class P> struct TIsDuration<std::chrono::duration<R, P>>: std::true_type
        {};

        template<class T> inline bool Is(const Json::Value& v)
        {
            if constexpr (TIsDuration<T>::value) {
                return v.isInt() || v.isInt64();
            } else if constexpr (std::is_same_v<T, bool>) {
                return v.isBool();
            } else if constexpr (std::is_same_v<T, std::string>) {
                return v.isString();
            } else if constexpr (std::is_floating_point_v<T>) {
                return v.isNumeric();
            } else if constexpr (std::is_same_v<T, int>) {
                return v.isInt();
            } else if constexpr (std::is_same_v<T, unsigned>) {
                return v.isUInt();
            } else if constexpr (std::is_same_v<T, long> || std::is_same_v<T, long long>) {
                return v.isInt64();
            } else if constexpr (std::is_same_v<T, unsigned long> || std::is_same_v<T, unsigned long long>) {
                return v.isUInt64();
            } else {
                static_assert(std::is_same_v<T, void>, "no JSON::Is for this type");
                return false;
            }
        }

        template<class T> inline T As(const Json::Value& v)
        {
            if constexpr (TIsDuration<T>::value) {
                return T(v.asInt64());
            } else if constexpr (std::is_same_v<T, bool>) {
                return v.asBool();
            } else if constexpr (std::is_same_v<T, std::string>) {
                return v.asString();
            } else if constexpr (std::is_floating_point_v<T>) {
                return static_cast<T>(v.asDouble());
            } else if constexpr (std::is_same_v<T, int>) {
                return v.asInt();
            } else if constexpr (std::is_same_v<T, unsigned>) {
                return v.asUInt();
            } else if constexpr (std::is_same_v<T, long> || std::is_same_v<T, long long>) {
                return v.asInt64();
            } else {
                static_assert(std::is_same_v<T, unsigned long> || std::is_same_v<T, unsigned long long>,
                              "no JSON::As for this type");
                return v.asUInt64();
            }
        }

        template<class T> inline bool Get(const Json::Value& root, const std::string& key, T& value)
        {
            if (!root.isMember(key)) {
                return false;
            }
            const auto& v = root[key];
            if (!Is<T>(v)) {
                throw std::runtime_error("Invalid value of '" + key + "'");
            }
            value = As<T>(v);
            return true;
        }

        class TValidator
        {
        public:
            explicit TValidator(const Json::Value& schema);
            ~TValidator();
            void Validate(const Json::Value& root) const;

        private:
            std::unique_ptr<Json::Value> Schema;
        };
        void Validate(const Json::Value& root, const Json::Value& schema);
    }

    // ---------------------------------------------------------------- MQTT
    struct TMqttMessage
    {
        TMqttMessage() = default;
        TMqttMessage(std::string t, std::string p, uint8_t qos = 0, bool r = false)
            : Topic(std::move(t)),
              Payload(std::move(p)),
              Qos(qos),
              Retained(r)
        {}
        std::string Topic, Payload;
        uint8_t Qos = 0;
        bool Retained = false;
    };
    using TMqttMessageHandler = std::function<void(const TMqttMessage&)>;

    class TMqttClient
    {
    public:
        virtual ~TMqttClient() = default;
        virtual void Start()
        {}
        virtual void Stop()
        {}
        virtual TFuture<void> Publish(const TMqttMessage& m) = 0;
        virtual void Subscribe(TMqttMessageHandler handler, const std::string& topic)
        {
            (void)handler;
            (void)topic;
        }
    };
    using PMqttClient = std::shared_ptr<TMqttClient>;

    struct TMosquittoMqttConfig
    {
        std::string Host = "localhost", Id, User, Password, Prefix;
        int Port = 1883;
    };
    PMqttClient NewMosquittoMqttClient(const TMosquittoMqttConfig&);

    // ---------------------------------------------------------------- RPC
    enum TMqttRpcErrorCode
    {
        E_RPC_PARSE_ERROR = -32700,
        E_RPC_REQUEST_TIMEOUT = -32600,
        E_RPC_SERVER_ERROR = -32000
    };

    class TMqttRpcServer
    {
    public:
        using TResultCallback = std::function<void(const Json::Value&)>;
        using TErrorCallback = std::function<void(TMqttRpcErrorCode, const std::string&)>;
        using TMethodHandler = std::function<Json::Value(const Json::Value&)>;
        using TAsyncMethodHandler = std::function<void(const Json::Value&, TResultCallback, TErrorCallback)>;
        virtual ~TMqttRpcServer() = default;
        virtual void RegisterMethod(const std::string& service, const std::string& method, TMethodHandler h);
        virtual void RegisterAsyncMethod(const std::string& service, const std::string& method, TAsyncMethodHandler h);
        virtual void Start()
        {}
        virtual void Stop()
        {}
        // Used by the monitors: calls like the real server does - an exception of a handler becomes an error reply.
        void Call(const std::string& service,
                  const std::string& method,
                  const Json::Value& params,
                  TResultCallback onResult,
                  TErrorCallback onError);
        bool Has(const std::string& service, const std::string& method) const;

    private:
        std::map<std::string, TAsyncMethodHandler> Methods;
    };
    using PMqttRpcServer = std::shared_ptr<TMqttRpcServer>;
    PMqttRpcServer NewMqttRpcServer(PMqttClient, const std::string& name);

    // ---------------------------------------------------------------- driver
    struct TPublishParameters
    {
        enum TPublishPolicy
        {
            PublishOnlyOnChange,
            PublishAll,
            PublishSomeUnchanged
        };
        TPublishPolicy Policy = PublishOnlyOnChange;
        std::chrono::milliseconds PublishUnchangedInterval{0};
        void Set(int32_t seconds)
        {
            if (seconds < 0) {
                Policy = PublishOnlyOnChange;
            } else if (seconds == 0) {
                Policy = PublishAll;
            } else {
                Policy = PublishSomeUnchanged;
                PublishUnchangedInterval = std::chrono::seconds(seconds);
            }
        }
    };

    class TAny: public std::any
    {
    public:
        using std::any::any;
        template<class T> const T& As() const
        {
            return *std::any_cast<T>(static_cast<const std::any*>(this));
        }
        template<class T> T& As()
        {
            return *std::any_cast<T>(static_cast<std::any*>(this));
        }
    };

    using TTitles = std::unordered_map<std::string, std::string>;

    struct TControlArgs
    {
        std::string Id, Type, Units;
        int Order = 0;
        bool Readonly = false, Hidden = false, Durable = false;
        TAny UserData;
        double Max = std::numeric_limits<double>::quiet_NaN();
        double Min = std::numeric_limits<double>::quiet_NaN();
        double Precision = 0;
        TTitles Titles;
        std::map<std::string, TTitles> EnumTitles;
        std::optional<std::string> RawValue, Error;

        TControlArgs&& SetId(const std::string& v) { Id = v; return std::move(*this); }
        TControlArgs&& SetType(const std::string& v) { Type = v; return std::move(*this); }
        TControlArgs&& SetUnits(const std::string& v) { Units = v; return std::move(*this); }
        TControlArgs&& SetOrder(int v) { Order = v; return std::move(*this); }
        TControlArgs&& SetReadonly(bool v) { Readonly = v; return std::move(*this); }
        TControlArgs&& SetHidden(bool v) { Hidden = v; return std::move(*this); }
        TControlArgs&& SetDurable(bool v = true) { Durable = v; return std::move(*this); }
        TControlArgs&& SetMax(double v) { Max = v; return std::move(*this); }
        TControlArgs&& SetMin(double v) { Min = v; return std::move(*this); }
        TControlArgs&& SetPrecision(double v) { Precision = v; return std::move(*this); }
        template<class T> TControlArgs&& SetUserData(T v) { UserData = std::move(v); return std::move(*this); }
        TControlArgs&& SetTitle(const std::string& t, const std::string& lang = "en") { Titles[lang] = t; return std::move(*this); }
        TControlArgs&& SetEnumValueTitles(const std::string& v, const TTitles& t) { EnumTitles[v] = t; return std::move(*this); }
    };

    struct TLocalDeviceArgs
    {
        std::string Id, Title;
        bool IsVirtual = false, DoLoadPrevious = false;
        TLocalDeviceArgs&& SetId(const std::string& v) { Id = v; return std::move(*this); }
        TLocalDeviceArgs&& SetTitle(const std::string& v) { Title = v; return std::move(*this); }
        TLocalDeviceArgs&& SetIsVirtual(bool v) { IsVirtual = v; return std::move(*this); }
        TLocalDeviceArgs&& SetDoLoadPrevious(bool v) { DoLoadPrevious = v; return std::move(*this); }
    };

    class TDriverBackend
    {
    public:
        explicit TDriverBackend(PMqttClient c): Client(std::move(c))
        {}
        PMqttClient Client;
    };
    using PDriverBackend = std::shared_ptr<TDriverBackend>;
    PDriverBackend NewDriverBackend(PMqttClient);

    struct TDriverArgs
    {
        std::string Id, StoragePath;
        PDriverBackend Backend;
        bool Testing = false;
        TDriverArgs&& SetId(const std::string& v) { Id = v; return std::move(*this); }
        TDriverArgs&& SetBackend(PDriverBackend v) { Backend = v; return std::move(*this); }
        TDriverArgs&& SetIsTesting(bool v) { Testing = v; return std::move(*this); }
        TDriverArgs&& SetReownUnknownDevices(bool) { return std::move(*this); }
        TDriverArgs&& SetUseStorage(bool) { return std::move(*this); }
        TDriverArgs&& SetStoragePath(const std::string& v) { StoragePath = v; return std::move(*this); }
    };

    class TDeviceDriver;
    class TDevice;
    class TLocalDevice;
    class TControl;
    class TDriverTx;
    using PDeviceDriver = std::shared_ptr<TDeviceDriver>;
    using PDevice = std::shared_ptr<TDevice>;
    using PLocalDevice = std::shared_ptr<TLocalDevice>;
    using PControl = std::shared_ptr<TControl>;
    using PDriverTx = std::unique_ptr<TDriverTx>;

    class TControl
    {
    public:
        TControl(TLocalDevice* dev, const TControlArgs& args): Args(args), Dev(dev)
        {}
        const std::string& GetId() const
        {
            return Args.Id;
        }
        const TAny& GetUserData() const
        {
            return Args.UserData;
        }
        std::shared_ptr<TDevice> GetDevice() const;
        TFuture<void> UpdateRawValueAndError(const PDriverTx& tx, const std::string& v, const std::string& e);
        TFuture<void> SetRawValue(const PDriverTx& tx, const std::string& v);
        TFuture<void> SetError(const PDriverTx& tx, const std::string& e);
        const TControlArgs Args;

    private:
        friend class TLocalDevice;
        friend class TDriverTx;
        friend class TDeviceDriver;
        TLocalDevice* Dev;
        std::optional<std::string> Value;
        std::string Err;
        void PublishMeta(bool remove);
        std::string Topic() const;
    };

    class TDevice
    {
    public:
        virtual ~TDevice() = default;
        const std::string& GetId() const
        {
            return Id;
        }

    protected:
        std::string Id;
    };

    class TLocalDevice: public TDevice, public std::enable_shared_from_this<TLocalDevice>
    {
    public:
        TLocalDevice(TDeviceDriver* drv, const TLocalDeviceArgs& args);
        TFuture<PControl> CreateControl(const PDriverTx& tx, const TControlArgs& args);
        TFuture<void> RemoveUnusedControls(const PDriverTx& tx);
        TFuture<void> SetError(const PDriverTx& tx, const std::string& e);
        bool UnusedRemoved = false; // after the last control has been created
        PControl FindControl(const std::string& id) const;
        const TLocalDeviceArgs& GetArgs() const
        {
            return Args;
        }

    private:
        friend class TControl;
        friend class TDriverTx;
        friend class TDeviceDriver;
        TDeviceDriver* Drv;
        TLocalDeviceArgs Args;
        std::string Err;
        std::vector<PControl> Controls;
        void PublishMeta(bool remove);
        void Publish(const std::string& topic, const std::string& payload);
    };

    struct TControlOnValueEvent
    {
        PControl Control;
        std::string RawValue;
    };

    // Holds the driver's lock while it lives, as the real one does
    class TDriverTx
    {
    public:
        explicit TDriverTx(TDeviceDriver* drv);
        ~TDriverTx();
        TFuture<PLocalDevice> CreateDevice(const TLocalDeviceArgs& args);
        TFuture<void> RemoveDeviceById(const std::string& id);
        PDevice GetDevice(const std::string& id);

    private:
        TDeviceDriver* Drv;
        std::unique_lock<std::recursive_mutex> Lock;
    };

    class TDeviceDriver
    {
    public:
        explicit TDeviceDriver(const TDriverArgs& args);
        PDriverTx BeginTx();
        template<class E> void On(std::function<void(const E&)> h)
        {
            static_assert(std::is_same_v<E, TControlOnValueEvent>);
            std::lock_guard<std::mutex> l(HandlersMutex);
            Handlers.push_back(std::move(h));
        }
        template<class E> void On(void (*h)(const E&))
        {
            On<E>(std::function<void(const E&)>(h));
        }
        void StartLoop()
        {}
        void StopLoop();
        void Close()
        {}
        void WaitForReady()
        {}
        // Delivery of a message to /devices/<dev>/controls/<control>/on. Returns false if there is no such control.
        bool DeliverOn(const std::string& dev, const std::string& control, const std::string& value);

    private:
        friend class TDriverTx;
        friend class TLocalDevice;
        friend class TControl;
        TDriverArgs Args;
        std::recursive_mutex TxMutex;
        std::mutex HandlersMutex;
        std::vector<std::function<void(const TControlOnValueEvent&)>> Handlers;
        std::map<std::string, PLocalDevice> Devices;
        void Publish(const std::string& topic, const std::string& payload);
    };
    PDeviceDriver NewDriver(const TDriverArgs&);

    namespace SignalHandling
    {
        void Handle(std::initializer_list<int>);
        void OnSignals(std::initializer_list<int>, std::function<void()>);
        void SetOnTimeout(std::chrono::seconds, std::function<void()>);
        void Start();
        void Stop();
        void Wait();
    }
}

#define wb_throw(Ex, msg) throw Ex(__FILE__, __LINE__, (msg))
