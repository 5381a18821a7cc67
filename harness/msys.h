// A random installation of Modbus devices: model, configuration, simulated devices and the program's own wiring.
#pragma once
#include "codec.h"
#include "sys.h"
#include <deque>

namespace msys
{
    using namespace std::chrono_literals;
    using mon::Rng;
    using sim::milliseconds;
    using sim::TAnswer;
    using sim::EType;

    struct TPart
    {
        std::string RegType; // as in the configuration
        EType Type = EType::HOLDING;
        uint32_t Addr = 0;
        int WriteAddr = -1; // -1: the same
        codec::TSpec Spec;
        bool IsBit() const
        {
            return Type == EType::COIL || Type == EType::DISCRETE;
        }
        bool Writable() const
        {
            return Type == EType::COIL || Type == EType::HOLDING;
        }
        unsigned Words() const
        {
            return IsBit() ? 1 : Spec.Words();
        }
        uint32_t WAddr() const
        {
            return WriteAddr < 0 ? Addr : WriteAddr;
        }
        bool Contains(EType t, uint32_t start, uint32_t count) const // is it entirely inside the given registers
        {
            return t == Type && Addr >= start && Addr + Words() <= start + count;
        }
        bool Overlaps(EType t, uint32_t start, uint32_t count) const
        {
            return t == Type && Addr < start + count && start < Addr + Words();
        }
        std::string Str() const;
    };

    struct TChan
    {
        std::string Name, CtlType = "value";
        std::vector<TPart> Parts;
        bool ReadOnly = false;
        int ReadPeriodMs = 0, RateLimitMs = -1;
        std::string OnValue, OffValue;
        std::optional<uint64_t> ErrorRaw;                          // error_value
        Json::Value Extra = Json::Value(Json::objectValue);        // other options
        bool OnOff() const
        {
            return !OnValue.empty() || !OffValue.empty();
        }
        // Text of the register for "1" or "0" written to the control
        std::string Sent(const std::string& v) const
        {
            auto& s = v == "1" ? OnValue : OffValue;
            return s.empty() ? v : s;
        }
        // Text shown for the text of the register(s)
        std::string Shown(const std::string& text) const
        {
            if (Parts.size() == 1 && !OnValue.empty() && text == OnValue) {
                return "1";
            }
            if (Parts.size() == 1 && !OffValue.empty() && text == OffValue) {
                return "0";
            }
            return text;
        }
    };

    struct TSetup
    {
        TPart Part;
        std::string Value;
        bool Duplicate = false; // ignored: there is an earlier one for the place
        bool AsText = false; // a text in the configuration even if it is a number
    };

    struct TDev
    {
        int Slave = 1;
        std::string Id;
        std::vector<TChan> Chans;
        std::vector<TSetup> Setup;
        int MaxRead = -1, MinRead = -1, MaxWrite = -1, RegHole = -1, BitHole = -1, GuardUs = -1, FrameTimeout = -1,
            ResponseTimeout = -1, DeviceTimeout = -1, FailCycles = -1, MaxWriteFail = -1, MinInterval = -1,
            RateLimitMs = -1;
        bool HexSlave = false; // in the configuration
        bool Continuous = false, ContinueOnIllegal = false, PreserveSetup = false;
    };

    // What the generator may use
    struct TProfile
    {
        int MinDevs = 1, MaxDevs = 3, MaxClusters = 5, MaxPerCluster = 8;
        bool Bits = true, Inputs = true, Singles = true, Strings = true, Floats = true, BitFields = true, Orders = true,
             Scales = true, Multi = true, WriteAddr = true, Overlap = true, OnOff = true, Limits = true,
             Continuous = false;
        bool SmallGaps = true;
        int ReadPeriods = 0; // percent of channels
    };

    TPart GenPart(Rng& r, const TProfile& p, EType type, uint32_t addr);
    TDev GenDev(Rng& r, const TProfile& p, int slave);
    void PutPart(Json::Value& j, const TPart& p); // its options
    Json::Value ToJson(const TDev& d);
    std::string Describe(const TDev& d);

    struct TSnap
    {
        sim::TTime At;
        std::vector<uint16_t> Words;
        codec::TValue Value;
    };

    class TWorld
    {
    public:
        explicit TWorld(Rng& r): R(r)
        {}
        // Settings to be made before Start
        Rng& R;
        std::vector<TDev> Devs;
        int Baud = 9600;
        bool Tcp = false;
        bool Mge = false; // a Modbus TCP gateway that passes fast Modbus
        int MaxUnchangedS = -1;
        int RateLimit = 100000;
        Json::Value PortExtra = Json::Value(Json::objectValue);

        void MakeDevs(const TProfile& p);
        void FillMemory(); // all registers of the model get random contents
        void Start();
        void Mutate(int n); // changes some contents of the devices' memory

        sim::PSimPort Port;
        sim::PModbusBus Bus;
        std::map<int, sim::PModbusSlave> Slaves;
        std::unique_ptr<sys::TService> Svc;
        std::string Config;

        const TChan* FindChan(const std::string& dev, const std::string& ctl, int* di = nullptr, int* ci = nullptr) const;
        std::vector<uint16_t> WordsOf(int di, const TPart& p, bool write = false) const;
        uint16_t RandomWord(const TPart& p);
        std::string RandomText(const TPart& p); // a value to write, and
        std::optional<uint64_t> RawOf(const TPart& p, const std::string& text) const; // its raw bits
        // Value to be shown for the channel's current memory
        bool ShownMatches(const TChan& c, const std::vector<codec::TValue>& parts, const std::string& text) const;
        // Keeps the recent contents given to the program for each part
        void WatchSnapshots();
        std::map<const TPart*, std::deque<TSnap>> Snaps;
        std::map<const TPart*, uint64_t> ReadsDelivered, WritesDelivered;
        std::vector<std::function<void(int di, const sim::TModbusRequest&, const sim::TBytes&, bool)>> Answered;
        std::vector<std::function<void(int di, const sim::TModbusRequest&)>> Requested;
        std::function<void(const std::string& dev, const std::string& ctl, bool error, const std::string& payload)> OnPub;
        // Checks a published value against the snapshots; reports with the given key
        void CheckPublished(const std::string& dev, const std::string& ctl, const std::string& text, const char* key);
        std::string Dump() const;

    private:
        void Answer(int di, const sim::TModbusRequest& q, const sim::TBytes& a, bool delivered);
    };
}
