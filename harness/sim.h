// Virtual time, a simulated port and a simulated Modbus bus.
// sim.cpp replaces steady_clock::now, system_clock::now, nanosleep and condition variable waits of the program: time
// moves only when the code under test sleeps or waits, or when bytes travel.
#pragma once
#include "mon.h"
#include "port/feature_port.h"
#include "serial_exc.h"
#include <deque>
#include <map>
#include <optional>
#include <set>

namespace sim
{
    using std::chrono::microseconds;
    using std::chrono::milliseconds;
    using TTime = std::chrono::steady_clock::time_point;
    using TBytes = std::vector<uint8_t>;
    using namespace std::chrono_literals;

    TTime Now();
    int64_t NowUs();
    // Starts a new history: time goes back to the start, scheduled events are dropped
    void Reset();
    // Runs f when time gets to t. idleOnly: only while the code under test waits on a condition variable (or between
    // its calls), not in the middle of port input/output.
    void At(TTime t, std::function<void()> f, bool idleOnly = false);
    void Advance(microseconds d, bool idle = false);
    void AdvanceTo(TTime t, bool idle = false);
    // Limits the work of a history: after the given number of clock queries and waits time moves by itself, so that a
    // loop that waits for time to pass without sleeping ends; such steps are counted.
    uint64_t SpinSteps();

    class TSimPort;

    // What the other side of the port does
    class TWire
    {
    public:
        virtual ~TWire() = default;
        virtual void OnWrite(TSimPort& port, const TBytes& data) = 0;
        virtual void OnSettings(TSimPort&, const TSerialPortConnectionSettings&)
        {}
    };

    class TSimPort: public TPort
    {
    public:
        explicit TSimPort(const std::string& name, int baud = 9600);

        void Open() override;
        void Close() override;
        bool IsOpen() const override;
        void CheckPortOpen() const override;
        void WriteBytes(const uint8_t* buf, int count) override;
        uint8_t ReadByte(const microseconds& timeout) override;
        TReadFrameResult ReadFrame(uint8_t* buf,
                                   size_t count,
                                   const microseconds& responseTimeout,
                                   const microseconds& frameTimeout,
                                   TFrameCompletePred frame_complete = 0) override;
        void SkipNoise() override;
        void SleepSinceLastInteraction(const microseconds& us) override;
        microseconds GetSendTimeBytes(double bytesNumber) const override;
        microseconds GetSendTimeBits(size_t bitsNumber) const override;
        std::string GetDescription(bool verbose = true) const override;
        void ApplySerialPortSettings(const TSerialPortConnectionSettings& settings) override;
        void ResetSerialPortSettings() override;

        // Bytes start to arrive after delay, each taking one byte time (or all at once)
        void Push(const TBytes& data, microseconds delay, bool atOnce = false);
        void DropRx();
        size_t RxSize() const
        {
            return Rx.size();
        }

        std::string Name;
        int Baud;
        TSerialPortConnectionSettings Configured, Current;
        bool Serial = true; // has line settings, which cannot be set while it is closed
        bool Opened = false;
        std::shared_ptr<TWire> Wire;
        TTime LastInteraction{};
        // Faults: asked at each call; true makes the call fail
        TTime LastRx{}; // when the last byte sent to us arrives
        std::function<bool()> FailOpen, FailWrite, FailRead, FailSettings;
        bool CloseOnFail = false; // a failing read or write closes the port, like a TCP socket does
        // What was observed
        uint64_t Opens = 0, OpenTries = 0, Closes = 0, Writes = 0, Frames = 0, Timeouts = 0, UseWhenClosed = 0;
        uint64_t SettingsChanges = 0;
        int RxBaud = 0;          // of the bytes to come when it differs from the current one
        bool KeepFuture = false; // bytes sent after a change of settings are not lost with it
        std::vector<TTime> OpenTryTimes;

    private:
        std::deque<std::pair<TTime, uint8_t>> Rx;
        bool WaitByte(TTime until);
        void Fault(const char* what);
    };
    using PSimPort = std::shared_ptr<TSimPort>;

    // ------------------------------------------------------------------ Modbus
    enum class EType
    {
        COIL = 1,
        DISCRETE = 2,
        HOLDING = 3,
        INPUT = 4
    };

    struct TModbusRequest
    {
        TTime At{};
        uint8_t Slave = 0;
        uint16_t Tid = 0; // Modbus TCP
        uint8_t Fn = 0;
        uint32_t Addr = 0;
        uint32_t Count = 0;
        TBytes Data; // of a write
        TBytes Pdu;
        bool Malformed = false;
        bool IsRead() const
        {
            return Fn >= 1 && Fn <= 4;
        }
        bool IsWrite() const
        {
            return Fn == 5 || Fn == 6 || Fn == 15 || Fn == 16;
        }
        std::string Str() const;
    };

    // What is done with the answer to a request
    struct TAnswer
    {
        enum EKind
        {
            GOOD,      // the device's own answer
            SILENCE,   // not executed, no answer
            LOST,      // executed, no answer
            RAW,       // executed, these bytes instead of the frame
            RAW_NOEXEC // not executed, these bytes instead of the frame
        } Kind = GOOD;
        TBytes Raw;
        microseconds Delay{2000};
        microseconds GapAt{0}; // a pause inside the frame
        size_t GapPos = 0;
    };

    struct TMemEvent // a change of the device's memory by a write request
    {
        TTime At;
        EType Type;
        uint32_t Addr;
        uint16_t Value;
    };

    class TModbusSlave
    {
    public:
        explicit TModbusSlave(uint8_t id): Id(id)
        {}
        virtual ~TModbusSlave() = default;
        uint8_t Id;
        bool Online = true;
        std::map<EType, std::map<uint32_t, uint16_t>> Mem;
        std::map<EType, std::set<uint32_t>> Illegal; // answered with exception 2
        std::set<uint32_t> ReadOnlyHolding;          // writing gives exception
        bool DefaultIllegal = false; // addresses without contents are illegal
        uint32_t MaxRead = 125;
        // Last values that left in an answer the port could receive
        std::map<EType, std::map<uint32_t, std::pair<TTime, uint16_t>>> Served;
        std::vector<TMemEvent> MemEvents;
        std::vector<TModbusRequest> Log;
        std::function<TAnswer(const TModbusRequest&)> Fault;
        std::function<void(const TModbusRequest&, const TBytes& answerPdu, bool delivered)> OnAnswered;
        std::function<void(EType, uint32_t, uint16_t)> OnWritten;

        uint16_t Get(EType t, uint32_t a) const;
        void Set(EType t, uint32_t a, uint16_t v);
        // Executes a request, returns the PDU of the answer
        virtual TBytes Execute(const TModbusRequest& r);

    protected:
        bool IsIllegal(EType t, uint32_t a) const;
    };
    using PModbusSlave = std::shared_ptr<TModbusSlave>;

    uint16_t Crc16(const uint8_t* p, size_t n);
    TBytes RtuFrame(uint8_t slave, const TBytes& pdu);
    TBytes TcpFrame(uint16_t tid, uint8_t slave, const TBytes& pdu);
    TModbusRequest ParsePdu(uint8_t slave, const TBytes& pdu);

    // Modbus RTU (or Modbus TCP) bus with slaves
    class TModbusBus: public TWire
    {
    public:
        explicit TModbusBus(bool tcp = false): Tcp(tcp)
        {}
        bool Tcp;
        std::map<uint8_t, PModbusSlave> Slaves;
        std::vector<TModbusRequest> Log; // all requests, in order
        std::function<void(const TModbusRequest&)> OnRequest;
        // Frames other than plain Modbus requests (fast Modbus); returns the frames to answer with
        std::function<bool(TSimPort&, const TBytes&)> OnOther;
        uint64_t BadFrames = 0;
        PModbusSlave Add(uint8_t id)
        {
            return Slaves[id] = std::make_shared<TModbusSlave>(id);
        }
        void OnWrite(TSimPort& port, const TBytes& data) override;

    private:
        void Handle(TSimPort& port, uint8_t slave, const TBytes& pdu, uint16_t tid);
    };
    using PModbusBus = std::shared_ptr<TModbusBus>;

    const char* TypeName(EType t);
}
