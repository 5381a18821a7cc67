// Stand-in for the jsoncpp library (API subset with jsoncpp semantics), written for /verif.
#pragma once
#include <cstdint>
#include <deque>
#include <initializer_list>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace Json
{
    using Int = int;
    using UInt = unsigned int;
    using Int64 = int64_t;
    using UInt64 = uint64_t;
    using LargestInt = Int64;
    using LargestUInt = UInt64;
    using ArrayIndex = unsigned int;
    using String = std::string;

    enum ValueType
    {
        nullValue = 0,
        intValue,
        uintValue,
        realValue,
        stringValue,
        booleanValue,
        arrayValue,
        objectValue
    };

    class Exception: public std::exception
    {
    public:
        explicit Exception(std::string msg): Msg(std::move(msg))
        {}
        const char* what() const noexcept override
        {
            return Msg.c_str();
        }

    private:
        std::string Msg;
    };
    class RuntimeError: public Exception
    {
    public:
        using Exception::Exception;
    };
    class LogicError: public Exception
    {
    public:
        using Exception::Exception;
    };

    class Value;

    class ValueIteratorBase
    {
    public:
        using iterator_category = std::bidirectional_iterator_tag;
        using difference_type = int;
        Value key() const;
        UInt index() const;
        std::string name() const;
        const char* memberName() const;
        bool operator==(const ValueIteratorBase& o) const
        {
            return Pos == o.Pos && It == o.It;
        }
        bool operator!=(const ValueIteratorBase& o) const
        {
            return !(*this == o);
        }
        difference_type operator-(const ValueIteratorBase& o) const;

    protected:
        friend class Value;
        Value* Owner = nullptr;
        size_t Pos = 0;                                 // arrays
        std::pair<const std::string, Value>* It = nullptr; // objects
        bool IsObj = false;
        void inc();
        void dec();
        Value* ptr() const;
    };

    class ValueConstIterator: public ValueIteratorBase
    {
    public:
        using value_type = const Value;
        using reference = const Value&;
        using pointer = const Value*;
        ValueConstIterator() = default;
        ValueConstIterator(const ValueIteratorBase& b): ValueIteratorBase(b)
        {}
        ValueConstIterator& operator++()
        {
            inc();
            return *this;
        }
        ValueConstIterator operator++(int)
        {
            auto t = *this;
            inc();
            return t;
        }
        ValueConstIterator& operator--()
        {
            dec();
            return *this;
        }
        reference operator*() const
        {
            return *ptr();
        }
        pointer operator->() const
        {
            return ptr();
        }
    };

    class ValueIterator: public ValueIteratorBase
    {
    public:
        using value_type = Value;
        using reference = Value&;
        using pointer = Value*;
        ValueIterator() = default;
        explicit ValueIterator(const ValueIteratorBase& b): ValueIteratorBase(b)
        {}
        ValueIterator& operator++()
        {
            inc();
            return *this;
        }
        ValueIterator operator++(int)
        {
            auto t = *this;
            inc();
            return t;
        }
        ValueIterator& operator--()
        {
            dec();
            return *this;
        }
        reference operator*() const
        {
            return *ptr();
        }
        pointer operator->() const
        {
            return ptr();
        }
    };

    class Value
    {
    public:
        using Members = std::vector<std::string>;
        using iterator = ValueIterator;
        using const_iterator = ValueConstIterator;
        using ArrayIndex = Json::ArrayIndex;
        using Int = Json::Int;
        using UInt = Json::UInt;
        using Int64 = Json::Int64;
        using UInt64 = Json::UInt64;
        using LargestInt = Json::LargestInt;
        using LargestUInt = Json::LargestUInt;

        static const Value& nullSingleton();
        static constexpr Int minInt = INT32_MIN;
        static constexpr Int maxInt = INT32_MAX;
        static constexpr UInt maxUInt = UINT32_MAX;

        Value(ValueType type = nullValue);
        Value(Int v);
        Value(UInt v);
        Value(Int64 v);
        Value(UInt64 v);
        Value(long long v);
        Value(unsigned long long v);
        Value(double v);
        Value(const char* v);
        Value(const char* begin, const char* end);
        Value(const std::string& v);
        Value(bool v);
        Value(std::nullptr_t) = delete;
        Value(const Value& o);
        Value(Value&& o) noexcept;
        ~Value();
        Value& operator=(const Value& o);
        Value& operator=(Value&& o) noexcept;
        void swap(Value& o);
        void copy(const Value& o)
        {
            *this = o;
        }

        ValueType type() const
        {
            return Type;
        }

        bool operator<(const Value& o) const;
        bool operator<=(const Value& o) const
        {
            return !(o < *this);
        }
        bool operator>(const Value& o) const
        {
            return o < *this;
        }
        bool operator>=(const Value& o) const
        {
            return !(*this < o);
        }
        bool operator==(const Value& o) const;
        bool operator!=(const Value& o) const
        {
            return !(*this == o);
        }
        int compare(const Value& o) const
        {
            return *this < o ? -1 : (o < *this ? 1 : 0);
        }

        const char* asCString() const;
        std::string asString() const;
        Int asInt() const;
        UInt asUInt() const;
        Int64 asInt64() const;
        UInt64 asUInt64() const;
        LargestInt asLargestInt() const
        {
            return asInt64();
        }
        LargestUInt asLargestUInt() const
        {
            return asUInt64();
        }
        float asFloat() const
        {
            return static_cast<float>(asDouble());
        }
        double asDouble() const;
        bool asBool() const;

        bool isNull() const
        {
            return Type == nullValue;
        }
        bool isBool() const
        {
            return Type == booleanValue;
        }
        bool isInt() const;
        bool isInt64() const;
        bool isUInt() const;
        bool isUInt64() const;
        bool isIntegral() const;
        bool isDouble() const;
        bool isNumeric() const
        {
            return isDouble();
        }
        bool isString() const
        {
            return Type == stringValue;
        }
        bool isArray() const
        {
            return Type == arrayValue;
        }
        bool isObject() const
        {
            return Type == objectValue;
        }
        bool isConvertibleTo(ValueType other) const;
        template<typename T> T as() const;
        template<typename T> bool is() const;

        ArrayIndex size() const;
        bool empty() const;
        explicit operator bool() const
        {
            return !isNull();
        }
        void clear();
        void resize(ArrayIndex n);

        Value& operator[](ArrayIndex i);
        Value& operator[](int i);
        const Value& operator[](ArrayIndex i) const;
        const Value& operator[](int i) const;
        Value get(ArrayIndex i, const Value& def) const;
        bool isValidIndex(ArrayIndex i) const
        {
            return i < size();
        }
        Value& append(const Value& v);
        Value& append(Value&& v);
        bool insert(ArrayIndex i, const Value& v);

        Value& operator[](const char* key);
        const Value& operator[](const char* key) const;
        Value& operator[](const std::string& key);
        const Value& operator[](const std::string& key) const;
        Value get(const char* key, const Value& def) const;
        Value get(const std::string& key, const Value& def) const;
        const Value* find(const char* b, const char* e) const;
        const Value* find(const std::string& key) const;
        void removeMember(const char* key)
        {
            removeMember(std::string(key));
        }
        void removeMember(const std::string& key);
        bool removeMember(const std::string& key, Value* removed);
        bool removeIndex(ArrayIndex i, Value* removed);
        bool isMember(const char* key) const
        {
            return isMember(std::string(key));
        }
        bool isMember(const std::string& key) const;
        Members getMemberNames() const;
        std::string toStyledString() const;

        const Value& front() const;
        const Value& back() const;
        Value& front();
        Value& back();

        const_iterator begin() const;
        const_iterator end() const;
        iterator begin();
        iterator end();

    private:
        friend class ValueIteratorBase;
        ValueType Type;
        union
        {
            Int64 I;
            UInt64 U;
            double D;
            bool B;
        };
        std::unique_ptr<std::string> S;
        std::unique_ptr<std::deque<Value>> A;
        std::unique_ptr<std::map<std::string, Value>> O;
        void need(ValueType t, const char* what);
    };

    template<> inline bool Value::as<bool>() const
    {
        return asBool();
    }
    template<> inline Int Value::as<Int>() const
    {
        return asInt();
    }
    template<> inline UInt Value::as<UInt>() const
    {
        return asUInt();
    }
    template<> inline double Value::as<double>() const
    {
        return asDouble();
    }
    template<> inline std::string Value::as<std::string>() const
    {
        return asString();
    }

    inline void swap(Value& a, Value& b)
    {
        a.swap(b);
    }

    class StreamWriter
    {
    public:
        virtual ~StreamWriter() = default;
        virtual int write(const Value& root, std::ostream* os) = 0;
    };

    class StreamWriterBuilder
    {
    public:
        Value settings_;
        StreamWriterBuilder();
        Value& operator[](const std::string& key)
        {
            return settings_[key];
        }
        StreamWriter* newStreamWriter() const;
    };

    std::string writeString(const StreamWriterBuilder& b, const Value& root);

    class CharReader
    {
    public:
        virtual ~CharReader() = default;
        virtual bool parse(const char* begin, const char* end, Value* root, std::string* errs) = 0;
    };

    class CharReaderBuilder
    {
    public:
        Value settings_;
        CharReaderBuilder();
        Value& operator[](const std::string& key)
        {
            return settings_[key];
        }
        CharReader* newCharReader() const;
    };

    bool parseFromStream(const CharReaderBuilder& b, std::istream& is, Value* root, std::string* errs);

    class Reader
    {
    public:
        bool parse(const std::string& doc, Value& root, bool collectComments = true);
        bool parse(std::istream& is, Value& root, bool collectComments = true);
        std::string getFormattedErrorMessages() const
        {
            return Errs;
        }

    private:
        std::string Errs;
    };

    class FastWriter
    {
    public:
        std::string write(const Value& v);
    };
    class StyledWriter
    {
    public:
        std::string write(const Value& v);
    };

    std::istream& operator>>(std::istream& is, Value& root);
    std::ostream& operator<<(std::ostream& os, const Value& root);
}
