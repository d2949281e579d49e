// Compact stand-in for jsoncpp (absent here): the part of Json::Value that wb-mqtt-serial uses, with jsoncpp's semantics
// (implicit creation of members, conversion rules and Json::LogicError on impossible conversions).
#pragma once
#include <algorithm>
#include <cstdint>
#include <initializer_list>
#include <istream>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <cmath>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace Json
{
    typedef std::string String;
    typedef int Int;
    typedef unsigned int UInt;
    typedef int64_t Int64;
    typedef uint64_t UInt64;
    typedef int64_t LargestInt;
    typedef uint64_t LargestUInt;
    typedef unsigned int ArrayIndex;
    enum ValueType
    {
        nullValue = 0,
        intValue,
        uintValue,
        realValue,
        stringValue,
        booleanValue,
        arrayValue,
        objectValue
    };
    class Exception: public std::exception
    {
        std::string Msg;

    public:
        Exception(const std::string& m): Msg(m)
        {}
        const char* what() const noexcept override
        {
            return Msg.c_str();
        }
    };
    class RuntimeError: public Exception
    {
    public:
        using Exception::Exception;
    };
    class LogicError: public Exception
    {
    public:
        using Exception::Exception;
    };
    class Value
    {
        struct TNode;
        typedef std::vector<TNode*> TItems;
        ValueType Kind = nullValue;
        union
        {
            int64_t I;
            uint64_t U;
            double D;
            bool B;
        };
        std::string S;
        TItems Items;

    public:
        typedef std::vector<std::string> Members;
        typedef Json::ArrayIndex ArrayIndex;
        typedef Json::Int Int;
        typedef Json::UInt UInt;
        static const Value& nullSingleton()
        {
            static const Value v;
            return v;
        }
        Value(ValueType k = nullValue): Kind(k), I(0)
        {}
        Value(Int v): Kind(intValue), I(v)
        {}
        Value(UInt v): Kind(uintValue), U(v)
        {}
        Value(long v): Kind(intValue), I(v)
        {}
        Value(unsigned long v): Kind(uintValue), U(v)
        {}
        Value(long long v): Kind(intValue), I(v)
        {}
        Value(unsigned long long v): Kind(uintValue), U(v)
        {}
        Value(double v): Kind(realValue), D(v)
        {}
        Value(bool v): Kind(booleanValue), I(0)
        {
            B = v;
        }
        Value(const char* v): Kind(stringValue), I(0), S(v)
        {}
        Value(const std::string& v): Kind(stringValue), I(0), S(v)
        {}
        Value(std::string&& v): Kind(stringValue), I(0), S(std::move(v))
        {}
        Value(const Value& o);
        Value(Value&& o);
        Value& operator=(const Value& o);
        Value& operator=(Value&& o);
        ~Value();
        void swap(Value& o);
        ValueType type() const
        {
            return Kind;
        }
        bool isNull() const
        {
            return Kind == nullValue;
        }
        bool isBool() const
        {
            return Kind == booleanValue;
        }
        bool isString() const
        {
            return Kind == stringValue;
        }
        bool isArray() const
        {
            return Kind == arrayValue;
        }
        bool isObject() const
        {
            return Kind == objectValue;
        }
        bool isNumeric() const
        {
            return Kind == intValue || Kind == uintValue || Kind == realValue;
        }
        bool isDouble() const
        {
            return isNumeric();
        }
        bool isIntegral() const
        {
            return Kind == intValue || Kind == uintValue || (Kind == realValue && D == (double)(int64_t)D);
        }
        bool isInt() const;
        bool isUInt() const;
        bool isInt64() const;
        bool isUInt64() const;
        Int asInt() const;
        UInt asUInt() const;
        Int64 asInt64() const;
        UInt64 asUInt64() const;
        LargestInt asLargestInt() const
        {
            return asInt64();
        }
        LargestUInt asLargestUInt() const
        {
            return asUInt64();
        }
        double asDouble() const;
        float asFloat() const
        {
            return (float)asDouble();
        }
        bool asBool() const;
        std::string asString() const;
        const char* asCString() const
        {
            if (Kind != stringValue)
                throw LogicError("in Json::Value::asCString(): requires stringValue");
            return S.c_str();
        }
        bool isConvertibleTo(ValueType t) const;
        ArrayIndex size() const
        {
            return (Kind == arrayValue || Kind == objectValue) ? (ArrayIndex)Items.size() : 0;
        }
        bool empty() const
        {
            return (Kind == nullValue || Kind == arrayValue || Kind == objectValue) ? size() == 0 : false;
        }
        explicit operator bool() const
        {
            return !isNull();
        }
        bool operator!() const
        {
            return isNull();
        }
        void clear();
        void resize(ArrayIndex n);
        Value& operator[](ArrayIndex i);
        Value& operator[](int i)
        {
            return (*this)[(ArrayIndex)i];
        }
        const Value& operator[](ArrayIndex i) const;
        const Value& operator[](int i) const
        {
            return (*this)[(ArrayIndex)i];
        }
        Value& operator[](const char* k)
        {
            return resolve(k, strlen_(k));
        }
        Value& operator[](const std::string& k)
        {
            return resolve(k.data(), k.size());
        }
        const Value& operator[](const char* k) const
        {
            return at_(k, strlen_(k));
        }
        const Value& operator[](const std::string& k) const
        {
            return at_(k.data(), k.size());
        }
        Value get(ArrayIndex i, const Value& d) const
        {
            return i < size() ? (*this)[i] : d;
        }
        Value get(const char* k, const Value& d) const
        {
            auto p = find_(k, strlen_(k));
            return p ? *p : d;
        }
        Value get(const std::string& k, const Value& d) const
        {
            auto p = find_(k.data(), k.size());
            return p ? *p : d;
        }
        bool isMember(const char* k) const
        {
            return find_(k, strlen_(k)) != nullptr;
        }
        bool isMember(const std::string& k) const
        {
            return find_(k.data(), k.size()) != nullptr;
        }
        bool isValidIndex(ArrayIndex i) const
        {
            return i < size();
        }
        Value& append(const Value& v);
        Value& append(Value&& v);
        bool insert(ArrayIndex i, const Value& v);
        void removeMember(const std::string& k);
        bool removeMember(const std::string& k, Value* removed);
        bool removeIndex(ArrayIndex i, Value* removed);
        Members getMemberNames() const;
        bool operator==(const Value& o) const;
        bool operator!=(const Value& o) const
        {
            return !(*this == o);
        }
        bool operator<(const Value& o) const;
        std::string toStyledString() const;
        const Value* find(const char* b, const char* e) const
        {
            return find_(b, e - b);
        }
        template<class V> class TIter
        {
            const Value* P = nullptr;
            size_t N = 0;
            friend class Value;

        public:
            typedef std::bidirectional_iterator_tag iterator_category;
            typedef V value_type;
            typedef int difference_type;
            typedef V& reference;
            typedef V* pointer;
            TIter()
            {}
            TIter(const Value* p, size_t n): P(p), N(n)
            {}
            template<class W> TIter(const TIter<W>& o): P(o.raw()), N(o.pos())
            {}
            const Value* raw() const
            {
                return P;
            }
            size_t pos() const
            {
                return N;
            }
            V& operator*() const
            {
                return const_cast<V&>(P->item(N));
            }
            V* operator->() const
            {
                return &**this;
            }
            TIter& operator++()
            {
                ++N;
                return *this;
            }
            TIter operator++(int)
            {
                TIter r = *this;
                ++N;
                return r;
            }
            TIter& operator--()
            {
                --N;
                return *this;
            }
            int operator-(const TIter& o) const
            {
                return (int)(N - o.N);
            }
            bool operator==(const TIter& o) const
            {
                return N == o.N;
            }
            bool operator!=(const TIter& o) const
            {
                return N != o.N;
            }
            Value key() const
            {
                return P->isArray() ? Value((UInt)N) : Value(P->itemName(N));
            }
            std::string name() const
            {
                return P->isArray() ? std::string() : P->itemName(N);
            }
            UInt index() const
            {
                return P->isArray() ? (UInt)N : (UInt)-1;
            }
        };
        typedef TIter<Value> iterator;
        typedef TIter<const Value> const_iterator;
        iterator begin()
        {
            return iterator(this, 0);
        }
        iterator end()
        {
            return iterator(this, size());
        }
        const_iterator begin() const
        {
            return const_iterator(this, 0);
        }
        const_iterator end() const
        {
            return const_iterator(this, size());
        }
        const Value& item(size_t n) const;
        const std::string& itemName(size_t n) const;

    private:
        static size_t strlen_(const char* k)
        {
            size_t n = 0;
            while (k[n])
                ++n;
            return n;
        }
        Value& resolve(const char* k, size_t n);
        const Value& at_(const char* k, size_t n) const;
        const Value* find_(const char* k, size_t n) const;
    };
    typedef Value::iterator ValueIterator;
    typedef Value::const_iterator ValueConstIterator;
    class CharReader
    {
    public:
        virtual ~CharReader() = default;
        virtual bool parse(const char* b, const char* e, Value* root, String* errs) = 0;
    };
    class CharReaderBuilder
    {
    public:
        Value settings_;
        Value& operator[](const std::string& k)
        {
            return settings_[k];
        }
        CharReader* newCharReader() const;
    };
    class StreamWriter
    {
    public:
        virtual ~StreamWriter() = default;
        virtual int write(const Value& root, std::ostream* os) = 0;
    };
    class StreamWriterBuilder
    {
    public:
        Value settings_;
        Value& operator[](const std::string& k)
        {
            return settings_[k];
        }
        StreamWriter* newStreamWriter() const;
    };
    std::string writeString(const StreamWriterBuilder& f, const Value& v);
    bool parseFromStream(const CharReaderBuilder& f, std::istream& s, Value* root, std::string* errs);
    typedef StreamWriterBuilder FastWriter_;
    std::ostream& operator<<(std::ostream&, const Value&);
}
