// Implementation of the jsoncpp stand-in; also a small JSON reader and writer.
#include <wblib/json/json.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace Json
{
    struct Value::TNode
    {
        std::string Name;
        Value V;
    };
    Value::~Value()
    {
        for (auto p: Items)
            delete p;
    }
    Value::Value(const Value& o): Kind(o.Kind), I(o.I), S(o.S)
    {
        Items.reserve(o.Items.size());
        for (auto& p: o.Items)
            Items.push_back(new TNode{p->Name, p->V});
    }
    Value::Value(Value&& o): Kind(o.Kind), I(o.I), S(std::move(o.S)), Items(std::move(o.Items))
    {
        o.Kind = nullValue;
        o.S.clear();
        o.Items.clear();
    }
    Value& Value::operator=(const Value& o)
    {
        Value t(o);
        swap(t);
        return *this;
    }
    Value& Value::operator=(Value&& o)
    {
        Value t(std::move(o));
        swap(t);
        return *this;
    }
    void Value::swap(Value& o)
    {
        std::swap(Kind, o.Kind);
        std::swap(I, o.I);
        S.swap(o.S);
        Items.swap(o.Items);
    }
    const Value& Value::item(size_t n) const
    {
        return Items[n]->V;
    }
    const std::string& Value::itemName(size_t n) const
    {
        return Items[n]->Name;
    }
    static bool integral(double d)
    {
        return d == std::floor(d);
    }
    bool Value::isInt() const
    {
        switch (Kind) {
            case intValue:
                return I >= INT32_MIN && I <= INT32_MAX;
            case uintValue:
                return U <= (uint64_t)INT32_MAX;
            case realValue:
                return D >= INT32_MIN && D <= INT32_MAX && integral(D);
            default:
                return false;
        }
    }
    bool Value::isUInt() const
    {
        switch (Kind) {
            case intValue:
                return I >= 0 && I <= (int64_t)UINT32_MAX;
            case uintValue:
                return U <= UINT32_MAX;
            case realValue:
                return D >= 0 && D <= UINT32_MAX && integral(D);
            default:
                return false;
        }
    }
    bool Value::isInt64() const
    {
        switch (Kind) {
            case intValue:
                return true;
            case uintValue:
                return U <= (uint64_t)INT64_MAX;
            case realValue:
                return D >= -9223372036854775808.0 && D < 9223372036854775808.0 && integral(D);
            default:
                return false;
        }
    }
    bool Value::isUInt64() const
    {
        switch (Kind) {
            case intValue:
                return I >= 0;
            case uintValue:
                return true;
            case realValue:
                return D >= 0 && D < 18446744073709551616.0 && integral(D);
            default:
                return false;
        }
    }
    Int Value::asInt() const
    {
        switch (Kind) {
            case intValue:
                if (!isInt())
                    throw LogicError("LargestInt out of Int range");
                return (Int)I;
            case uintValue:
                if (!isInt())
                    throw LogicError("LargestUInt out of Int range");
                return (Int)U;
            case realValue:
                if (!(D >= INT32_MIN && D <= INT32_MAX))
                    throw LogicError("double out of Int range");
                return (Int)D;
            case nullValue:
                return 0;
            case booleanValue:
                return B ? 1 : 0;
            default:
                throw LogicError("Value is not convertible to Int.");
        }
    }
    UInt Value::asUInt() const
    {
        switch (Kind) {
            case intValue:
                if (!isUInt())
                    throw LogicError("LargestInt out of UInt range");
                return (UInt)I;
            case uintValue:
                if (!isUInt())
                    throw LogicError("LargestUInt out of UInt range");
                return (UInt)U;
            case realValue:
                if (!(D >= 0 && D <= UINT32_MAX))
                    throw LogicError("double out of UInt range");
                return (UInt)D;
            case nullValue:
                return 0;
            case booleanValue:
                return B ? 1 : 0;
            default:
                throw LogicError("Value is not convertible to UInt.");
        }
    }
    Int64 Value::asInt64() const
    {
        switch (Kind) {
            case intValue:
                return I;
            case uintValue:
                if (!isInt64())
                    throw LogicError("LargestUInt out of Int64 range");
                return (Int64)U;
            case realValue:
                if (!(D >= -9223372036854775808.0 && D < 9223372036854775808.0))
                    throw LogicError("double out of Int64 range");
                return (Int64)D;
            case nullValue:
                return 0;
            case booleanValue:
                return B ? 1 : 0;
            default:
                throw LogicError("Value is not convertible to Int64.");
        }
    }
    UInt64 Value::asUInt64() const
    {
        switch (Kind) {
            case intValue:
                if (I < 0)
                    throw LogicError("LargestInt out of UInt64 range");
                return (UInt64)I;
            case uintValue:
                return U;
            case realValue:
                if (!(D >= 0 && D < 18446744073709551616.0))
                    throw LogicError("double out of UInt64 range");
                return (UInt64)D;
            case nullValue:
                return 0;
            case booleanValue:
                return B ? 1 : 0;
            default:
                throw LogicError("Value is not convertible to UInt64.");
        }
    }
    double Value::asDouble() const
    {
        switch (Kind) {
            case intValue:
                return (double)I;
            case uintValue:
                return (double)U;
            case realValue:
                return D;
            case nullValue:
                return 0.0;
            case booleanValue:
                return B ? 1.0 : 0.0;
            default:
                throw LogicError("Value is not convertible to double.");
        }
    }
    bool Value::asBool() const
    {
        switch (Kind) {
            case booleanValue:
                return B;
            case nullValue:
                return false;
            case intValue:
                return I != 0;
            case uintValue:
                return U != 0;
            case realValue:
                return D != 0.0 && D == D;
            default:
                throw LogicError("Value is not convertible to bool.");
        }
    }
    static std::string realText(double d)
    {
        char b[64];
        snprintf(b, sizeof(b), "%.17g", d);
        std::string s(b);
        if (s.find('.') == std::string::npos && s.find('e') == std::string::npos && s.find('n') == std::string::npos)
            s += ".0";
        return s;
    }
    std::string Value::asString() const
    {
        switch (Kind) {
            case nullValue:
                return "";
            case stringValue:
                return S;
            case booleanValue:
                return B ? "true" : "false";
            case intValue:
                return std::to_string(I);
            case uintValue:
                return std::to_string(U);
            case realValue:
                return realText(D);
            default:
                throw LogicError("Type is not convertible to string");
        }
    }
    bool Value::isConvertibleTo(ValueType t) const
    {
        switch (t) {
            case intValue:
                return isInt() || (Kind == realValue && D >= INT32_MIN && D <= INT32_MAX) || Kind == booleanValue || Kind == nullValue;
            case uintValue:
                return isUInt() || (Kind == realValue && D >= 0 && D <= UINT32_MAX) || Kind == booleanValue || Kind == nullValue;
            case realValue:
            case booleanValue:
                return isNumeric() || Kind == booleanValue || Kind == nullValue;
            case stringValue:
                return isNumeric() || Kind == booleanValue || Kind == stringValue || Kind == nullValue;
            default:
                return Kind == t || Kind == nullValue;
        }
    }
    void Value::clear()
    {
        for (auto p: Items)
            delete p;
        Items.clear();
    }
    void Value::resize(ArrayIndex n)
    {
        if (Kind == nullValue)
            Kind = arrayValue;
        while (Items.size() > n) {
            delete Items.back();
            Items.pop_back();
        }
        while (Items.size() < n)
            Items.push_back(new TNode());
    }
    Value& Value::operator[](ArrayIndex i)
    {
        if (Kind == nullValue)
            Kind = arrayValue;
        if (Kind != arrayValue)
            throw LogicError("in Json::Value::operator[](ArrayIndex): requires arrayValue");
        if (i >= Items.size())
            resize(i + 1);
        return Items[i]->V;
    }
    const Value& Value::operator[](ArrayIndex i) const
    {
        if (Kind != nullValue && Kind != arrayValue)
            throw LogicError("in Json::Value::operator[](ArrayIndex)const: requires arrayValue");
        return i < Items.size() ? Items[i]->V : nullSingleton();
    }
    static int cmp(const std::string& a, const char* k, size_t n)
    {
        size_t m = std::min(a.size(), n);
        int c = m ? memcmp(a.data(), k, m) : 0;
        return c ? c : (a.size() < n ? -1 : a.size() > n ? 1 : 0);
    }
    Value& Value::resolve(const char* k, size_t n)
    {
        if (Kind == nullValue)
            Kind = objectValue;
        if (Kind != objectValue)
            throw LogicError("in Json::Value::resolveReference(key, end): requires objectValue");
        size_t i = 0;
        for (; i < Items.size(); ++i) {
            int c = cmp(Items[i]->Name, k, n);
            if (c == 0)
                return Items[i]->V;
            if (c > 0)
                break;
        }
        return (*Items.insert(Items.begin() + i, new TNode{std::string(k, n), Value()}))->V;
    }
    const Value* Value::find_(const char* k, size_t n) const
    {
        if (Kind == nullValue)
            return nullptr;
        if (Kind != objectValue)
            throw LogicError("in Json::Value::find(begin, end): requires objectValue or nullValue");
        for (auto& p: Items)
            if (cmp(p->Name, k, n) == 0)
                return &p->V;
        return nullptr;
    }
    const Value& Value::at_(const char* k, size_t n) const
    {
        auto p = find_(k, n);
        return p ? *p : nullSingleton();
    }
    Value& Value::append(const Value& v)
    {
        return append(Value(v));
    }
    Value& Value::append(Value&& v)
    {
        if (Kind == nullValue)
            Kind = arrayValue;
        if (Kind != arrayValue)
            throw LogicError("in Json::Value::append: requires arrayValue");
        Items.push_back(new TNode{std::string(), std::move(v)});
        return Items.back()->V;
    }
    bool Value::insert(ArrayIndex i, const Value& v)
    {
        if (Kind == nullValue)
            Kind = arrayValue;
        if (i > Items.size())
            return false;
        Items.insert(Items.begin() + i, new TNode{std::string(), v});
        return true;
    }
    bool Value::removeMember(const std::string& k, Value* removed)
    {
        if (Kind != objectValue)
            return false;
        for (size_t i = 0; i < Items.size(); ++i)
            if (Items[i]->Name == k) {
                if (removed)
                    *removed = std::move(Items[i]->V);
                delete Items[i];
                Items.erase(Items.begin() + i);
                return true;
            }
        return false;
    }
    void Value::removeMember(const std::string& k)
    {
        if (Kind != nullValue && Kind != objectValue)
            throw LogicError("in Json::Value::removeMember(): requires objectValue");
        removeMember(k, nullptr);
    }
    bool Value::removeIndex(ArrayIndex i, Value* removed)
    {
        if (Kind != arrayValue || i >= Items.size())
            return false;
        if (removed)
            *removed = Items[i]->V;
        delete Items[i];
        Items.erase(Items.begin() + i);
        return true;
    }
    Value::Members Value::getMemberNames() const
    {
        if (Kind != nullValue && Kind != objectValue)
            throw LogicError("in Json::Value::getMemberNames(), value must be objectValue");
        Members m;
        for (auto& p: Items)
            m.push_back(p->Name);
        return m;
    }
    bool Value::operator==(const Value& o) const
    {
        if (Kind != o.Kind)
            return false;
        switch (Kind) {
            case nullValue:
                return true;
            case intValue:
            case uintValue:
                return I == o.I;
            case realValue:
                return D == o.D;
            case booleanValue:
                return B == o.B;
            case stringValue:
                return S == o.S;
            default:
                break;
        }
        if (Items.size() != o.Items.size())
            return false;
        for (size_t i = 0; i < Items.size(); ++i)
            if (Items[i]->Name != o.Items[i]->Name || !(Items[i]->V == o.Items[i]->V))
                return false;
        return true;
    }
    bool Value::operator<(const Value& o) const
    {
        if (Kind != o.Kind)
            return Kind < o.Kind;
        switch (Kind) {
            case intValue:
                return I < o.I;
            case uintValue:
                return U < o.U;
            case realValue:
                return D < o.D;
            case booleanValue:
                return B < o.B;
            case stringValue:
                return S < o.S;
            default:
                return size() < o.size();
        }
    }
    static void put(const Value& v, std::string& o)
    {
        switch (v.type()) {
            case nullValue:
                o += "null";
                break;
            case stringValue: {
                static const char* hex = "0123456789abcdef";
                o += '"';
                for (char c: v.asString()) {
                    if (c == '"' || c == '\\') {
                        o += '\\';
                        o += c;
                    } else if (c == '\n')
                        o += "\\n";
                    else if (c == '\r')
                        o += "\\r";
                    else if (c == '\t')
                        o += "\\t";
                    else if ((unsigned char)c < 0x20) {
                        o += "\\u00";
                        o += hex[(unsigned char)c >> 4];
                        o += hex[c & 15];
                    } else
                        o += c;
                }
                o += '"';
            } break;
            case arrayValue: {
                o += '[';
                for (ArrayIndex i = 0; i < v.size(); ++i) {
                    if (i)
                        o += ',';
                    put(v[i], o);
                }
                o += ']';
            } break;
            case objectValue: {
                o += '{';
                for (auto it = v.begin(); it != v.end(); ++it) {
                    if (it.pos())
                        o += ',';
                    put(Value(it.name()), o);
                    o += ':';
                    put(*it, o);
                }
                o += '}';
            } break;
            default:
                o += v.asString();
        }
    }
    std::string Value::toStyledString() const
    {
        std::string s;
        put(*this, s);
        return s + "\n";
    }
    std::string writeString(const StreamWriterBuilder&, const Value& v)
    {
        std::string s;
        put(v, s);
        return s;
    }
    namespace
    {
        struct TWriter: StreamWriter
        {
            int write(const Value& v, std::ostream* os) override
            {
                std::string s;
                put(v, s);
                *os << s;
                return 0;
            }
        };
        struct TParser
        {
            const char *P, *E;
            std::string Err;
            bool fail(const char* m)
            {
                if (Err.empty())
                    Err = m;
                return false;
            }
            void ws()
            {
                for (;;) {
                    while (P < E && (*P == ' ' || *P == '\n' || *P == '\t' || *P == '\r'))
                        ++P;
                    if (E - P >= 2 && P[0] == '/' && P[1] == '/') {
                        while (P < E && *P != '\n')
                            ++P;
                    } else if (E - P >= 2 && P[0] == '/' && P[1] == '*') {
                        P += 2;
                        while (E - P >= 2 && !(P[0] == '*' && P[1] == '/'))
                            ++P;
                        P = E - P >= 2 ? P + 2 : E;
                    } else
                        return;
                }
            }
            bool lit(const char* w)
            {
                size_t n = strlen(w);
                if ((size_t)(E - P) < n || strncmp(P, w, n))
                    return fail("Syntax error: value, object or array expected.");
                P += n;
                return true;
            }
            bool str(std::string& s)
            {
                ++P;
                while (P < E && *P != '"') {
                    if (*P == '\\') {
                        if (++P == E)
                            return fail("bad string");
                        switch (*P) {
                            case 'n':
                                s += '\n';
                                break;
                            case 't':
                                s += '\t';
                                break;
                            case 'r':
                                s += '\r';
                                break;
                            case 'b':
                                s += '\b';
                                break;
                            case 'f':
                                s += '\f';
                                break;
                            case 'u': {
                                if (E - P < 5)
                                    return fail("bad unicode");
                                unsigned c = 0;
                                for (int i = 1; i <= 4; ++i) {
                                    char h = P[i];
                                    c = c * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                                }
                                P += 4;
                                if (c < 0x80)
                                    s += (char)c;
                                else if (c < 0x800) {
                                    s += (char)(0xC0 | c >> 6);
                                    s += (char)(0x80 | (c & 63));
                                } else {
                                    s += (char)(0xE0 | c >> 12);
                                    s += (char)(0x80 | ((c >> 6) & 63));
                                    s += (char)(0x80 | (c & 63));
                                }
                            } break;
                            default:
                                s += *P;
                        }
                        ++P;
                    } else
                        s += *P++;
                }
                if (P == E)
                    return fail("Missing '\"'");
                ++P;
                return true;
            }
            bool val(Value& v)
            {
                ws();
                if (P == E)
                    return fail("Syntax error: value, object or array expected.");
                switch (*P) {
                    case '{': {
                        v = Value(objectValue);
                        ++P;
                        ws();
                        if (P < E && *P == '}') {
                            ++P;
                            return true;
                        }
                        for (;;) {
                            ws();
                            if (P == E || *P != '"')
                                return fail("Missing '}' or object member name");
                            std::string k;
                            if (!str(k))
                                return false;
                            ws();
                            if (P == E || *P != ':')
                                return fail("Missing ':' after object member name");
                            ++P;
                            if (!val(v[k]))
                                return false;
                            ws();
                            if (P < E && *P == ',') {
                                ++P;
                                continue;
                            }
                            if (P < E && *P == '}') {
                                ++P;
                                return true;
                            }
                            return fail("Missing ',' or '}' in object declaration");
                        }
                    }
                    case '[': {
                        v = Value(arrayValue);
                        ++P;
                        ws();
                        if (P < E && *P == ']') {
                            ++P;
                            return true;
                        }
                        for (;;) {
                            if (!val(v.append(Value())))
                                return false;
                            ws();
                            if (P < E && *P == ',') {
                                ++P;
                                continue;
                            }
                            if (P < E && *P == ']') {
                                ++P;
                                return true;
                            }
                            return fail("Missing ',' or ']' in array declaration");
                        }
                    }
                    case '"': {
                        std::string s;
                        if (!str(s))
                            return false;
                        v = Value(s);
                        return true;
                    }
                    case 't':
                        v = Value(true);
                        return lit("true");
                    case 'f':
                        v = Value(false);
                        return lit("false");
                    case 'n':
                        v = Value();
                        return lit("null");
                }
                const char* b = P;
                bool real = false;
                while (P < E && ((*P >= '0' && *P <= '9') || *P == '-' || *P == '+' || *P == '.' || *P == 'e' || *P == 'E')) {
                    if (*P == '.' || *P == 'e' || *P == 'E')
                        real = true;
                    ++P;
                }
                if (P == b)
                    return fail("Syntax error: value, object or array expected.");
                std::string t(b, P);
                if (real)
                    v = Value(strtod(t.c_str(), nullptr));
                else if (t[0] == '-')
                    v = Value((Int64)strtoll(t.c_str(), nullptr, 10));
                else {
                    uint64_t u = strtoull(t.c_str(), nullptr, 10);
                    v = u <= (uint64_t)INT64_MAX ? Value((Int64)u) : Value((UInt64)u);
                }
                return true;
            }
        };
        struct TReader: CharReader
        {
            bool parse(const char* b, const char* e, Value* root, String* errs) override
            {
                TParser p{b, e, {}};
                bool ok = p.val(*root);
                if (!ok && errs)
                    *errs = p.Err;
                return ok;
            }
        };
    }
    CharReader* CharReaderBuilder::newCharReader() const
    {
        return new TReader();
    }
    StreamWriter* StreamWriterBuilder::newStreamWriter() const
    {
        return new TWriter();
    }
}
