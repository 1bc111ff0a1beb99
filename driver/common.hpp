// Shared pieces of the drivers: a literal interpreter of commands, one JSON line each.  It knows nothing about what
// the library should answer: it executes and records.  The specification decides.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <xtypes/xtypes.hpp>
#include <nlohmann/json.hpp>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <cmath>
#include <optional>

using json = nlohmann::json;
using namespace eprosima::xtypes;
using Bytes = std::vector<int>;
typedef long double f128_t;

// ---- primitive kinds by tag ----
template<typename T> struct Tag { using type = T; };

template<typename F>
bool with_prim(const std::string& k, F&& f)
{
    if (k == "bool") { f(Tag<bool>()); return true; }
    if (k == "char") { f(Tag<char>()); return true; }
    if (k == "c16") { f(Tag<char16_t>()); return true; }
    if (k == "wc") { f(Tag<wchar_t>()); return true; }
    if (k == "i8") { f(Tag<int8_t>()); return true; }
    if (k == "u8") { f(Tag<uint8_t>()); return true; }
    if (k == "i16") { f(Tag<int16_t>()); return true; }
    if (k == "u16") { f(Tag<uint16_t>()); return true; }
    if (k == "i32") { f(Tag<int32_t>()); return true; }
    if (k == "u32") { f(Tag<uint32_t>()); return true; }
    if (k == "i64") { f(Tag<int64_t>()); return true; }
    if (k == "u64") { f(Tag<uint64_t>()); return true; }
    if (k == "f32") { f(Tag<float>()); return true; }
    if (k == "f64") { f(Tag<double>()); return true; }
    if (k == "f128") { f(Tag<f128_t>()); return true; }
    return false;
}

template<typename F>
bool with_value_type(const std::string& k, F&& f)
{
    if (k == "str") { f(Tag<std::string>()); return true; }
    if (k == "wstr") { f(Tag<std::wstring>()); return true; }
    if (k == "u16str") { f(Tag<std::u16string>()); return true; }
    return with_prim(k, f);
}

struct DriverError : std::logic_error { using std::logic_error::logic_error; };

// ---- values <-> JSON.  Integers: little-endian bytes; floats: [quarters]; strings: code units ----
template<typename T>
json enc(const T& v)
{
    if constexpr (std::is_floating_point<T>::value)
    {
        T q = v * 4;
        if (q == std::floor(q) && std::fabs(q) < T(1 << 30)) { return json::array({ int64_t(q) }); }
        json j = json::array({0, 0});
        const uint8_t* p = reinterpret_cast<const uint8_t*>(&v);
        for (size_t i = 0; i < (sizeof(T) > 10 ? 10 : sizeof(T)); i++) { j.push_back(int(p[i])); }
        return j;
    }
    else if constexpr (std::is_arithmetic<T>::value)
    {
        json j = json::array();
        const uint8_t* p = reinterpret_cast<const uint8_t*>(&v);
        for (size_t i = 0; i < sizeof(T); i++) { j.push_back(int(p[i])); }
        return j;
    }
    else
    {
        json j = json::array();
        for (auto c : v) { j.push_back(int(static_cast<typename std::make_unsigned<decltype(c)>::type>(c))); }
        return j;
    }
}
template<>
inline json enc<std::u16string>(const std::u16string& v)
{
    json j = json::array();
    for (auto c : v) { j.push_back(int(c)); }
    return j;
}

// The two floating point zeros are the same value: with this, they are given in turns.
inline bool two_zeros = false;

template<typename T>
T dec(const json& j)
{
    if constexpr (std::is_floating_point<T>::value)
    {
        static bool negative = false;
        if (two_zeros && j.size() == 1 && j.at(0).get<int64_t>() == 0)
        {
            negative = !negative;
            return negative ? -T(0) : T(0);
        }
        if (j.size() > 2)               // not a number of quarters: its bytes
        {
            T v = 0;
            uint8_t* p = reinterpret_cast<uint8_t*>(&v);
            for (size_t i = 2; i < j.size(); i++) { p[i - 2] = uint8_t(j[i].get<int>()); }
            return v;
        }
        return T(j.at(0).get<int64_t>()) / 4;
    }
    else if constexpr (std::is_same<T, bool>::value)
    {
        return j.at(0).get<int>() != 0;
    }
    else if constexpr (std::is_arithmetic<T>::value)
    {
        T v{};
        uint8_t* p = reinterpret_cast<uint8_t*>(&v);
        if (j.size() != sizeof(T)) { throw DriverError("bad width " + j.dump()); }
        for (size_t i = 0; i < sizeof(T); i++) { p[i] = uint8_t(j[i].get<int>()); }
        return v;
    }
    else
    {
        T s;
        for (auto& c : j) { s.push_back(typename T::value_type(c.get<int>())); }
        return s;
    }
}

inline int64_t dec_label(const json& j) // any width, sign not extended: the library shrinks it
{
    uint64_t v = 0;
    for (size_t i = 0; i < j.size(); i++) { v |= uint64_t(j[i].get<int>()) << (8 * i); }
    return int64_t(v);
}

// ---- types from their description ----
using TypePtr = std::shared_ptr<DynamicType>;

template<typename T>
TypePtr keep(T&& t) { return std::make_shared<typename std::decay<T>::type>(std::forward<T>(t)); }

inline TypePtr build_type(const json& j);

// Types that are declared somewhere: how a driver finds them.
inline std::function<TypePtr(const json&)> declared_type;

template<typename T>
TypePtr build_enum(const json& j)
{
    auto e = std::make_shared<EnumerationType<T>>(j.at("n").get<std::string>());
    for (auto& x : j.at("es")) { e->add_enumerator(x.at("n").get<std::string>(), dec<T>(x.at("v"))); }
    return e;
}

inline TypePtr prim_type(const std::string& k)
{
    TypePtr r;
    with_prim(k, [&](auto t)
            {
                using T = typename decltype(t)::type;
                r = std::const_pointer_cast<DynamicType>(
                    std::shared_ptr<const DynamicType>(&primitive_type<T>(), [](const DynamicType*){}));
            });
    return r;
}

inline TypePtr build_type(const json& j)
{
    const std::string k = j.at("k").get<std::string>();
    if (TypePtr p = prim_type(k)) { return p; }
    if (k == "str") { return keep(StringType(j.at("b").get<int>())); }
    if (k == "wstr") { return keep(WStringType(j.at("b").get<int>())); }
    if (k == "u16str") { return keep(String16Type(j.at("b").get<int>())); }
    if (k == "enum")
    {
        switch (j.at("w").get<int>())
        {
            case 1: return build_enum<uint8_t>(j);
            case 2: return build_enum<uint16_t>(j);
            default: return build_enum<uint32_t>(j);
        }
    }
    if (k == "alias") { TypePtr e = build_type(j.at("e")); return keep(AliasType(*e, j.at("n").get<std::string>())); }
    if (k == "array" && j.value("md", 0)) // several dimensions at once
    {
        std::vector<uint32_t> dims{ j.at("b").get<uint32_t>() };
        const json* c = &j;
        for (bool more = true; more; )
        {
            more = c->value("md", 0) && c->at("e").at("k") == "array";
            c = &c->at("e");
            if (more) { dims.push_back(c->at("b").get<uint32_t>()); }
            else { break; }
        }
        // c: what is in the last array
        TypePtr e = build_type(*c);
        return keep(ArrayType(*e, dims));
    }
    if (k == "array") { TypePtr e = build_type(j.at("e")); return keep(ArrayType(*e, j.at("b").get<uint32_t>())); }
    if (k == "seq") { TypePtr e = build_type(j.at("e")); return keep(SequenceType(*e, j.at("b").get<uint32_t>())); }
    if (k == "map")
    {
        TypePtr a = build_type(j.at("e").at("a")), b = build_type(j.at("e").at("c"));
        return keep(MapType(*a, *b, j.at("b").get<uint32_t>()));
    }
    if (k == "pair")
    {
        TypePtr a = build_type(j.at("a")), b = build_type(j.at("c"));
        return keep(PairType(*a, *b));
    }
    if (k == "struct")
    {
        if (!j.at("p").empty())
        {
            TypePtr p = build_type(j.at("p").at(0));
            StructType s(j.at("n").get<std::string>(), static_cast<const StructType*>(p.get()));
            for (auto& m : j.at("ms")) { TypePtr t = build_type(m.at("t")); s.add_member(m.at("n").get<std::string>(), *t); }
            return keep(std::move(s));
        }
        StructType s(j.at("n").get<std::string>());
        for (auto& m : j.at("ms")) { TypePtr t = build_type(m.at("t")); s.add_member(m.at("n").get<std::string>(), *t); }
        return keep(std::move(s));
    }
    if (k == "union")
    {
        TypePtr d = build_type(j.at("d"));
        UnionType u(j.at("n").get<std::string>(), *d);
        for (auto& c : j.at("cs"))
        {
            TypePtr t = build_type(c.at("t"));
            std::vector<int64_t> ls;
            for (auto& l : c.at("ls")) { ls.push_back(dec_label(l)); }
            u.add_case_member(ls, c.at("n").get<std::string>(), *t, c.at("df").get<bool>());
        }
        return keep(std::move(u));
    }
    if (k == "ref" && declared_type) { return declared_type(j); }
    throw DriverError("unknown type " + j.dump());
}

inline const DynamicType& bare(const DynamicType& t)
{
    return t.kind() == TypeKind::ALIAS_TYPE ? static_cast<const AliasType&>(t).rget() : t;
}

// ---- full observation of a data ----
inline json dump(const ReadableDynamicDataRef& r)
{
    const DynamicType& t = r.type();
    switch (t.kind())
    {
        case TypeKind::BOOLEAN_TYPE: return json::array({ int(*reinterpret_cast<const uint8_t*>(&r.value<bool>())) });
        case TypeKind::CHAR_8_TYPE: return enc(r.value<char>());
        case TypeKind::CHAR_16_TYPE: return enc(r.value<char16_t>());
        case TypeKind::WIDE_CHAR_TYPE: return enc(r.value<wchar_t>());
        case TypeKind::INT_8_TYPE: return enc(r.value<int8_t>());
        case TypeKind::UINT_8_TYPE: return enc(r.value<uint8_t>());
        case TypeKind::INT_16_TYPE: return enc(r.value<int16_t>());
        case TypeKind::UINT_16_TYPE: return enc(r.value<uint16_t>());
        case TypeKind::INT_32_TYPE: return enc(r.value<int32_t>());
        case TypeKind::UINT_32_TYPE: return enc(r.value<uint32_t>());
        case TypeKind::INT_64_TYPE: return enc(r.value<int64_t>());
        case TypeKind::UINT_64_TYPE: return enc(r.value<uint64_t>());
        case TypeKind::FLOAT_32_TYPE: return enc(r.value<float>());
        case TypeKind::FLOAT_64_TYPE: return enc(r.value<double>());
        case TypeKind::FLOAT_128_TYPE: return enc(r.value<f128_t>());
        case TypeKind::STRING_TYPE: return enc(r.value<std::string>());
        case TypeKind::WSTRING_TYPE: return enc(r.value<std::wstring>());
        case TypeKind::STRING16_TYPE: return enc(r.value<std::u16string>());
        case TypeKind::ENUMERATION_TYPE:
            switch (t.memory_size())
            {
                case 1: return enc(r.value<uint8_t>());
                case 2: return enc(r.value<uint16_t>());
                default: return enc(r.value<uint32_t>());
            }
        case TypeKind::PAIR_TYPE: return json::array({ dump(r[0]), dump(r[1]) });
        case TypeKind::ARRAY_TYPE:
        case TypeKind::SEQUENCE_TYPE:
        case TypeKind::STRUCTURE_TYPE:
        {
            json j = json::array();
            for (size_t i = 0; i < r.size(); i++) { j.push_back(dump(r[i])); }
            return j;
        }
        case TypeKind::MAP_TYPE:
        {
            json j = json::array();
            for (auto it = r.begin(); it != r.end(); ++it) { j.push_back(dump(*it)); }
            return j;
        }
        case TypeKind::UNION_TYPE:
        {
            json j = json::array({ dump(r.d()) });
            std::string name;
            try { name = r.current_case().name(); }
            catch (const std::exception&) { j.push_back(0); return j; }
            const UnionType& u = static_cast<const UnionType&>(t);
            std::vector<std::string> ns = u.get_case_members();
            j.push_back(int(std::find(ns.begin(), ns.end(), name) - ns.begin()) + 1);
            j.push_back(dump(r[name]));
            return j;
        }
        default: throw DriverError("dump of unknown type");
    }
}

// ---- give a data a value, through its writable interface ----
inline void fill(WritableDynamicDataRef r, const json& j)
{
    const DynamicType& t = r.type();
    switch (t.kind())
    {
        case TypeKind::BOOLEAN_TYPE: r.value<bool>(dec<bool>(j)); return;
        case TypeKind::CHAR_8_TYPE: r.value<char>(dec<char>(j)); return;
        case TypeKind::CHAR_16_TYPE: r.value<char16_t>(dec<char16_t>(j)); return;
        case TypeKind::WIDE_CHAR_TYPE: r.value<wchar_t>(dec<wchar_t>(j)); return;
        case TypeKind::INT_8_TYPE: r.value<int8_t>(dec<int8_t>(j)); return;
        case TypeKind::UINT_8_TYPE: r.value<uint8_t>(dec<uint8_t>(j)); return;
        case TypeKind::INT_16_TYPE: r.value<int16_t>(dec<int16_t>(j)); return;
        case TypeKind::UINT_16_TYPE: r.value<uint16_t>(dec<uint16_t>(j)); return;
        case TypeKind::INT_32_TYPE: r.value<int32_t>(dec<int32_t>(j)); return;
        case TypeKind::UINT_32_TYPE: r.value<uint32_t>(dec<uint32_t>(j)); return;
        case TypeKind::INT_64_TYPE: r.value<int64_t>(dec<int64_t>(j)); return;
        case TypeKind::UINT_64_TYPE: r.value<uint64_t>(dec<uint64_t>(j)); return;
        case TypeKind::FLOAT_32_TYPE: r.value<float>(dec<float>(j)); return;
        case TypeKind::FLOAT_64_TYPE: r.value<double>(dec<double>(j)); return;
        case TypeKind::FLOAT_128_TYPE: r.value<f128_t>(dec<f128_t>(j)); return;
        case TypeKind::STRING_TYPE: r.value<std::string>(dec<std::string>(j)); return;
        case TypeKind::WSTRING_TYPE: r.value<std::wstring>(dec<std::wstring>(j)); return;
        case TypeKind::STRING16_TYPE: r.value<std::u16string>(dec<std::u16string>(j)); return;
        case TypeKind::ENUMERATION_TYPE:
            if (std::all_of(j.begin(), j.end(), [](const json& b){ return b == 0; })) { return; } // 0: the fresh value
            switch (t.memory_size())
            {
                case 1: r.value<uint8_t>(dec<uint8_t>(j)); return;
                case 2: r.value<uint16_t>(dec<uint16_t>(j)); return;
                default: r.value<uint32_t>(dec<uint32_t>(j)); return;
            }
        case TypeKind::SEQUENCE_TYPE:
            r.resize(j.size());
            for (size_t i = 0; i < j.size(); i++) { fill(r[i], j[i]); }
            return;
        case TypeKind::PAIR_TYPE:
        case TypeKind::ARRAY_TYPE:
        case TypeKind::STRUCTURE_TYPE:
            for (size_t i = 0; i < j.size(); i++) { fill(r[i], j[i]); }
            return;
        case TypeKind::MAP_TYPE:
        {
            const PairType& p = static_cast<const PairType&>(static_cast<const MapType&>(t).content_type());
            for (auto& e : j)
            {
                DynamicData k(p.first());
                fill(k.ref(), e[0]);
                fill(r[static_cast<const ReadableDynamicDataRef&>(k)], e[1]);
            }
            return;
        }
        case TypeKind::UNION_TYPE:
        {
            const UnionType& u = static_cast<const UnionType&>(t);
            if (j[1].get<int>() == 0) { return; }
            fill(r[u.get_case_members().at(j[1].get<int>() - 1)], j[2]);
            return;
        }
        default: throw DriverError("fill of unknown type");
    }
}

// ---- live heap blocks (ASan hooks) ----
extern long g_live;

struct Log
{
    void line(const json& j) { std::cout << j.dump() << "\n"; std::cout.flush(); }
};
#endif
