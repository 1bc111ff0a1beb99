// The description of a type as its own interface tells it, as nested arrays.
#ifndef VERIF_DESCRIBE_HPP
#define VERIF_DESCRIBE_HPP
#include "common.hpp"
#include <algorithm>

inline json bytes8(int64_t v) { return enc<int64_t>(v); }

template<typename T>
json describe_enum(const DynamicType& t)
{
    const EnumerationType<T>& e = static_cast<const EnumerationType<T>&>(t);
    std::vector<std::pair<T, std::string>> all;
    for (auto& p : e.enumerators()) { all.emplace_back(p.second, p.first); }
    std::sort(all.begin(), all.end());
    json es = json::array();
    for (auto& p : all) { es.push_back(json::array({ p.second, enc<T>(p.first) })); }
    return json::array({ "enum", t.name(), int(sizeof(T)), es });
}

inline json describe(const DynamicType& t);

inline json describe_member(const Member& m)
{
    return json::array({ m.name(), describe(m.type()), m.has_id() ? json::array({ m.get_id() }) : json::array(),
                         int(m.is_key()), int(m.is_optional()) });
}

inline json describe(const DynamicType& t)
{
    switch (t.kind())
    {
        case TypeKind::STRING_TYPE: return json::array({ "str", static_cast<const StringType&>(t).bounds(), t.name() });
        case TypeKind::WSTRING_TYPE: return json::array({ "wstr", static_cast<const WStringType&>(t).bounds(), t.name() });
        case TypeKind::STRING16_TYPE: return json::array({ "u16str", static_cast<const String16Type&>(t).bounds(), t.name() });
        case TypeKind::ENUMERATION_TYPE:
            switch (t.memory_size())
            {
                case 1: return describe_enum<uint8_t>(t);
                case 2: return describe_enum<uint16_t>(t);
                default: return describe_enum<uint32_t>(t);
            }
        case TypeKind::ALIAS_TYPE:
        {
            const AliasType& a = static_cast<const AliasType&>(t);
            if (&*a != &a.get() || a.operator->() != &a.get()) { throw std::runtime_error("an alias of two types"); }
            return json::array({ "alias", t.name(), describe(a.get()), a.rget().name() });
        }
        case TypeKind::ARRAY_TYPE: return json::array({ "array", static_cast<const ArrayType&>(t).dimension(), t.name(),
                                                        describe(static_cast<const ArrayType&>(t).content_type()) });
        case TypeKind::SEQUENCE_TYPE: return json::array({ "seq", static_cast<const SequenceType&>(t).bounds(), t.name(),
                                                           describe(static_cast<const SequenceType&>(t).content_type()) });
        case TypeKind::MAP_TYPE: return json::array({ "map", static_cast<const MapType&>(t).bounds(), t.name(),
                                                      describe(static_cast<const MapType&>(t).content_type()) });
        case TypeKind::PAIR_TYPE: return json::array({ "pair", t.name(), describe(static_cast<const PairType&>(t).first()),
                                                       describe(static_cast<const PairType&>(t).second()) });
        case TypeKind::STRUCTURE_TYPE:
        {
            const StructType& s = static_cast<const StructType&>(t);
            json ms = json::array();
            for (const Member& m : s.members()) { ms.push_back(describe_member(m)); }
            return json::array({ "struct", t.name(), s.has_parent() ? json::array({ s.parent().name(), s.parent().members().size() })
                                                                     : json::array(), ms });
        }
        case TypeKind::UNION_TYPE:
        {
            const UnionType& u = static_cast<const UnionType&>(t);
            json ms = json::array();
            for (const std::string& n : u.get_case_members())
            {
                json ls = json::array();
                for (int64_t l : u.get_labels(n)) { ls.push_back(bytes8(l)); }
                json m = describe_member(u.member(n));
                m.push_back(ls);
                m.push_back(int(u.is_default(n)));
                ms.push_back(m);
            }
            return json::array({ "union", t.name(), describe(u.discriminator()), u.get_default(), u.members().size(), ms });
        }
        default:
        {
            const char* k = "?";
            switch (t.kind())
            {
                case TypeKind::BOOLEAN_TYPE: k = "bool"; break;
                case TypeKind::CHAR_8_TYPE: k = "char"; break;
                case TypeKind::CHAR_16_TYPE: k = "c16"; break;
                case TypeKind::WIDE_CHAR_TYPE: k = "wc"; break;
                case TypeKind::INT_8_TYPE: k = "i8"; break;
                case TypeKind::UINT_8_TYPE: k = "u8"; break;
                case TypeKind::INT_16_TYPE: k = "i16"; break;
                case TypeKind::UINT_16_TYPE: k = "u16"; break;
                case TypeKind::INT_32_TYPE: k = "i32"; break;
                case TypeKind::UINT_32_TYPE: k = "u32"; break;
                case TypeKind::INT_64_TYPE: k = "i64"; break;
                case TypeKind::UINT_64_TYPE: k = "u64"; break;
                case TypeKind::FLOAT_32_TYPE: k = "f32"; break;
                case TypeKind::FLOAT_64_TYPE: k = "f64"; break;
                case TypeKind::FLOAT_128_TYPE: k = "f128"; break;
                default: break;
            }
            return json::array({ k, t.name() });
        }
    }
}

// Runs a machine over commands from the standard input.
template<typename Machine>
int serve()
{
    std::ios::sync_with_stdio(false);
    std::string l;
    if (!std::getline(std::cin, l)) { return 9; }
    Log log;
    try
    {
        json head = json::parse(l);
        log.line(head);
        std::unique_ptr<Machine> m;
        bool usable = true;
        while (std::getline(std::cin, l))
        {
            if (l.empty()) { continue; }
            json c = json::parse(l);
            if (c.at("op") == "begin")
            {
                m.reset(new Machine(head));
                usable = true;
                log.line(c);
                continue;
            }
            if (c.at("op") == "end")
            {
                m.reset();
                c["live"] = 0;
                log.line(c);
                continue;
            }
            if (!usable) { log.line(json{{"op", "skip"}}); continue; }
            json e = c;
            e["ok"] = true;
            e["bad"] = 0;
            e["r"] = json::array();
            try { e["r"] = m->exec(c); }
            catch (const DriverError&) { throw; }
            catch (const json::exception&) { throw; }
            catch (const std::exception&) { e["ok"] = false; e["r"] = json::array(); }
            try { e["st"] = m->dump_all(); }
            catch (const DriverError&) { throw; }
            catch (const json::exception&) { throw; }
            catch (const std::exception& ex) { e["bad"] = 1; e["why"] = ex.what(); e["st"] = json::array(); usable = false; }
            log.line(e);
        }
    }
    catch (const DriverError& e) { std::cerr << "driver: " << e.what() << "\n"; return 8; }
    catch (const json::exception& e) { std::cerr << "driver: " << e.what() << "\n"; return 8; }
    log.line(json{{"op", "eof"}});
    return 0;
}
#endif
