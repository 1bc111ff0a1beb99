// Executes histories of type declarations and records the description of every type after each one.
#include "describe.hpp"
long g_live = 0;

static const int NTYPES = 5;
static const int NDATA = 2;
static const int NHELD = 3;

using OwnPtr = std::unique_ptr<DynamicType>;

struct Machine
{
    std::vector<json> descs;
    std::vector<TypePtr> table;
    std::vector<OwnPtr> slots;                  // held by value: a type managed by a shared pointer is shared with its data
    std::vector<std::unique_ptr<DynamicData>> data;
    std::vector<DynamicType::Ptr> held;

    explicit Machine(const json& head)
        : descs(head.at("ts").get<std::vector<json>>()), table(descs.size()), slots(NTYPES), data(NDATA), held(NHELD) {}

    DynamicType& slot(const json& i)
    {
        auto& p = slots.at(i.get<size_t>() - 1);
        if (!p) { throw DriverError("empty slot"); }
        return *p;
    }

    const DynamicType& source(const json& src)
    {
        if (src.at(0) == "s") { return slot(src.at(1)); }
        size_t n = src.at(1).get<size_t>() - 1;
        if (!table.at(n)) { table[n] = build_type(descs.at(n)); }
        return *table[n];
    }

    template<typename T>
    T& as(const json& i, TypeKind k)
    {
        DynamicType& t = slot(i);
        if (t.kind() != k) { throw DriverError("another kind of type"); }
        return static_cast<T&>(t);
    }

    DynamicType::Ptr& holder(const json& i) { return held.at(i.get<size_t>() - 1); }

    void put(const json& i, OwnPtr t) { slots.at(i.get<size_t>() - 1) = std::move(t); }

    Member member(const json& c, const DynamicType& t)
    {
        Member m(c.at("n").get<std::string>(), t);
        if (!c.at("id").empty()) { m.id(c.at("id").at(0).get<int>()); }
        if (c.at("key").get<int>()) { m.key(); }
        if (c.at("opt").get<int>()) { m.optional(); }
        return m;
    }

    template<typename T>
    json enumerator(DynamicType& t, const json& c)
    {
        auto& e = static_cast<EnumerationType<T>&>(t);
        const std::string n = c.at("n").get<std::string>();
        auto& back = c.at("v").empty() ? e.add_enumerator(n) : e.add_enumerator(n, dec<T>(c.at("v")));
        return json::array({ int(&back == &e) });
    }

    template<typename T>
    json enum_find(const DynamicType& t, const std::string& n)
    {
        auto& e = static_cast<const EnumerationType<T>&>(t);
        json r = json::array({ int(e.has_enumerator(n)) });
        try { r.push_back(enc<T>(e.value(n))); }
        catch (const std::exception&) { r.push_back("refused"); }
        return r;
    }

    template<typename T>
    json enum_at(const DynamicType& t, const json& v)
    {
        auto& e = static_cast<const EnumerationType<T>&>(t);
        T x = dec<T>(v);
        return json::array({ int(e.is_allowed_value(x)), e.enumerator(x) });
    }

    template<typename T>
    static OwnPtr copy_as(const DynamicType& t, bool move, DynamicType* from)
    {
        if (move) { return std::make_unique<T>(std::move(static_cast<T&>(*from))); }
        return std::make_unique<T>(static_cast<const T&>(t));
    }

    OwnPtr copied(DynamicType& t, bool mv)
    {
        switch (t.kind())
        {
            case TypeKind::STRUCTURE_TYPE: return copy_as<StructType>(t, mv, &t);
            case TypeKind::UNION_TYPE: return copy_as<UnionType>(t, mv, &t);
            case TypeKind::ALIAS_TYPE: return copy_as<AliasType>(t, mv, &t);
            case TypeKind::ARRAY_TYPE: return copy_as<ArrayType>(t, mv, &t);
            case TypeKind::SEQUENCE_TYPE: return copy_as<SequenceType>(t, mv, &t);
            case TypeKind::MAP_TYPE: return copy_as<MapType>(t, mv, &t);
            case TypeKind::PAIR_TYPE: return copy_as<PairType>(t, mv, &t);
            default: throw DriverError("copy of another type");
        }
    }

    template<typename T>
    json add_case(UnionType& u, const json& c, const Member& m)
    {
        std::vector<T> ls;
        for (auto& l : c.at("ls")) { ls.push_back(dec<T>(l)); }
        const bool df = c.at("df").get<bool>();
        UnionType& back = c.at("how").get<int>() == 0 ? u.add_case_member(ls, m, df)
                                                     : u.add_case_member(ls, m.name(), m.type(), df);
        return json::array({ int(&back == &u) });
    }

    json exec(const json& c)
    {
        const std::string op = c.at("op").get<std::string>();
        const json none = json::array();
        auto name = [&]() { return c.at("n").get<std::string>(); };
        if (op == "struct")
        {
            if (c.at("f").get<int>() == 0) { put(c.at("s"), std::make_unique<StructType>(name())); return none; }
            const StructType& p = as<StructType>(c.at("f"), TypeKind::STRUCTURE_TYPE);
            put(c.at("s"), std::make_unique<StructType>(name(), &p));
            return none;
        }
        if (op == "member")
        {
            StructType& s = as<StructType>(c.at("s"), TypeKind::STRUCTURE_TYPE);
            const DynamicType& t = source(c.at("src"));
            StructType* back = &s;
            switch (c.at("how").get<int>())
            {
                case 0: back = &s.add_member(member(c, t)); break;
                case 1: back = &s.add_member(name(), t); break;
                default:                                            // a temporary of its own class
                    if (t.kind() == TypeKind::STRUCTURE_TYPE) { back = &s.add_member(name(), StructType(static_cast<const StructType&>(t))); }
                    else if (t.kind() == TypeKind::SEQUENCE_TYPE) { back = &s.add_member(name(), SequenceType(static_cast<const SequenceType&>(t))); }
                    else if (t.kind() == TypeKind::UNION_TYPE) { back = &s.add_member(name(), UnionType(static_cast<const UnionType&>(t))); }
                    else { back = &s.add_member(name(), t); }
            }
            return json::array({ int(back == &s) });
        }
        if (op == "union") { put(c.at("s"), std::make_unique<UnionType>(name(), source(c.at("src")))); return none; }
        if (op == "case")
        {
            UnionType& u = as<UnionType>(c.at("s"), TypeKind::UNION_TYPE);
            Member m = member(c, source(c.at("src")));
            const std::string k = c.at("lk").get<std::string>();
            if (k == "text")
            {
                UnionType& back = u.add_case_member(c.at("ls").get<std::vector<std::string>>(), m);
                return json::array({ int(&back == &u) });
            }
            if (k == "i64") { return add_case<int64_t>(u, c, m); }
            if (k == "i32") { return add_case<int32_t>(u, c, m); }
            if (k == "u32") { return add_case<uint32_t>(u, c, m); }
            if (k == "u8") { return add_case<uint8_t>(u, c, m); }
            if (k == "i8") { return add_case<int8_t>(u, c, m); }
            if (k == "char") { return add_case<char>(u, c, m); }
            throw DriverError("label kind");
        }
        if (op == "enum")
        {
            switch (c.at("w").get<int>())
            {
                case 1: put(c.at("s"), std::make_unique<EnumerationType<uint8_t>>(name())); break;
                case 2: put(c.at("s"), std::make_unique<EnumerationType<uint16_t>>(name())); break;
                default: put(c.at("s"), std::make_unique<EnumerationType<uint32_t>>(name()));
            }
            return none;
        }
        if (op == "enumerator")
        {
            DynamicType& t = as<DynamicType>(c.at("s"), TypeKind::ENUMERATION_TYPE);
            switch (t.memory_size())
            {
                case 1: return enumerator<uint8_t>(t, c);
                case 2: return enumerator<uint16_t>(t, c);
                default: return enumerator<uint32_t>(t, c);
            }
        }
        if (op == "alias")
        {
            const DynamicType& t = source(c.at("src"));
            if (t.kind() == TypeKind::ALIAS_TYPE && c.value("how", 0) == 1)
            {
                put(c.at("s"), std::make_unique<AliasType>(static_cast<const AliasType&>(t), name()));
            }
            else { put(c.at("s"), std::make_unique<AliasType>(t, name())); }
            return none;
        }
        if (op == "array") { put(c.at("s"), std::make_unique<ArrayType>(source(c.at("src")), c.at("b").get<uint32_t>())); return none; }
        if (op == "arrays")
        {
            put(c.at("s"), std::make_unique<ArrayType>(source(c.at("src")), c.at("bs").get<std::vector<uint32_t>>()));
            return none;
        }
        if (op == "setpair")
        {
            PairType& p = as<PairType>(c.at("s"), TypeKind::PAIR_TYPE);
            const DynamicType& t = source(c.at("src"));
            if (c.at("i").get<int>() == 0) { p.first(t); }
            else { p.second(t); }
            return none;
        }
        if (op == "hold")
        {
            const DynamicType& t = source(c.at("src"));
            DynamicType::Ptr& h = holder(c.at("h"));
            if (c.at("how").get<int>() == 0) { h = DynamicType::Ptr(t); }
            else { DynamicType::Ptr p(t); h = p; }
            return none;
        }
        if (op == "hcopy")
        {
            DynamicType::Ptr p(holder(c.at("g")));
            holder(c.at("h")) = std::move(p);
            return none;
        }
        if (op == "hassign") { const DynamicType::Ptr& g = holder(c.at("g")); holder(c.at("h")) = g; return none; }
        if (op == "hmove")
        {
            if (c.at("h") != c.at("g")) { holder(c.at("h")) = std::move(holder(c.at("g"))); }
            return none;
        }
        if (op == "hfree")
        {
            std::shared_ptr<const DynamicType> t = holder(c.at("h")).free();
            return t ? describe(*t) : json::array();
        }
        if (op == "hname")
        {
            DynamicType::Ptr& h = holder(c.at("h"));
            if (!h.get()) { throw std::runtime_error("no type"); }
            h->name(name());
            return none;
        }
        if (op == "huse") // a type made from what is held
        {
            const DynamicType::Ptr& h = holder(c.at("h"));
            if (!h.get()) { throw std::runtime_error("no type"); }
            if (c.at("how").get<int>() == 0) { put(c.at("s"), std::make_unique<AliasType>(h, name())); }
            else { put(c.at("s"), std::make_unique<AliasType>(*h, name())); }
            return none;
        }
        if (op == "seq") { put(c.at("s"), std::make_unique<SequenceType>(source(c.at("src")), c.at("b").get<uint32_t>())); return none; }
        if (op == "map")
        {
            put(c.at("s"), std::make_unique<MapType>(source(c.at("src")), source(c.at("to")), c.at("b").get<uint32_t>()));
            return none;
        }
        if (op == "pair") { put(c.at("s"), std::make_unique<PairType>(source(c.at("src")), source(c.at("to")))); return none; }
        if (op == "rename") { slot(c.at("s")).name(name()); return none; }
        if (op == "copy") { put(c.at("s"), copied(slot(c.at("f")), false)); return none; }
        if (op == "move")
        {
            OwnPtr t = copied(slot(c.at("f")), true);
            slots.at(c.at("f").get<size_t>() - 1).reset();
            put(c.at("s"), std::move(t));
            return none;
        }
        if (op == "del") { slots.at(c.at("s").get<size_t>() - 1).reset(); return none; }
        if (op == "data")
        {
            data.at(c.at("d").get<size_t>() - 1).reset(new DynamicData(source(c.at("src"))));
            return none;
        }
        if (op == "ddel") { data.at(c.at("d").get<size_t>() - 1).reset(); return none; }
        if (op == "find")
        {
            const DynamicType& t = slot(c.at("s"));
            if (t.kind() == TypeKind::ENUMERATION_TYPE)
            {
                switch (t.memory_size())
                {
                    case 1: return enum_find<uint8_t>(t, name());
                    case 2: return enum_find<uint16_t>(t, name());
                    default: return enum_find<uint32_t>(t, name());
                }
            }
            if (!t.is_aggregation_type()) { throw DriverError("find in another type"); }
            const AggregationType& a = static_cast<const AggregationType&>(t);
            json r = json::array({ int(a.has_member(name())) });
            try { r.push_back(describe_member(a.member(name()))); }
            catch (const std::exception&) { r.push_back("refused"); }
            return r;
        }
        if (op == "at")
        {
            const DynamicType& t = slot(c.at("s"));
            if (!t.is_aggregation_type()) { throw DriverError("member of another type"); }
            return describe_member(static_cast<const AggregationType&>(t).member(c.at("i").get<size_t>()));
        }
        if (op == "enumat")
        {
            DynamicType& t = as<DynamicType>(c.at("s"), TypeKind::ENUMERATION_TYPE);
            switch (t.memory_size())
            {
                case 1: return enum_at<uint8_t>(t, c.at("v"));
                case 2: return enum_at<uint16_t>(t, c.at("v"));
                default: return enum_at<uint32_t>(t, c.at("v"));
            }
        }
        if (op == "labels")
        {
            UnionType& u = as<UnionType>(c.at("s"), TypeKind::UNION_TYPE);
            json ls = json::array();
            for (int64_t l : u.get_labels(name())) { ls.push_back(bytes8(l)); }
            return json::array({ ls, int(u.is_default(name())), u.get_default(), u.get_case_members() });
        }
        if (op == "parent")
        {
            const StructType& s = as<StructType>(c.at("s"), TypeKind::STRUCTURE_TYPE);
            return json::array({ int(s.has_parent()), describe(s.parent()) });
        }
        if (op == "same")
        {
            const DynamicType& a = slot(c.at("s"));
            return json::array({ int(a.is_compatible(source(c.at("src"))) == TypeConsistency::EQUALS) });
        }
        throw DriverError("unknown op " + op);
    }

    json dump_all()
    {
        json ts = json::array(), ds = json::array();
        for (auto& t : slots) { ts.push_back(t ? describe(*t) : json::array()); }
        for (auto& d : data) { ds.push_back(d ? json::array({ describe(d->type()), dump(*d) }) : json::array()); }
        json hs = json::array();
        for (auto& h : held) { hs.push_back(h.get() ? describe(*h) : json::array()); }
        return json::array({ ts, ds, hs });
    }
};

int main() { return serve<Machine>(); }
