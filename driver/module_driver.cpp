// Executes histories of declarations in a tree of modules and records what every query answers.
#include "describe.hpp"
#include <xtypes/idl/Module.hpp>
long g_live = 0;

using eprosima::xtypes::idl::Module;

struct Machine
{
    std::vector<json> descs;
    std::vector<std::string> names;
    std::unique_ptr<Module> root;
    std::vector<Module*> mods;

    explicit Machine(const json& head)
        : descs(head.at("ts").get<std::vector<json>>()), names(head.at("names").get<std::vector<std::string>>())
        , root(new Module())
    {
        mods.push_back(root.get());
    }

    Module& mod(const json& i) { return *mods.at(i.get<size_t>() - 1); }
    TypePtr type(const json& i) { return build_type(descs.at(i.get<size_t>() - 1)); }

    static json constant_of(const DynamicData& d) { return json::array({ describe(d.type()), dump(d) }); }

    template<typename F>
    static json attempt(F&& f)
    {
        try { return f(); }
        catch (const DriverError&) { throw; }
        catch (const json::exception&) { throw; }
        catch (const std::exception&) { return json("refused"); }
    }

    // Everything that can be asked about a name in a module
    static json ask(Module& m, const std::string& n, bool full)
    {
        const Module& k = m;
        json r = json::array({ int(k.has_structure(n)), int(k.has_union(n)), int(k.has_alias(n)), int(k.has_enum_32(n)),
                               int(k.has_constant(n)) });
        if (!full) { return r; }
        r.push_back(int(k.has_symbol(n, false)));
        r.push_back(int(k.has_symbol(n)));
        r.push_back(k.symbol_count(n));
        r.push_back(int(k.has_submodule(n)));
        r.push_back(attempt([&] { return describe(k.structure(n)); }));
        r.push_back(attempt([&] { return describe(m.structure(n)); }));
        r.push_back(attempt([&] { return describe(k.union_switch(n)); }));
        r.push_back(attempt([&] { return describe(m.union_switch(n)); }));
        r.push_back(attempt([&] { return describe(k.alias(n)); }));
        r.push_back(attempt([&] { return describe(m.alias(n)); }));
        r.push_back(attempt([&] { return describe(k.enum_32(n)); }));
        r.push_back(attempt([&] { return describe(m.enum_32(n)); }));
        r.push_back(constant_of(k.constant(n)));
        r.push_back(attempt([&] { DynamicType::Ptr t = m.type(n); return t.get() ? describe(*t) : json("none"); }));
        r.push_back(int(k.is_const_from_enum(n)));
        r.push_back(attempt([&] { DynamicType::Ptr t = m.type(n, true); return t.get() ? describe(*t) : json("none"); }));
        return r;
    }

    json exec(const json& c)
    {
        const std::string op = c.at("op").get<std::string>();
        auto name = [&]() { return c.at("n").get<std::string>(); };
        if (op == "sub")
        {
            Module& s = mod(c.at("m")).create_submodule(name());
            auto it = std::find(mods.begin(), mods.end(), &s);
            if (it == mods.end()) { mods.push_back(&s); it = mods.end() - 1; }
            return json::array({ int(it - mods.begin()) + 1, s.scope(), s.name() });
        }
        if (op == "type")
        {
            Module& m = mod(c.at("m"));
            TypePtr t = type(c.at("t"));
            const bool mv = c.at("mv").get<int>(), rep = c.at("rep").get<int>();
            bool done = false;
            switch (t->kind())
            {
                case TypeKind::STRUCTURE_TYPE:
                {
                    StructType& s = static_cast<StructType&>(*t);
                    s.name(name());
                    if (mv) { return json::array({ int(rep ? m.structure(std::move(s), true) : m.structure(std::move(s))) }); }
                    done = m.structure(s);
                    break;
                }
                case TypeKind::UNION_TYPE:
                {
                    UnionType& u = static_cast<UnionType&>(*t);
                    u.name(name());
                    if (mv) { return json::array({ int(rep ? m.union_switch(std::move(u), true) : m.union_switch(std::move(u))) }); }
                    done = m.union_switch(u);
                    break;
                }
                case TypeKind::ENUMERATION_TYPE:
                {
                    EnumerationType<uint32_t>& e = static_cast<EnumerationType<uint32_t>&>(*t);
                    e.name(name());
                    return json::array({ int(rep ? m.enum_32(std::move(e), true) : m.enum_32(std::move(e))) });
                }
                case TypeKind::ALIAS_TYPE:
                {
                    AliasType& a = static_cast<AliasType&>(*t);
                    a.name(name());
                    if (mv) { return json::array({ int(m.add_alias(std::move(a))) }); }
                    done = m.add_alias(a);
                    break;
                }
                default: throw DriverError("declaration of another type");
            }
            return json::array({ int(done), t->name() });
        }
        if (op == "grow")               // change a declared structure through the module's reference
        {
            StructType& s = mod(c.at("m")).structure(name());
            s.add_member(c.at("mn").get<std::string>(), *type(c.at("t")));
            return json::array();
        }
        if (op == "later")              // the original of a declared structure changes afterwards
        {
            StructType s = static_cast<StructType&>(*type(c.at("t")));
            s.name(name());
            bool done = mod(c.at("m")).structure(s);
            s.add_member("later_one", primitive_type<int>());
            s.name("later_name");
            return json::array({ int(done) });
        }
        if (op == "alias") { return json::array({ int(mod(c.at("m")).create_alias(DynamicType::Ptr(*type(c.at("t"))), name())) }); }
        if (op == "const")
        {
            TypePtr t = type(c.at("t"));
            DynamicData d(*t);
            fill(d.ref(), c.at("v"));
            return json::array({ int(mod(c.at("m")).create_constant(name(), d, c.at("rep").get<int>(), c.at("en").get<int>())) });
        }
        if (op == "ask") { return ask(mod(c.at("m")), name(), true); }
        if (op == "get")
        {
            Module& m = mod(c.at("m"));
            const Module& k = m;
            auto p = m.submodule(name());
            return json::array({ p ? json(p->scope()) : json("none"), attempt([&] { return json(m[name()].scope()); }),
                                 attempt([&] { return json(k[name()].scope()); }), int(m.has_submodule(name())) });
        }
        if (op == "all")
        {
            json r = json::array();
            for (auto& p : mod(c.at("m")).get_all_types(c.at("scoped").get<int>())) { r.push_back(json::array({ p.first, describe(*p.second) })); }
            return r;
        }
        if (op == "each")
        {
            json a = json::array(), b = json::array(), d = json::array(), e = json::array();
            const Module& m = mod(c.at("m"));
            m.for_each([&](const Module& x) { a.push_back(x.scope()); });
            m.for_each_submodule([&](const Module& x) { b.push_back(x.scope()); });
            m.for_each_submodule([&](const Module& x) { d.push_back(x.scope()); }, false);
            root->for_each_submodule([&](const Module& x) { e.push_back(x.name()); }, &m, true);
            return json::array({ a, b, d, e });
        }
        throw DriverError("unknown op " + op);
    }

    json dump_all()
    {
        json r = json::array();
        for (Module* m : mods)
        {
            json q = json::array();
            for (const std::string& n : names) { q.push_back(ask(*root, m == root.get() ? "::" + n : "::" + m->scope() + "::" + n, false)); }
            r.push_back(json::array({ m->name(), m->scope(), m->submodule_size(), q }));
        }
        return r;
    }
};

int main() { return serve<Machine>(); }
