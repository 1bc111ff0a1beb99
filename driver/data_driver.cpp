// Executes histories of operations over dynamic data and records what is observed after each one.
#include "describe.hpp"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

long g_live = 0;
extern "C" void on_malloc(const volatile void* p, size_t) { if (p) { ++g_live; } }
extern "C" void on_free(const volatile void* p) { if (p) { --g_live; } }

// Memory is limited: what needs more than there is must fail as such, and not be computed as less.
static const size_t MEMORY = size_t(1) << 27;
static const uint64_t HUGE_SIZES[] = { 0x08000001, 0x10000001, 0x20000001, 0x40000001, 0x100000001, 0x100000003 };
void* operator new[](size_t n)
{
    void* p = n < MEMORY ? std::malloc(n) : nullptr;
    if (p == nullptr) { throw std::bad_alloc(); }
    return p;
}
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

using R = ReadableDynamicDataRef;
using W = WritableDynamicDataRef;

static const int NSLOTS = 5;

struct Machine
{
    const std::vector<json>& descs;
    std::vector<TypePtr> types;
    std::vector<std::unique_ptr<DynamicData>> slots;
    std::vector<bool> moved;
    std::vector<json> made;             // the description of the type of each data when it was created
    bool types_kept = true;

    explicit Machine(const std::vector<json>& d) : descs(d), types(d.size()), slots(NSLOTS), moved(NSLOTS, false), made(NSLOTS) {}

    void look(size_t n)
    {
        if (slots[n] && describe(slots[n]->type()) != made[n]) { types_kept = false; }
    }

    // Using data must not have changed any type.
    bool same_types()
    {
        for (size_t i = 0; i < slots.size(); i++) { look(i); }
        for (size_t i = 0; i < types.size(); i++)
        {
            if (types[i] && describe(*types[i]) != describe(*build_type(descs[i]))) { types_kept = false; }
        }
        return types_kept;
    }

    const DynamicType& type(const json& i)
    {
        size_t n = i.get<size_t>() - 1; // 1-based, as in the specification
        if (!types.at(n)) { types[n] = build_type(descs.at(n)); }
        return *types[n];
    }

    DynamicData& slot(const json& i)
    {
        auto& p = slots.at(i.get<size_t>() - 1);
        if (!p) { throw DriverError("dead slot"); }
        return *p;
    }

    void put(const json& i, std::unique_ptr<DynamicData> d)
    {
        size_t n = i.get<size_t>() - 1;
        look(n);
        slots.at(n) = std::move(d);
        made[n] = slots[n] ? describe(slots[n]->type()) : json();
        moved[n] = false;
    }

    json dump_all()
    {
        json st = json::array();
        for (size_t i = 0; i < slots.size(); i++)
        {
            if (!slots[i] || moved[i]) { st.push_back(json::array()); continue; }
            const DynamicData& d = *slots[i];
            st.push_back(json::array({ d.type().name(), dump(d) }));
        }
        return st;
    }

    DynamicData key(const json& s)
    {
        DynamicData k(type(s.at(1)));
        fill(k.ref(), s.at(2));
        return k;
    }

    // The references can't be reseated, so paths are followed recursively.
    W at(W r, const json& p, size_t i = 0)
    {
        if (i == p.size()) { return r; }
        const json& s = p[i];
        const std::string k = s[0].get<std::string>();
        if (k == "i") { return at(r[s[1].get<int>()], p, i + 1); }
        if (k == "n" && s.size() > 2) { const std::string n = s[1].get<std::string>(); return at(r[n.c_str()], p, i + 1); }
        if (k == "n") { return at(r[s[1].get<std::string>()], p, i + 1); }
        if (k == "k") { DynamicData kd = key(s); return at(r[static_cast<const R&>(kd)], p, i + 1); }
        if (k == "a") { DynamicData kd = key(s); return at(r.at(kd), p, i + 1); }
        if (k == "it")
        {
            auto it = r.begin();
            auto e = r.end();
            for (int n = s[1].get<int>(); n > 0 && it != e; n--) { ++it; }
            if (!(it != e)) { throw std::out_of_range("iterator"); }
            return at(*it, p, i + 1);
        }
        if (k == "im")
        {
            auto it = r.items().begin();
            auto e = r.items().end();
            for (int n = s[1].get<int>(); n > 0 && it != e; n--) { it++; }
            if (!(it != e)) { throw std::out_of_range("iterator"); }
            auto m = *it;
            return at(m.data(), p, i + 1);
        }
        throw DriverError("step " + s.dump());
    }

    R cat(R r, const json& p, size_t i = 0)
    {
        if (i == p.size()) { return r; }
        const json& s = p[i];
        const std::string k = s[0].get<std::string>();
        if (k == "i") { return cat(r[s[1].get<int>()], p, i + 1); }
        if (k == "n" && s.size() > 2) { const std::string n = s[1].get<std::string>(); return cat(r[n.c_str()], p, i + 1); }
        if (k == "n") { return cat(r[s[1].get<std::string>()], p, i + 1); }
        if (k == "d") { return cat(r.d(), p, i + 1); }
        if (k == "a") { DynamicData kd = key(s); return cat(r.at(kd), p, i + 1); }
        if (k == "it")
        {
            auto it = r.begin();
            auto e = r.end();
            for (int n = s[1].get<int>(); n > 0 && it != e; n--) { it++; }
            if (!(it != e)) { throw std::out_of_range("iterator"); }
            return cat(*it, p, i + 1);
        }
        if (k == "im")
        {
            auto it = r.items();
            auto e = r.items().end();
            for (int n = s[1].get<int>(); n > 0 && it != e; n--) { ++it; }
            if (!(it != e)) { throw std::out_of_range("iterator"); }
            auto m = *it;
            return cat(m.data(), p, i + 1);
        }
        throw DriverError("step " + s.dump());
    }

    static int small(size_t i) { return i < 1000000 ? int(i) : -1; }

    template<typename Node>
    static json visit(const Node& node)
    {
        json path = json::array(), ptype = json::array();
        path.push_back(small(node.from_index()));
        if (node.has_parent())
        {
            auto par = node.parent();
            ptype.push_back(par.type().name());
            ptype.push_back(int(par.deep()));
            ptype.push_back(small(par.from_index()));
        }
        return json::array({ int(node.deep()), path, ptype,
                             node.from_member() ? node.from_member()->name() : std::string(),
                             node.type().name() });
    }

    // Ends a traversal: with a verdict, or with an error of the visitor
    static void leave(int how)
    {
        if (how == 2) { throw std::runtime_error("enough"); }
        throw bool(how == 1);
    }

    template<typename D>
    json traverse(const D& r, int stop, int how)
    {
        json out = json::array();
        bool verdict = r.for_each([&](const R::ReadableNode& node)
                {
                    out.push_back(json::array({ visit(node), dump(node.data()) }));
                    if (int(out.size()) == stop) { leave(how); }
                });
        return json::array({ out, int(verdict) });
    }

    template<typename D>
    json unary(D& d, const std::string& op)
    {
        if (op == "neg") { return res(-d); }
        if (op == "com") { return res(~d); }
        if (op == "not") { return json::array({ "bool", enc(bool(!d)) }); }
        if (op == "preinc") { return res(++d); }
        if (op == "postinc") { return res(d++); }
        if (op == "predec") { return res(--d); }
        if (op == "postdec") { return res(d--); }
        throw DriverError("unary " + op);
    }

    static json res(const DynamicData& d) { return json::array({ d.type().name(), dump(d) }); }
    static json res(bool b) { return json::array({ "bool", enc(b) }); }

    json binary(const DynamicData& a, const R& b, const std::string& op)
    {
        if (op == "+") { return res(a + b); }
        if (op == "-") { return res(a - b); }
        if (op == "*") { return res(a * b); }
        if (op == "/") { return res(a / b); }
        if (op == "%") { return res(a % b); }
        if (op == "<<") { return res(a << b); }
        if (op == ">>") { return res(a >> b); }
        if (op == "&") { return res(a & b); }
        if (op == "|") { return res(a | b); }
        if (op == "^") { return res(a ^ b); }
        if (op == "&&") { return res(a && b); }
        if (op == "||") { return res(a || b); }
        if (op == "<") { return res(a < b); }
        if (op == ">") { return res(a > b); }
        if (op == "<=") { return res(a <= b); }
        if (op == ">=") { return res(a >= b); }
        if (op == "==") { return res(a == b); }
        if (op == "!=") { return res(a != b); }
        throw DriverError("binary " + op);
    }

    template<typename B>
    json compound(DynamicData& a, const B& b, const std::string& op)
    {
        if (op == "+=") { return res(a += b); }
        if (op == "-=") { return res(a -= b); }
        if (op == "*=") { return res(a *= b); }
        if (op == "/=") { return res(a /= b); }
        if constexpr (!std::is_floating_point<B>::value)
        {
            if (op == "%=") { return res(a %= b); }
            if (op == "<<=") { return res(a <<= b); }
            if (op == ">>=") { return res(a >>= b); }
            if (op == "&=") { return res(a &= b); }
            if (op == "|=") { return res(a |= b); }
            if (op == "^=") { return res(a ^= b); }
        }
        throw DriverError("compound " + op);
    }

    json exec(const json& c)
    {
        const std::string op = c.at("op").get<std::string>();
        const json none = json::array();
        auto P = [&](const char* s = "s", const char* p = "p") { return at(slot(c.at(s)).ref(), c.at(p)); };
        auto C = [&](const char* s = "s", const char* p = "p")
                { return cat(static_cast<const R&>(slot(c.at(s))), c.at(p)); };
        const bool ro = c.value("ro", 0) != 0;
        auto X = [&](const char* s = "s", const char* p = "p") -> R { return ro ? C(s, p) : R(P(s, p)); };

        if (op == "new") { put(c.at("s"), std::make_unique<DynamicData>(type(c.at("t")))); return none; }
        if (op == "build")
        {
            auto d = std::make_unique<DynamicData>(type(c.at("t")));
            fill(d->ref(), c.at("v"));
            put(c.at("s"), std::move(d));
            return none;
        }
        if (op == "del") { slot(c.at("s")); put(c.at("s"), nullptr); return none; }
        if (op == "copy")
        {
            const DynamicData& src = slot(c.at("f"));
            put(c.at("s"), std::make_unique<DynamicData>(src));
            return none;
        }
        if (op == "move")
        {
            size_t f = c.at("f").get<size_t>() - 1;
            auto d = std::make_unique<DynamicData>(std::move(slot(c.at("f"))));
            moved[f] = true;
            put(c.at("s"), std::move(d));
            return none;
        }
        if (op == "copyref")
        {
            if (ro) { put(c.at("s"), std::make_unique<DynamicData>(C("f", "q"))); }
            else if (c.value("via", 0) == 1) { put(c.at("s"), std::make_unique<DynamicData>(P("f", "q").cref())); }
            else { put(c.at("s"), std::make_unique<DynamicData>(P("f", "q"))); }
            return none;
        }
        if (op == "conv")
        {
            put(c.at("s"), std::make_unique<DynamicData>(X("f", "q"), type(c.at("t"))));
            return none;
        }
        if (op == "assign")
        {
            size_t n = c.at("s").get<size_t>() - 1;
            DynamicData& d = slot(c.at("s"));
            const DynamicData& src = slot(c.at("f"));
            d = src;
            moved[n] = false;
            return none;
        }
        if (op == "assignref")
        {
            size_t n = c.at("s").get<size_t>() - 1;
            DynamicData& d = slot(c.at("s"));
            R src = C("f", "q");
            d = src;
            moved[n] = false;
            return none;
        }
        if (op == "setref") { W t = P(); W src = P("f", "q"); t = src; return none; }
        if (op == "set")
        {
            const std::string k = c.at("k").get<std::string>();
            const int via = c.value("via", 0);
            if (via == 2)
            {
                DynamicData& d = slot(c.at("s"));
                with_value_type(k, [&](auto t) { using T = typename decltype(t)::type; d = dec<T>(c.at("v")); });
                return none;
            }
            W w = P();
            with_value_type(k, [&](auto t)
                    {
                        using T = typename decltype(t)::type;
                        if (via == 1) { w = dec<T>(c.at("v")); }
                        else { w.template value<T>(dec<T>(c.at("v"))); }
                    });
            return none;
        }
        if (op == "setself") // the value is set from the storage of the data itself
        {
            W w = P();
            const std::string k = c.at("k").get<std::string>();
            with_value_type(k, [&](auto t)
                    {
                        using T = typename decltype(t)::type;
                        w.template value<T>(static_cast<const R&>(w).template value<T>());
                    });
            return none;
        }
        if (op == "get")
        {
            json r;
            const std::string k = c.at("k").get<std::string>();
            R ref = X();
            with_value_type(k, [&](auto t) { using T = typename decltype(t)::type; r = enc(ref.template value<T>()); });
            return r;
        }
        if (op == "cast")
        {
            json r;
            R ref = X();
            with_prim(c.at("k").get<std::string>(), [&](auto t)
                    { using T = typename decltype(t)::type; r = enc(ref.template cast<T>()); });
            return r;
        }
        if (op == "caststr") { return enc(X().cast<std::string>()); }
        if (op == "push")
        {
            W w = P();
            with_value_type(c.at("k").get<std::string>(), [&](auto t)
                    { using T = typename decltype(t)::type; w.push(dec<T>(c.at("v"))); });
            return none;
        }
        if (op == "pushref") { W w = P(); W src = P("f", "q"); w.push(static_cast<const R&>(src)); return none; }
        if (op == "hugesize") { P().resize(HUGE_SIZES[c.at("how").get<size_t>() % 6]); return none; }
        if (op == "newhuge")            // its elements do not fit in any memory
        {
            const uint32_t b = uint32_t(HUGE_SIZES[c.at("how").get<size_t>() % 4]);
            const DynamicType& content = type(c.at("t"));
            if (c.at("u") == 0) { SequenceType t(content, b); DynamicData d(t); return none; }
            MapType t(type(c.at("u")), content, b);
            DynamicData d(t);
            return none;
        }
        if (op == "resize") { P().resize(c.at("n").get<size_t>()); return none; }
        if (op == "insert") { W w = P(); R src = C("f", "q"); return json::array({ int(w.insert(src)) }); }
        if (op == "insertpair")
        {
            W w = P();
            DynamicData pair(type(c.at("t")));
            fill(pair.ref(), c.at("v"));
            return json::array({ int(w.insert(pair)) });
        }
        if (op == "haskey")
        {
            W w = P();
            DynamicData k(type(c.at("t")));
            fill(k.ref(), c.at("v"));
            return json::array({ int(w.has_key(k)) });
        }
        if (op == "size") { return json::array({ small(X().size()) }); }
        if (op == "bounds") { return json::array({ small(X().bounds()) }); }
        if (op == "dset") { P().d(dec_label(c.at("v"))); return none; }
        if (op == "dsetref") { W w = P(); R src = C("f", "q"); w.d(src); return none; }
        if (op == "cur") { return json::array({ X().current_case().name() }); }
        if (op == "touch") { X(); return none; } // only follow the path
        if (op == "getmember") { return dump(P().get_member(c.at("n").get<std::string>())); }
        if (op == "eq")
        {
            R a = C(), b = C("f", "q");
            return json::array({ int(a == b), int(a != b), int(b == a), int(a.hash() == b.hash()) });
        }
        if (op == "selfeq") { R a = C(); return json::array({ int(a == a), int(a != a) }); }
        if (op == "rehash") // hash of a data and of an independent copy
        {
            R a = C();
            DynamicData b(a);
            return json::array({ int(a.hash() == b.hash()), int(a == b) });
        }
        if (op == "iter")
        {
            json out = json::array();
            const int via = c.value("via", 0);
            auto walk = [&](auto& from)
                    {
                        DynamicData other(ArrayType(primitive_type<uint16_t>(), 3));
                        auto it = static_cast<decltype(from)>(other).begin();
                        it = from.begin();
                        if (via == 3) { while (!(it == from.end())) { auto before = it++; out.push_back(dump(*before)); } }
                        else { for (; it != from.end(); ++it) { out.push_back(dump(*it)); } }
                    };
            if (ro)
            {
                R r = C();
                if (via == 0) { for (auto it = r.begin(); it != r.end(); it++) { out.push_back(dump(*it)); } }
                else if (via == 1) { for (auto&& e : r) { out.push_back(dump(e)); } }
                else { walk(r); }
            }
            else
            {
                W w = P();
                if (via == 0) { for (auto it = w.begin(); it != w.end(); it++) { out.push_back(dump(*it)); } }
                else if (via == 1) { for (auto&& e : w) { out.push_back(dump(e)); } }
                else { walk(w); }
            }
            return out;
        }
        if (op == "items")
        {
            json out = json::array();
            const int via = c.value("via", 0);
            auto told = [&](const auto& it)
                    {
                        if (it.kind() != it.member().type().kind()) { throw DriverError("another kind of member"); }
                        out.push_back(json::array({ it.member().name(), dump(it.data()), it.member().type().name() }));
                    };
            auto walk = [&](auto&& all)
                    {
                        if (via == 0) { for (auto&& it : all) { told(it); } return; }
                        auto it = all.begin();
                        const auto end = all.end();
                        if (via == 1) { while (it != end) { auto before = it++; told(*before); } return; }
                        auto other = it;
                        for (; !(other == end); ++other) { auto m = *other; told(m); }
                    };
            if (ro)
            {
                R r = C();
                walk(r.items());
            }
            else
            {
                W w = P();
                if (via == 3) { walk(w.citems()); }
                else { walk(w.items()); }
            }
            return out;
        }
        if (op == "vec")
        {
            json out = json::array();
            R r = X();
            with_value_type(c.at("k").get<std::string>(), [&](auto t)
                    {
                        using T = typename decltype(t)::type;
                        for (auto&& x : r.template as_vector<T>()) { T y = x; out.push_back(enc(y)); }
                    });
            return out;
        }
        if (op == "foreach")
        {
            const int stop = c.at("stop").get<int>(), how = c.at("how").get<int>();
            if (c.value("ro", 0)) { return traverse(X(), stop, how); }
            return traverse(P(), stop, how);
        }
        if (op == "foreachset")
        {
            W w = P();
            int n = 0;
            const int stop = c.at("stop").get<int>();
            json out = json::array();
            bool verdict = false;
            with_value_type(c.at("k").get<std::string>(), [&](auto t)
                    {
                        using T = typename decltype(t)::type;
                        const T v = dec<T>(c.at("v"));
                        verdict = w.for_each([&](W::WritableNode& node)
                                {
                                    out.push_back(visit(node));
                                    const TypeKind k = node.data().type().kind();
                                    const bool is_str = (k == TypeKind::STRING_TYPE && std::is_same<T, std::string>::value)
                                            || (k == TypeKind::WSTRING_TYPE && std::is_same<T, std::wstring>::value)
                                            || (k == TypeKind::STRING16_TYPE && std::is_same<T, std::u16string>::value);
                                    if (is_str || k == PrimitiveTypeKindTrait<T>::kind) { node.data().template value<T>(v); n++; }
                                    if (int(out.size()) == stop) { leave(c.at("how").get<int>()); }
                                });
                    });
            return json::array({ out, int(verdict), n });
        }
        if (op == "print")
        {
            std::string s = X().to_string();
            if (c.value("os", 0)) { std::stringstream ss; ss << slot(c.at("s")); s = ss.str(); }
            json out = json::array();
            size_t b = 0;
            while (b < s.size())
            {
                size_t e = s.find('\n', b);
                if (e == std::string::npos) { e = s.size(); }
                std::string shown;
                for (unsigned char ch : s.substr(b, e - b))
                {
                    if (ch >= 32 && ch <= 126) { shown.push_back(char(ch)); }
                    else { shown += "{" + std::to_string(int(ch)) + "}"; }
                }
                out.push_back(shown);
                b = e + 1;
            }
            return out;
        }
        if (op == "unop") { return unary(slot(c.at("s")), c.at("o").get<std::string>()); }
        if (op == "binop") { R b = C("f", "q"); return binary(slot(c.at("s")), b, c.at("o").get<std::string>()); }
        if (op == "opas") { R b = C("f", "q"); return compound(slot(c.at("s")), b, c.at("o").get<std::string>()); }
        if (op == "opasT")
        {
            json r;
            with_prim(c.at("k").get<std::string>(), [&](auto t)
                    {
                        using T = typename decltype(t)::type;
                        r = compound(slot(c.at("s")), dec<T>(c.at("v")), c.at("o").get<std::string>());
                    });
            return r;
        }
        if (op == "compat")
        {
            const TypeConsistency tc = type(c.at("t")).is_compatible(type(c.at("u")));
            json out = json::array();
            if (tc == TypeConsistency::NONE) { out.push_back("NONE"); return out; }
            static const std::pair<TypeConsistency, const char*> flags[] = {
                { TypeConsistency::IGNORE_TYPE_SIGN, "SIGN" }, { TypeConsistency::IGNORE_TYPE_WIDTH, "WIDTH" },
                { TypeConsistency::IGNORE_SEQUENCE_BOUNDS, "SEQ" }, { TypeConsistency::IGNORE_ARRAY_BOUNDS, "ARRAY" },
                { TypeConsistency::IGNORE_STRING_BOUNDS, "STRING" }, { TypeConsistency::IGNORE_MEMBER_NAMES, "NAMES" },
                { TypeConsistency::IGNORE_MEMBERS, "MEMBERS" }, { TypeConsistency::IGNORE_MAP_BOUNDS, "MAP" } };
            for (auto& f : flags) { if ((tc & f.first) != TypeConsistency::EQUALS) { out.push_back(f.second); } }
            return out;
        }
        if (op == "tvisit")
        {
            json out = json::array();
            const int stop = c.at("stop").get<int>();
            bool v = type(c.at("t")).for_each([&](const DynamicType::TypeNode& node)
                    {
                        out.push_back(visit(node));
                        if (int(out.size()) == stop) { leave(c.at("how").get<int>()); }
                    });
            return json::array({ out, int(v) });
        }
        if (op == "tname") { return json::array({ type(c.at("t")).name() }); }
        throw DriverError("unknown op " + op);
    }
};

// Carries out a command and records it; false if the data can't be read afterwards.
static bool run(Machine& m, const json& c, Log* log)
{
    bool ok = true;
    json r = json::array();
    try { r = m.exec(c); }
    catch (const DriverError&) { throw; }
    catch (const json::exception&) { throw; }
    catch (const std::exception&) { ok = false; r = json::array(); }
    if (!log) { return true; }
    json e = c;
    e["ok"] = ok;
    e["r"] = r;
    e["bad"] = 0;
    try { e["st"] = m.dump_all(); }
    catch (const DriverError&) { throw; }
    catch (const json::exception&) { throw; }
    catch (const std::exception& ex) { e["bad"] = 1; e["why"] = ex.what(); }
    log->line(e);
    return e["bad"] == 0;
}

static long run_again(const std::vector<json>& descs, const std::vector<json>& cmds)
{
    const long before = g_live;
    {
        Machine m(descs);
        for (const json& c : cmds) { run(m, c, nullptr); }
    }
    return g_live - before;
}

// Commands come from the standard input, one line each, and are answered one by one: the generator may look at an
// answer before it writes the next command.
int main()
{
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    std::ios::sync_with_stdio(false);
    std::string l;
    if (!std::getline(std::cin, l)) { return 9; }
    Log log;
    try
    {
        json head = json::parse(l);
        log.line(head);
        std::vector<json> descs = head.at("ts").get<std::vector<json>>();
        two_zeros = head.value("zeros", 0) == 1;
        for (auto&& t : descs) { build_type(t); }
        std::vector<json> cmds;
        std::unique_ptr<Machine> m;
        int episode = 0;
        long before = 0;
        bool usable = true;
        while (std::getline(std::cin, l))
        {
            if (l.empty()) { continue; }
            json c = json::parse(l);
            if (c.at("op") == "begin")
            {
                cmds.clear();
                cmds.reserve(1000);
                episode++;
                usable = true;
                log.line(json{{"op", "begin"}, {"ep", episode}});
                before = 0;
                continue;
            }
            if (c.at("op") != "end")
            {
                if (!usable) { log.line(json{{"op", "skip"}}); continue; }
                cmds.push_back(c);
                const long b = g_live;
                {
                    if (!m) { m.reset(new Machine(descs)); }
                    usable = run(*m, c, &log);
                }
                before += g_live - b;
                continue;
            }
            // Everything acquired by the data and types of the episode must have been released with them.
            const bool kept = !usable || !m || m->same_types();
            const long b = g_live;
            m.reset();
            long leak = before + (g_live - b);
            if (usable && leak != 0)
            {
                // Lazily built statics are not leaks: only what grows again and again is.
                leak = run_again(descs, cmds);
                if (leak != 0) { leak = run_again(descs, cmds); }
            }
            log.line(json{{"op", "end"}, {"live", usable ? int(leak) : 0}, {"types", int(kept)}});
        }
    }
    catch (const DriverError& e) { std::cerr << "driver: " << e.what() << "\n"; return 8; }
    catch (const json::exception& e) { std::cerr << "driver: " << e.what() << "\n"; return 8; }
    log.line(json{{"op", "eof"}});
    return 0;
}
