// Declares trees of modules and records the words of the IDL text that is generated for them.
#include "common.hpp"
#include <xtypes/idl/Module.hpp>
#include <xtypes/idl/generator.hpp>
#include <cctype>
long g_live = 0;

using eprosima::xtypes::idl::Module;
namespace generator = eprosima::xtypes::idl::generator;

static json word(const char* k, const std::string& s, const json& v = json::array(), int w = 0)
{
    return json{{"k", k}, {"s", s}, {"v", v}, {"w", w}};
}

static json points(const std::string& s) // UTF-8 (a broken one gives itself) to code points
{
    json r = json::array();
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i];
        size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        uint32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
        for (size_t k = 1; k < n && i + k < s.size(); k++) { v = (v << 6) | (uint8_t(s[i + k]) & 0x3F); }
        r.push_back(v);
        i += n;
    }
    return r;
}

// Words (w), punctuation (p), numbers (n integer, f floating), characters (c) and texts (s); "?" is what isn't any of them.
static json words(const std::string& t)
{
    json r = json::array();
    size_t i = 0;
    while (i < t.size())
    {
        char c = t[i];
        if (std::isspace((unsigned char)c)) { i++; continue; }
        bool wide = c == 'L' && i + 1 < t.size() && (t[i + 1] == '\'' || t[i + 1] == '"');
        if (wide) { c = t[++i]; }
        if (c == '\'' || c == '"')
        {
            size_t e = t.find(c, i + 1);
            if (e == std::string::npos) { r.push_back(word("?", t.substr(i, 20))); break; }
            std::string in = t.substr(i + 1, e - i - 1);
            r.push_back(word(c == '"' ? "s" : "c", "", wide ? points(in) : enc(in), wide));
            i = e + 1;
        }
        else if (std::isalpha((unsigned char)c) || c == '_')
        {
            size_t e = i;
            while (e < t.size() && (std::isalnum((unsigned char)t[e]) || t[e] == '_')) { e++; }
            r.push_back(word("w", t.substr(i, e - i)));
            i = e;
        }
        else if (std::isdigit((unsigned char)c) || (c == '-' && i + 1 < t.size() && std::isdigit((unsigned char)t[i + 1])))
        {
            size_t e = i + 1;
            while (e < t.size() && (std::isalnum((unsigned char)t[e]) || t[e] == '.' || ((t[e] == '-' || t[e] == '+') && (t[e - 1] == 'e' || t[e - 1] == 'E')))) { e++; }
            std::string n = t.substr(i, e - i);
            if (n.find_first_not_of("-0123456789") == std::string::npos && n.size() < 30)
            {
                __int128 v = 0;
                for (char d : n) { if (d != '-') { v = v * 10 + (d - '0'); } }
                if (n[0] == '-') { v = -v; }
                json b = json::array();
                for (int k = 0; k < 16; k++) { b.push_back(int((unsigned __int128)v >> (8 * k) & 0xFF)); }
                r.push_back(word("n", "", b));
            }
            else
            {
                char* end;
                f128_t v = std::strtold(n.c_str(), &end);
                r.push_back(*end ? word("?", n) : word("f", "", enc(v)));
            }
            i = e;
        }
        else if (c == ':' && i + 1 < t.size() && t[i + 1] == ':') { r.push_back(word("p", "::")); i += 2; }
        else if (std::strchr("{}[]()<>,;:=", c)) { r.push_back(word("p", std::string(1, c))); i++; }
        else { r.push_back(word("?", t.substr(i, 20))); break; }
    }
    return r;
}

struct Tree
{
    std::unique_ptr<Module> root;
    std::vector<Module*> mods;

    Module& mod(const json& i) { return *mods.at(i.get<size_t>() - 1); }

    static TypePtr see(const DynamicType& t) { return std::const_pointer_cast<DynamicType>(std::shared_ptr<const DynamicType>(&t, [](const DynamicType*){})); }

    TypePtr find(const json& j)
    {
        Module& m = mod(j.at("m"));
        const std::string n = j.at("n").get<std::string>(), kind = j.at("kind").get<std::string>();
        const bool raw = j.at("raw").get<int>();                 // under its name alone, as before it was declared
        if (kind == "struct")
        {
            if (!raw) { return see(m.structure(n)); }
            auto s = std::make_shared<StructType>(m.structure(n));
            s->name(n);
            return s;
        }
        if (kind == "union")
        {
            if (!raw) { return see(m.union_switch(n)); }
            auto s = std::make_shared<UnionType>(m.union_switch(n));
            s->name(n);
            return s;
        }
        if (kind == "enum")
        {
            return see(m.enum_32(n));
        }
        if (kind == "alias")
        {
            return see(m.alias(n));
        }
        throw DriverError("reference to " + kind);
    }

    explicit Tree(const json& c) : root(new Module())
    {
        for (auto& m : c.at("mods"))
        {
            if (mods.empty()) { mods.push_back(root.get()); }
            else { mods.push_back(&mod(m.at("o")).create_submodule(m.at("n").get<std::string>())); }
        }
        declared_type = [this](const json& j) { return find(j); };
        for (auto& d : c.at("decls"))
        {
            Module& m = mod(d.at("m"));
            const std::string n = d.at("n").get<std::string>(), k = d.at("k").get<std::string>();
            bool done = false;
            if (k == "const")
            {
                TypePtr t = build_type(d.at("t"));
                DynamicData v(*t);
                fill(v.ref(), d.at("v"));
                done = m.create_constant(n, v, false, d.at("fe").get<int>());
            }
            else if (k == "alias")
            {
                TypePtr t = build_type(d.at("t"));
                done = m.create_alias(DynamicType::Ptr(*t), n);
            }
            else
            {
                TypePtr t = build_type(d.at("t"));
                if (k == "struct") { done = m.structure(std::move(static_cast<StructType&>(*t))); }
                else if (k == "union") { done = m.union_switch(std::move(static_cast<UnionType&>(*t))); }
                else if (k == "enum") { done = m.enum_32(std::move(static_cast<EnumerationType<uint32_t>&>(*t))); }
                else { throw DriverError("declaration of " + k); }
            }
            if (!done) { throw DriverError("declaration refused: " + n); }
        }
    }
};

int main()
{
    std::ios::sync_with_stdio(false);
    std::string l;
    Log log;
    try
    {
        while (std::getline(std::cin, l))
        {
            json c = json::parse(l);
            if (!c.count("op") || c.at("op") != "gen") { if (!c.count("op")) { c["op"] = "head"; } log.line(c); continue; }
            Tree tree(c);
            std::string text;
            try
            {
                const Module& root = *tree.root;
                text = generator::module(root);
                c["ok"] = true;
                std::map<std::string, std::string> parts;
                c["same"] = text == generator::module(root)      // asking again, or with the text of each type, is the same
                        && text == generator::module(root, &parts);
            }
            catch (const std::exception& e) { c["ok"] = false; c["same"] = true; c["why"] = e.what(); }
            c["text"] = text;
            c["w"] = words(text);
            log.line(c);
        }
    }
    catch (const DriverError& e) { std::cerr << "driver: " << e.what() << "\n"; return 8; }
    catch (const json::exception& e) { std::cerr << "driver: " << e.what() << "\n"; return 8; }
    log.line(json{{"op", "eof"}});
    return 0;
}
