// Converts texts between encodings.  In: {"op":"conv","a":8,"b":16,"s":[units]}; out: the answer, and the answer converted back.
#include <xtypes/StringConversion.hpp>

#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <stdexcept>
#include <string>
#include <vector>

using eprosima::code_conversion_tool;

template<typename C> static std::string list(const std::basic_string<C>& s)
{
    std::string r = "[";
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        r += (i ? "," : "") + std::to_string(uint32_t(typename std::make_unsigned<C>::type(s[i])));
    }
    return r + "]";
}
template<> std::string list(const std::basic_string<char16_t>& s)
{
    std::string r = "[";
    for (std::size_t i = 0; i < s.size(); ++i) { r += (i ? "," : "") + std::to_string(uint32_t(s[i])); }
    return r + "]";
}
template<> std::string list(const std::basic_string<char32_t>& s)
{
    std::string r = "[";
    for (std::size_t i = 0; i < s.size(); ++i) { r += (i ? "," : "") + std::to_string(uint32_t(s[i])); }
    return r + "]";
}

template<typename A, typename B> static std::string conv(const std::vector<uint32_t>& units)
{
    // exactly sized, so that reading past the end is seen
    A* raw = static_cast<A*>(std::malloc(units.size() * sizeof(A) + (units.empty() ? 1 : 0)));
    for (std::size_t i = 0; i < units.size(); ++i) { raw[i] = A(units[i]); }
    std::basic_string_view<A> view(raw, units.size());
    std::string r;
    std::basic_string<B> out;
    try
    {
        out = code_conversion_tool<B>(view);
        r = "\"ok\":true,\"out\":" + list(out);
        try
        {
            std::basic_string<A> back = code_conversion_tool<A>(out);
            r += ",\"ok2\":true,\"back\":" + list(back);
        }
        catch (const std::exception&)
        {
            r += ",\"ok2\":false,\"back\":[]";
        }
    }
    catch (const std::exception&)
    {
        r = "\"ok\":false,\"out\":[],\"ok2\":false,\"back\":[]";
    }
    std::free(raw);
    return r;
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::size_t s = line.find("\"s\"");
        if (s == std::string::npos)
        {
            std::cout << (line.find("\"op\"") == std::string::npos ? std::string("{\"op\": \"head\"}") : line) << std::endl;
            continue;
        }
        int a = std::atoi(line.c_str() + line.find("\"a\": ") + 5);
        int b = std::atoi(line.c_str() + line.find("\"b\": ") + 5);
        std::vector<uint32_t> units;
        const char* p = line.c_str() + line.find('[', s) + 1;
        while (*p && *p != ']')
        {
            char* e;
            units.push_back(uint32_t(std::strtoul(p, &e, 10)));
            p = e;
            while (*p == ',' || *p == ' ') { ++p; }
        }
        std::string r = a == 8 && b == 16 ? conv<char, char16_t>(units)
                      : a == 16 && b == 8 ? conv<char16_t, char>(units)
                      : a == 8 && b == 32 ? conv<char, char32_t>(units)
                      : conv<char32_t, char>(units);
        std::cout << line.substr(0, line.find_last_of('}')) << "," << r << "}" << std::endl;
    }
    std::cout << "{\"op\": \"eof\"}" << std::endl;
    return 0;
}
