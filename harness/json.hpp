// Minimal JSON reader for trace files (objects, arrays, numbers, strings, booleans).
#pragma once
#include <cctype>
#include <cstdlib>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace js {
struct V {
    enum K { NUL, NUM, STR, ARR, OBJ, BOOL } k = NUL;
    double n = 0;
    bool b = false;
    std::string s;
    std::vector<V> a;
    std::map<std::string, V> o;
    bool has(const std::string& f) const { return o.count(f) != 0; }
    const V& operator[](const std::string& f) const
    {
        auto it = o.find(f);
        if (it == o.end())
            throw std::runtime_error("json: no field " + f);
        return it->second;
    }
    const V& operator[](size_t i) const { return a.at(i); }
    size_t size() const { return a.size(); }
    long long i() const { return (long long)n; }
};
struct P {
    const char* p;
    const char* e;
    void ws()
    {
        while (p < e && isspace((unsigned char)*p))
            ++p;
    }
    V val()
    {
        ws();
        V v;
        if (p >= e)
            throw std::runtime_error("json: eof");
        if (*p == '{') {
            v.k = V::OBJ;
            ++p;
            ws();
            if (*p == '}') {
                ++p;
                return v;
            }
            for (;;) {
                ws();
                std::string key = str();
                ws();
                ++p; // ':'
                v.o[key] = val();
                ws();
                if (*p++ == '}')
                    return v;
            }
        }
        if (*p == '[') {
            v.k = V::ARR;
            ++p;
            ws();
            if (*p == ']') {
                ++p;
                return v;
            }
            for (;;) {
                v.a.push_back(val());
                ws();
                if (*p++ == ']')
                    return v;
            }
        }
        if (*p == '"') {
            v.k = V::STR;
            v.s = str();
            return v;
        }
        if (*p == 't' || *p == 'f') {
            v.k = V::BOOL;
            v.b = *p == 't';
            p += v.b ? 4 : 5;
            return v;
        }
        if (*p == 'n') {
            p += 4;
            return v;
        }
        char* q;
        v.k = V::NUM;
        v.n = strtod(p, &q);
        if (q == p)
            throw std::runtime_error("json: bad value");
        p = q;
        return v;
    }
    std::string str()
    {
        std::string r;
        ++p;
        while (p < e && *p != '"') {
            if (*p == '\\') {
                ++p;
                r += (*p == 'n') ? '\n' : *p;
                ++p;
            } else
                r += *p++;
        }
        ++p;
        return r;
    }
};
inline V parse(const std::string& s)
{
    P p{ s.data(), s.data() + s.size() };
    return p.val();
}
} // namespace js
