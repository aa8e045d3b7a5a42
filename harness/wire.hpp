// Documents as lists of <path, value>, as the specification has them.
#pragma once
#include "ballot.hpp"
inline void flatten(const json &j, const string &path, json &out)
{
    auto leaf = [&](const string &v) { out.push_back(json::array({path, v})); };
    if (j.is_object() && !j.empty())
        for (auto &[k, v] : j.items()) flatten(v, path + "/" + k, out);
    else if (j.is_array() && !j.empty())
        for (size_t i = 0; i < j.size(); i++) flatten(j[i], path + "#" + std::to_string(i), out);
    else if (j.is_object())
        leaf("{}");
    else if (j.is_array() || j.is_null()) // an empty list may be written as null
        leaf("[]");
    else if (j.is_string())
        leaf("t:" + j.get<string>());
    else if (j.is_boolean())
        leaf(j.get<bool>() ? "b:true" : "b:false");
    else if (j.is_number_unsigned())
        leaf("n:" + std::to_string(j.get<uint64_t>()));
    else if (j.is_number_integer())
        leaf("n:" + std::to_string(j.get<int64_t>()));
    else
        leaf("f:" + j.dump());
}
inline json flat(const json &j)
{
    json out = json::array();
    flatten(j, "", out);
    return {{"doc", out}};
}
inline json unflat(const json &pairs)
{
    json root;
    for (auto &pv : pairs) {
        string path = pv.at(0), v = pv.at(1);
        json *at = &root;
        for (size_t i = 0; i < path.size();) {
            size_t e = path.find_first_of("/#", i + 1);
            if (e == string::npos) e = path.size();
            string key = path.substr(i + 1, e - i - 1);
            at = path[i] == '#' ? &(*at)[std::stoul(key)] : &(*at)[key];
            i = e;
        }
        string tag = v.substr(0, 2), rest = v.size() > 2 ? v.substr(2) : "";
        if (v == "null") *at = nullptr;
        else if (v == "[]")
            *at = json::array();
        else if (v == "{}")
            *at = json::object();
        else if (tag == "t:")
            *at = rest;
        else if (tag == "n:" && rest[0] == '-')
            *at = (int64_t)std::stoll(rest);
        else if (tag == "n:")
            *at = (uint64_t)std::stoull(rest);
        else if (tag == "f:")
            *at = std::stod(rest);
        else
            *at = v == "b:true";
    }
    return root;
}
inline string text(const json &j, const string &fmt)
{
    return fmt == "pretty" ? j.dump(4) : fmt == "ascii" ? j.dump(-1, ' ', true) : j.dump();
}
inline vector<uint8_t> encode(const json &j, const string &fmt)
{
    if (fmt == "bson" && j.is_object()) return json::to_bson(j);
    if (fmt == "msgpack") return json::to_msgpack(j);
    auto t = text(j, fmt);
    return {t.begin(), t.end()};
}
json spoilt(const json &a, void (*read)(const string &, const vector<uint8_t> &, const string &));
