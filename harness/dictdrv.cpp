// Drives dictionaries of names.  The commands are specified in /verif/spec/DictTrace.tla.
#include "wire.h"
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "Narsese/include/Narsese.h"
#include <map>
#include <memory>

using INTERPRETER::Interpreter;
using std::map;
using std::string;
using std::vector;
using TERM::pTerm;
using TERM::Term;

static Interpreter d1, d2;
static map<string, pTerm> slots;
static vector<std::weak_ptr<Term>> atoms; // numbered from 1
static vector<string> names, keys;

static Interpreter &dict(const string &d)
{
    if (d == "d1")
        return d1;
    if (d == "d2")
        return d2;
    if (d == "g")
        return INTERPRETER::interpreter;
    throw wire::Unknown();
}
static pTerm &at(const string &s)
{
    if (!slots.count(s))
        throw wire::NoSlot();
    return slots[s];
}
static size_t id(const std::shared_ptr<Term> *p)
{
    if (p == nullptr || p->get() == nullptr)
        return 0;
    for (size_t j = 0; j < atoms.size(); j++)
        if (!atoms[j].expired() && !p->owner_before(atoms[j]) && !atoms[j].owner_before(*p))
            return j + 1;
    atoms.push_back(*p);
    return atoms.size();
}

static string everything()
{
    std::ostringstream o;
    bool first = true;
    o << ",\"slots\":[";
    for (auto &p : slots)
    {
        o << (first ? "" : ",") << "{\"s\":\"" << p.first << "\",\"id\":" << id(&p.second) << "}";
        first = false;
    }
    o << "],\"names\":[";
    first = true;
    for (auto d : {"d1", "d2", "g"})
        for (auto name : names)
        {
            auto &x = dict(d);
            o << (first ? "" : ",") << "{\"d\":\"" << d << "\",\"name\":" << wire::jstr(name) << ",\"there\":";
            first = false;
            if (!x.check_by_name(name))
            {
                o << "0,\"key\":\"\"}";
                continue;
            }
            auto key = x.get_by_name(name);
            o << "1,\"key\":\"" << key << "\",\"keythere\":" << (x.check(key) ? 1 : 0) << ",\"n\":" << x.check_count(key);
            if (x.check(key))
                o << ",\"back\":" << wire::jstr(x.get(key)) << ",\"obj\":" << id(x.get_object(key));
            else
                o << ",\"back\":\"\",\"obj\":0";
            o << "}";
        }
    o << "],\"keys\":[";
    first = true;
    for (auto d : {"d1", "d2", "g"})
        for (auto &k : keys)
        {
            auto key = std::stoull(k);
            o << (first ? "" : ",") << "{\"d\":\"" << d << "\",\"key\":\"" << k << "\",\"there\":" << (dict(d).check(key) ? 1 : 0) << ",\"n\":" << dict(d).check_count(key) << "}";
            first = false;
        }
    o << "],\"live\":[";
    first = true;
    for (size_t j = 0; j < atoms.size(); j++)
        if (!atoms[j].expired())
        {
            o << (first ? "" : ",") << j + 1;
            first = false;
        }
    o << "]";
    return o.str();
}

static void clear()
{
    for (auto d : {&d1, &d2, &INTERPRETER::interpreter})
        d->reset();
    slots.clear();
    for (auto d : {&d1, &d2, &INTERPRETER::interpreter})
        d->reset();
    atoms.clear();
}

static string run(const vector<string> &f)
{
    std::ostringstream more;
    auto &op = f[0];
    auto answer = [&](bool b)
    { more << ",\"answer\":" << (b ? 1 : 0); };
    auto keyof = [&](const string &d, string name)
    {
        if (!dict(d).check_by_name(name))
            throw wire::NoSlot();
        return dict(d).get_by_name(name);
    };
    if (op == "reset")
        clear();
    else if (op == "universe") // the names and keys looked up after every call
    {
        names.clear();
        keys.clear();
        size_t j = 1;
        for (; f[j] != "|"; j++)
            names.push_back(f[j]);
        for (j++; j < f.size(); j++)
            keys.push_back(f[j]);
    }
    else if (op == "word")
        slots[f[2]] = f[1] == "g" ? Term::create(f[3].c_str()) : Term::create(f[3].c_str(), (void *)&dict(f[1]));
    else if (op == "parse")
    {
        auto text = f[3] + ".";
        auto task = NARSESEPARSER::parser->parse_task(text);
        slots[f[2]] = task->sentence->term;
    }
    else if (op == "anon")
        slots[f[1]] = pTerm(new Term());
    else if (op == "alias")
    {
        pTerm t = at(f[2]);
        slots[f[1]] = t;
    }
    else if (op == "drop")
        slots.erase(f[1]);
    else if (op == "put")
        dict(f[1]).put(std::stoull(f[3]), f[2], f[4] == "-" ? nullptr : (void *)new pTerm(at(f[4])));
    else if (op == "again")
    {
        auto k = keyof(f[1], f[2]);
        for (int j = 0; j < std::stoi(f[3]); j++)
            dict(f[1]).put(k, f[2], (void *)dict(f[1]).get_object(k));
    }
    else if (op == "erase")
        answer(dict(f[1]).erase(keyof(f[1], f[2])));
    else if (op == "remove")
        answer(dict(f[1]).remove(keyof(f[1], f[2])));
    else if (op == "erasekey")
        answer(dict(f[1]).erase(std::stoull(f[2])));
    else if (op == "removekey")
        answer(dict(f[1]).remove(std::stoull(f[2])));
    else if (op == "removename")
        answer(dict(f[1]).remove_by_name(f[2]));
    else if (op == "clear")
        dict(f[1]).reset();
    else if (op == "text")
    {
        auto s = dict(f[1]).interpret(*at(f[2]), f[3] == "1");
        string plain;
        for (size_t j = 0; j < s.size(); j++)
            if (s[j] == '\x1b')
                while (j < s.size() && s[j] != 'm')
                    j++;
            else
                plain += s[j];
        more << ",\"text\":" << wire::jstr(plain) << ",\"anonymous\":" << (plain.rfind("0x", 0) == 0 ? 1 : 0);
    }
    else
        throw wire::Unknown();
    return "{\"res\":\"ok\"" + more.str() + everything() + "}";
}

int main()
{
    return wire::serve(run, []
                       { clear(); return string("{\"res\":\"end\"}"); });
}
