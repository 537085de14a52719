// Drives trees of variable positions.  The commands are specified in /verif/spec/IndexTrace.tla.
#include "wire.h"
#include "utils/IndexVar.h"
#include <map>

using INDEXVAR::IndexVar;
using INDEXVAR::pIndexVar;
using std::map;
using std::string;
using std::vector;

static map<string, pIndexVar> slots;

static pIndexVar &at(const string &s)
{
    if (!slots.count(s))
        throw wire::NoSlot();
    return slots[s];
}
static vector<int> path(const vector<string> &f, size_t from)
{
    vector<int> p;
    for (size_t j = from; j < f.size(); j++)
        if (!f[j].empty())
            p.push_back(std::stoi(f[j]));
    return p;
}
static IndexVar &leaf(const string &s, const vector<int> &p)
{
    IndexVar *x = at(s).get();
    for (int j : p)
    {
        if (j < 0 || j >= (int)x->successors.size())
            throw wire::NoSlot();
        x = x->successors[j].get();
    }
    return *x;
}
static string everything()
{
    std::ostringstream o;
    o << ",\"nodes\":[";
    bool first = true;
    for (auto &p : slots)
    {
        o << (first ? "" : ",") << "{\"s\":\"" << p.first << "\",\"pos\":[";
        first = false;
        bool one = true;
        for (auto &q : p.second->positions)
        {
            o << (one ? "" : ",") << wire::items(q);
            one = false;
        }
        o << "],\"idx\":[";
        one = true;
        for (auto &q : p.second->indices)
        {
            o << (one ? "" : ",") << *q;
            one = false;
        }
        o << "]}";
    }
    o << "]";
    return o.str();
}

static string run(const vector<string> &f)
{
    std::ostringstream more;
    auto &op = f[0];
    if (op == "reset")
        slots.clear();
    else if (op == "create")
        slots[f[1]] = IndexVar::create();
    else if (op == "clone")
    {
        auto x = at(f[2]);
        slots[f[1]] = IndexVar::clone(x);
    }
    else if (op == "alias")
    {
        auto x = at(f[2]);
        slots[f[1]] = x;
    }
    else if (op == "connect")
    {
        auto x = at(f[1]), y = at(f[2]);
        if (f[3] == "1")
            IndexVar::connect(x, y, true);
        else
            IndexVar::connect(x, y);
    }
    else if (op == "add")
    {
        leaf(f[1], path(f, 3));
        auto p = at(f[1])->add(std::stoi(f[2]), path(f, 3));
        if (*p != std::stoi(f[2]))
            return "{\"res\":\"lost\"}";
    }
    else if (op == "remove")
    {
        leaf(f[1], path(f, 2));
        at(f[1])->remove(path(f, 2));
    }
    else if (op == "set")
    {
        auto n = std::stoul(f[2]) - 1;
        if (n >= at(f[1])->indices.size())
            throw wire::NoSlot();
        *at(f[1])->indices[n] = std::stoi(f[3]);
    }
    else if (op == "build")
        at(f[1])->build();
    else if (op == "rebuild")
        at(f[1])->rebuild();
    else if (op == "norm")
        more << ",\"value\":" << wire::items(*at(f[1])->indices_normalized());
    else if (op == "hash")
        more << ",\"value\":\"" << at(f[1])->__hash__() << "\"";
    else if (op == "equal")
        more << ",\"value\":" << (*at(f[1]) == at(f[2]).get() ? 1 : 0);
    else if (op == "drop")
        slots.erase(f[1]);
    else
        throw wire::Unknown();
    return "{\"res\":\"ok\"" + more.str() + everything() + "}";
}

int main()
{
    return wire::serve(run, []
                       { slots.clear(); return string("{\"res\":\"end\"}"); });
}
