// Drives evidential bases, stamps and the clock.  The commands are specified in /verif/spec/EvidenceTrace.tla.
#include "evunit.h"
#include "wire.h"
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "Narsese/include/Narsese.h"
#include <map>

using EVIDENCE::Base;
using EVIDENCE::pBase;
using SENTENCE::pStamp;
using SENTENCE::Stamp;
using std::map;
using std::string;
using std::vector;
using wire::items;

extern const Unit unit_a, unit_b;

static map<string, pBase> bases;
static map<string, pStamp> stamps;

static const Unit &unit(const string &u)
{
    if (u == "a")
        return unit_a;
    if (u == "b")
        return unit_b;
    throw wire::Unknown();
}
static Base &base(const string &s)
{
    if (!bases.count(s))
        throw wire::NoSlot();
    return *bases[s];
}
static Stamp &stamp(const string &s)
{
    if (!stamps.count(s))
        throw wire::NoSlot();
    return *stamps[s];
}

static pStamp parsed(const string &text)
{
    auto task = NARSESEPARSER::parser->parse_task((string &)text);
    return task->sentence->stamp;
}

static string everything()
{
    std::ostringstream o;
    o << ",\"bases\":[";
    bool first = true;
    for (auto &p : bases)
    {
        o << (first ? "" : ",") << "{\"s\":" << wire::jstr(p.first) << ",\"n\":" << p.second->size() << ",\"v\":" << items(*p.second->_set) << "}";
        first = false;
    }
    o << "],\"stamps\":[";
    first = true;
    for (auto &p : stamps)
    {
        auto &s = *p.second;
        o << (first ? "" : ",") << "{\"s\":" << wire::jstr(p.first) << ",\"o\":" << s.t_occurrence << ",\"c\":" << s.t_creation << ",\"p\":" << s.t_put
          << ",\"e\":" << (s.is_eternal ? 1 : 0) << ",\"v\":" << (s.evidential_base ? items(*s.evidential_base->_set) : string("[]")) << "}";
        first = false;
    }
    o << "]";
    return o.str();
}

static std::shared_ptr<std::set<size_t>> numbers(const vector<string> &f, size_t from)
{
    auto s = std::make_shared<std::set<size_t>>();
    for (size_t j = from; j < f.size(); j++)
        s->insert(std::stoul(f[j]));
    return s;
}

static string run(const vector<string> &f)
{
    std::ostringstream more;
    auto &op = f[0];
    if (op == "reset")
    {
        bases.clear();
        stamps.clear();
        GLOBAL::time = 0;
        CONFIG::maximum_evidential_base_length = 20000;
        CONFIG::temporal_duration = 5;
    }
    else if (op == "max")
        CONFIG::maximum_evidential_base_length = std::stoul(f[1]);
    else if (op == "duration")
        CONFIG::temporal_duration = std::stoul(f[1]);
    else if (op == "time")
        unit(f[1]).set_time(std::stoul(f[2]));
    else if (op == "now")
    {
        auto t = parsed("a. :|:");
        more << ",\"seen\":[" << unit_a.get_time() << "," << unit_b.get_time() << "," << t->t_creation << "],\"ids\":" << items(*t->evidential_base->_set);
    }
    else if (op == "new")
        bases[f[1]] = unit(f[2]).fresh();
    else if (op == "make")
        bases[f[1]] = pBase(new Base(*numbers(f, 2)));
    else if (op == "share")
        bases[f[1]] = pBase(new Base(numbers(f, 2)));
    else if (op == "copy")
        bases[f[1]] = pBase(new Base(base(f[2])));
    else if (op == "assign")
        base(f[1]) = base(f[2]);
    else if (op == "alias")
    {
        base(f[2]);
        bases[f[1]] = bases[f[2]];
    }
    else if (op == "merge")
    {
        auto &x = base(f[2]), &y = base(f[3]);
        bases[f[1]] = Base::interleave(x, y);
    }
    else if (op == "into")
    {
        auto &z = base(f[1]), &x = base(f[2]), &y = base(f[3]);
        Base::interleave(z, x, y);
    }
    else if (op == "extend")
    {
        auto &x = base(f[1]), &y = base(f[2]);
        x.extend(y);
    }
    else if (op == "add")
    {
        auto &x = base(f[1]);
        more << ",\"self\":" << (x.add(std::stoul(f[2])) == &x ? 1 : 0);
    }
    else if (op == "overlap")
    {
        auto &x = base(f[1]), &y = base(f[2]);
        more << ",\"value\":" << (x.is_overlaped(y) ? 1 : 0);
    }
    else if (op == "hash")
    {
        auto &x = base(f[1]);
        size_t h = x.__hash__();
        more << ",\"value\":\"" << h << "\"";
    }
    else if (op == "drop")
    {
        bases.erase(f[1]);
        stamps.erase(f[1]);
    }
    else if (op == "stamp")
        stamps[f[1]] = f[2] == "lib" ? parsed(f[3] == "1" ? "a." : "a. :|:") : f[3] == "-" ? unit(f[2]).stamp_plain() : unit(f[2]).stamp(f[3] == "1");
    else if (op == "stampat")
        stamps[f[1]] = f[2] == "lib" ? parsed("a. :!" + f[3] + ":") : unit(f[2]).stamp_at(std::stoi(f[3]));
    else if (op == "stampfull")
    {
        pBase b = nullptr;
        if (f[6] != "-")
        {
            base(f[6]);
            b = bases[f[6]];
        }
        stamps[f[1]] = unit(f[2]).stamp_full(std::stoi(f[3]), std::stoi(f[4]), std::stoi(f[5]), b, std::stoi(f[7]));
    }
    else if (op == "stampcopy")
        stamps[f[1]] = pStamp(new Stamp(stamp(f[2])));
    else if (op == "tense")
        more << ",\"value\":" << wire::jstr(TENSE::Repr[unit(f[2]).tense(stamp(f[1]))]);
    else if (op == "eternalize")
        stamp(f[1]).eternalize();
    else if (op == "sextend")
    {
        auto &s = stamp(f[1]);
        auto &b = base(f[2]);
        s.extend_evidenital_base(b);
    }
    else if (op == "unbase") // a stamp that has lost its base
        stamp(f[1]).evidential_base = nullptr;
    else if (op == "sentence")
    {
        // a sentence given a stamp keeps it; one given none gets an eternal one of its own
        pStamp given = nullptr;
        if (f[3] != "-")
        {
            stamp(f[3]);
            given = stamps[f[3]];
        }
        auto term = TERM::Term::create("a");
        SENTENCE::Sentence *s = nullptr;
        if (f[2] == "judgement")
            s = given ? new SENTENCE::Judgement(term, nullptr, given) : new SENTENCE::Judgement(term);
        else if (f[2] == "question")
            s = given ? new SENTENCE::Question(term, given) : new SENTENCE::Question(term);
        else if (f[2] == "goal")
            s = given ? new SENTENCE::Goal(term, nullptr, given) : new SENTENCE::Goal(term, nullptr);
        else if (f[2] == "quest")
            s = given ? new SENTENCE::Quest(term, given) : new SENTENCE::Quest(term);
        else if (f[2] == "plain")
            s = given ? new SENTENCE::Sentence(term, SENTENCE::PUNCTUATION::Judgement, nullptr, given) : new SENTENCE::Sentence(term, SENTENCE::PUNCTUATION::Judgement);
        else
            throw wire::Unknown();
        SENTENCE::pSentence held(s);
        stamps[f[1]] = pStamp(new Stamp(*s->stamp));
        more << ",\"punct\":" << wire::jstr(SENTENCE::PUNCTUATION::Repr[(int)s->punct]) << ",\"truth\":[";
        if (s->truth)
            more << wire::micro(s->truth->f) << "," << wire::micro(s->truth->c) << "," << wire::micro(s->truth->k);
        more << "]";
    }
    else if (op != "show")
        throw wire::Unknown();
    return "{\"res\":\"ok\"" + more.str() + everything() + "}";
}

int main()
{
    return wire::serve(run, []
                       { bases.clear(); stamps.clear(); return string("{\"res\":\"end\"}"); });
}
