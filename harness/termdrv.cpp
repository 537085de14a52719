// Drives the term, parser and printing API of cNARS line by line and reports what it observes.
//
// stdin: one command per line, fields separated by tabs.  stdout: one JSON object per command.
// The commands and what each of them must answer are specified in /verif/spec/TermTrace.tla.
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "Narsese/include/Narsese.h"
#include "Narsese/include/Variable.h"
#include "Narsese/include/Operation.h"
#include "Narsese/include/Interval.h"
#include "Global.h"
#include "Config.h"
#include <cmath>
#include <cstdio>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

using COMPOUND::Compound;
using CONNECTOR::Connector;
using COPULA::Copula;
using STATEMENT::Statement;
using TASK::pTask;
using TERM::pTerm;
using TERM::pTerms;
using TERM::Term;
using TERM::Terms;
using TERM::TermType;
using std::string;
using std::vector;

// The symbols of the language, independent of the implementation's own tables.
static const vector<std::pair<string, Copula>> copulas = {
    {"-->", Copula::Inheritance}, {"<->", Copula::Similarity}, {"{--", Copula::Instance}, {"--]", Copula::Property},
    {"{-]", Copula::InstanceProperty}, {"==>", Copula::Implication}, {"=/>", Copula::PredictiveImplication},
    {"=|>", Copula::ConcurrentImplication}, {"=\\>", Copula::RetrospectiveImplication}, {"<=>", Copula::Equivalence},
    {"</>", Copula::PredictiveEquivalence}, {"<|>", Copula::ConcurrentEquivalence}};
static const vector<std::pair<string, Connector>> connectors = {
    {"&&", Connector::Conjunction}, {"||", Connector::Disjunction}, {"*", Connector::Product},
    {"&|", Connector::ParallelEvents}, {"&/", Connector::SequentialEvents}, {"|", Connector::IntensionalIntersection},
    {"&", Connector::ExtensionalIntersection}, {"-", Connector::ExtensionalDifference},
    {"~", Connector::IntensionalDifference}, {"--", Connector::Negation}, {"[", Connector::IntensionalSet},
    {"{", Connector::ExtensionalSet}, {"\\", Connector::IntensionalImage}, {"/", Connector::ExtensionalImage}, {"#", Connector::List}};

struct Unknown
{
};

template <typename E>
static string name_of(const vector<std::pair<string, E>> &table, E e)
{
    for (auto &p : table)
        if (p.second == e)
            return p.first;
    return "?" + std::to_string((int)e);
}
template <typename E>
static E value_of(const vector<std::pair<string, E>> &table, const string &s)
{
    for (auto &p : table)
        if (p.first == s)
            return p.second;
    throw Unknown();
}

static string jstr(const string &s)
{
    std::ostringstream o;
    o << '"';
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            o << '\\' << c;
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o << b;
        }
        else
            o << c;
    }
    o << '"';
    return o.str();
}

static long micro(double x)
{
    if (!(x > -2000 && x < 2000))
        return 2000000001;
    return std::llround(x * 1e6);
}

// ---------------------------------------------------------------------------------------------
// Handles and the identities of the nodes seen

struct Slot
{
    pTerm term;
    pTask task;
};
static std::map<string, Slot> slots;
static std::map<string, pTerms> bags;
static std::map<string, std::shared_ptr<NARSESEPARSER::NarseseParser>> parsers;

static std::map<Term *, std::pair<std::weak_ptr<Term>, long>> ids;
static std::map<long, std::weak_ptr<Term>> registry;
static long next_id = 1;
static std::map<Term *, std::weak_ptr<Term>> anonymous;

static long id_of(const pTerm &t)
{
    auto it = ids.find(t.get());
    if (it != ids.end() && !it->second.first.expired())
        return it->second.second;
    long id = next_id++;
    ids[t.get()] = {t, id};
    registry[id] = t;
    return id;
}

static string mode = "plain";

static void put_list(std::ostream &o, const vector<int> &v)
{
    o << '[';
    for (size_t j = 0; j < v.size(); j++)
        o << (j ? "," : "") << v[j];
    o << ']';
}

static void index_of(std::ostream &o, const INDEXVAR::pIndexVar &x)
{
    o << "{\"p\":[";
    for (size_t j = 0; j < x->positions.size(); j++)
    {
        o << (j ? "," : "");
        put_list(o, x->positions[j]);
    }
    o << "],\"i\":[";
    for (size_t j = 0; j < x->indices.size(); j++)
        o << (j ? "," : "") << *x->indices[j];
    o << "],\"r\":";
    put_list(o, *x->indices_normalized());
    o << "}";
}

static string hexname(const Term *t)
{
    char b[40];
    snprintf(b, sizeof b, "0x%lx", (unsigned long)t);
    return b;
}

// What a term says of its own kind
static bool commutes(const pTerm &t)
{
    return t->type == TermType::STATEMENT ? ((Statement &)*t).is_commutative : t->type == TermType::COMPOUND && ((Compound &)*t).is_commutative;
}

static void dump(std::ostream &o, const pTerm &t)
{
    if (t.get() == nullptr)
    {
        o << "{\"k\":\"null\",\"n\":\"\",\"i\":0,\"a\":[]}";
        return;
    }
    vector<pTerm> kids;
    string k, n;
    long i = 0;
    if (t->type == TermType::ATOM)
    {
        if (t->is_var)
        {
            k = t->is_ivar ? "ivar" : t->is_dvar ? "dvar" : t->is_qvar ? "qvar" : "?var";
            auto &v = t->is_ivar ? t->_vars_independent : t->is_dvar ? t->_vars_dependent : t->_vars_query;
            i = v->indices.empty() ? -999 : *v->indices[0];
        }
        else if (t->is_interval)
        {
            k = "int";
            i = ((INTERVAL::Interval &)*t).interval;
        }
        else
        {
            k = t->is_operation ? "op" : "atom";
            auto it = anonymous.find(t.get());
            if (it != anonymous.end() && !it->second.expired())
                n = hexname(t.get());
            else
                n = INTERPRETER::interpreter.interpret(*t);
        }
    }
    else if (t->type == TermType::STATEMENT)
    {
        k = "stmt";
        n = name_of(copulas, t->copula);
        kids = {t->subject, t->predicate};
    }
    else if (t->type == TermType::COMPOUND)
    {
        k = "cmp";
        n = name_of(connectors, t->connector);
        for (auto it = t->terms->begin(); it != t->terms->end(); ++it)
            kids.push_back(*it);
    }
    else
        k = "?type";
    o << "{\"k\":" << jstr(k) << ",\"n\":" << jstr(n) << ",\"i\":" << i << ",\"a\":[";
    for (size_t j = 0; j < kids.size(); j++)
    {
        o << (j ? "," : "");
        dump(o, kids[j]);
    }
    o << "]";
    if (mode != "plain")
        o << ",\"id\":" << id_of(t);
    if (mode == "full")
    {
        o << ",\"x\":" << t->complexity << ",\"f\":[" << t->has_var << "," << t->has_ivar << "," << t->has_dvar << ","
          << t->has_qvar << "," << t->is_var << "," << t->is_ivar << "," << t->is_dvar << "," << t->is_qvar << ","
          << t->is_interval << "," << t->is_operation << "," << t->is_higher_order << "," << commutes(t) << "," << t->is_closed << "],\"v\":[";
        index_of(o, t->_vars_independent);
        o << ",";
        index_of(o, t->_vars_dependent);
        o << ",";
        index_of(o, t->_vars_query);
        o << "]";
    }
    o << "}";
}

static string dumped(const pTerm &t)
{
    if (mode == "none")
        return "{\"k\":\"none\",\"n\":\"\",\"i\":0,\"a\":[]}";
    std::ostringstream o;
    dump(o, t);
    return o.str();
}

static void sentence(std::ostream &o, SENTENCE::Sentence &s)
{
    string p = s.punct == SENTENCE::PUNCTUATION::Judgement  ? "."
               : s.punct == SENTENCE::PUNCTUATION::Question ? "?"
               : s.punct == SENTENCE::PUNCTUATION::Goal     ? "!"
               : s.punct == SENTENCE::PUNCTUATION::Quest    ? "@"
                                                            : "bad";
    o << "\"punct\":" << jstr(p) << ",\"truth\":[";
    if (s.truth != nullptr)
        o << micro(s.truth->f) << "," << micro(s.truth->c) << "," << micro(s.truth->k);
    o << "],\"stamp\":";
    if (s.stamp == nullptr)
        o << "{\"e\":-1,\"o\":-1,\"c\":-1,\"p\":-1,\"b\":-1}";
    else
        o << "{\"e\":" << s.stamp->is_eternal << ",\"o\":" << s.stamp->t_occurrence << ",\"c\":" << s.stamp->t_creation
          << ",\"p\":" << s.stamp->t_put << ",\"b\":" << (s.stamp->evidential_base ? (long)s.stamp->evidential_base->size() : -1L) << "}";
    o << ",\"raw\":" << dumped(s.term);
}

static void task(std::ostream &o, const pTask &t)
{
    o << "\"budget\":[" << micro(t->budget->priority) << "," << micro(t->budget->durability) << ","
      << micro(t->budget->quality) << "],";
    sentence(o, *t->sentence);
}

struct NoSlot
{
};
static const std::set<string> makers = {"ivadd", "word", "anon", "anonop", "intv", "var", "stmt", "stmtin", "shallow", "cmp", "cmpin", "clone", "alias", "sub", "sentence", "reparse"};
static Slot &slot(const string &s)
{
    auto it = slots.find(s);
    if (it == slots.end())
        throw NoSlot();
    return it->second;
}

static pTerms &bag_at(const string &s)
{
    auto it = bags.find(s);
    if (it == bags.end())
        throw NoSlot();
    return it->second;
}

static void bag(std::ostream &o, const pTerms &b)
{
    o << "\"comm\":" << b->_is_commutative << ",\"size\":" << b->size() << ",\"elems\":[";
    bool first = true;
    for (auto it = b->begin(); it != b->end(); ++it)
    {
        o << (first ? "" : ",");
        first = false;
        dump(o, *it);
    }
    o << "],\"vec\":[";
    first = true;
    for (auto &t : (vector<pTerm>)*b)
    {
        o << (first ? "" : ",");
        first = false;
        dump(o, t);
    }
    o << "]";
}

// The configuration, by the names of the specification
static void configure(const string &name, double v)
{
    if (name == "f")
        CONFIG::f = v;
    else if (name == "c")
        CONFIG::c = v;
    else if (name == "cj")
        CONFIG::c_judgement = v;
    else if (name == "cg")
        CONFIG::c_goal = v;
    else if (name == "k")
        CONFIG::k = v;
    else if (name == "p")
        CONFIG::priority = v;
    else if (name == "d")
        CONFIG::durability = v;
    else if (name == "q")
        CONFIG::quality = v;
    else if (name == "judgement")
        CONFIG::d_judgement = v;
    else if (name == "goal")
        CONFIG::d_goal = v;
    else if (name == "question")
        CONFIG::d_question = v;
    else if (name == "quest")
        CONFIG::d_quest = v;
    else
        throw Unknown();
}
static bool configured = false;
static void default_config()
{
    configure("f", 1.0), configure("c", 0.9), configure("cj", 0.9), configure("cg", 0.9), configure("k", 1.0), configure("p", 0.8), configure("d", 0.8), configure("q", 0.5);
    configure("judgement", 0.5), configure("goal", 0.9), configure("question", 0.9), configure("quest", 0.9);
    CONFIG::temporal_duration = 5;
}

static string run(const vector<string> &f)
{
    std::ostringstream o;
    const string &op = f[0];
    o << "{\"res\":\"ok\"";
    if (op == "mode")
    {
        mode = f[1];
    }
    else if (op == "time")
    {
        GLOBAL::time = std::stol(f[1]);
    }
    else if (op == "parse") // slot, parser, text
    {
        auto &p = parsers[f[2]];
        if (p == nullptr)
            p = std::make_shared<NARSESEPARSER::NarseseParser>();
        string text = f.size() > 3 ? f[3] : "";
        string given = text;
        pTask t = p->parse_task(text);
        if (text != given)
            return "{\"res\":\"changed\"}";
        if (t == nullptr)
        {
            slots.erase(f[1]);
            return "{\"res\":\"rej\"}";
        }
        if (t.term() != t->sentence->term || t.sentence() != t->sentence || &t->term() != t->sentence->term.get())
            return "{\"res\":\"twofold\"}"; // a task has one sentence and one term
        slots[f[1]] = {t->sentence->term, t};
        o << ",";
        task(o, t);
    }
    else if (op == "many") // parser, times, keep, texts...: parse them again and again, and let go of the tasks
    {
        auto &p = parsers[f[1]];
        if (p == nullptr)
            p = std::make_shared<NARSESEPARSER::NarseseParser>();
        long times = std::stol(f[2]), good = 0;
        vector<pTask> kept;
        for (long j = 0; j < times; j++)
            for (size_t m = 4; m < f.size(); m++)
            {
                string text = f[m];
                pTask t = p->parse_task(text);
                good += t != nullptr;
                if (f[3] == "1" && t != nullptr)
                    kept.push_back(t);
            }
        o << ",\"good\":" << good;
    }
    else if (op == "reparse") // slot, from, parser: parse what is printed for a task
    {
        auto &s = slot(f[2]);
        if (s.task == nullptr)
            throw NoSlot();
        string text = INTERPRETER::interpreter.interpret(*s.task);
        auto &p = parsers[f[3]];
        if (p == nullptr)
            p = std::make_shared<NARSESEPARSER::NarseseParser>();
        pTask t = p->parse_task(text);
        if (t == nullptr)
        {
            slots.erase(f[1]);
            return "{\"res\":\"rej\",\"text\":" + jstr(text) + "}";
        }
        slots[f[1]] = {t->sentence->term, t};
        o << ",\"text\":" << jstr(text) << ",";
        task(o, t);
    }
    else if (op == "parsechars") // slot, parser, bytes in hex: input that is not text
    {
        auto &p = parsers[f[2]];
        if (p == nullptr)
            p = std::make_shared<NARSESEPARSER::NarseseParser>();
        string text;
        for (size_t j = 0; j + 1 < f[3].size(); j += 2)
            text.push_back((char)std::stoi(f[3].substr(j, 2), nullptr, 16));
        pTask t = text.find('\0') == string::npos ? p->parse_task(text.c_str()) : p->parse_task(text);
        if (t == nullptr)
        {
            slots.erase(f[1]);
            return "{\"res\":\"rej\"}";
        }
        slots[f[1]] = {t->sentence->term, t};
        o << ",";
        task(o, t);
    }
    else if (op == "drop")
    {
        slots.erase(f[1]);
        bags.erase(f[1]);
    }
    else if (op == "dropparser")
    {
        parsers.erase(f[1]);
    }
    else if (op == "word")
    {
        slots[f[1]] = {Term::create(f[2].c_str()), pTask()};
        o << ",\"raw\":" << dumped(slots[f[1]].term);
    }
    else if (op == "anon")
    {
        auto t = Term::create();
        anonymous[t.get()] = t;
        slots[f[1]] = {t, pTask()};
        o << ",\"raw\":" << dumped(t);
    }
    else if (op == "anonop")
    {
        auto t = pTerm(new OPERATION::Operation());
        slots[f[1]] = {t, pTask()};
        o << ",\"raw\":" << dumped(t) << ",\"hex\":" << jstr("^" + hexname(t.get()));
    }
    else if (op == "intv")
    {
        slots[f[1]] = {pTerm(new INTERVAL::Interval(std::stoi(f[2]))), pTask()};
        o << ",\"raw\":" << dumped(slots[f[1]].term);
    }
    else if (op == "var") // slot, kind, number
    {
        auto prefix = f[2] == "ivar" ? VARIABLE::VarPrefix::Independent : f[2] == "dvar" ? VARIABLE::VarPrefix::Dependent : VARIABLE::VarPrefix::Qeury;
        auto v = pTerm(new VARIABLE::Variable(prefix, "v"));
        auto &x = f[2] == "ivar" ? v->_vars_independent : f[2] == "dvar" ? v->_vars_dependent : v->_vars_query;
        x->add(std::stoi(f[3]), {});
        slots[f[1]] = {v, pTask()};
        o << ",\"raw\":" << dumped(v);
    }
    else if (op == "stmt" || op == "stmtin") // slot, copula, subject, predicate
    {
        pTerm a = slot(f[3]).term, b = slot(f[4]).term;
        auto c = value_of(copulas, f[2]);
        pTerm t = op == "stmt" ? pTerm(Statement::create(a, c, b)) : pTerm(new Statement(a, c, b, true));
        slots[f[1]] = {t, pTask()};
        o << ",\"raw\":" << dumped(t);
    }
    else if (op == "ivadd") // slot, of, other: a new interval
    {
        if (!slot(f[2]).term->is_interval || !slot(f[3]).term->is_interval)
            return "{\"res\":\"nointv\"}";
        auto &a = (INTERVAL::Interval &)*slot(f[2]).term, &b = (INTERVAL::Interval &)*slot(f[3]).term;
        auto t = pTerm(new INTERVAL::Interval(a + b));
        o << ",\"whole\":" << (signed int)(INTERVAL::Interval &)*t;
        slots[f[1]] = {t, pTask()};
        o << ",\"raw\":" << dumped(t);
    }
    else if (op == "ivgrow") // slot, other: the same interval, longer
    {
        if (!slot(f[1]).term->is_interval || !slot(f[2]).term->is_interval)
            return "{\"res\":\"nointv\"}";
        auto &a = (INTERVAL::Interval &)*slot(f[1]).term, &b = (INTERVAL::Interval &)*slot(f[2]).term;
        auto &r = (a += b);
        if (&r != &a)
            return "{\"res\":\"other\"}";
    }
    else if (op == "cmp" || op == "cmpin") // slot, connector, way, components...
    {
        vector<pTerm> args;
        for (size_t j = 4; j < f.size(); j++)
            args.push_back(slot(f[j]).term);
        auto c = value_of(connectors, f[2]);
        bool in = op == "cmpin";
        auto &way = f[3];
        auto &a = args;
        size_t n = args.size();
        pTerm t;
        if (way == "list")
        {
            std::list<pTerm> l(args.begin(), args.end());
            t = in ? pTerm(new Compound(c, l, true)) : pTerm(Compound::create(c, l));
        }
        else if (way == "terms")
        {
            auto ts = pTerms(new Terms(args, CONNECTOR::is_commutative(c)));
            t = in ? pTerm(new Compound(c, ts, true)) : pTerm(Compound::create(c, ts));
        }
        else if (way == "init" && n >= 1 && n <= 4)
        {
            std::initializer_list<pTerm> i1{a[0]}, i2{a[0], a[n > 1 ? 1 : 0]}, i3{a[0], a[n > 1 ? 1 : 0], a[n > 2 ? 2 : 0]}, i4{a[0], a[n > 1 ? 1 : 0], a[n > 2 ? 2 : 0], a[n > 3 ? 3 : 0]};
            auto &i = n == 1 ? i1 : n == 2 ? i2 : n == 3 ? i3 : i4;
            t = !in && c == Connector::ExtensionalSet ? Compound::ExtensionalSet(i) : !in && c == Connector::IntensionalSet ? Compound::IntensionalSet(i)
                                                                                                                           : pTerm(new Compound(c, i, in));
        }
        else if (way == "one" && n == 1)
            t = in ? pTerm(new Compound(c, a[0], true)) : pTerm(new Compound(c, a[0]));
        else
            t = in ? pTerm(new Compound(c, args, true)) : pTerm(Compound::create(c, args));
        slots[f[1]] = {t, pTask()};
        o << ",\"raw\":" << dumped(t);
    }
    else if (op == "clone")
    {
        pTerm t = Term::clone(slot(f[2]).term);
        slots[f[1]] = {t, pTask()};
        o << ",\"raw\":" << dumped(t);
    }
    else if (op == "shallow") // slot, of: another object of the same components
    {
        auto &of = slot(f[2]).term;
        if (!of->is_statement() && !of->is_compound())
        {
            slots.erase(f[1]);
            return "{\"res\":\"nocopy\"}";
        }
        pTerm t = of->is_statement() ? pTerm(new Statement((Statement &)*of, false)) : pTerm(new Compound((Compound &)*of, false));
        slots[f[1]] = {t, pTask()};
        o << ",\"raw\":" << dumped(t);
    }
    else if (op == "alias")
    {
        pTerm t = slot(f[2]).term;
        slots[f[1]] = {t, pTask()};
        o << ",\"raw\":" << dumped(t);
    }
    else if (op == "sub") // slot, of, component number from 1
    {
        pTerm whole = slot(f[2]).term;
        int j = std::stoi(f[3]);
        pTerm t;
        int parts = whole->type == TermType::STATEMENT ? 2 : whole->type == TermType::COMPOUND ? (int)whole->terms->size() : 0;
        if (j > parts)
        {
            slots.erase(f[1]);
            return "{\"res\":\"nopart\"}";
        }
        if (whole->type == TermType::STATEMENT)
            t = j == 1 ? whole->subject : whole->predicate;
        else
        {
            auto it = whole->terms->begin();
            for (int m = 1; m < j; m++)
                ++it;
            t = *it;
        }
        slots[f[1]] = {t, pTask()};
        o << ",\"raw\":" << dumped(t);
    }
    else if (op == "dump")
    {
        o << ",\"raw\":" << dumped(slot(f[1]).term);
    }
    else if (op == "dumpall")
    {
        o << ",\"all\":[";
        bool first = true;
        for (auto &p : slots)
        {
            o << (first ? "" : ",") << "{\"slot\":" << jstr(p.first) << ",\"raw\":" << dumped(p.second.term) << "}";
            first = false;
        }
        o << "]";
    }
    else if (op == "setvar") // slot, number: renumber the variable itself
    {
        auto &v = slot(f[1]).term;
        if (!v->is_var)
            return "{\"res\":\"novar\"}";
        auto &x = v->is_ivar ? v->_vars_independent : v->is_dvar ? v->_vars_dependent : v->_vars_query;
        *x->indices.at(0) = std::stoi(f[2]);
    }
    else if (op == "rebuild") // slot: have its variable index built again
    {
        auto &t = slot(f[1]).term;
        t->_vars_independent->rebuild();
        t->_vars_dependent->rebuild();
        t->_vars_query->rebuild();
        o << ",\"raw\":" << dumped(t);
    }
    else if (op == "print") // slot
    {
        auto &s = slot(f[1]);
        auto &in = INTERPRETER::interpreter;
        o << ",\"term\":" << jstr(in.interpret(*s.term)) << ",\"cterm\":" << jstr(in.interpret(*s.term, true)) << ",\"rterm\":" << jstr(s.term.__repr__(&in));
        if (s.task != nullptr)
            o << ",\"sent\":" << jstr(in.interpret(*s.task->sentence)) << ",\"csent\":" << jstr(in.interpret(*s.task->sentence, true))
              << ",\"task\":" << jstr(in.interpret(*s.task)) << ",\"ctask\":" << jstr(in.interpret(*s.task, true))
              << ",\"rsent\":" << jstr(s.task->sentence.__repr__()) << ",\"rtask\":" << jstr(s.task.__repr__(&in));
        o << ",\"raw\":" << dumped(s.term);
    }
    else if (op == "sentence") // slot, punctuation, term slot, f, c (thousandths, or -), tense: eternal, or an occurrence time
    {
        using namespace SENTENCE;
        PUNCTUATION::Punctuation p = f[2] == "." ? PUNCTUATION::Judgement : f[2] == "?" ? PUNCTUATION::Question : f[2] == "!" ? PUNCTUATION::Goal : PUNCTUATION::Quest;
        TRUTH::pTruth truth = f[4] == "-" ? nullptr : TRUTH::Truth::create(std::stoi(f[4]) / 1000.0f, std::stoi(f[5]) / 1000.0f);
        pStamp stamp = f[6] == "eternal" ? nullptr : Stamp::create((signed int)std::stoi(f[6]));
        auto term = slot(f[3]).term;
        pSentence s = f[10] == "plain" && stamp == nullptr && truth == nullptr ? Sentence::create(term, p)
                      : f[10] == "plain"                                       ? Sentence::create(term, p, truth, stamp)
                      : p == PUNCTUATION::Judgement                            ? pSentence(new Judgement(term, truth, stamp))
                      : p == PUNCTUATION::Question                             ? pSentence(new Question(term, stamp))
                      : p == PUNCTUATION::Goal                                 ? pSentence(new Goal(term, truth, stamp))
                                                                               : pSentence(new Quest(term, stamp));
        auto b = BUDGET::pBudget(new BUDGET::Budget(std::stoi(f[7]) / 1000.0f, std::stoi(f[8]) / 1000.0f, std::stoi(f[9]) / 1000.0f));
        pTask t;
        t = pTask(new TASK::Task(b, s));
        slots[f[1]] = {s->term, t};
        o << ",";
        task(o, t);
    }
    else if (op == "order") // slots...
    {
        size_t n = f.size() - 1;
        o << ",\"lt\":[";
        for (size_t a = 0; a < n; a++)
        {
            o << (a ? ",[" : "[");
            for (size_t b = 0; b < n; b++)
                o << (b ? "," : "") << (*slot(f[a + 1]).term < *slot(f[b + 1]).term);
            o << "]";
        }
        o << "],\"eq\":[";
        for (size_t a = 0; a < n; a++)
        {
            o << (a ? ",[" : "[");
            for (size_t b = 0; b < n; b++)
                o << (b ? "," : "") << (*slot(f[a + 1]).term == *slot(f[b + 1]).term);
            o << "]";
        }
        o << "],\"hash\":[";
        for (size_t a = 0; a < n; a++)
        {
            o << (a ? ",[" : "[");
            for (size_t b = 0; b < n; b++)
                o << (b ? "," : "") << (UTILS::hash(*slot(f[a + 1]).term) == UTILS::hash(*slot(f[b + 1]).term));
            o << "]";
        }
        o << "]";
    }
    else if (op == "live")
    {
        o << ",\"names\":[";
        bool first = true;
        for (auto &p : INTERPRETER::interpreter.dictionary_inv)
        {
            o << (first ? "" : ",") << jstr(p.first);
            first = false;
        }
        o << "],\"size\":" << INTERPRETER::interpreter.dictionary.size() << ",\"objects\":" << INTERPRETER::interpreter.objects.size() << ",\"nodes\":[";
        first = true;
        for (auto it = registry.begin(); it != registry.end();)
        {
            if (it->second.expired())
            {
                it = registry.erase(it);
                continue;
            }
            o << (first ? "" : ",") << it->first;
            first = false;
            ++it;
        }
        o << "]";
    }
    else if (op == "reset")
    {
        slots.clear();
        bags.clear();
        parsers.clear();
        GLOBAL::time = 0;
        if (configured)     // until then the configuration is the one the library starts with
            default_config();
        configured = false;
        mode = "plain";
    }
    else if (op == "config") // name, value (the duration: as it is; otherwise in millionths)
    {
        configured = true;
        if (f[1] == "duration")
            CONFIG::temporal_duration = std::stoul(f[2]);
        else
            configure(f[1], std::stol(f[2]) / 1000000.0);
    }
    // containers of components
    else if (op == "tmake" || op == "tlist" || op == "tset" || op == "tinit") // bag, commutative, slots...
    {
        bool comm = f[2] == "1";
        vector<pTerm> v;
        std::list<pTerm> l;
        for (size_t j = 3; j < f.size(); j++)
        {
            v.push_back(slot(f[j]).term);
            l.push_back(slot(f[j]).term);
        }
        std::set<pTerm, Terms::compare> few(v.begin(), v.end());
        size_t n = v.size();
        bags[f[1]] = op == "tmake"               ? pTerms(new Terms(v, comm))
                     : op == "tlist"             ? pTerms(new Terms(l, comm))
                     : op == "tset" && comm      ? Terms::create(few, true)
                     : op == "tinit" && n == 1   ? pTerms(new Terms({v[0]}, comm))
                     : op == "tinit" && n == 2   ? pTerms(new Terms({v[0], v[1]}, comm))
                     : op == "tinit" && n == 3   ? pTerms(new Terms({v[0], v[1], v[2]}, comm))
                                                 : Terms::create(v, comm);
        o << ",";
        bag(o, bags[f[1]]);
    }
    else if (op == "tempty") // bag, commutative
    {
        bags[f[1]] = Terms::create(f[2] == "1");
        o << ",";
        bag(o, bags[f[1]]);
    }
    else if (op == "tpush") // bag, slot
    {
        bag_at(f[1])->push_back(slot(f[2]).term);
        o << ",";
        bag(o, bags[f[1]]);
    }
    else if (op == "tcopy") // bag, commutative, bag
    {
        bags[f[1]] = pTerms(new Terms(*bag_at(f[3]), f[2] == "1"));
        o << ",";
        bag(o, bags[f[1]]);
    }
    else if (op == "tshow")
    {
        o << ",";
        bag(o, bag_at(f[1]));
    }
    else if (op == "tunion" || op == "tinter" || op == "tdiff") // bag, bags...
    {
        vector<pTerms> v;
        for (size_t j = 2; j < f.size(); j++)
            v.push_back(bag_at(f[j]));
        auto r = op == "tunion" ? Terms::union_(v) : op == "tinter" ? Terms::intersection(v) : Terms::difference(v);
        bags[f[1]] = r;
        o << ",";
        bag(o, r);
    }
    else if (op == "titer") // bag, start, step: walk with ++ and look at begin()+k, end()-k
    {
        auto &b = bag_at(f[1]);
        o << ",\"fwd\":[";
        for (int j = 0; j < (int)b->size(); j++)
        {
            o << (j ? "," : "");
            dump(o, *(b->begin() + j));
        }
        o << "],\"bwd\":[";
        for (int j = 1; j <= (int)b->size(); j++)
        {
            o << (j > 1 ? "," : "");
            dump(o, *(b->end() - j));
        }
        o << "],\"post\":[";
        int left = (int)b->size();
        for (auto it = b->begin(); it != b->end() && left-- > 0;)
        {
            o << (left + 1 < (int)b->size() ? "," : "");
            dump(o, *it++);
        }
        // an iterator assigned and moved on leaves the other where it is
        o << "],\"held\":[";
        auto at = b->begin();
        for (int j = 0; j < (int)b->size(); j++)
        {
            auto ahead = b->end();
            ahead = at;
            ++ahead;
            o << (j ? "," : "");
            dump(o, *at);
            at = ahead;
        }
        o << "],\"empty\":" << (b->begin() == b->end()) << ",\"nonempty\":" << (b->begin() != b->end());
    }
    else
        throw Unknown();
    o << "}";
    return o.str();
}

int main()
{
    string line;
    while (std::getline(std::cin, line))
    {
        vector<string> f;
        size_t from = 0;
        while (true)
        {
            auto to = line.find('\t', from);
            if (to == string::npos)
            {
                f.push_back(line.substr(from));
                break;
            }
            f.push_back(line.substr(from, to - from));
            from = to + 1;
        }
        string answer;
        try
        {
            answer = run(f);
        }
        catch (const NoSlot &)
        {
            if (makers.count(f[0]))
                slots.erase(f[1]);
            answer = "{\"res\":\"noslot\"}";
        }
        catch (const Unknown &e)
        {
            std::cerr << "driver: " << line << std::endl;
            return 99;
        }
        catch (const std::exception &e)
        {
            answer = "{\"res\":\"exc\",\"what\":" + jstr(e.what()) + "}";
        }
        catch (...)
        {
            answer = "{\"res\":\"exc\",\"what\":\"?\"}";
        }
        std::cout << answer << "\n" << std::flush;
    }
    slots.clear();
    bags.clear();
    parsers.clear();
    std::cout << "{\"res\":\"end\",\"left\":" << INTERPRETER::interpreter.dictionary.size() << "}\n" << std::flush;
    return 0;
}
