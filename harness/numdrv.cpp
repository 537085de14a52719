// Drives truth and budget values.  The commands are specified in /verif/spec/NumberTrace.tla.
#include "wire.h"
#include "Config.h"
#include "Narsese/include/Budget.h"
#include "Narsese/include/Truth.h"
#include "NAL/Functions/include/ExtendedBooleanFunction.h"
#include "NAL/Functions/include/TemporalFunctions.h"
#include "NAL/Functions/include/TruthFunctions.h"
#include "NAL/Functions/include/UncertaintyMappingFunctions.h"
#include <map>

using namespace TRUTH_FUNCTIONS;
using TRUTH::pTruth;
using TRUTH::Truth;
using BUDGET::Budget;
using BUDGET::pBudget;
using std::map;
using std::string;
using std::vector;
using wire::micro;

static map<string, pTruth> truths;
static map<string, pBudget> budgets;

static pTruth &truth(const string &s)
{
    if (!truths.count(s))
        throw wire::NoSlot();
    return truths[s];
}
static double pc(const string &s) { return std::stoi(s) / 100.0; }
static double half(const string &s) { return std::stoi(s) / 2.0; }

static string everything()
{
    std::ostringstream o;
    bool first = true;
    o << ",\"truths\":[";
    for (auto &p : truths)
    {
        o << (first ? "" : ",") << "{\"s\":\"" << p.first << "\",\"f\":" << micro(p.second->f) << ",\"c\":" << micro(p.second->c) << ",\"k\":" << micro(p.second->k) << "}";
        first = false;
    }
    o << "],\"budgets\":[";
    first = true;
    for (auto &p : budgets)
    {
        o << (first ? "" : ",") << "{\"s\":\"" << p.first << "\",\"p\":" << micro(p.second->priority) << ",\"d\":" << micro(p.second->durability) << ",\"q\":" << micro(p.second->quality) << "}";
        first = false;
    }
    o << "]";
    return o.str();
}

static string run(const vector<string> &f)
{
    std::ostringstream more;
    auto &op = f[0];
    if (op == "reset")
    {
        truths.clear();
        budgets.clear();
        CONFIG::f = 1.0;
        CONFIG::c = 0.9;
        Budget::_priority_default = 0.9;
        Budget::_durability_default = 0.9;
        Budget::_quality_default = 0.5;
    }
    else if (op == "config")
    {
#define CV(x) ",\"" #x "\":" << micro(CONFIG::x)
#define CI(x) ",\"" #x "\":" << CONFIG::x
        more << ",\"values\":{\"f\":" << micro(CONFIG::f) << CV(c) << CV(c_judgement) << CV(c_goal) << CV(k) << CV(p_judgement) << CV(d_judgement) << CV(p_question) << CV(d_question)
             << CV(p_quest) << CV(d_quest) << CV(p_goal) << CV(d_goal) << CV(priority) << CV(durability) << CV(quality) << CI(temporal_duration) << CI(maximum_evidential_base_length)
             << CV(truth_epsilon) << CV(budget_epsilon) << CV(complexity_unit) << "}";
    }
    else if (op == "setconfig")
    {
        CONFIG::f = pc(f[1]);
        CONFIG::c = pc(f[2]);
    }
    else if (op == "truth")
        truths[f[1]] = Truth::create(pc(f[2]), pc(f[3]), half(f[4]));
    else if (op == "truthfc")
        truths[f[1]] = std::stoi(f[2]) % 2 ? Truth::create(pc(f[2]), pc(f[3])) : pTruth(new Truth(pc(f[2]), pc(f[3])));
    else if (op == "truthk")
        truths[f[1]] = Truth::create((float)half(f[2]));
    else if (op == "default")
        truths[f[1]] = Truth::create();
    else if (op == "look")
    {
        auto &t = *truth(f[1]);
        more << ",\"e\":" << micro(t.e()) << ",\"w\":" << micro(t.w()) << ",\"wp\":" << micro(t.w_p()) << ",\"wm\":" << micro(t.w_m()) << ",\"q\":" << micro(Budget::quality_from_truth(t))
             << ",\"text\":" << wire::jstr(t.__repr__());
        float a, b;
        w_from_truth(t, a, b);
        auto both = w_from_truth(t);
        if (std::get<0>(both) != a || std::get<1>(both) != b)
            a = b = -1;
        more << ",\"vp\":" << micro(a) << ",\"vm\":" << micro(b);
    }
    else if (op == "setw")
    {
        truth(f[1])->set_w(pc(f[2]), pc(f[3]));
    }
    else if (op == "fromw")
        truths[f[1]] = pTruth(new Truth(f[4] == "2" ? truth_from_w(pc(f[2]), pc(f[3])) : truth_from_w(pc(f[2]), pc(f[3]), half(f[4]))));
    else if (op == "weigh")
        more << ",\"w\":" << micro(fc_to_w(pc(f[1]), pc(f[2]), half(f[3]))) << ",\"wp\":" << micro(fc_to_w_plus(pc(f[1]), pc(f[2]), half(f[3]))) << ",\"wm\":" << micro(fc_to_w_minus(pc(f[1]), pc(f[2]), half(f[3])));
    else if (op == "back")
        more << ",\"f\":" << micro(w_to_f(pc(f[1]), pc(f[2]))) << ",\"c\":" << micro(w_to_c(pc(f[2]), half(f[3])));
    else if (op == "and" || op == "or" || op == "orlist")
    {
        vector<double> x;
        for (size_t j = 1; j < f.size(); j++)
            x.push_back(pc(f[j]));
        double v;
        bool a = op == "and";
        if (op == "orlist")
            v = x.size() == 0 ? BOOLEAN_FUNCTIONS::Or(std::initializer_list<double>{}) : x.size() == 1 ? BOOLEAN_FUNCTIONS::Or({x[0]})
              : x.size() == 2 ? BOOLEAN_FUNCTIONS::Or({x[0], x[1]}) : x.size() == 3 ? BOOLEAN_FUNCTIONS::Or({x[0], x[1], x[2]}) : BOOLEAN_FUNCTIONS::Or({x[0], x[1], x[2], x[3]});
        else if (x.size() == 2)
            v = a ? BOOLEAN_FUNCTIONS::And(x[0], x[1]) : BOOLEAN_FUNCTIONS::Or(x[0], x[1]);
        else if (x.size() == 3)
            v = a ? BOOLEAN_FUNCTIONS::And(x[0], x[1], x[2]) : BOOLEAN_FUNCTIONS::Or(x[0], x[1], x[2]);
        else if (x.size() == 4)
            v = a ? BOOLEAN_FUNCTIONS::And(x[0], x[1], x[2], x[3]) : BOOLEAN_FUNCTIONS::Or(x[0], x[1], x[2], x[3]);
        else
            throw wire::Unknown();
        more << ",\"value\":" << micro(v);
    }
    else if (op == "revision")
    {
        auto a = truth(f[1]), b = truth(f[2]);
        if (f[3] == "ref")
            truth_revision(*a, *b);
        else
            truth_revision(a, b);
    }
    else if (op == "deduction" || op == "induction" || op == "comparison")
    {
        auto a = truth(f[2]), b = truth(f[3]);
        truths[f[1]] = op == "deduction" ? truth_deduction(a, b) : op == "induction" ? truth_induction(a, b) : truth_comparison(a, b);
    }
    else if (op == "project")
    {
        auto a = truth(f[2]);
        int64_t scale = std::stoll(f[7]), s = std::stoll(f[3]) * scale, c = std::stoll(f[4]) * scale, t = std::stoll(f[5]) * scale;
        truths[f[1]] = f[8] == "1" ? TEMPORAL_FUNCTIONS::project(a, s, c, t) : TEMPORAL_FUNCTIONS::project(a, s, c, t, (size_t)(std::stoll(f[6]) * scale));
    }
    else if (op == "budget")
    {
        auto n = f.size() - 2;
        if (n == 3)
            budgets[f[1]] = Budget::create(pc(f[2]), pc(f[3]), pc(f[4]));
        else if (n == 2)
            budgets[f[1]] = Budget::create(pc(f[2]), pc(f[3]));
        else if (n == 1)
            budgets[f[1]] = Budget::create(pc(f[2]));
        else
            budgets[f[1]] = pBudget(new Budget());
    }
    else if (op == "setbudget")
    {
        Budget::_priority_default = pc(f[1]);
        Budget::_durability_default = pc(f[2]);
        Budget::_quality_default = pc(f[3]);
    }
    else if (op == "drop")
    {
        truths.erase(f[1]);
        budgets.erase(f[1]);
    }
    else
        throw wire::Unknown();
    return "{\"res\":\"ok\"" + more.str() + everything() + "}";
}

int main()
{
    return wire::serve(run, []
                       { truths.clear(); budgets.clear(); return string("{\"res\":\"end\"}"); });
}
