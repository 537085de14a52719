// Asks the library about copulas, connectors and marks.  The commands are specified in /verif/spec/LogicTrace.tla.
#include "wire.h"
#include "Config.h"
#include "Narsese/include/Connector.h"
#include "Narsese/include/Copula.h"
#include "Narsese/include/Sentence.h"
#include "Narsese/include/Narsese.h"
#include "Narsese/include/Tense.h"
#include "Narsese/include/Variable.h"
#include <map>

using std::string;
using std::vector;

#define C(t, n) {t, COPULA::Copula::n}
static const std::map<string, COPULA::Copula> copulas = {
    C("-->", Inheritance), C("<->", Similarity), C("{--", Instance), C("--]", Property), C("{-]", InstanceProperty), C("==>", Implication), C("=/>", PredictiveImplication),
    C("=|>", ConcurrentImplication), C("=\\>", RetrospectiveImplication), C("<=>", Equivalence), C("</>", PredictiveEquivalence), C("<|>", ConcurrentEquivalence)};
#undef C
#define C(t, n) {t, CONNECTOR::Connector::n}
static const std::map<string, CONNECTOR::Connector> connectors = {
    C("&&", Conjunction), C("||", Disjunction), C("*", Product), C("&|", ParallelEvents), C("&/", SequentialEvents), C("|", IntensionalIntersection), C("&", ExtensionalIntersection),
    C("-", ExtensionalDifference), C("~", IntensionalDifference), C("--", Negation), C("[", IntensionalSet), C("{", ExtensionalSet), C("\\", IntensionalImage), C("/", ExtensionalImage), C("#", List)};
#undef C

static string name(COPULA::Copula c)
{
    for (auto &p : copulas)
        if (p.second == c)
            return p.first;
    return c == COPULA::Copula::None ? "none" : "?";
}

static string run(const vector<string> &f)
{
    std::ostringstream more;
    auto &op = f[0];
    if (op == "reset")
        ;
    else if (op == "copula")
    {
        auto it = copulas.find(f[1]);
        if (it == copulas.end())
            throw wire::Unknown();
        auto c = it->second;
        more << ",\"text\":" << wire::jstr(COPULA::Repr[c]) << ",\"commutative\":" << COPULA::is_commutative(c) << ",\"higher\":" << COPULA::is_higher_order(c)
             << ",\"temporal\":" << COPULA::is_temporal(c) << ",\"symmetrized\":" << wire::jstr(name(COPULA::symmetrize(c))) << ",\"reversed\":" << wire::jstr(name(COPULA::reverse(c)));
    }
    else if (op == "connector" || op == "count")
    {
        auto it = connectors.find(f[1]);
        if (it == connectors.end())
            throw wire::Unknown();
        auto c = it->second;
        if (op == "connector")
            more << ",\"text\":" << wire::jstr(CONNECTOR::Repr[c]) << ",\"commutative\":" << CONNECTOR::is_commutative(c) << ",\"reducible\":" << CONNECTOR::is_reducible(c)
                 << ",\"temporal\":" << CONNECTOR::is_temporal(c) << ",\"single\":" << CONNECTOR::is_single_only(c) << ",\"double\":" << CONNECTOR::is_double_only(c)
                 << ",\"multiple\":" << CONNECTOR::is_multiple_only(c);
        else
        {
            vector<int> v;
            for (size_t j = 2; j < f.size(); j++)
                v.push_back(CONNECTOR::check_valid(c, (unsigned)std::stoul(f[j])));
            more << ",\"valid\":" << wire::items(v);
        }
    }
    else if (op == "marks")
    {
        using namespace SENTENCE;
        vector<string> puncts, kinds, tenses, prefixes;
        auto kind = [](Sentence &s)
        { return wire::items(vector<int>{s.is_judgement(), s.is_question(), s.is_goal(), s.is_quest()}); };
        for (auto p : {PUNCTUATION::Judgement, PUNCTUATION::Question, PUNCTUATION::Goal, PUNCTUATION::Quest})
        {
            puncts.push_back(wire::jstr(PUNCTUATION::Repr[p]));
            Sentence plain(nullptr, p);
            kinds.push_back(kind(plain));
        }
        Judgement a(nullptr);
        Question b(nullptr);
        Goal c(nullptr, nullptr);
        Quest d(nullptr);
        vector<string> own = {kind(a), kind(b), kind(c), kind(d)};
        for (auto t : {TENSE::Past, TENSE::Present, TENSE::Future, TENSE::Eternal})
            tenses.push_back(wire::jstr(TENSE::Repr[t]));
        for (auto p : {VARIABLE::Independent, VARIABLE::Dependent, VARIABLE::Qeury})
            prefixes.push_back(wire::jstr(VARIABLE::Repr[p]));
        more << ",\"puncts\":" << wire::items(puncts) << ",\"kinds\":" << wire::items(kinds) << ",\"own\":" << wire::items(own) << ",\"tenses\":" << wire::items(tenses)
             << ",\"prefixes\":" << wire::items(prefixes);
    }
    else
        throw wire::Unknown();
    return "{\"res\":\"ok\"" + more.str() + "}";
}

int main() { return wire::serve(run, [] { return string("{\"res\":\"end\"}"); }); }
