// Compiles sets of regular expressions and dumps the automata at every stage of the pipeline,
// together with what the resulting lexers make of given inputs.
#include "TameParse/TameParse.h"
#include "json.h"
#include "dump.h"

J observe(const J& c) {
    ndfa_regex n;
    n.set_case_insensitive(c.at("ci").b);
    n.set_use_surrogates(c.at("surr").b);
    const J& defs = c.at("defs");
    for (size_t i = 0; i < defs.size(); ++i) {
        if (defs[i].at("kind").s == "lit") n.define_expression_literal(syms(defs[i].at("name")), syms(defs[i].at("val")));
        else n.define_expression(syms(defs[i].at("name")), syms(defs[i].at("val")));
    }
    const J& ex = c.at("ex");
    long errors = 0;
    for (size_t i = 0; i < ex.size(); ++i) {
        if (ex[i].at("lit").b) n.add_literal(0, syms(ex[i].at("re")), accept_action((int) ex[i].at("sym").n));
        else {
            bool brackets = true;
            n.add_regex(0, syms(ex[i].at("re")), accept_action((int) ex[i].at("sym").n));
            if (c.at("check").b) errors += n.check_regex(syms(ex[i].at("re"))).size();
        }
    }
    J o = J::object();
    o["errors"] = J(errors);
    o["nfa"] = dump(n);
    ndfa* u = n.to_ndfa_with_unique_symbols();
    ndfa* d = u->to_dfa();
    o["dfa"] = dump(*d);
    lexer l(*d);
    const J& words = c.at("words");
    J w = J::array();
    for (size_t i = 0; i < words.size(); ++i) w.push(J(whole(l, words[i])));
    o["flat"] = w;
    delete u; delete d;
    return o;
}
