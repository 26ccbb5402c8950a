// Builds the library's grammar objects from a table of symbols, and maps what comes back to the table again.
#pragma once
#include "TameParse/TameParse.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/precedence_rewriter.h"
#include "TameParse/Lr/ignored_symbols.h"
#include "TameParse/Lr/lr1_rewriter.h"
#include "json.h"
#include <map>
#include <sstream>
using namespace contextfree;
using namespace lr;

struct lrgram {
    grammar own; terminal_dictionary ownterms;
    grammar& gram; terminal_dictionary& terms;
    std::vector<std::string> kind; std::vector<J> rules;
    std::vector<item_container> item;          // 1-based
    std::vector<bool> built;
    std::map<item_container, int> back;
    std::map<int, int> term_of;                // library terminal -> table
    std::map<int, int> nt_of;

    // a view of a grammar that exists already; names: what its terminals and nonterminals are called there
    lrgram(const J& syms, const J& names, grammar& g, terminal_dictionary& t) : gram(g), terms(t) {
        int n = (int) syms.size();
        kind.resize(n + 1); rules.resize(n + 1); built.resize(n + 1); item.resize(n + 1);
        for (int i = 1; i <= n; ++i) { kind[i] = syms[i - 1].at("k").s; rules[i] = syms[i - 1].at("r"); }
        for (int i = 1; i <= n; ++i) {
            if (kind[i] == "t") { int id = terms.symbol_for_name(names[i - 1].ws()); item[i] = item_container(new terminal(id), true); if (id >= 0) term_of[id] = i; built[i] = true; }
            else if (kind[i] == "n") { item[i] = gram.get_nonterminal(names[i - 1].ws()); nt_of[item[i]->symbol()] = i; built[i] = true; }
        }
        { std::map<int, int> named = term_of; for (std::map<int, int>::iterator t = named.begin(); t != named.end(); ++t) { const terminal_dictionary::symbol_set& ch = terms.children_of(t->first); for (terminal_dictionary::symbol_set::const_iterator k = ch.begin(); k != ch.end(); ++k) term_of[*k] = t->second; } }
        for (int i = 1; i <= n; ++i) { get(i); back[item[i]] = i; }
    }
    lrgram(const J& syms) : gram(own), terms(ownterms) {
        int n = (int) syms.size();
        kind.resize(n + 1); rules.resize(n + 1); built.resize(n + 1); item.resize(n + 1);
        for (int i = 1; i <= n; ++i) { kind[i] = syms[i - 1].at("k").s; rules[i] = syms[i - 1].at("r"); }
        for (int i = 1; i <= n; ++i) {
            std::wstringstream nm; nm << (kind[i] == "t" ? L"t" : L"N") << i;
            if (kind[i] == "t") { int id = terms.add_symbol(nm.str()); item[i] = item_container(new terminal(id), true); term_of[id] = i; built[i] = true; }
            else if (kind[i] == "n") { int id = gram.id_for_nonterminal(nm.str()); item[i] = gram.get_nonterminal(nm.str()); nt_of[id] = i; built[i] = true; }
        }
        for (int i = 1; i <= n; ++i) get(i);
        for (int i = 1; i <= n; ++i) {
            back[item[i]] = i;
            if (kind[i] != "n") continue;
            std::wstringstream nm; nm << L"N" << i;
            for (size_t r = 0; r < rules[i].size(); ++r) {
                grammar::builder b = (gram += nm.str());
                std::vector<int> v = rules[i][r].ints();
                for (size_t k = 0; k < v.size(); ++k) b << item[v[k]];
            }
        }
    }
    void fill(rule& to, const J& from) { std::vector<int> v = from.ints(); for (size_t k = 0; k < v.size(); ++k) to << get(v[k]); }
    const item_container& get(int i) {
        if (built[i]) return item[i];
        const std::string& k = kind[i];
        if (k == "opt")       { ebnf_optional* e = new ebnf_optional(); fill(*e->get_rule(), rules[i][0]); item[i] = item_container(e, true); }
        else if (k == "rep")  { ebnf_repeating* e = new ebnf_repeating(); fill(*e->get_rule(), rules[i][0]); item[i] = item_container(e, true); }
        else if (k == "star") { ebnf_repeating_optional* e = new ebnf_repeating_optional(); fill(*e->get_rule(), rules[i][0]); item[i] = item_container(e, true); }
        else if (k == "alt")  { ebnf_alternate* e = new ebnf_alternate(); fill(*e->get_rule(), rules[i][0]);
                                for (size_t r = 1; r < rules[i].size(); ++r) fill(*e->add_rule(), rules[i][r]); item[i] = item_container(e, true); }
        else if (k == "grd")  { guard* e = new guard(); fill(*e->get_rule(), rules[i][0]); item[i] = item_container(e, true); }
        else { std::cerr << "unknown kind " << k; exit(3); }
        built[i] = true;
        return item[i];
    }
    // 0: the start symbol's imaginary head, -1: end of input, -2: end of guard, -3: empty, -99: unknown
    int index(const item_container& it, bool head = false) {
        switch (it->type()) {
            case item::terminal: return term_of.count(it->symbol()) ? term_of[it->symbol()] : -99;
            case item::nonterminal: return nt_of.count(it->symbol()) ? nt_of[it->symbol()] : -99;
            case item::empty: return head ? 0 : -3;
            case item::eoi: return -1;
            case item::eog: return -2;
            default: { std::map<item_container, int>::const_iterator f = back.find(it); return f == back.end() ? -99 : f->second; }
        }
    }
    J rhs(const rule& r) { J a = J::array(); for (rule::iterator i = r.begin(); i != r.end(); ++i) a.push(J((long) index(*i))); return a; }
    J set(const item_set& s, bool nts = false) {
        J a = J::array();
        for (item_set::const_iterator i = s.begin(); i != s.end(); ++i) {
            int x = index(*i);
            if (!nts && x > 0 && kind[x] != "t" && kind[x] != "grd") continue;
            a.push(J((long) x));
        }
        return a;
    }
    J lritem(const lr0_item& i) { J o = J::array(); o.push(J((long) index(i.rule()->nonterminal(), true))); o.push(rhs(*i.rule())); o.push(J((long) i.offset())); return o; }
};

inline J dump_states(const lalr_builder& b, lrgram& g) {
    J states = J::array();
    for (int s = 0; s < b.count_states(); ++s) {
        J so = J::object(), items = J::array(), tr = J::array(), acts = J::array();
        const lalr_state& ls = *b.machine().state_with_id(s);
        for (int i = 0; i < ls.count_items(); ++i) { J io = J::object(); io["i"] = g.lritem(*ls[i]); io["la"] = g.set(ls.lookahead_for(i)); items.push(io); }
        const lalr_machine::transition_set& ts = b.machine().transitions_for_state(s);
        for (lalr_machine::transition_set::const_iterator t = ts.begin(); t != ts.end(); ++t) { J p = J::array(); p.push(J((long) g.index(t->first))); p.push(J((long) t->second)); tr.push(p); }
        const lr_action_set& as = b.actions_for_state(s);
        for (lr_action_set::const_iterator a = as.begin(); a != as.end(); ++a) {
            J ao = J::object(); static const char* nm[] = { "shift", "shiftstrong", "ignore", "reduce", "weakreduce", "accept", "goto", "divert", "guard" };
            ao["t"] = J(nm[(*a)->type()]); ao["s"] = J((long) g.index((*a)->item())); ao["n"] = J((long) (*a)->next_state());
            bool red = (*a)->type() == lr_action::act_reduce || (*a)->type() == lr_action::act_weakreduce || (*a)->type() == lr_action::act_accept || (*a)->type() == lr_action::act_guard;
            ao["h"] = J((long) (red ? g.index((*a)->rule()->nonterminal(), true) : 0)); ao["r"] = red ? g.rhs(*(*a)->rule()) : J::array();
            acts.push(ao);
        }
        so["items"] = items; so["tr"] = tr; so["acts"] = acts; states.push(so);
    }
    return states;
}

// the tables of some other grammar (for something to assign over)
inline const parser_tables& other_tables() {
    static grammar g; static terminal_dictionary d; static parser_tables* t = 0;
    if (!t) {
        d.add_symbol(L"x"); d.add_symbol(L"y"); terminal x(0), y(1);
        for (int i = 0; i < 7; ++i) { terminal z(i); g.identifier_for_item(item_container(z)); }
        (g += L"A") << L"B" << x << L"A"; (g += L"A") << y; (g += L"B") << x;
        nonterminal a(g.id_for_nonterminal(L"A")); lalr_builder b(g, d); b.add_initial_state(a); b.complete_parser();
        t = new parser_tables(b, NULL);
    }
    return *t;
}
