// Runs the parser with action rewriters installed: precedence, weak symbols, ignored symbols, LR(1) resolution.
#include "lrrun.h"

struct table_precedence : public precedence_rewriter {
    std::map<int, std::pair<int, associativity> > t;    // library terminal -> precedence
    virtual action_rewriter* clone() const { return new table_precedence(*this); }
    virtual int get_precedence(const item_container& term, const lr0_item_set&) const {
        std::map<int, std::pair<int, associativity> >::const_iterator f = t.find(term->symbol());
        return f == t.end() ? no_precedence : f->second.first;
    }
    virtual associativity get_associativity(const item_container& term, const lr0_item_set&) const {
        std::map<int, std::pair<int, associativity> >::const_iterator f = t.find(term->symbol());
        return f == t.end() ? nonassociative : f->second.second;
    }
};

J observe(const J& c) {
    lrgram g(c.at("syms"));
    J o = J::object();
    std::vector<int> start = c.at("start").ints();
    lalr_builder b(g.gram, g.terms), plain(g.gram, g.terms);
    std::vector<int> st; J init = J::array();
    for (size_t i = 0; i < start.size(); ++i) {
        st.push_back(b.add_initial_state(g.item[start[i]])); init.push(J((long) st.back()));
        plain.add_initial_state(g.item[start[i]]);
    }
    const J& prec = c.at("prec");
    if (prec.size()) {
        table_precedence* p = new table_precedence();
        for (size_t i = 0; i < prec.size(); ++i)
            p->t[g.item[(int) prec[i][0].n]->symbol()] = std::make_pair((int) prec[i][1].n, prec[i][2].s == "left" ? precedence_rewriter::left : prec[i][2].s == "right" ? precedence_rewriter::right : precedence_rewriter::nonassociative);
        b.add_rewriter(action_rewriter_container(p, true));
    }
    weak_symbols weak(&g.gram);
    const J& wk = c.at("weak");
    for (size_t i = 0; i < wk.size(); ++i) {
        item_set ws(&g.gram); std::vector<int> v = wk[i][1].ints();
        for (size_t k = 0; k < v.size(); ++k) ws.insert(g.item[v[k]]);
        weak.add_symbols(g.item[(int) wk[i][0].n], ws);
    }
    if (wk.size()) b.add_rewriter(action_rewriter_container(new weak_symbols(weak), true));
    if (c.at("lr1").b) b.add_rewriter(action_rewriter_container(new lr1_rewriter(), true));
    std::vector<int> ign = c.at("ignored").ints();
    if (ign.size()) {
        ignored_symbols* is = new ignored_symbols();
        for (size_t i = 0; i < ign.size(); ++i) is->add_item(g.item[ign[i]]);
        b.add_rewriter(action_rewriter_container(is, true));
    }
    b.complete_parser(); plain.complete_parser();
    o["init"] = init; o["states"] = dump_states(plain, g);
    J conf = J::array();
    { conflict_list cl; conflict::find_conflicts(b, cl); for (size_t i = 0; i < cl.size(); ++i) { J x = J::object(); x["st"] = J((long) cl[i]->state()); x["tok"] = J((long) g.index(cl[i]->token())); conf.push(x); } }
    o["conf"] = conf;
    J conf0 = J::array();
    { conflict_list cl; conflict::find_conflicts(plain, cl); for (size_t i = 0; i < cl.size(); ++i) { J x = J::object(); x["st"] = J((long) cl[i]->state()); x["tok"] = J((long) g.index(cl[i]->token())); conf0.push(x); } }
    o["conf0"] = conf0;
    rec_parser made(b, &weak);
    parser_tables t2(made.get_tables()), t3(other_tables()); t3 = made.get_tables();
    rec_parser copied(t2), copied2(copied), assigned(&t3, false);
    const rec_parser& p = !c.at("copy").b ? made : c.at("syms").size() % 2 ? assigned : copied2;
    J runs = J::array(), acc = J::array();
    // ignored and weak symbols are only judged on top of a grammar without conflicts
    const J& words = conf0.size() && prec.size() == 0 ? J::array() : c.at("words");
    for (size_t k = 0; k < st.size(); ++k) {
        J a = J::array();
        for (size_t i = 0; i < words.size(); ++i) {
            rec_log log; int top = -1;
            int res = run_word(g, p, st[k], words[i].ints(), log, top);
            if (res == 1) a.push(words[i]);
            if (res == 2 || i < (size_t) c.at("nev").n || (res == 1 && a.size() <= (size_t) c.at("nev").n)) {
                J r = J::object(); r["k"] = J((long) k + 1); r["w"] = words[i]; r["res"] = J((long) res); r["top"] = J((long) top);
                r["ev"] = res == 2 ? J::array() : log.ev; runs.push(r);
            }
        }
        acc.push(a);
    }
    o["runs"] = runs; o["acc"] = acc;
    return o;
}
