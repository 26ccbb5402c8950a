// Everything the parser generator computes from a grammar: FIRST and FOLLOW sets, the LALR machine, its actions,
// the conflicts, and what the resulting parser does with words.
#include "lrrun.h"

J observe(const J& c) {
    lrgram g(c.at("syms"));
    int n = (int) c.at("syms").size();
    J o = J::object();
    if (c.at("sets").b) {
        J fi = J::array(), fo = J::array();
        std::vector<int> order = c.at("order").ints();
        std::vector<J> f(n + 1, J::array());
        for (size_t k = 0; k < order.size(); ++k) f[order[k]] = g.set(g.gram.first(g.item[order[k]]));
        for (int i = 1; i <= n; ++i) { fi.push(f[i]); fo.push(g.set(g.gram.follow(g.item[i]))); }
        o["first"] = fi; o["follow"] = fo;
    }
    std::vector<int> start = c.at("start").ints();
    if (!start.size()) return o;
    lalr_builder b(g.gram, g.terms);
    J init = J::array(); std::vector<int> st;
    for (size_t i = 0; i < start.size(); ++i) { st.push_back(b.add_initial_state(g.item[start[i]])); init.push(J((long) st.back())); }
    b.complete_parser();
    o["init"] = init;
    o["states"] = dump_states(b, g);
    J conf = J::array(); conflict_list cl; conflict::find_conflicts(b, cl);
    for (size_t i = 0; i < cl.size(); ++i) {
        J co = J::object(), sh = J::array(), re = J::array();
        for (lr0_item_set::const_iterator k = cl[i]->first_shift_item(); k != cl[i]->last_shift_item(); ++k) sh.push(g.lritem(**k));
        for (conflict::reduce_iterator k = cl[i]->first_reduce_item(); k != cl[i]->last_reduce_item(); ++k) re.push(g.lritem(*k->first));
        co["st"] = J((long) cl[i]->state()); co["tok"] = J((long) g.index(cl[i]->token())); co["sh"] = sh; co["re"] = re; conf.push(co);
    }
    o["conf"] = conf;
    // run it
    // (straight from the builder, or from tables that were copied or assigned)
    rec_parser made(b, NULL);
    parser_tables t2(made.get_tables()), t3(other_tables()); t3 = made.get_tables();
    rec_parser copied(t2), copied2(copied), assigned(&t3, false), assigned2(assigned);
    const rec_parser* which[4] = { &made, &copied, &copied2, &assigned2 };
    const rec_parser& p = *which[c.at("syms").size() % 4];
    J runs = J::array(), acc = J::array();
    const J& words = c.at("words");
    for (size_t k = 0; k < st.size(); ++k) {
        J a = J::array(); 
        for (size_t i = 0; i < words.size(); ++i) {
            rec_log log; int top = -1; std::vector<int> w = words[i].ints();
            int res = run_word(g, p, st[k], w, log, top);
            if (res == 1) a.push(words[i]);
            if (res == 2 || i < (size_t) c.at("nev").n || (res == 1 && a.size() <= (size_t) c.at("nev").n)) {
                J r = J::object(); r["k"] = J((long) k + 1); r["w"] = words[i]; r["res"] = J((long) res); r["top"] = J((long) top);
                r["ev"] = res == 2 ? J::array() : log.ev; runs.push(r);
            }
        }
        acc.push(a);
    }
    o["runs"] = runs; o["acc"] = acc;
    return o;
}
