// References into one parser stack, and copies of one parser, used in any interleaving.
#include "lrgram.h"
#include <memory>

template<int depth> J stack_history(const J& c) {
    typedef parser_stack<int, depth> S;
    S* h[8] = {}; int len[8] = {};
    h[0] = new S(); (*h[0])->state = 0; (*h[0])->item = 0; len[0] = 1;
    J o = J::array();
    const J& ops = c.at("ops");
    for (size_t i = 0; i < ops.size(); ++i) {
        const std::string& op = ops[i][0].s; int a = (int) ops[i][1].n, b = (int) ops[i][2].n; long ret = 1;
        if (op == "push") { h[a]->push(b + 1000, b); ++len[a]; }
        else if (op == "pop") { ret = h[a]->pop() ? 1 : 0; if (ret) --len[a]; }
        else if (op == "copy") { h[b] = new S(*h[a]); len[b] = len[a]; }
        else if (op == "set") { *h[b] = *h[a]; len[b] = len[a]; }
        else if (op == "drop") { delete h[a]; h[a] = 0; }
        J all = J::array();
        for (int k = 0; k < 8; ++k) {
            J st = J::array();
            if (h[k]) {
                if (len[k] < 1 || len[k] > 100000) abort();
                for (int d = len[k] - 1; d > 0; --d) { const S& r = *h[k]; st.push(J((long) r[-d].item)); if (r[-d].state != (r[-d].item ? r[-d].item + 1000 : 0)) st.push(J(-1L)); }
                st.push(J((long) (*h[k])->item));
            }
            all.push(st);
        }
        J e = J::array(); e.push(J(ret)); e.push(all); o.push(e);
    }
    for (int k = 7; k >= 0; --k) delete h[k];
    return o;
}

// results are trees: [symbol, position] for a token, [symbol, kid, ...] negative symbol for a reduction
typedef std::shared_ptr<J> tree;
struct tree_actions {
    lrgram* g; std::vector<int> in; size_t pos; long* reads;
    tree_actions(lrgram* g_, const std::vector<int>& w, long* r) : g(g_), in(w), pos(0), reads(r) {}
    dfa::lexeme* read() {
        ++*reads;
        if (pos >= in.size()) return NULL;
        dfa::lexeme::symbols s; s.push_back(in[pos]);
        dfa::lexeme* r = new dfa::lexeme(s, dfa::position((int) pos, 0, (int) pos), g->item[in[pos]]->symbol()); ++pos; return r;
    }
    tree shift(const dfa::lexeme_container& l) { tree t(new J(J::array())); t->push(J((long) (g->term_of.count(l->matched()) ? g->term_of[l->matched()] : -99))); t->push(J((long) l->pos().offset())); return t; }
    tree reduce(int nt, int, const std::vector<tree>& items, const dfa::position&) {
        tree t(new J(J::array())); t->push(J((long) g->index(g->gram.item_with_identifier(nt), true)));
        for (size_t i = items.size(); i > 0; --i) t->push(items[i - 1] ? *items[i - 1] : J::array()); return t;
    }
};

J observe(const J& c) {
    J o = J::object();
    if (c.at("kind").s == "stack") {
        switch ((int) c.at("init").n) {
            case 3: o["h"] = stack_history<3>(c); break;
            case 2: o["h"] = stack_history<2>(c); break;
            case 5: o["h"] = stack_history<5>(c); break;
            default: o["h"] = stack_history<64>(c); break;
        }
        return o;
    }
    lrgram g(c.at("syms"));
    lalr_builder b(g.gram, g.terms);
    int st = b.add_initial_state(g.item[(int) c.at("start")[0].n]);
    b.complete_parser();
    J init = J::array(); init.push(J((long) st)); o["init"] = init;
    o["states"] = dump_states(b, g);
    J conf = J::array(); conflict_list cl; conflict::find_conflicts(b, cl);
    o["nconf"] = J((long) cl.size());
    typedef parser<tree, tree_actions> P;
    P p(b, NULL);
    long reads = 0;
    P::state* h[8] = {}; int done[8] = {};
    h[0] = p.create_parser(new tree_actions(&g, c.at("w").ints(), &reads), st);
    J log = J::array(); const J& ops = c.at("ops");
    for (size_t i = 0; i < ops.size(); ++i) {
        const std::string& op = ops[i][0].s; int a = (int) ops[i][1].n, x = (int) ops[i][2].n;
        J e = J::array();
        if (op == "step" && !done[a]) {
            parser_result::result r = h[a]->process();
            if (r != parser_result::more) done[a] = 1;
            e.push(J(r == parser_result::more ? "more" : r == parser_result::accept ? "accept" : "reject"));
            tree t = h[a]->get_item();
            e.push(t ? *t : J::array());
        }
        else if (op == "copy") { h[x] = new P::state(*h[a]); done[x] = done[a]; }
        else if (op == "drop") { delete h[a]; h[a] = 0; }
        log.push(e);
    }
    for (int k = 0; k < 8; ++k) delete h[k];
    o["log"] = log; o["reads"] = J(reads);
    return o;
}
