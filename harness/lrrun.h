// Runs the generic parser over a list of terminals and records everything it does.
#pragma once
#include "lrgram.h"

struct rec_trace;
struct rec_log { J ev; int next; rec_log() : ev(J::array()), next(0) {} };
static rec_log* cur_log = 0;

struct rec_actions {
    lrgram* g; std::vector<int> in; size_t pos; rec_log* log;
    rec_actions(lrgram* g_, const std::vector<int>& in_, rec_log* l) : g(g_), in(in_), pos(0), log(l) {}
    dfa::lexeme* read() {
        if (pos >= in.size()) return NULL;
        dfa::lexeme::symbols s; s.push_back(in[pos]);
        dfa::lexeme* r = new dfa::lexeme(s, dfa::position((int) pos, 0, (int) pos), g->item[in[pos]]->symbol());
        ++pos; return r;
    }
    int note(const char* a, int sym, const J& rhs, const J& kids, int at) {
        J e = J::object(); e["a"] = J(a); e["s"] = J((long) sym); e["r"] = rhs; e["c"] = kids; e["p"] = J((long) at);
        int id = ++log->next; e["id"] = J((long) id); log->ev.push(e); return id;
    }
    int shift(const dfa::lexeme_container& l) {
        return note("s", g->term_of.count(l->matched()) ? g->term_of[l->matched()] : -99, J::array(), J::array(), l->pos().offset());
    }
    int reduce(int nt, int ruleId, const std::vector<int>& items, const dfa::position& p) {
        const rule_container& r = g->gram.rule_with_identifier(ruleId);
        J kids = J::array(); for (size_t i = items.size(); i > 0; --i) kids.push(J((long) items[i - 1]));
        int head = g->index(g->gram.item_with_identifier(nt), true);
        if (head != g->index(r->nonterminal(), true)) head = -98;
        return note("r", head, g->rhs(*r), kids, p.offset());
    }
};
struct rec_trace : public no_parser_trace {
    void ignore(const lexeme_container& l) {
        if (!cur_log) return;
        J e = J::object(); e["a"] = J("i"); e["s"] = J((long) l->content<wchar_t>()[0]); e["r"] = J::array(); e["c"] = J::array(); e["p"] = J((long) l->pos().offset()); e["id"] = J(0L);
        cur_log->ev.push(e);
    }
};
typedef parser<int, rec_actions, rec_trace> rec_parser;

// result: 1 accepted, 0 rejected, 2 still going after limit steps
inline int run_word(lrgram& g, const rec_parser& p, int state, const std::vector<int>& w, rec_log& log, int& top, int limit = 1500) {
    cur_log = &log;
    rec_parser::state* s = p.create_parser(new rec_actions(&g, w, &log), state);
    int res = 2;
    for (int i = 0; i < limit; ++i) {
        parser_result::result r = s->process();
        if (r == parser_result::more) continue;
        res = r == parser_result::accept ? 1 : 0; break;
    }
    top = s->get_item();
    delete s; cur_log = 0;
    return res;
}
