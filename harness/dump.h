// Projections of the library's automata and lexers onto the specification's vocabulary.
#pragma once
#include <sstream>
using namespace std; using namespace dfa; using namespace contextfree; using namespace lr;

inline symbol_string syms(const J& j) { symbol_string r; for (size_t i = 0; i < j.size(); ++i) r += (int) j[i].n; return r; }

inline J dump(const ndfa& a) {
    J o = J::object(); o["n"] = J((long) a.count_states());
    J tr = J::array(), acc = J::array();
    const symbol_map& sm = a.symbols();
    for (int s = 0; s < a.count_states(); ++s) {
        const state& st = a.get_state(s);
        for (state::iterator t = st.begin(); t != st.end(); ++t) {
            J e = J::array(); e.push(J(s)); e.push(J(t->new_state()));
            J rs = J::array();
            const symbol_set& set = sm[t->symbol_set()];
            for (symbol_set::iterator r = set.begin(); r != set.end(); ++r) { J p = J::array(); p.push(J(r->lower())); p.push(J(r->upper())); rs.push(p); }
            e.push(rs); tr.push(e);
        }
        const ndfa::accept_action_list& al = a.actions_for_state(s);
        if (!al.empty()) {
            J e = J::array(); e.push(J(s)); J l = J::array();
            for (ndfa::accept_action_list::const_iterator x = al.begin(); x != al.end(); ++x) l.push(J((*x)->symbol()));
            e.push(l); acc.push(e);
        }
    }
    o["tr"] = tr; o["acc"] = acc;
    return o;
}

// a lexer_symbol_stream over a vector
class vec_stream : public lexer_symbol_stream {
    std::vector<int> m_Syms; size_t m_Pos;
public:
    vec_stream(const std::vector<int>& s) : m_Syms(s), m_Pos(0) {}
    virtual lexer_symbol_stream& operator>>(int& r) { r = m_Pos < m_Syms.size() ? m_Syms[m_Pos++] : (int) symbol_set::end_of_input; return *this; }
};

// the lexemes a stream delivers, setting the initial state before each one if there is a schedule
inline J drain(lexeme_stream* s, size_t max, const std::vector<int>* sched = NULL) {
    J r = J::array();
    for (size_t guard = 0; guard <= max + 2; ++guard) {
        if (sched && guard < sched->size() && (*sched)[guard] > 0) s->set_initial_state((*sched)[guard]);
        lexeme* x = NULL; (*s) >> x;
        if (!x) break;
        J t = J::object(); t["sym"] = J(x->matched()); t["text"] = J::list(x->content());
        t["off"] = J(x->pos().offset()); t["line"] = J(x->pos().line()); t["col"] = J(x->pos().column());
        position f = x->final_pos(); t["foff"] = J(f.offset()); t["fline"] = J(f.line()); t["fcol"] = J(f.column());
        r.push(t); delete x;
    }
    lexeme* x = NULL; (*s) >> x;            // the end of input stays the end
    if (x) { J t = J::object(); t["sym"] = J(-99); t["text"] = J::array(); r.push(t); delete x; }
    delete s;
    return r;
}
inline J tokens(const basic_lexer& l, const std::vector<int>& in) { return drain(l.create_stream(new vec_stream(in)), in.size()); }

// the symbol the lexer gives to the whole of a word, or -1
inline long whole(const basic_lexer& l, const J& word) {
    lexeme_stream* s = l.create_stream(new vec_stream(word.ints()));
    lexeme* x = NULL; (*s) >> x;
    long r = -1;
    if (x) { if (x->content().size() == word.size()) r = x->matched(); delete x; }
    delete s;
    return r;
}
