// Case conversion of symbol sets, case-insensitive matching, and character categories.
#include "TameParse/TameParse.h"
#include "TameParse/Util/unicode.h"
#include "json.h"
#include "dump.h"
using namespace util;

static symbol_set setof(const J& rs) { symbol_set s; for (size_t i = 0; i < rs.size(); ++i) s |= range<int>((int) rs[i][0].n, (int) rs[i][1].n); return s; }
static J ranges(const symbol_set& s) {
    J r = J::array();
    for (symbol_set::iterator i = s.begin(); i != s.end(); ++i) { J p = J::array(); p.push(J(i->lower())); p.push(J(i->upper())); r.push(p); }
    return r;
}
static std::vector<int> u16(int c) {
    std::vector<int> r;
    if (c < 0x10000) r.push_back(c); else { r.push_back(0xd800 + ((c - 0x10000) >> 10)); r.push_back(0xdc00 + ((c - 0x10000) & 0x3ff)); }
    return r;
}
static bool matches(const basic_lexer& l, const std::vector<int>& w) {
    lexeme_stream* s = l.create_stream(new vec_stream(w));
    lexeme* x = NULL; (*s) >> x;
    bool r = x && x->content().size() == w.size() && x->matched() == 1;
    delete x; delete s;
    return r;
}
static ndfa* compiled(ndfa_regex& n) { ndfa* u = n.to_ndfa_with_unique_symbols(); ndfa* d = u->to_dfa(); delete u; return d; }

static std::map<std::string, basic_lexer*> cache;

J observe(const J& c) {
    J o = J::object();
    if (c.at("kind").s == "set") {
        unicode u; symbol_set s = setof(c.at("set"));
        o["upper"] = ranges(u.to_upper(s)); o["lower"] = ranges(u.to_lower(s));
    } else if (c.at("kind").s == "cat") {
        // which of the characters of a window does {unicode-...} match?
        std::string name = c.at("name").s;
        if (!cache[name]) {
            ndfa_regex n; std::string re = "{" + name + "}";
            n.add_regex(0, re, accept_action(1));
            ndfa* d = compiled(n); cache[name] = new dfa_lexer<int, state_machine_compact_table<> >(*d); delete d;
        }
        J m = J::array();
        for (int k = (int) c.at("lo").n; k < (int) c.at("hi").n; ++k) if (matches(*cache[name], u16(k))) m.push(J(k));
        o["matched"] = m;
    } else {
        // a literal or one-character expression, matched without regard to case
        ndfa_regex n; n.set_case_insensitive(true);
        symbol_string w; w += (int) c.at("chr").n;
        if (c.at("lit").b) n.add_literal(0, w, accept_action(1)); else n.add_regex(0, w, accept_action(1));
        ndfa* d = compiled(n); dfa_lexer<int, state_machine_compact_table<> > l(*d); delete d;
        J m = J::array(); const J& p = c.at("probe");
        for (size_t i = 0; i < p.size(); ++i) if (matches(l, u16((int) p[i].n))) m.push(p[i]);
        o["matched"] = m;
    }
    return o;
}
