// Executes histories of symbol set operations, and builds maps and tables from the results.
#include "TameParse/TameParse.h"
#include "json.h"
#include "dump.h"

static J ranges(const symbol_set& s) {
    J r = J::array();
    for (symbol_set::iterator i = s.begin(); i != s.end(); ++i) { J p = J::array(); p.push(J(i->lower())); p.push(J(i->upper())); r.push(p); }
    return r;
}

static J sets(const symbol_map& m) { J r = J::array(); for (int i = 0; i < m.count_sets(); ++i) r.push(ranges(m[i])); return r; }
static J mapping(const remapped_symbol_map& m, const std::vector<int>& ids) {
    J r = J::array();
    for (size_t k = 0; k < ids.size(); ++k) {
        J l = J::array(); const remapped_symbol_map::new_symbol_set& n = m.new_symbols(ids[k]);
        for (remapped_symbol_map::new_symbol_set::const_iterator i = n.begin(); i != n.end(); ++i) l.push(J(*i + 1));
        r.push(l);
    }
    return r;
}

J observe(const J& c) {
    size_t K = (size_t) c.at("k").n;
    std::vector<symbol_set> reg(K);
    J o = J::object(), log = J::array();
    const J& ops = c.at("ops");
    for (size_t i = 0; i < ops.size(); ++i) {
        const std::string op = ops[i].at("op").s; symbol_set& d = reg[ops[i].at("dst").n - 1]; const symbol_set& s = reg[ops[i].at("src").n - 1];
        dfa::range<int> r((int) ops[i].at("lo").n, (int) ops[i].at("hi").n);
        bool alt = ops[i].at("alt").b;      // the same operation through the other spelling of it
        if (op == "or") { if (alt) d = d | r; else d |= r; }
        else if (op == "not") { if (alt) d = d.excluding(r); else d.exclude(r); }
        else if (op == "and") { if (alt) d = d & r; else d &= r; }
        else if (op == "inv") { if (alt) d = ~d; else d.invert(); }
        else if (op == "orS") { if (alt) d = d | s; else d |= s; }
        else if (op == "notS") { if (alt) d = d.excluding(s); else { symbol_set t(s); d.exclude(t); } }
        else if (op == "andS") { if (alt) d = d & s; else d &= s; }
        else if (op == "copy") { if (alt) { symbol_set* t = s.clone(); d = *t; delete t; } else d = s; }
        else if (op == "range") d = symbol_set(r);
        log.push(ranges(d));
    }
    o["log"] = log;
    std::vector<int> probe = c.at("probe").ints();
    J has = J::array(), empty = J::array(), eq = J::array(), ne = J::array(), lt = J::array(), le = J::array(), gt = J::array(), ge = J::array();
    for (size_t a = 0; a < K; ++a) {
        J h = J::array(); for (size_t i = 0; i < probe.size(); ++i) h.push(J((bool) reg[a][probe[i]]));
        has.push(h); empty.push(J(reg[a].empty()));
        J e = J::array(), n = J::array(), l = J::array(), m = J::array(), g = J::array(), q = J::array();
        for (size_t b = 0; b < K; ++b) {
            symbol_set x(reg[a]), y(reg[b]);        // compare copies: not the same object
            e.push(J(x == y)); n.push(J(x != y)); l.push(J(x < y)); m.push(J(x <= y)); g.push(J(x > y)); q.push(J(x >= y));
        }
        eq.push(e); ne.push(n); lt.push(l); le.push(m); gt.push(g); ge.push(q);
    }
    o["has"] = has; o["empty"] = empty; o["eq"] = eq; o["ne"] = ne; o["lt"] = lt; o["le"] = le; o["gt"] = gt; o["ge"] = ge;
    symbol_map sm; std::vector<int> ids; J jids = J::array(), found = J::array(), back = J::array();
    for (size_t a = 0; a < K; ++a) ids.push_back(sm.identifier_for_symbols(reg[a]));
    for (size_t a = 0; a < K; ++a) { jids.push(J(ids[a])); found.push(J(sm.find_identifier_for_symbols(reg[a]))); back.push(ranges(sm[ids[a]])); }
    o["ids"] = jids; o["found"] = found; o["back"] = back;
    remapped_symbol_map* d = remapped_symbol_map::deduplicate(sm);
    o["new"] = sets(*d); o["map"] = mapping(*d, ids); o["dups"] = J(d->has_duplicates());
    { remapped_symbol_map cp(*d); o["copynew"] = sets(cp); o["copymap"] = mapping(cp, ids); }
    symbol_translator<int> t(*d); symbol_translator<int> tc(t);
    J lk = J::array(), lc = J::array(), lw = J::array(), l8 = J::array();
    // narrower tables are for maps of narrower symbols
    symbol_map m16, m8;
    symbol_table<wchar_t> t16; symbol_table<unsigned char> t8;
    for (int i = 0; i < d->count_sets(); ++i) for (symbol_set::iterator r = (*d)[i].begin(); r != (*d)[i].end(); ++r) {
        if (r->lower() < 0x10000) t16.add_range(*r, i);
        if (r->lower() < 0x100) t8.add_range(*r, i);
    }
    for (size_t i = 0; i < probe.size(); ++i) {
        lk.push(J(t.set_for_symbol(probe[i]))); lc.push(J(tc.set_for_symbol(probe[i])));
        lw.push(J(probe[i] < 0x10000 ? t16.lookup(probe[i]) : -2));
        l8.push(J(probe[i] < 0x100 ? t8.lookup((unsigned char) probe[i]) : -2));
    }
    o["lookup"] = lk; o["lookupcopy"] = lc; o["lookupw"] = lw; o["lookupc"] = l8;
    delete d;
    return o;
}
