// Builds arbitrary automata and dumps every transformation and table representation of them.
#include "TameParse/TameParse.h"
#include "TameParse/Dfa/hard_coded_symbol_table.h"
#include "json.h"
#include "dump.h"

template<class SM> J rows(const SM& sm, int n, const std::vector<int>& probe) {
    J r = J::array();
    for (int s = 0; s < n; ++s) { J row = J::array(); for (size_t i = 0; i < probe.size(); ++i) row.push(J(sm.run(s, probe[i]))); r.push(row); }
    return r;
}

template<class C, size_t bytes> J hard(const ndfa& d, const std::vector<int>& probe) {
    // the tables a generated lexer contains
    symbol_table<C> t;
    for (symbol_map::iterator s = d.symbols().begin(); s != d.symbols().end(); ++s)
        for (symbol_set::iterator r = s->first->begin(); r != s->first->end(); ++r)
            if (bytes > 2 || r->lower() < 0x10000) t.add_range(*r, s->second);   // 16-bit tables are for 16-bit symbols
    size_t size = 0; int* tab = t.table.to_hard_coded_table(size);
    hard_coded_symbol_table<C, bytes> hc(tab);
    typedef state_machine_compact_table<false>::entry entry;
    std::vector<entry> all; std::vector<size_t> off;
    for (int s = 0; s < d.count_states(); ++s) {
        off.push_back(all.size());
        std::vector<entry> row;
        for (state::iterator x = d.get_state(s).begin(); x != d.get_state(s).end(); ++x) { entry e = { x->symbol_set(), x->new_state() }; row.push_back(e); }
        std::sort(row.begin(), row.end(), state_machine_compact_table<false>::compare_entries);
        all.insert(all.end(), row.begin(), row.end());
    }
    off.push_back(all.size());
    std::vector<const entry*> ptr; all.push_back(entry());
    for (size_t i = 0; i < off.size(); ++i) ptr.push_back(&all[0] + off[i]);
    state_machine_tables<C, hard_coded_symbol_table<C, bytes> > sm(hc, &ptr[0], d.count_states());
    J r = rows(sm, d.count_states(), probe);
    delete[] tab;
    return r;
}

J observe(const J& c) {
    ndfa a;
    for (long i = 1; i < c.at("n").n; ++i) a.add_state();
    const J& tr = c.at("tr");
    for (size_t i = 0; i < tr.size(); ++i) {
        symbol_set s;
        for (size_t k = 0; k < tr[i][2].size(); ++k) s |= dfa::range<int>((int) tr[i][2][k][0].n, (int) tr[i][2][k][1].n);
        a.add_transition((int) tr[i][0].n, s, (int) tr[i][1].n);
    }
    const J& acc = c.at("acc");
    for (size_t i = 0; i < acc.size(); ++i) a.accept((int) acc[i][0].n, accept_action((int) acc[i][1].n, acc[i][2].n != 0));
    std::vector<int> init = c.at("init").ints(), k;
    for (size_t i = 0; i < init.size(); ++i) k.push_back((int) i);
    J o = J::object();
    o["copy"] = dump(ndfa(a));
    ndfa* u = a.to_ndfa_with_unique_symbols();
    ndfa* d = u->to_dfa(init);
    ndfa* m = d->to_compact_dfa(k);
    ndfa* f = d->to_compact_dfa(k, true);
    ndfa* g = m->to_ndfa_with_merged_symbols();
    o["uniq"] = dump(*u); o["dfa"] = dump(*d); o["compact"] = dump(*m); o["first"] = dump(*f); o["merged"] = dump(*g);
    J t = J::object();
    std::vector<int> probe = c.at("probe").ints(), wide = c.at("wide").ints();
    t["flat"] = rows(state_machine<wchar_t, state_machine_flat_table>(*g), g->count_states(), probe);
    t["compact"] = rows(state_machine<wchar_t, state_machine_compact_table<> >(*g), g->count_states(), probe);
    t["hard"] = hard<wchar_t, 2>(*g, probe);
    t["flat32"] = rows(state_machine<int, state_machine_flat_table>(*g), g->count_states(), wide);
    t["compact32"] = rows(state_machine<int, state_machine_compact_table<> >(*g), g->count_states(), wide);
    t["hard32"] = hard<int, 4>(*g, wide);
    o["tables"] = t;
    return o;
}
