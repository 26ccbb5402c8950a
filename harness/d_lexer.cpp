// Runs lexers built in every way the library offers over the same inputs, read through every kind of stream.
#include "TameParse/TameParse.h"
#include "json.h"
#include "dump.h"
using namespace util;

static std::string utf8(const std::vector<int>& in) {
    std::string r;
    for (size_t i = 0; i < in.size(); ++i) {
        long c = in[i];
        if (c >= 0xd800 && c < 0xdc00 && i + 1 < in.size() && in[i + 1] >= 0xdc00 && in[i + 1] < 0xe000) { c = 0x10000 + ((c - 0xd800) << 10) + (in[i + 1] - 0xdc00); ++i; }
        if (c < 0x80) r += (char) c;
        else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
        else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
    }
    return r;
}
static bool narrow(const std::vector<int>& in) { for (size_t i = 0; i < in.size(); ++i) if (in[i] > 255) return false; return true; }

struct run {
    J o, toks, skip;
    run(const char* name, const char* starts) { o = J::object(); o["name"] = J(name); o["starts"] = J(starts); toks = J::array(); skip = J::array(); }
    void add(const J& t) { toks.push(t); skip.push(J(false)); }
    void none() { toks.push(J::array()); skip.push(J(true)); }
    J done() { o["toks"] = toks; o["skip"] = skip; return o; }
};

J observe(const J& c) {
    const J& ex = c.at("ex"); const J& defs = c.at("defs"); const J& inputs = c.at("inputs");
    std::vector<int> sched = c.at("sched").ints();
    size_t starts = 1;
    if (sched.size()) starts = 2;
    std::vector<std::vector<int> > in;
    for (size_t i = 0; i < inputs.size(); ++i) in.push_back(inputs[i].ints());
    J runs = J::array();

    // the lexer class, which knows one start state and plain expressions
    if (c.at("simple").b) {
        for (int compact = 0; compact < 2; ++compact) {
            lexer l;
            for (size_t i = 0; i < ex.size(); ++i) l.add_symbol(syms(ex[i].at("re")), (int) ex[i].at("sym").n);
            bool ok = l.verify();
            if (compact || c.at("pre").b) l.compile(compact != 0);
            run r(compact ? "lexer(compact)" : "lexer(flat)", "zero");
            for (size_t i = 0; i < in.size(); ++i) r.add(ok ? tokens(l, in[i]) : J::array());
            runs.push(r.done());
            if (!compact) {
                run a("char stream", "zero"), b("wide stream", "zero"), d("string reader", "zero"), e("wide string reader", "zero"), f("UTF-8 reader", "zero");
                for (size_t i = 0; i < in.size(); ++i) {
                    std::string s; std::wstring w;
                    for (size_t k = 0; k < in[i].size(); ++k) { s += (char) in[i][k]; w += (wchar_t) in[i][k]; }
                    size_t n = in[i].size();
                    if (narrow(in[i])) {
                        std::istringstream is(s); a.add(drain(l.create_stream_from<char>(is), n));
                        stringreader sr(s); d.add(drain(l.create_stream_from<char>(sr), n));
                    } else { a.none(); d.none(); }
                    std::wistringstream ws(w); b.add(drain(l.create_stream_from<wchar_t>(ws), n));
                    wstringreader wr(w); e.add(drain(l.create_stream_from<wchar_t>(wr), n));
                    std::istringstream us(utf8(in[i])); utf8reader ur(&us); f.add(drain(l.create_stream_from<wchar_t>(ur), n));
                }
                runs.push(a.done()); runs.push(b.done()); runs.push(d.done()); runs.push(e.done()); runs.push(f.done());
            }
        }
    }
    // automata built by hand, with all the transformations
    ndfa_regex n;
    for (size_t i = 1; i < starts; ++i) n.add_state();
    for (size_t i = 0; i < defs.size(); ++i) {
        if (defs[i].at("kind").s == "lit") n.define_expression_literal(syms(defs[i].at("name")), syms(defs[i].at("val")));
        else n.define_expression(syms(defs[i].at("name")), syms(defs[i].at("val")));
    }
    std::vector<int> init;
    for (size_t i = 0; i < starts; ++i) init.push_back((int) i);
    for (size_t i = 0; i < ex.size(); ++i) {
        if (ex[i].at("lit").b) n.add_literal((int) ex[i].at("start").n, syms(ex[i].at("re")), accept_action((int) ex[i].at("sym").n));
        else n.add_regex((int) ex[i].at("start").n, syms(ex[i].at("re")), accept_action((int) ex[i].at("sym").n));
    }
    ndfa* u = n.to_ndfa_with_unique_symbols();
    ndfa* d = u->to_dfa(init);
    ndfa* m = d->to_compact_dfa(init, c.at("firstaction").b);
    ndfa* g = m->to_ndfa_with_merged_symbols();
    {
        dfa_lexer<wchar_t, state_machine_flat_table> flat(*d);
        dfa_lexer<int, state_machine_compact_table<> > comp(*g);
        lexer viaDfa(*g);
        run a("flat DFA lexer", "sched"), b("compacted DFA lexer", "zero"), e("lexer(dfa)", "zero");
        for (size_t i = 0; i < in.size(); ++i) {
            a.add(drain(flat.create_stream(new vec_stream(in[i])), in[i].size(), &sched));
            b.add(tokens(comp, in[i])); e.add(tokens(viaDfa, in[i]));
        }
        runs.push(a.done()); runs.push(b.done()); runs.push(e.done());
    }
    if (starts > 1) {
        dfa_lexer<wchar_t, state_machine_flat_table, 0, 1> nl(*g);
        dfa_lexer<wchar_t, state_machine_flat_table, 1, 0> fs(*m);
        run a("lexer with a newline state", "newline"), b("lexer with a first state", "first");
        for (size_t i = 0; i < in.size(); ++i) { a.add(tokens(nl, in[i])); b.add(tokens(fs, in[i])); }
        runs.push(a.done()); runs.push(b.done());
    }
    delete u; delete d; delete m; delete g;
    J o = J::object(); o["runs"] = runs;
    return o;
}
