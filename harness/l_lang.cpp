// Takes a definition file (and the files it imports) through the compiler's stages, as the tool does, and records the
// diagnostics, the machine, and what lexer and parser do with texts.
#include "TameParse/TameParse.h"
#include "TameParse/Compiler/parser_stage.h"
#include "TameParse/Compiler/import_stage.h"
#include "TameParse/Compiler/language_builder_stage.h"
#include "TameParse/Compiler/language_stage.h"
#include "TameParse/Compiler/lexer_stage.h"
#include "TameParse/Compiler/lr_parser_stage.h"
#include "TameParse/Compiler/test_stage.h"
#include "TameParse/Compiler/OutputStages/cplusplus.h"
#include "memcons.h"
#include "lrgram.h"
#include <memory>
using namespace compiler;
using namespace yy_language;
using namespace dfa;

struct text_actions {
    lrgram* g; lexeme_stream* in; J* ev; int next;
    text_actions(lrgram* g_, lexeme_stream* s, J* e) : g(g_), in(s), ev(e), next(0) {}
    ~text_actions() { delete in; }
    lexeme* read() { lexeme* l = NULL; (*in) >> l; return l; }
    int note(const char* a, int sym, const J& rhs, const J& kids, int at) {
        J e = J::object(); e["a"] = J(a); e["s"] = J((long) sym); e["r"] = rhs; e["c"] = kids; e["p"] = J((long) at);
        int id = ++next; e["id"] = J((long) id); ev->push(e); return id;
    }
    int shift(const lexeme_container& l) {
        return note("s", l.item() && g->term_of.count(l->matched()) ? g->term_of[l->matched()] : -99, J::array(), J::array(), l.item() ? l->pos().offset() : -1);
    }
    int reduce(int nt, int ruleId, const std::vector<int>& items, const position& p) {
        const rule_container& r = g->gram.rule_with_identifier(ruleId);
        J kids = J::array(); for (size_t i = items.size(); i > 0; --i) kids.push(J((long) items[i - 1]));
        int head = g->index(g->gram.item_with_identifier(nt), true);
        if (head != g->index(r->nonterminal(), true)) head = -98;
        return note("r", head, g->rhs(*r), kids, p.offset());
    }
};
typedef parser<int, text_actions> text_parser;

// runs the test blocks of the root file, as --run-tests does
static J run_tests(const J& c) {
    J t = J::object(); J out = J::array(); J res = J::object();
    memcons* con = new memcons(c); con->d->together = true;
    console_container cons(con, true);
    std::wstring root = c.at("root").ws();
    parser_stage ps(cons, root); ps.compile();
    if (!con->exit_code() && ps.definition_file().item()) {
        import_stage is(cons, root, ps.definition_file()); is.compile();
        if (!con->exit_code()) { test_stage ts(cons, root, ps.definition_file(), &is); ts.compile(); }
    }
    t["errs"] = con->errors(); t["code"] = J((long) con->exit_code());
    std::wstring line; std::wstringstream text(con->d->msg.str());
    while (std::getline(text, line)) { std::string n; for (size_t i = 0; i < line.size(); ++i) n += line[i] < 127 ? (char) line[i] : '?'; out.push(J(n)); }
    t["out"] = out;
    return t;
}

J observe(const J& c) {
    J o = J::object();
    if (c.has("blocks")) o["t"] = run_tests(c);
    memcons* con = new memcons(c);
    console_container cons(con, true);
    std::wstring root = c.at("root").ws(), lang = c.at("target").ws();
    o["stage"] = J("parse");
    o["init"] = J::array(); o["states"] = J::array(); o["conf"] = J::array(); o["toks"] = J::array(); o["runs"] = J::array();
    parser_stage ps(cons, root); ps.compile();
    std::unique_ptr<import_stage> is; std::unique_ptr<language_builder_stage> lb;
    std::unique_ptr<lexer_stage> lx; std::unique_ptr<lr_parser_stage> lr;
    if (!con->exit_code() && ps.definition_file().item()) {
        o["stage"] = J("import");
        is.reset(new import_stage(cons, root, ps.definition_file())); is->compile();
    }
    if (is.get() && !con->exit_code()) {
        o["stage"] = J("language");
        lb.reset(new language_builder_stage(cons, root, is.get())); lb->compile();
    }
    language_stage* ls = lb.get() ? lb->language_with_name(lang) : NULL;
    if (ls && !con->exit_code()) {
        o["stage"] = J("lexer");
        ls->report_unused_symbols();
        lx.reset(new lexer_stage(cons, is->file_with_language(lang), ls)); lx->compile();
    }
    if (lx.get() && !con->exit_code()) {
        o["stage"] = J("parser");
        std::vector<std::wstring> start;
        for (size_t i = 0; i < c.at("start").size(); ++i) start.push_back(c.at("names")[(int) c.at("start")[i].n - 1].ws());
        lr.reset(new lr_parser_stage(cons, is->file_with_language(lang), ls, lx.get(), start)); lr->compile();
    }
    o["errs"] = con->errors();
    if (!lr.get() || !lr->get_tables()) return o;
    if (c.has("build")) { o["stage"] = J("built"); return o; }
    o["stage"] = J("run");
    if (c.has("gen")) {
        J w = J::array();
        { output_cplusplus out(cons, root, lx.get(), ls, lr.get(), c.at("gen").ws(), L"Gen", L""); out.compile(); }
        std::map<std::wstring, std::string> f = con->d->written;
        for (std::map<std::wstring, std::string>::iterator x = f.begin(); x != f.end(); ++x) { J e = J::array(); e.push(J(std::string(x->first.begin(), x->first.end()))); e.push(J(x->second)); w.push(e); }
        o["written"] = w;
    }
    lrgram g(c.at("syms"), c.at("names"), const_cast<grammar&>(*ls->grammar()), *ls->terminals());
    J init = J::array(); for (size_t i = 0; i < c.at("start").size(); ++i) init.push(J((long) i));
    o["init"] = init; o["states"] = dump_states(*lr->get_parser(), g);
    J conf = J::array();
    { conflict_list cl; conflict::find_conflicts(*lr->get_parser(), cl); for (size_t i = 0; i < cl.size(); ++i) { J x = J::object(); x["st"] = J((long) cl[i]->state()); x["tok"] = J((long) g.index(cl[i]->token())); conf.push(x); } }
    o["conf"] = conf;
    J toks = J::array(), runs = J::array();
    text_parser p(*lr->get_tables());
    for (size_t i = 0; i < c.at("inputs").size(); ++i) {
        std::wstring text = c.at("inputs")[i].ws();
        { std::wstringstream in(text); std::unique_ptr<lexeme_stream> s(lx->get_lexer()->create_stream_from(in)); J ts = J::array();
          for (;;) { lexeme* l = NULL; (*s) >> l; if (!l) break; lexeme_container lc(l, true);
            J t = J::array(); t.push(J((long) (g.term_of.count(l->matched()) ? g.term_of[l->matched()] : -1))); t.push(J((long) l->pos().offset())); t.push(J((long) l->content().size())); ts.push(t); }
          toks.push(ts); }
        for (size_t k = 0; k < c.at("start").size(); ++k) {
            std::wstringstream in(text); J ev = J::array();
            text_parser::state* s = p.create_parser(new text_actions(&g, lx->get_lexer()->create_stream_from(in), &ev), (int) k);
            int res = 2;
            for (int n = 0; n < 4000; ++n) { parser_result::result r = s->process(); if (r == parser_result::more) continue; res = r == parser_result::accept ? 1 : 0; break; }
            J r = J::object(); r["k"] = J((long) k + 1); r["i"] = J((long) i + 1); r["res"] = J((long) res); r["ev"] = res == 2 ? J::array() : ev;
            int at = -1; if (res == 0) at = s->look().item() ? s->look()->pos().offset() : (int) text.size();
            r["at"] = J((long) at);
            runs.push(r); delete s;
        }
    }
    o["toks"] = toks; o["runs"] = runs;
    return o;
}
