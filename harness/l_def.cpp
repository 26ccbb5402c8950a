// Reads a definition file and records the definition that was read, or the errors.
// A definition is written down as the list of its words (d) with the places of its parts (p): where a part begins and ends.
#include "TameParse/TameParse.h"
#include "TameParse/Compiler/parser_stage.h"
#include "TameParse/Language/language_parser.h"
#include "memcons.h"
using namespace compiler;
using namespace yy_language;

struct writer {
    J d, p;
    writer() : d(J::array()), p(J::array()) {}
    void w(const std::wstring& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) r += s[i] < 127 ? (char) s[i] : '?'; d.push(J(r)); }
    void at(const block* b) { J x = J::array(); x.push(J((long) b->start_pos().offset())); x.push(J((long) b->end_pos().offset())); p.push(x); }
    // where what ends in a list ends is not said
    void from(const block* b) { J x = J::array(); x.push(J((long) b->start_pos().offset())); x.push(J((long) b->start_pos().offset())); p.push(x); }
    void items(const ebnf_item& i) { for (ebnf_item::iterator x = i.begin(); x != i.end(); ++x) item(*x); }
    void item(ebnf_item* i) {
        const ebnf_item_attributes& a = i->attributes();
        bool named = false;
        switch (i->get_type()) {
            case ebnf_item::ebnf_nonterminal: w(L"n"); named = true; break;
            case ebnf_item::ebnf_terminal: w(L"t"); named = true; break;
            case ebnf_item::ebnf_terminal_string: w(L"ts"); named = true; break;
            case ebnf_item::ebnf_terminal_character: w(L"tc"); named = true; break;
            case ebnf_item::ebnf_guard: w(a.guard_can_clash ? L"g!" : L"g"); break;
            case ebnf_item::ebnf_alternative: w(L"|"); break;
            case ebnf_item::ebnf_repeat_zero: w(L"*"); break;
            case ebnf_item::ebnf_repeat_one: w(L"+"); break;
            case ebnf_item::ebnf_optional: w(L"?"); break;
            case ebnf_item::ebnf_parenthesized: w(L"("); items(*i); w(L")"); return;
        }
        if (named) { w(i->source_identifier()); w(i->identifier()); }
        if (named || (i->get_type() >= ebnf_item::ebnf_repeat_zero)) from(i);
        items(*i);
        w(a.name);
        w(a.conflict_action == ebnf_item_attributes::conflict_shift ? L"shift" : a.conflict_action == ebnf_item_attributes::conflict_reduce ? L"reduce" : a.conflict_action == ebnf_item_attributes::conflict_weakreduce ? L"weak" : L"");
    }
    void lexemes(const wchar_t* kind, const lexer_block* b) {
        w(kind); w(b->is_weak() ? L"weak" : L""); w(b->is_case_sensitive() ? L"cs" : L""); w(b->is_case_insensitive() ? L"ci" : L"");
        for (lexer_block::iterator i = b->begin(); i != b->end(); ++i) {
            const lexeme_definition& x = **i;
            w(x.get_type() == lexeme_definition::literal ? L"literal" : x.get_type() == lexeme_definition::string ? L"string" : x.get_type() == lexeme_definition::character ? L"character" : L"regex");
            w(x.replace_definition() ? L"replace" : x.add_to_definition() ? L"|=" : L"="); w(x.identifier()); w(x.definition()); at(*i);
            J y = J::array(); y.push(J((long) x.definition_pos().offset())); y.push(J((long) x.definition_pos().offset())); p.push(y);
        }
    }
    void unit(const language_unit& u) {
        switch (u.type()) {
            case language_unit::unit_lexer_symbols: lexemes(L"lexer-symbols", u.lexer_symbols()); break;
            case language_unit::unit_lexer_definition: lexemes(L"lexer", u.lexer_definition()); break;
            case language_unit::unit_ignore_definition: lexemes(L"ignore", u.ignore_definition()); break;
            case language_unit::unit_keywords_definition: lexemes(L"keywords", u.keywords_definition()); break;
            case language_unit::unit_grammar_definition:
                w(L"grammar");
                for (grammar_block::iterator n = u.grammar_definition()->begin(); n != u.grammar_definition()->end(); ++n) {
                    w((*n)->get_type() == nonterminal_definition::replace ? L"replace" : (*n)->get_type() == nonterminal_definition::addition ? L"|=" : L"="); w((*n)->identifier()); from(*n);
                    for (nonterminal_definition::iterator r = (*n)->begin(); r != (*n)->end(); ++r) { w(L"rule"); for (production_definition::iterator i = (*r)->begin(); i != (*r)->end(); ++i) item(*i); }
                    w(L";");
                }
                break;
            case language_unit::unit_precedence_definition:
                w(L"precedence");
                for (precedence_block::iterator i = u.precedence_definition()->begin(); i != u.precedence_definition()->end(); ++i) {
                    w(i->assoc == precedence_block::left ? L"left" : i->assoc == precedence_block::right ? L"right" : L"nonassoc");
                    for (size_t j = 0; j < i->items.size(); ++j) item(i->items[j]);
                    w(L";");
                }
                break;
            default: w(L"nothing");
        }
        w(L"end");
    }
    void top(const toplevel_block& t) {
        if (t.language()) {
            const language_block& l = *t.language(); w(L"language"); w(l.identifier()); at(&l);
            for (size_t i = 0; i < l.inherits().size(); ++i) w(l.inherits()[i]);
            w(L":");
            for (language_block::iterator i = l.begin(); i != l.end(); ++i) unit(**i);
        } else if (t.import()) { w(L"import"); w(t.import()->import_filename()); at(t.import()); }
        else if (t.parser()) {
            w(L"parser"); w(t.parser()->parser_name()); w(t.parser()->language_name()); at(t.parser());
            for (size_t i = 0; i < t.parser()->start_symbols().size(); ++i) w(t.parser()->start_symbols()[i]);
        } else if (t.test()) {
            w(L"test"); w(t.test()->language()); at(t.test());
            for (test_block::iterator i = t.test()->begin(); i != t.test()->end(); ++i) {
                test_definition* x = *i;
                w(x->nonterminal_language()); w(x->nonterminal()); w(x->type() == test_definition::match ? L"=" : x->type() == test_definition::no_match ? L"!=" : L"from"); w(x->identifier()); w(x->test_string()); at(x);
                J y = J::array(); y.push(J((long) x->test_string_position().offset())); y.push(J((long) x->test_string_position().offset())); p.push(y);
            }
        } else w(L"nothing");
        w(L"end");
    }
};

J observe(const J& c) {
    J o = J::object();
    memcons* con = new memcons(c); console_container cons(con, true);
    parser_stage ps(cons, c.at("root").ws()); ps.compile();
    o["errs"] = con->errors();
    writer w; definition_file_container f = ps.definition_file();
    o["read"] = J((bool) (f.item() != NULL));
    if (f.item()) { for (definition_file::iterator b = f->begin(); b != f->end(); ++b) w.top(**b); }
    o["d"] = w.d; o["p"] = w.p;
    return o;
}
