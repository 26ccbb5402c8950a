// A console whose files live in memory; remembers what was reported.
#pragma once
#include "TameParse/Compiler/console.h"
#include "json.h"
#include <map>
#include <memory>
#include <set>

struct memcons : public compiler::console {
    struct shared_t { std::map<std::wstring, std::string> files; std::map<std::wstring, std::wstring> opts; std::map<std::wstring, std::wstring> real; std::map<std::wstring, std::string> written;
        J errs; int code; std::wstring input; std::wstringstream msg, verbose; bool together; shared_t() : errs(J::array()), code(0), together(false) {} };
    std::shared_ptr<shared_t> d;
    static std::string utf8(const J& codes) {
        std::string r;
        for (size_t i = 0; i < codes.size(); ++i) {
            unsigned c = (unsigned) codes[i].n;
            if (c < 0x80) r += (char) c;
            else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
            else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
            else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
        }
        return r;
    }
    memcons(const J& c) : d(new shared_t()) {
        d->input = c.at("root").ws();
        const J& f = c.at("files"); for (size_t i = 0; i < f.size(); ++i) d->files[f[i][0].ws()] = utf8(f[i][1]);
        const J& a = c.at("opts"); for (size_t i = 0; i < a.size(); ++i) d->opts[a[i][0].ws()] = a[i][1].ws();
        if (c.has("real")) { const J& r = c.at("real"); for (size_t i = 0; i < r.size(); ++i) d->real[r[i][0].ws()] = r[i][1].ws(); }
    }
    virtual compiler::console* clone() const { return new memcons(*this); }
    virtual void report_error(const compiler::error& e) {
        J x = J::object(); x["sev"] = J((long) e.sev()); x["code"] = J(std::string(e.identifier().begin(), e.identifier().end()));
        x["file"] = J(std::string(e.filename().begin(), e.filename().end())); x["line"] = J((long) e.pos().line()); x["col"] = J((long) e.pos().column()); x["off"] = J((long) e.pos().offset());
        std::string m; for (size_t i = 0; i < e.description().size(); ++i) m += e.description()[i] < 127 ? (char) e.description()[i] : '?';
        x["msg"] = J(m);
        d->errs.push(x);
        if (e.sev() >= compiler::error::sev_error && d->code < (int) e.sev()) d->code = e.sev();
    }
    J errors() const { return d->errs; }
    virtual int exit_code() { return d->code; }
    virtual std::wostream& message_stream() { return d->msg; }
    virtual std::wostream& verbose_stream() { return d->together ? d->msg : d->verbose; }
    virtual std::wstring get_option(const std::wstring& n) const { std::map<std::wstring, std::wstring>::const_iterator f = d->opts.find(n); return f == d->opts.end() ? L"" : f->second; }
    virtual const std::wstring& input_file() const { return d->input; }
    virtual std::wstring real_path(const std::wstring& p) { std::map<std::wstring, std::wstring>::const_iterator f = d->real.find(p); return f == d->real.end() ? p : f->second; }
    virtual std::istream* open_file(const std::wstring& f) {
        std::map<std::wstring, std::string>::const_iterator x = d->files.find(f); if (x == d->files.end()) x = d->files.find(real_path(f)); if (x == d->files.end()) return NULL;
        return new std::istringstream(x->second);
    }
    struct sink : public std::ostringstream { std::shared_ptr<shared_t> d; std::wstring n; ~sink() { d->written[n] = str(); } };
    virtual std::ostream* open_binary_file_for_writing(const std::wstring& f) { sink* s = new sink(); s->d = d; s->n = f; return s; }
};
