// Minimal JSON reader/writer and the case loop shared by the drivers.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <signal.h>

struct J {
    enum T { nul, boolean, num, str, arr, obj } t = nul;
    long n = 0; bool b = false; std::string s; std::vector<J> a; std::map<std::string, J> o;
    J() {}
    J(bool v) : t(boolean), b(v) {}
    J(int v) : t(num), n(v) {}
    J(long v) : t(num), n(v) {}
    J(size_t v) : t(num), n((long) v) {}
    J(const char* v) : t(str), s(v) {}
    J(const std::string& v) : t(str), s(v) {}
    static J array() { J j; j.t = arr; return j; }
    static J object() { J j; j.t = obj; return j; }
    void push(const J& v) { t = arr; a.push_back(v); }
    J& operator[](const std::string& k) { t = obj; return o[k]; }
    const J& at(const std::string& k) const {
        std::map<std::string, J>::const_iterator f = o.find(k);
        if (f == o.end()) { fprintf(stderr, "missing key %s\n", k.c_str()); exit(2); }
        return f->second;
    }
    bool has(const std::string& k) const { return o.count(k) != 0; }
    const J& operator[](size_t i) const { return a.at(i); }
    size_t size() const { return a.size(); }
    std::wstring ws() const { // array of code points -> wide string
        std::wstring r; for (size_t i = 0; i < a.size(); ++i) r += (wchar_t) a[i].n; return r;
    }
    std::vector<int> ints() const { std::vector<int> r; for (size_t i = 0; i < a.size(); ++i) r.push_back((int) a[i].n); return r; }
    static J codes(const std::wstring& w) { J r = array(); for (size_t i = 0; i < w.size(); ++i) r.push(J((long) w[i])); return r; }
    template<class C> static J list(const C& c) { J r = array(); for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) r.push(J((long) *i)); return r; }
};

struct JP {
    const char* p; const char* e;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    void die(const char* m) { fprintf(stderr, "json: %s\n", m); exit(2); }
    J parse() {
        ws(); if (p >= e) die("eof");
        if (*p == '{') { ++p; J r = J::object(); ws(); if (*p == '}') { ++p; return r; }
            for (;;) { ws(); J k = parse(); ws(); if (*p != ':') die(":"); ++p; r.o[k.s] = parse(); ws();
                if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; return r; } die("}"); } }
        if (*p == '[') { ++p; J r = J::array(); ws(); if (*p == ']') { ++p; return r; }
            for (;;) { r.a.push_back(parse()); ws(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; return r; } die("]"); } }
        if (*p == '"') { ++p; J r; r.t = J::str;
            while (p < e && *p != '"') {
                if (*p == '\\') { ++p; switch (*p) { case 'n': r.s += '\n'; break; case 't': r.s += '\t'; break; case 'r': r.s += '\r'; break;
                    case 'b': r.s += '\b'; break; case 'f': r.s += '\f'; break;
                    case 'u': { unsigned v = strtoul(std::string(p + 1, 4).c_str(), 0, 16); p += 4;
                        if (v < 0x80) r.s += (char) v; else if (v < 0x800) { r.s += (char) (0xc0 | v >> 6); r.s += (char) (0x80 | (v & 0x3f)); }
                        else { r.s += (char) (0xe0 | v >> 12); r.s += (char) (0x80 | ((v >> 6) & 0x3f)); r.s += (char) (0x80 | (v & 0x3f)); } break; }
                    default: r.s += *p; } ++p; }
                else r.s += *p++; }
            ++p; return r; }
        if (!strncmp(p, "true", 4)) { p += 4; return J(true); }
        if (!strncmp(p, "false", 5)) { p += 5; return J(false); }
        if (!strncmp(p, "null", 4)) { p += 4; return J(); }
        char* q; long v = strtol(p, &q, 10); if (q == p) die("number"); p = q; return J(v);
    }
};

inline void jwrite(std::string& out, const J& j) {
    switch (j.t) {
        case J::nul: out += "null"; break;
        case J::boolean: out += j.b ? "true" : "false"; break;
        case J::num: { char b[32]; snprintf(b, 32, "%ld", j.n); out += b; break; }
        case J::str: out += '"';
            for (size_t i = 0; i < j.s.size(); ++i) { unsigned char c = j.s[i];
                if (c == '"' || c == '\\') { out += '\\'; out += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); out += b; } else out += c; }
            out += '"'; break;
        case J::arr: out += '['; for (size_t i = 0; i < j.a.size(); ++i) { if (i) out += ','; jwrite(out, j.a[i]); } out += ']'; break;
        case J::obj: { out += '{'; bool f = true; for (std::map<std::string, J>::const_iterator i = j.o.begin(); i != j.o.end(); ++i) {
            if (!f) out += ','; f = false; out += '"'; out += i->first; out += "\":"; jwrite(out, i->second); } out += '}'; break; }
    }
}
inline std::string narrow(const std::wstring& w) { std::string r; for (size_t i = 0; i < w.size(); ++i) r += (w[i] >= 0x20 && w[i] < 0x7f) ? (char) w[i] : '?'; return r; }

J observe(const J& c);

#ifndef NO_MAIN
int main(int argc, char** argv) {
    if (argc < 5) { fprintf(stderr, "usage: driver CASES OUT START TIMEOUT\n"); return 3; }
    std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w");
    long start = atol(argv[3]); int tmo = atoi(argv[4]);
    if (!in || !out) { fprintf(stderr, "cannot open files\n"); return 3; }
    std::string line; long n = 0;
    while (std::getline(in, line)) {
        ++n; if (n < start) continue;
        JP p; p.p = line.data(); p.e = p.p + line.size();
        J c = p.parse();
        alarm(tmo);
        J o;
        o = observe(c);
        alarm(0);
        J r = J::object(); r["id"] = c.at("id"); r["obs"] = o;
        std::string s; jwrite(s, r); s += "\n";
        fwrite(s.data(), 1, s.size(), out); fflush(out);
    }
    fclose(out);
    _exit(0);
}
#endif
