"""Generated parsers: definitions, the names their C++ classes should have, and programs that run the generated code."""
import os, re, shutil, subprocess, concurrent.futures, json
import vf, lang
from lang import codes

PUNCT = {"<": "_lessthan_", ">": "_greaterthan_", "'": "_quote_", '"': "_doublequote_", "&": "_ampersand_", ":": "_colon_", "=": "_equals_", "!": "_exclamation_",
         "@": "_at_", "#": "_hash_", "$": "_dollar_", "%": "_percent_", "^": "_cicumflex_", "*": "_star_", "(": "_openparen_", ")": "_closeparen_", "+": "_plus_",
         "/": "_slash_", "\\": "_backslash_", "|": "_pipe_", ";": "_semicolon_", ".": "_dot_", ",": "_comma_", "?": "_question_", "~": "_tilde_", "_": "_",
         "{": "_opencurly_", "}": "_closecurly_", "[": "_opensquare_", "]": "_closesquare_"}
def ident(n):
    if len(n) > 1 and (n[0], n[-1]) in (("'", "'"), ('"', '"'), ("<", ">")): n = n[1:-1]
    return "yy_" + "".join(c if c.isalnum() and ord(c) < 128 else "_minus_" if c == "-" and len(n) == 1 else PUNCT.get(c, "_") for c in n)

def base(c, s):
    """What an item is called where it has no name of its own."""
    e = c["syms"][s - 1]
    if e["k"] in "tn":
        n = "".join(map(chr, c["names"][s - 1]))
        return n[1:-1] if len(n) >= 3 and (n[0], n[-1]) in (("'", "'"), ('"', '"'), ("<", ">")) else n
    if e["k"] == "grd": return "unknown_item"
    def rule(r): return "empty" if not r else "_".join(base(c, x) for x in r) if len(r) <= 3 else base(c, r[0]) + "_etc"
    return {"opt": "optional_", "alt": "one_of_"}.get(e["k"], "list_of_") + "_or_".join(rule(r) for r in e["r"])

def names(c):
    """For every entry: its name, and the C++ names of its first, second... occurrence."""
    out = []
    for i in range(len(c["syms"])):
        b = base(c, i + 1)
        out.append({"b": b, "tok": ident("".join(map(chr, c["names"][i]))) if c["syms"][i]["k"] in "tn" else "", "ids": [ident(b)] + [ident("%s_%d" % (b, n)) for n in range(2, 9)]})
    return out

def weak(c):
    """Symbols that may be split."""
    strong = {tuple(d["name"]) for L in c["langs"] for b in L["blocks"] if not b["weak"] for d in b["defs"]}
    return {i + 1 for i, n in enumerate(c["names"]) if c["syms"][i]["k"] == "t" and tuple(n) not in strong}

def gen_case(rng):
    lang.NAMED = rng.choice([1e-9, .15, .3])
    if rng.random() < .4: lang.INNER.update({("t", "id"): "in-id", ("n", "S"): "sub", ("t", "'+'"): "id", ("n", "X"): "sub"})
    try: c = lang.parse_case(rng)
    finally: lang.NAMED = 0; lang.INNER.clear()
    c["gen"] = codes("out"); c["inames"] = names(c); c["genfail"] = ""
    c["classes"] = [c["inames"][s - 1]["ids"][0] + "_n" for s in c["start"]]
    c["fn"] = [{"h": h, "r": r, "j": j, "b": n, "live": not dead, "ids": [ident(n)] + [ident("%s_%d" % (n, k)) for k in range(2, 9)]} for h, r, j, n, dead in c["fn"]]
    c["weak"] = sorted(weak(c))
    c["allrules"] = [list(s["r"]) for s in c["syms"]]
    for L in c["langs"]:
        for b in L["blocks"]:
            for n in b["nts"]: c["allrules"][n["s"] - 1] += [r for r in n["prods"] if r not in c["allrules"][n["s"] - 1]]
    for i, x in enumerate(c["syms"]):   # alternatives within alternatives are merged
        if x["k"] == "alt":
            R = c["allrules"][i]
            for r in R:
                if len(r) == 1 and c["syms"][r[0] - 1]["k"] == "alt": R += [y for y in c["syms"][r[0] - 1]["r"] if y not in R]
    return c

# --- the program around a batch of generated parsers
HEAD = '''#include <bits/stdc++.h>
#include "TameParse/TameParse.h"
#include "TameParse/Util/syntax_ptr.h"
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Dfa/state_machine.h"
#include "TameParse/Lr/parser.h"
#include "TameParse/Lr/parser_tables.h"
static FILE* out; static int depth;
static void open_(const char* k, int p, int q, int n) { fprintf(out, "{\\"k\\":\\"%s\\",\\"p\\":%d,\\"q\\":%d,\\"n\\":%d,\\"f\\":[", k, p, q, n); }
static void read_input(const char* s, std::wstring& w) { w.clear(); while (*s) w += (wchar_t) (unsigned char) *s++; }
'''
CLASS = re.compile(r"\n    class (\w+) : public (\w+) \{(.*?)\n    \};", re.S)
FIELD = re.compile(r"const util::syntax_ptr<(\w+)> (\w+);")
TOKEN = re.compile(r"static const int (\w+) = (\d+);")

def wrap(n, c, files):
    """Code that runs the generated parser number n on the inputs of a case."""
    h, src = files["out.h"], files["out.cpp"]
    cls = re.search(r"\nclass (\w+) \{", h).group(1)
    cs = [(m.group(1), m.group(2), m.group(3)) for m in CLASS.finditer(h)]
    nodes = {a: (b, body) for a, b, body in cs if a not in ("syntax_node", "terminal", "parser_actions")}
    o = ["#undef " + re.search(r"#define (\w+)", h).group(1), "namespace G%d {" % n, '#include "g%d/out.cpp"' % n, "typedef %s P;" % cls]
    for a in nodes: o.append("static void dump(const P::%s* x);" % a)
    for a, (b, body) in nodes.items():
        o.append("static void dump(const P::%s* x) {" % a)
        if b == "terminal":
            o.append('  open_(dynamic_cast<const P::%s*>((const P::syntax_node*) x) ? "t" : "u", x->pos().offset(), x->final_pos().offset(), (int) x->content<wchar_t>().size()); fprintf(out, "]}");' % a)
        elif "data_type m_Data" in body:
            o.append('  open_("l", x->pos().offset(), x->final_pos().offset(), (int) x->size()); bool first = true;')
            o.append('  for (P::%s::iterator i = x->begin(); i != x->end(); ++i) { fprintf(out, "%%s[\\"\\",", first ? "" : ","); first = false; dump(i->item()); fprintf(out, "]"); } fprintf(out, "]}");' % a)
        else:
            o.append('  open_("n", x->pos().offset(), x->final_pos().offset(), 0); bool first = true;')
            for t, f in FIELD.findall(body):
                o.append('  if (x->%s.item()) { fprintf(out, "%%s[\\"%s\\",", first ? "" : ","); first = false; dump(x->%s.item()); fprintf(out, "]"); }' % (f, f, f))
            o.append('  fprintf(out, "]}");')
        o.append("}")
    ids = TOKEN.findall(h[h.index("class t {"):h.index("};", h.index("class t {"))]) if "class t {" in h else []
    o.append("static const char* token(int t) { switch (t) {")
    seen = set()
    for a, v in ids:
        if v not in seen: o.append('  case P::t::%s: return "%s";' % (a, a)); seen.add(v)
    o.append('  default: return ""; } }')
    o.append("static void run() {")
    for i, x in enumerate(c["inputs"]):
        text = "".join("\\%03o" % ch for ch in x)
        o.append('  { std::wstring text; read_input("%s", text); std::wstringstream in(text); dfa::lexeme_stream* s = P::lexer.create_stream_from(in); fprintf(out, "%s{\\"toks\\":["); bool first = true;' % (text, "," if i else ""))
        o.append('    for (;;) { dfa::lexeme* l = NULL; (*s) >> l; if (!l) break; fprintf(out, "%s[\\"%s\\",%d,%d]", first ? "" : ",", token(l->matched()), l->pos().offset(), (int) l->content().size()); first = false; delete l; } delete s; fprintf(out, "],\\"runs\\":["); }')
        for k, s in enumerate(c["start"]):
            nt = ident("".join(map(chr, c["names"][s - 1])))
            cl = c["classes"][k]
            o.append('  { std::wstring text; read_input("%s", text); std::wstringstream in(text); P::state* p = P::create_%s(in); int res = 2;' % (text, nt))
            o.append('    for (int n = 0; n < 4000; ++n) { lr::parser_result::result r = p->process(); if (r == lr::parser_result::more) continue; res = r == lr::parser_result::accept ? 1 : 0; break; }')
            o.append('    fprintf(out, "%s{\\"res\\":%%d,\\"at\\":%%d,\\"ast\\":", res, res ? -1 : p->look().item() ? p->look()->pos().offset() : (int) text.size());' % ("," if k else ""))
            o.append('    if (res == 1) { P::syntax_node_container root = p->get_item(); dump(root.cast_to<P::%s>().item()); } else { open_("e", 0, 0, 0); fprintf(out, "]}"); } fprintf(out, "}"); delete p; }' % cl)
        o.append('  fprintf(out, "]}");')
    o.append("}\n}")
    return "\n".join(o)

def build_and_run(ctx, recs, per=6, asan=True):
    """Compiles the generated parsers in batches and attaches what they do to the records (obs.gen)."""
    work = os.path.join(ctx.work, "gen"); os.makedirs(work, exist_ok=True)
    lib = os.path.join(vf.BUILD, "libcore.a")
    flags = ["-O0", "-w", "-std=gnu++14", "-I" + vf.REPO] + (["-fsanitize=address"] if asan else [])
    todo = []
    for r in recs:
        r["genfail"] = ""; r.pop("genout", None)
        if r["crash"]: continue
        r["obs"]["gen"] = []
        if r["obs"]["stage"] == "run": todo.append(r)
    def batch(b, group):
        d = os.path.join(work, "b%d" % b); os.makedirs(d, exist_ok=True)
        src = [HEAD]; main = ["int main(int argc, char** argv) { int which = atoi(argv[1]); out = fopen(argv[2], \"w\"); fprintf(out, \"[\");"]
        for n, r in enumerate(group):
            files = {"".join(x[0]): x[1] for x in r["obs"]["written"]}
            os.makedirs(os.path.join(d, "g%d" % n), exist_ok=True)
            for f, t in files.items():
                with open(os.path.join(d, "g%d" % n, f), "w") as h: h.write(t)
            try: src.append(wrap(n, r, files))
            except Exception as e: r["genfail"] = "generated code not understood: %r" % e; continue
            main.append("if (which == %d) G%d::run();" % (n, n))
        main.append("fprintf(out, \"]\"); fclose(out); return 0; }")
        cpp = os.path.join(d, "main.cpp")
        with open(cpp, "w") as h: h.write("\n".join(src + main))
        p = subprocess.run(["g++"] + flags + ["-I" + d, "-o", os.path.join(d, "main"), cpp, lib], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            if len(group) == 1: group[0]["genfail"] = "generated code does not compile"; group[0]["genout"] = p.stdout[:1500]; return
            for i, r in enumerate(group): batch(1000 + b * 50 + i, [r])
            return
        for n, r in enumerate(group):
            if r["genfail"]: continue
            o = os.path.join(d, "o%d.json" % n)
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99")
            try: q = subprocess.run([os.path.join(d, "main"), str(n), o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env)
            except subprocess.TimeoutExpired: r["genfail"] = "generated parser does not end"; continue
            if q.returncode: r["genfail"] = "generated parser fails"; r["genout"] = q.stdout[:1500].decode("utf8", "replace"); continue
            with open(o) as h: r["obs"]["gen"] = json.load(h)
        os.unlink(os.path.join(d, "main"))
    groups = [todo[i:i + per] for i in range(0, len(todo), per)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(lambda t: batch(*t), enumerate(groups)))
    shutil.rmtree(work, ignore_errors=True)
    for r in recs: r["obs"] and r["obs"].pop("written", None)
