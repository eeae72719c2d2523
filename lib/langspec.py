"""Lexical syntax of the languages whose comments and strings the classification check decides.
L: line comments (flag c: a backslash before the newline continues them; i: letters in any case; b: first column only)
B: block comments start,end (flag n: they nest)      C: other multi-line code literals start,end
S: strings quote,kind - sl one line with escapes, ml several lines with escapes, mn several lines but no escaped newline,
   raw one line without escapes, rawml several lines without escapes, sl3 as sl but not the start of a triple quote."""

C_STR = [("'", "ml"), ('"', "ml")]
SL2 = [("'", "sl"), ('"', "sl")]
MN2 = [("'", "mn"), ('"', "mn")]
CB = [("/*", "*/", "")]
ML = [("(*", "*)", "n")]

SPEC = {}


def lang(names, L=(), B=(), S=(), C=(), **kw):
    for n in names.split():
        SPEC[n] = dict(L=[(x, "") if isinstance(x, str) else x for x in L], B=list(B), S=list(S), C=list(C), **kw)


lang("genie c cpp csharp cuda vala ec glsl golang groovy fsharp_", L=[("//", "c")], B=CB, S=C_STR)
del SPEC["fsharp_"]
lang("fsharp", L=[("//", "c")], B=[("(*", "*)", "")], S=C_STR)
lang("rust", L=[("//", "c")], B=CB, S=[('"', "ml")])
lang("dart swift", L=[("//", "c")], B=CB)
lang("unrealscript", L=["//"], B=CB, S=C_STR)
lang("objective_c objective_j haxe", L=[("//", "c")], B=CB, S=SL2)
lang("java pike scala umple actionscript", L=["//"], B=CB, S=SL2)
lang("css", B=CB, S=MN2)
lang("ada", L=["--"], S=[('"', "raw")])
lang("eiffel", L=["--"], S=[('"', "raw")])
lang("vhdl", L=["--"], S=[('"', "raw")], avoid=["'"])
lang("ampl", L=["#"], B=CB)
lang("assembler", L=["//", ";", "!"], B=CB, S=[('"', "sl")])
lang("automake ebuild exheres make r", L=["#"], S=SL2)
lang("awk", L=["#"], S=[('"', "sl"), ("/", "sl")])
lang("bat", L=[("rem", "i"), ("@rem", "i"), "::"])
lang("blitzmax", L=["'"], S=[('"', "sl")], avoid=["r", "R"])
lang("structured_basic visualbasic", L=["'", ("rem", "i")], S=[('"', "sl")])
lang("clearsilver", L=["#"], S=[('"', "sl")])
lang("cmake", L=["#"], S=[('"', "mn")])
lang("dylan", L=["//"], B=CB, S=[('"', "sl")], avoid=["'"])
lang("dmd", L=[("//", "c")], B=CB + [("/+", "+/", "n")], S=C_STR + [("`", "ml")])
lang("augeas", B=ML, S=[('"', "sl")])
lang("ocaml", B=ML, S=[('"', "sl")])
lang("coq", B=ML, S=[('"', "rawml")])
lang("mathematica", B=ML, avoid=['"'])
lang("modula3", B=ML, S=C_STR)
lang("modula2 oberon", B=ML, S=[("'", "raw"), ('"', "raw")])
lang("rexx", B=[("/*", "*/", "n")], S=SL2)
lang("kotlin", L=["//"], B=[("/*", "*/", "n")], S=[('"', "sl3")], C=[('"""', '"""', "")])
lang("elm haskell", L=[("--", "g")], B=[("{-", "-}", "n")], S=[('"', "ml")], avoid=["'"])
lang("erlang", L=["%%"], S=SL2)
lang("factor", L=["!"], S=[('"', "mn")])
lang("forth", L=["\\"], B=[("(", ")", "")], S=[('"', "raw")])
lang("fortranfree", L=["!"], S=[("'", "rawml"), ('"', "rawml")])
lang("fortranfixed", L=[("C", "b")])
lang("grace", L=["//"], S=[('"', "rawml")], avoid=["\\"])
lang("idl_pvwave", L=[";"])
lang("jam", L=["#"], S=MN2)
lang("shell", L=["#"], S=C_STR)
lang("powershell", L=["#"], B=[("<#", "#>", "")], S=C_STR)
lang("chaiscript javascript qml typescript", L=["//"], B=CB, S=C_STR, regex="js")
lang("livecode", L=["--", "#", "//"], B=CB, S=[('"', "sl")])
lang("logtalk prolog", L=["%"], B=CB, S=SL2)
lang("lua", L=[("--", "l")], S=MN2, B=[("--[[", "]]", ""), ("--[=[", "]=]", "")], C=[("[[", "]]", ""), ("[=[", "]=]", "")])
lang("metafont metapost", L=["%"], S=[('"', "sl")])
lang("modelica", L=["//"], B=CB, avoid=['"'])
lang("matlab octave", L=[], B=[("%{", "%}", "")], S=SL2, avoid=["."], matlab=1)
lang("nsis", L=["#", ";"], B=CB, S=SL2 + [("`", "sl")])
lang("pascal", L=["//"], B=[("(*", "*)", ""), ("{", "}", "")], S=[("'", "mn")])
lang("perl", L=["#"], S=MN2 + [("`", "mn"), ("/", "sl")], avoid=["="])
lang("puppet", L=["#"], B=CB, S=[("'", "mn")])
lang("python", L=["#", "//"], B=CB + [('"""', '"""', ""), ("'''", "'''", "")], S=[("'", "sl3"), ('"', "sl3")])
lang("julia", L=["#"], B=[("#=", "=#", ""), ('"""', '"""', ""), ("'''", "'''", "")], S=[("'", "sl3"), ('"', "sl3")])
lang("crystal", L=["#"], S=[('"', "mn"), ("`", "mn"), ("/", "sl")], avoid=["=", "%"])
lang("ruby", L=["#"], S=MN2 + [("`", "mn"), ("/", "sl")], avoid=["=", "%"])
lang("scilab", L=["//"], S=SL2)
lang("smalltalk", B=[('"', '"', "")], S=[("'", "raw")])
lang("sql", L=["--", "#", "//"], B=CB + [("{", "}", "")], S=SL2)
lang("stratego", L=[("//", "c")], B=CB, S=[('"', "ml")], avoid=["'"])
lang("tcl", L=[("#", "c")], S=[('"', "mn2")])
lang("tex", L=["%"])
lang("tex_dtx", L=["%%"])
lang("postscript", L=["%"], S=[], avoid=["("])
lang("lisp emacslisp scheme clojure racket", L=[";"], B=[('"""', '"""', "")], S=[('"', "ml3")])
lang("xml xaml html_ mxml_", B=[("<!--", "-->", "")], S=[("'", "raw"), ('"', "raw")])
lang("xslt xmlschema", B=[("<!--", "-->", "")], S=SL2)
for k in ("html_", "mxml_"):
    SPEC.pop(k, None)
lang("rebol", L=[";"], avoid=['"', "{", "}"])
lang("limbo", L=["#"], avoid=["'", '"'])
lang("coffeescript", L=["#"], avoid=["'", '"', "`"], B=[("###", "###", "")])

lang("dcl", L=["!"], S=[('"', "sl")], avoid=["$"])
lang("boo", L=["#"], avoid=["/", '"', "'"])
lang("nix", L=["#"], B=CB, avoid=["'", '"'])
lang("vim", L=[('"', "n")], avoid=["'", "\\"], vim=1)
lang("metapost_with_tex", L=["%"], S=[('"', "sl")])
lang("html", B=[("<!--", "-->", "")], S=SL2)


def cstr(s):
    return '"' + "".join("\\%03o" % c for c in s.encode("latin1")) + '"'


STRK = {"sl": 1, "ml": 2, "mn": 3, "raw": 4, "rawml": 5, "sl3": 6, "mn2": 7, "rawml3": 8, "ml3": 9}


def alphabet(name):
    s = SPEC[name]
    a = set("a \n")
    for x, f in s["L"]:
        a.update(x)
        if "c" in f:
            a.add("\\")
        if "g" in f:
            a.add(">")
    for x, y, f in s["B"] + s["C"]:
        a.update(x + y)
    for q, k in s["S"]:
        a.add(q)
        if k in ("sl", "ml", "mn", "sl3", "mn2"):
            a.add("\\")
    return "".join(sorted(a - set(s.get("avoid", []))))


def frames(name):
    """Texts with holes (\1) that lead into every pair of the language's constructs."""
    s = SPEC[name]
    con = [(x, "\n") for x, f in s["L"]] + [(x, y) for x, y, f in s["B"] + s["C"]] + [(q, q) for q, k in s["S"]]
    out = []
    for a, b in con:
        pre = "\n" if [1 for x, f in s["L"] if x == a and "b" in f] else ""
        out.append((True, "\1" + pre + a + "\1\1" + b + "\1\1"))
        out.append((True, pre + a + ("\2\n\1" if b == "\n" else "\n\2\n\2" + b + "\n\1")))
        for c, d in con:
            pre2 = "\n" if [1 for x, f in s["L"] if x == c and ("b" in f or "n" in f)] else ""
            out.append((False, pre + a + "\1" + b + "\1" + pre2 + c + "\1" + d + "\1"))
            out.append((a != c, pre + a + "\1" + c + "\1" + b + "\1" + d + "\n\1"))
    return out


def header(languages):
    out = ["struct vspec { const char *lang; const char *L[4]; const char *Lf[4]; const char *B[4], *E[4]; int Bn[4]; int Bcode[4]; char Sq[5]; int Sk[5]; const char *avoid; const char *alpha; int nalpha; const char *opt; };",
           "static const struct vspec VSPEC[] = {"]
    names = [n for n in sorted(SPEC) if n in languages]
    for n in names:
        s = SPEC[n]
        bl = [(x, y, "n" in f, 0) for x, y, f in s["B"]] + [(x, y, "n" in f, 1) for x, y, f in s["C"]]
        pad = lambda l, k, z: list(l) + [z] * (k - len(l))
        al = alphabet(n)
        opt = "".join(k for k in ("regex", "matlab", "vim") if s.get(k))
        out.append("{%s, {%s}, {%s}, {%s}, {%s}, {%s}, {%s}, {%s}, {%s}, %s, %s, %d, \"%s\"}," % (
            cstr(n), ",".join(pad([cstr(x) for x, _ in s["L"]], 4, "0")), ",".join(pad([cstr(f) for _, f in s["L"]], 4, "0")),
            ",".join(pad([cstr(b[0]) for b in bl], 4, "0")), ",".join(pad([cstr(b[1]) for b in bl], 4, "0")),
            ",".join(pad([str(int(b[2])) for b in bl], 4, "0")), ",".join(pad([str(b[3]) for b in bl], 4, "0")),
            ",".join(pad([str(ord(q)) for q, _ in s["S"]], 5, "0")), ",".join(pad([str(STRK[k]) for _, k in s["S"]], 5, "0")),
            cstr("".join(s.get("avoid", []))), cstr(al), len(al), opt))
    out.append("};")
    out.append("struct vframe { int row; const char *text; };\nstatic const struct vframe VFRAME[] = {")
    for i, n in enumerate(names):
        for _, f in frames(n):
            out.append("{%d, %s}," % (i, cstr(f)))
    out.append("{-1, 0} };")
    return "\n".join(out) + "\n", names
