"""Longer inputs: the fixed parts take the parser into embedded languages and long constructs, the holes are symbolic.
Holes: \\1 any byte, \\2 any byte that is not a newline or NUL, \\3 a lower case letter, \\4 a space or tab, \\5 space, newline or letter.
Expectation (optional): one 'language:kind' per line, kind c(ode) m(comment) b(lank)."""
import langspec
A, B, L, W, X = "\1", "\2", "\3", "\4", "\5"
T = []


def t(lang, text, expect=None):
    T.append((lang, text, expect))


# ---- HTML and its relatives: CSS, Javascript and a server side language inside
SERVER = {"php": ("<?php", "?>", "php"), "rhtml": ("<%", "%>", "ruby"), "jsp": ("<%", "%>", "java"),
          "cs_aspx": ("<%", "%>", "csharp"), "vb_aspx": ("<%", "%>", "visualbasic"), "clearsilver_template": ("<?cs", "?>", "clearsilver")}
STY = '<style type="text/css">'
SCR = '<script type="text/javascript">'
for h in ["html"] + sorted(SERVER):
    t(h, STY + "\n" + L + "{" + L + "}\n/*" + L + "*/\n\n</style>\n", [("html", "c"), ("css", "c"), ("css", "m"), ("css", "b"), ("html", "c")])
    t(h, SCR + "\n" + L + "(" + L + ")\n//" + L + "\n\n</script>\n" + L + "\n", [("html", "c"), ("javascript", "c"), ("javascript", "m"), ("javascript", "b"), ("html", "c"), ("html", "c")])
    t(h, STY + " " + L + "{}\n" + L + "{}\n\n/*" + L + "*/ </style>\n<" + L + ">\n", [("css", "c"), ("css", "c"), ("css", "b"), None, ("html", "c")])
    t(h, SCR + " " + L + "()\n" + L + "()\n\n" + L + "() </script>\n<" + L + ">\n\n", [("javascript", "c"), ("javascript", "c"), ("javascript", "b"), None, ("html", "c"), ("html", "b")])
    t(h, "<!--" + L + "\n" + L + "\n-->\n" + L + "\n", [("html", "m"), ("html", "m"), ("html", "m"), ("html", "c")])
    t(h, "<!-- " + L + " - " + L + "\n-" + L + "\n -- " + L + "\n-->\n<" + L + ">\n", [("html", "m")] * 4 + [("html", "c")])
    t(h, SCR + "\n" + L + "\n//" + L + "</script>\n<" + L + ">\n//" + L + "</script>\n", [("html", "c"), ("javascript", "c"), None, ("html", "c"), ("html", "c")])
    t(h, SCR + "//" + A + A + "</script>" + A)
    t(h, SCR + A + A + "</script>" + A)
    t(h, SCR + A + "</script" + A + ">" + A)
    t(h, STY + A + A + "</style>" + A)
    t(h, STY + A + "</style" + A + ">" + A)
    t(h, A + "<!--" + A + A + "-->" + A)
    t(h, A + SCR + A + STY + A)
for h, (o, c, inner) in sorted(SERVER.items()):
    own = ("php" if h == "php" else "html", "c")  # a line with nothing but a delimiter
    t(h, o + "\n" + L + "\n\n" + L + "\n" + c + "\n<" + L + ">\n", [own, (inner, "c"), (inner, "b"), (inner, "c"), own, ("html", "c")])
    t(h, o + " " + L + " " + c + "\n<" + L + ">\n", [(inner, "c"), ("html", "c")])
    t(h, o + "\n" + L + "\n/*" + L + "*/ " + c + "\n<" + L + ">\n" if h in ("php", "jsp", "cs_aspx") else o + "\n" + L + "\n" + L + " " + c + "\n<" + L + ">\n", [own, (inner, "c"), (inner, "*"), ("html", "c")])
    t(h, o + " " + L + "\n" + L + "\n" + L + " " + c + "\n<" + L + ">\n<" + L + ">\n", [(inner, "c"), (inner, "c"), (inner, "*"), ("html", "c"), ("html", "c")])
    t(h, o + " " + L + "\n" + L + "\n" + c + "\n\n<" + L + ">\n", [(inner, "c"), (inner, "c"), own, ("html", "b"), ("html", "c")])
    t(h, o + " " + L + " " + c + " " + STY + "\n" + L + "{}\n</style> " + o + " " + L + " " + c + "\n<" + L + ">\n", [None, ("css", "c"), None, ("html", "c")])
    for lc in {"php": ("//", "#"), "vb_aspx": ("'", "rem "), "rhtml": ("#",), "clearsilver_template": ("#",)}.get(h, ("//",)):
        t(h, o + " " + lc + L + " " + L + " " + c + "\n<" + L + ">\n" + o + "\n" + lc + L + c + L + "\n" + L + "\n", [(inner, "m"), ("html", "c"), own, (inner, "m"), ("html", "c")])
        t(h, o + lc + A + A + c + A)
    t(h, A + o + A + A + c + A)
    t(h, o + A + c + o + A + c + A)
    t(h, "<!--" + A + o + A + c + A + "-->" + A)
    t(h, '"' + A + o + A + c + A + '"' + A)
    t(h, "'" + A + o + A + c + A + "'" + A)
    t(h, STY + A + o + A + c + A + "</style>" + A)
    t(h, SCR + A + o + A + c + A + "</script>" + A)
    t(h, "<!--" + o + o + A + c + A + o + A + c)
    t(h, '"' + o + c + A + o + c + A + o + c + A + o + c + o + c + o + c + A)
    t(h, STY + '"' + o + A + c + '"' + A + SCR + o + o + A)
    t(h, o + " " + SCR + A + c + A + SCR + STY + o + o + o + o + A)
    t(h, (o + " x " + c + "\n") * 7 + A + (STY + SCR) * 3 + A)
t("mxml", "<mx:Style>\n" + L + "{}\n/*" + L + "*/\n</mx:Style>\n", [("mxml", "c"), ("css", "c"), ("css", "m"), ("mxml", "c")])
t("mxml", "<mx:Script>\n" + L + "()\n//" + L + "\n</mx:Script>\n", [("mxml", "c"), ("actionscript", "c"), ("actionscript", "m"), ("mxml", "c")])
t("mxml", A + "<mx:Script>" + A + "<![CDATA[" + A + "]]>" + A + "</mx:Script>" + A)
t("mxml", "<mx:Style>" + A + A + "</mx:Style>" + A + "<!--" + A)
# ---- languages inside others
t("coffeescript", "`\n" + L + "(" + L + ")\n//" + L + "\n`\n#" + L + "\n", [("coffeescript", "c"), ("javascript", "c"), ("javascript", "m"), ("coffeescript", "c"), ("coffeescript", "m")])
t("coffeescript", "###\n" + L + "\n###\n" + L + "\n", [("coffeescript", "m"), ("coffeescript", "m"), ("coffeescript", "m"), ("coffeescript", "c")])
t("coffeescript", A + "`" + A + "`" + A + "`" + A + "`")
t("coffeescript", "'''" + A + A + "'''" + A)
t("coffeescript", '"""' + A + A + '"""' + A)
t("coffeescript", "`" * 12 + A + "`" * 3 + A)
t("haml", "%p\n- " + L + "\n" + L + "\n", [("haml", "c"), ("ruby", "c"), ("haml", "c")])
t("haml", "%" + L + A + "{" + A + "}" + A)
t("haml", "-# " + A + "\n  " + A + "\n" + A)
t("haml", "= " + A + "\n" + A + "\n- " + A + "\n")
t("haml", "- a\n" * 8 + A)
t("nix", "''\n" + L + " " + L + "\n#" + L + "\n''\n#" + L + "\n", [("nix", "c"), ("shell", "c"), ("shell", "m"), ("nix", "c"), ("nix", "m")])
t("nix", L + "=\"" + L + "#" + L + "\";\n" + L + "=''" + L + "#" + L + "';#''\n#" + L + "\n" + L + "\n", [None, None, ("nix", "m"), ("nix", "c")])
t("nix", L + "=\"\n" + L + "\n#" + L + "\";\n#" + L + "\n", [("nix", "c"), ("shell", "c"), None, ("nix", "m")])
t("nix", '"#' + A + A + '"' + A + '"' + A)
t("nix", "''#" + A + A + "''" + A)
t("nix", '"' + A + A + '"' + A + '"' + A)
t("nix", "''" + A + A + "''" + A)
t("nix", "'' '' " * 7 + A + "''" + A)
t("metapost_with_tex", "btex\n" + L + "\n%" + L + "\netex\n%" + L + "\n", [("metapost", "c"), ("tex", "c"), ("tex", "m"), ("metapost", "c"), ("metapost", "m")])
t("metapost_with_tex", "verbatimtex\n" + L + "\netex\n", [("metapost", "c"), ("tex", "c"), ("metapost", "c")])
t("metapost_with_tex", "btex" + A + A + "etex" + A)
t("metapost_with_tex", "btex etex " * 7 + A)
# ---- long constructs of single languages
t("ruby", "=begin\n" + L + "\n=end\n" + L + "\n", [("ruby", "m"), ("ruby", "m"), ("ruby", "m"), ("ruby", "c")])
t("ruby", "=begin" + A + A + "=end" + A)
t("ruby", "%q(" + A + A + ")" + A)
t("crystal", "=begin\n" + L + "\n=end\n" + L + "\n", [("crystal", "m"), ("crystal", "m"), ("crystal", "m"), ("crystal", "c")])
t("crystal", "%q[" + A + "]" + A)
t("perl", "=pod\n" + L + "\n=cut\n" + L + "\n", [("perl", "m"), ("perl", "m"), ("perl", "m"), ("perl", "c")])
t("perl", "=pod\n" + A + "\n=cut" + A + "\n" + A)
t("perl", "=" + A + "\n" + A + "=cut\n" + A)
t("python", '"""\n' + L + "\n" + '"""\n' + L + "\n", [("python", "m"), ("python", "m"), ("python", "m"), ("python", "c")])
t("python", "'''" + A + A + "'''" + A)
t("lua", "--[[\n" + L + "\n]]\n" + L + "\n--" + L + "\n", [("lua", "m"), ("lua", "m"), ("lua", "m"), ("lua", "c"), ("lua", "m")])
t("lua", L + "=[==[\n--" + L + "\n]==]\n", [("lua", "c"), ("lua", "c"), ("lua", "c")])
t("lua", "--[=[" + A + "]" + A + "]=]" + A)
t("lua", "[==[" + A + "]=" + A + "]" + A)
t("actionscript", "<![CDATA[" + A + A + "]]>" + A)
t("xml", "<![CDATA[\n<!--" + L + "-->\n]]>\n<!--" + L + "\n-->\n", [("xml", "c"), ("xml", "c"), ("xml", "c"), ("xml", "m"), ("xml", "m")])
t("xml", "<![CDATA[" + A + A + "]]>" + A)
t("xslt", "<![CDATA[" + A + A + "]]>" + A)
t("xaml", "<![CDATA[" + A + A + "]]>" + A)
t("xmlschema", "<![CDATA[" + A + A + "]]>" + A)
t("autoconf", "dnl " + L + "\n" + L + "\n", [("autoconf", "m"), ("autoconf", "c")])
t("autoconf", "[\ndnl " + L + "\n]\ndnl" + "\n", [("autoconf", "c"), ("autoconf", "c"), ("autoconf", "c"), ("autoconf", "m")])
t("autoconf", "[" + A + "[" + A + "]" + A + "]" + A)
t("blitzmax", "rem\n" + L + "\nend rem\nx" + L + "\n'" + L + "\n", [("blitzmax", "m"), ("blitzmax", "m"), ("blitzmax", "m"), ("blitzmax", "c"), ("blitzmax", "m")])
t("blitzmax", "Rem" + A + A + "EndRem" + A)
t("boo", '"""\n' + L + '\n"""\n/*\n' + L + "\n*/\n//" + L + "\nx\n", [("boo", "m")] * 7 + [("boo", "c")])
t("boo", "/*" + A + "/*" + A + "*/" + A + "*/")
t("boo", '"' + A + '"' + A + "/" + A + "/")
t("brainfuck", L + L + "\n+" + L + "\n\n", [("brainfuck", "m"), ("brainfuck", "c"), ("brainfuck", "b")])
t("bfpp", "=" + L + "+\n+" + L + "\n\n", [("bfpp", "m"), ("bfpp", "c"), ("bfpp", "b")])
t("classic_basic", "10 REM " + L + "\n20 PRINT " + L + "\n30 '" + L + "\n\n", [("classic_basic", "m"), ("classic_basic", "c"), ("classic_basic", "m"), ("classic_basic", "b")])
t("classic_basic", "10 re" + A + A + "\n2" + A + " '" + A)
t("matlab", "%{\n" + L + "\n%}\n%" + L + "\nx\n..." + L + "\n", [("matlab", "m"), ("matlab", "m"), ("matlab", "m"), ("matlab", "m"), ("matlab", "c"), ("matlab", "m")])
t("octave", "%{\n" + L + "\n%}\n#" + L + "\nx\n", [("octave", "m"), ("octave", "m"), ("octave", "m"), ("octave", "m"), ("octave", "c")])
t("haskell", "{- " + L + "\n{- " + L + " -}\n-}\nx\n--" + L + "\n", [("haskell", "m")] * 3 + [("haskell", "c"), ("haskell", "m")])
t("ocaml", "(* " + L + "\n(* " + L + " *)\n*)\nx\n", [("ocaml", "m")] * 3 + [("ocaml", "c")])
t("dmd", "/+ " + L + "\n/+ " + L + " +/\n+/\nx\n", [("dmd", "m")] * 3 + [("dmd", "c")])
t("kotlin", '"""\n//' + L + '\n"""\n/*\n' + L + "\n*/\n", [("kotlin", "c")] * 3 + [("kotlin", "m")] * 3)
t("smalltalk", '"\n' + L + '\n"\n' + L + "\n", [("smalltalk", "m")] * 3 + [("smalltalk", "c")])
t("vim", '"' + L + "\nx " + '"' + L + '"\n' + "'" + L + "'\n\n", [("vim", "m"), ("vim", "c"), ("vim", "c"), ("vim", "b")])
t("rebol", ";" + L + "\n{\n;" + L + "\n}\n" + '"' + L + '"\n', [("rebol", "m"), ("rebol", "c"), ("rebol", "c"), ("rebol", "c"), ("rebol", "c")])
t("rebol", "{" + A + "{" + A + "}" + A + "}")
t("limbo", "#" + L + "\n" + '"#' + L + '"\n' + "'#'\n", [("limbo", "m"), ("limbo", "c"), ("limbo", "c")])
t("modelica", "/*\n" + L + "\n*/\n" + '"\n//' + L + '\n"\n', [("modelica", "m")] * 3 + [("modelica", "c")] * 3)
t("dcl", "$!" + L + "\n$ " + L + "\n$\n", [("dcl", "m"), ("dcl", "c"), None])
t("lisp", '"""\n' + L + '\n"""\n' + '(' + L + ' "\n;' + L + '\n")\n;' + L + "\n", [("lisp", "m")] * 3 + [("lisp", "c")] * 3 + [("lisp", "m")])
t("clojure", "(" + L + ")\n;" + L + "\n", [("clojure", "c"), ("clojure", "m")])
t("tex_dtx", "%%" + L + "\n%" + L + "\n" + L + "\n", [("tex_dtx", "m"), ("tex_dtx", "c"), ("tex_dtx", "c")])
t("bat", "rem " + L + "\n@REM " + L + "\n::" + L + "\nx\n", [("bat", "m")] * 3 + [("bat", "c")])
t("fortranfixed", "C " + L + "\n      CALL " + L + "\n\n", [("fortranfixed", "m"), ("fortranfixed", "c"), ("fortranfixed", "b")])
t("fortranfree", "! " + L + "\n CALL " + L + "\n\n", [("fortranfree", "m"), ("fortranfree", "c"), ("fortranfree", "b")])
t("postscript", "%" + L + "\n(" + L + ")\n\n", [("postscript", "m"), ("postscript", "c"), ("postscript", "b")])
t("bfpp", "@include(" + A + A + ")" + A)
t("c", "#if " + L + "\n/* " + L + "\n\n" + L + " */\n" + '"' + L + '\\\n//' + L + '"\n// ' + L + "\\\n" + L + "\n", [("c", "c"), ("c", "m"), ("c", "b"), ("c", "m"), ("c", "c"), ("c", "c"), ("c", "m"), ("c", "m")])
t("c", '"' + A + "\\" + A + A + '"' + A)


CON = "construct"


def constructs():
    """Every comment and string of every language of lib/langspec.py over several lines, with arbitrary bytes inside and behind."""
    out = []
    for l, s in sorted(langspec.SPEC.items()):
        for a, b, bol in [(x, "\n", "b" in f) for x, f in s["L"]] + [(x, y, False) for x, y, f in s["B"] + s["C"]] + [(q, q, False) for q, k in s["S"]]:
            pre = "\n" if bol else ""
            out.append((l, pre + a + A + A + b + A + "\n" if b == "\n" else pre + a + "\n" + A + "\n" + A + b + A, CON))
    return out


def header(languages):
    out = ["struct vtmpl { int lang; int n; const char *text; int nexp; const char *exp[16]; const char *expl[16]; };", "static const struct vtmpl VTMPL[] = {"]
    names, extra = [], []
    for lang, text, ex in T + constructs():
        if lang not in languages:
            continue
        (extra if ex is CON else names).append((lang, text, None if ex is CON else ex))
        ex = None if ex is CON else ex
        tx = "".join("\\%03o" % c for c in text.encode("latin1"))
        ks = {"c": "lcode", "m": "lcomment", "b": "lblank"}
        ex = ex or []
        out.append('{%d, %d, "%s", %d, {%s}, {%s}},' % (languages.index(lang), len(text), tx, len(ex), ",".join('"%s"' % (ks.get(e[1], "*") if e else "") for e in ex) or "0", ",".join('"%s"' % (e[0] if e else "") for e in ex) or "0"))
    out.append("{0, 0, 0, 0, {0}, {0}} };")
    return "\n".join(out) + "\n", names, extra


def show(text):
    return "".join({"\1": "\u25a1", "\2": "\u25a3", "\3": "\u24d0", "\4": "\u2423", "\5": "\u25a2"}.get(c, c) for c in text).replace("\n", "\\n")
