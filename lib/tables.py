"""The documented tables (file name extensions, file names, language names, C++ headers, command flags): lib/tables.json is the reference;
keys that only the current source has are taken from there."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))


def current(tree):
    lang = dict(re.findall(r'#define\s+(LANG_\w+)\s+"([^"]*)"', open(os.path.join(tree.src, "languages.h")).read()))

    def val(v):
        v = v.strip()
        m = re.match(r'DISAMBIGUATE\("(\w+)"\)', v)
        return "\2" + m.group(1) if m else "\1" if v == "BINARY" else lang.get(v, v)
    out = {"extensions": {k: val(v) for k, v in tree.gperf("extensions")}, "filenames": {k: val(v) for k, v in tree.gperf("filenames")},
           "cppheaders": {k: "1" for k, _ in tree.gperf("cppheaders")}, "options": {k: v for k, v in tree.gperf("options")}, "languages": {}}
    for k, v in tree.gperf("languages"):
        a = [x.strip() for x in re.findall(r'"[^"]*"|[^,]+', v)]
        out["languages"][k] = [val(a[0]), a[1].strip('"') if len(a) > 1 else "", int(a[2]) if len(a) > 2 else 0]
    return out


def load(tree):
    ref = json.load(open(os.path.join(HERE, "tables.json")))
    cur = current(tree)
    return {t: dict(cur[t], **ref[t]) for t in ref}


def q(s):
    return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else "\\%03o" % ord(c) for c in s) + '"'


def header(tree):
    t = load(tree)
    h = "struct v_kv { const char *k, *v; };\n"
    for name, var in (("extensions", "V_EXT"), ("filenames", "V_FILE"), ("cppheaders", "V_CPP")):
        h += "static const struct v_kv %s[] = {%s, {0, 0}};\n" % (var, ", ".join("{%s, %s}" % (q(k), q(v)) for k, v in sorted(t[name].items())))
    h += "struct v_lang { const char *k, *name, *nice; int category; };\nstatic const struct v_lang V_LANG[] = {%s, {0, 0, 0, 0}};\n" % ", ".join(
        "{%s, %s, %s, %d}" % (q(k), q(v[0]), q(v[1]), v[2]) for k, v in sorted(t["languages"].items()))
    h += "static const struct v_kv V_OPT[] = {%s, {0, 0}};\n" % ", ".join("{%s, %s}" % (q(k), q(v)) for k, v in sorted(t["options"].items()))
    with open(os.path.join(tree.dir, "v_tables.h"), "w") as f:
        f.write(h)
    return t
