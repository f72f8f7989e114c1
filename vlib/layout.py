"""Lexing circom texts and laying them out in other ways."""
import re

OPS = ["<==", "==>", "<--", "-->", "===", "**=", "<<=", ">>=", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "\\=", "%=", "&=", "|=", "^=", "++", "--", "**", "<<", ">>"]
TOK = re.compile(r'"[^"\n]*"|[$_]*[A-Za-z][\w$]*|0x[0-9A-Fa-f]+|[0-9]+|' + "|".join(re.escape(o) for o in OPS) + r"|[^\s]")


def strip_comments(t):
    return re.sub(r'("[^"\n]*")|//[^\n]*|/\*.*?\*/', lambda m: m.group(1) or " ", t, flags=re.S)


def tokens(t):
    """tokens of a text without comments"""
    return TOK.findall(strip_comments(t))


def glued(a, b):
    """may the two tokens be written without anything between them?"""
    if a.endswith("/") and b[0] in "/*": return False
    return TOK.findall(a + b) == [a, b]


WORDS = ["", " ", "x", "signal input a;", "\"", "'", "\"open", "*", "**", "/", "* /", "é", "日本", "\U0001f600", "\\", "}", "{", "(", "template", "component main = A();", "1 + 2", "\t", "//", "<==", "pragma circom 9.9.9;", "include \"nope\";", "-1", "#!", "\u00a0", "`"]


def comment(r, forms=("block", "line")):
    s = "".join(r.choice(WORDS) for _ in range(r.randrange(5)))
    if r.choice(forms) == "line": return "//" + s.replace("\n", " ") + r.choice(["\n", "\r\n", "\n\n"])
    s = r.choice(["", "", "", "*", "/", "**"]) + s + r.choice(["", "", "\n", "\r\n * more\n", "/*", "//", "*", " *"])
    while "*/" in s: s = s.replace("*/", "* /")
    return "/*" + s + "*/"


def sep(r, a, b, style):
    """something to write between two tokens"""
    k = r.random()
    if k < style.get("comment", .15):
        c = comment(r)
        return (" " if a.endswith("/") or r.random() < .3 else "") + c + r.choice(["", "", " "])
    if k < style.get("tight", .5) and glued(a, b): return ""
    return r.choice([" ", " ", " ", "  ", "\n", "\t", "\r\n", "\n\n", " \n\t ", "\n    "])


STYLES = [dict(), dict(comment=0, tight=1), dict(comment=0, tight=0), dict(comment=.6, tight=.8), dict(comment=.03, tight=.03), dict(comment=1)]


def relayout(r, toks, style=None):
    """the tokens, separated in random ways"""
    st = style or r.choice(STYLES)
    out = [r.choice(["", "", "\n", comment(r), " "])]
    for i, t in enumerate(toks):
        out.append(t)
        if i + 1 < len(toks): out.append(sep(r, t, toks[i + 1], st))
    out.append(r.choice(["", "\n", "\r\n", " ", comment(r), "// the end", "//", "/**/", "\n/* x */"]))
    return "".join(out)
