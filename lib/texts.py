"""Encoding of content lines and trees, and calls of the text codecs."""
from lib import core
from lib.core import cps, txt


def kind(e):
    from ics.contentline import ParseError

    if isinstance(e, ParseError):
        return "ParseError"
    if isinstance(e, ValueError):
        return "ValueError"
    return type(e).__name__


def outcome(fn, enc=lambda x: x):
    """ok/res/exc of one call"""
    try:
        with core.limit(20):
            r = enc(fn())
    except core.Hang:
        return {"ok": False, "res": [], "exc": "Hang"}
    except RecursionError:
        return {"ok": False, "res": [], "exc": "RecursionError"}
    except Exception as e:
        return {"ok": False, "res": [], "exc": kind(e)}
    return {"ok": True, "res": r, "exc": ""}


def enc_line(cl):
    from ics.contentline import QuotedParamValue

    return {"name": cps(cl.name),
            "params": [{"n": cps(k), "vals": [{"q": isinstance(v, QuotedParamValue),
                                               "v": cps(str(v))} for v in vs]}
                       for k, vs in cl.params.items()],
            "value": cps(cl.value)}


def dec_line(l):
    from ics.contentline import ContentLine, QuotedParamValue

    return ContentLine(txt(l["name"]),
                       {txt(p["n"]): [QuotedParamValue(txt(v["v"])) if v["q"] else txt(v["v"])
                                      for v in p["vals"]] for p in l["params"]},
                       txt(l["value"]))


def enc_item(x):
    from ics.contentline import Container

    if isinstance(x, Container):
        return {"t": "comp", "name": cps(x.name), "items": [enc_item(i) for i in x]}
    return {"t": "line", "l": enc_line(x)}


def dec_item(x):
    from ics.contentline import Container

    if x["t"] == "comp":
        return Container(txt(x["name"]), [dec_item(i) for i in x["items"]])
    return dec_line(x["l"])


def enc_items(xs):
    return [enc_item(x) for x in xs]


def parse_line(t):
    """one content line, through the public parser"""
    from ics.contentline import Parser

    out = list(Parser.lines_to_contentlines([t]))
    if len(out) != 1:
        raise RuntimeError("not one line")
    return out[0]


def parse_text(t):
    from ics.contentline import string_to_containers

    return list(string_to_containers(t))


def parse_lines(ls):
    from ics.contentline import lines_to_containers

    return list(lines_to_containers(ls))


# every printable ASCII character, the tab, and some beyond
WIDE = [9, *range(32, 127), 0x85, 0xe9, 0x2028, 0x1f600]


def consts(mode, alphabet, n, frames="NoFrame"):
    return (f'Mode = "{mode}"\n Alphabet = {{{", ".join(map(str, sorted(alphabet)))}}}\n'
            f" MaxLen = {n}\n Frames <- {frames}")
