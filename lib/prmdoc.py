"""Edits of parameter files: formatting, and values against the limits of the commented templates."""
import os, re
import fl


def documented(module, d):
    """{parameter: description} from the commented template."""
    p = os.path.join(d, f"doc-{module}.prm")
    fl.run([fl.exe("force-parameter"), p, module])
    o, t = {}, None
    for l in open(p):
        l = l.strip()
        if l.startswith("# Type:"):
            t = l[8:]
        elif l.startswith("#") and t and t.count("{") > t.count("}"):
            t += l[1:].strip()
        elif "=" in l and not l.startswith("#"):
            o[l.split("=")[0].strip()] = t
            t = None
    return o


def edits(key, value, doc):
    """(kind, new value or None = line removed, accepted?)"""
    yield "missing", None, False
    yield "empty", "", False
    vals = str(value).split()
    m = re.search(r"(Integer|Float|Double)( list)?.*Valid (?:values|range):? ?([\[\]])(-?[\d.]+),(-?[\d.]+|\.\.\.)([\[\]])?", doc or "")
    if m:
        typ, _, lb, lo, hi, rb = m.groups()
        unit = 1 if typ == "Integer" else 0.01
        num = (lambda x: str(int(x))) if typ == "Integer" else (lambda x: f"{x:.4f}")
        for i in range(len(vals)):
            def at(x):
                return " ".join(vals[:i] + [x] + vals[i + 1:])
            if lb == "[":
                yield f"value {i+1} below minimum", at(num(float(lo) - unit)), False
                yield f"value {i+1} at minimum", at(num(float(lo))), True
            if hi != "..." and rb == "]":
                yield f"value {i+1} above maximum", at(num(float(hi) + unit)), False
                yield f"value {i+1} at maximum", at(num(float(hi))), True
        if re.search(r"list, 3 values", doc):
            yield "one value less", " ".join(vals[:-1]), False
            yield "one value more", " ".join(vals + vals[-1:]), False
    m = re.search(r"Valid (?:values|range): \{([^}]*)\}", doc or "")
    if m and "..." not in m.group(1):
        words = [w.strip() for w in m.group(1).split(",")]
        for w in words:
            if w and "-" not in w:
                yield f"documented word {w}", w, True
        yield "unknown word", "XYZ" if not words[0].isdigit() else "99", False
        if "list" in doc:
            yield "unknown word at the end", f"{words[0]} XYZ", False
            yield "all words", " ".join(w for w in words if "-" not in w), True
    if "YYYY-MM-DD" in (doc or ""):
        for i in range(len(vals)):
            for bad in ("2018-13-01", "2018-00-10", "2018-02-32", "2018-02-00", "1899-12-31"):
                yield f"date {bad}", " ".join(vals[:i] + [bad] + vals[i + 1:]), False
            yield "last day of the year", " ".join(["2018-12-31"] * len(vals)), True


def line_edits(i, lines):
    l = lines[i]
    k, v = (x.strip() for x in l.split("=", 1))

    def put(*new):
        return lines[:i] + list(new) + lines[i + 1:]
    yield "leading blanks", put("   " + l)
    yield "trailing blanks", put(l + "    ")
    yield "no blanks at equal sign", put(f"{k}={v}")
    yield "many blanks at equal sign", put(f"{k}    =     {v}")
    yield "trailing comment", put(f"{l} # {k} = 17 18")
    yield "comment attached to the value", put(f"{l}# old: 3")
    yield "comment line before", put(f"# {k} = 17", l)
    yield "comment line without blank before", put(f"#{k} = 17", l)
    yield "comment line after", put(l, f"#{k} = 17")
    yield "empty line before", put("", l)
    yield "line of blanks before", put("     ", l)
    yield "carriage return", put(l + "\r")
    if " " in v:
        yield "many blanks between values", put(f"{k} = " + v.replace(" ", "   "))
    rest = lines[:i] + lines[i + 1:]
    yield "moved to the end", rest + [l]
    yield "moved to the start", [l] + rest
    if i + 1 < len(lines):
        yield "swapped with next", lines[:i] + [lines[i + 1], l] + lines[i + 2:]


def file_edits(lines):
    yield "reversed", lines[::-1]
    yield "sorted", sorted(lines)
    yield "carriage returns", [l + "\r" for l in lines]
    yield "comments everywhere", [x for l in lines for x in ("# " + l, l + "   # " + l)]
    yield "empty lines everywhere", [x for l in lines for x in ("", l, "  ")]
    yield "no blanks", ["=".join(x.strip() for x in l.split("=", 1)) for l in lines]
    yield "indented", ["      " + l + "      " for l in lines]
