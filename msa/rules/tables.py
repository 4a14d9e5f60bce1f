"""C45 tables: the first rows, each value below the name of its own column."""
from ..rulelib import *
from .dictsets import DS

DISPLAY = "mabel.data.internals.display."
V = [S(f"value{i}", "str") for i in range(1, 8)]
A, B, X = C("omega"), C("beta"), C("gamma")
RECORDS = [{A: V[0], B: V[1]}, {B: V[2], A: V[3]}, {B: V[4], X: V[5]}]
SETS = [RECORDS, RECORDS[1:], RECORDS[2:] + RECORDS[:1], RECORDS[:1], [{A: V[0]}, {B: V[1]}, {A: V[2], B: V[3]}]]
BARS = set("│┃║|")


def oc(I, st, f, args, kw, fr, node):
    if f == ("ext", "builtins.len") and len(args) == 1:
        a = args[0]
        if a[0] == "call" and a[1] == ("ext", "builtins.str"):
            a = a[2][0]
        if a in V:
            return [(st, "v", C(3 + V.index(a)))]
    if f in (("ext", "builtins.max"), ("ext", "builtins.min")):
        x = args
        if len(args) == 1:
            t = I.freeze(st, args[0])
            x = t[1] if t[0] == "tuple" else [p[1] for p in t[2]] if t[0] == "list" and all(p[0] == "one" for p in t[2]) else ()
        if x and all(y[0] == "c" for y in x):
            return [(st, "v", C((max if f[1].endswith("max") else min)(y[2] for y in x)))]
    return None


def atoms(t):
    """the pieces of a text: constant text and what is put into it"""
    if t[0] == "c":
        return [t[2] if isinstance(t[2], str) else str(t[2])]
    if t[0] == "cat":
        return [a for x in t[1] for a in atoms(x)]
    if t[0] == "bin" and t[1] == "+":
        return atoms(t[2]) + atoms(t[3])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and len(t[2]) == 1 and t[2][0][0] in ("list", "tuple"):
        ps = [p[1] for p in t[2][0][2]] if t[2][0][0] == "list" and all(p[0] == "one" for p in t[2][0][2]) else list(t[2][0][1]) if t[2][0][0] == "tuple" else None
        if ps is not None:
            out = []
            for i, p in enumerate(ps):
                out += (atoms(t[1][1]) if i else []) + atoms(p)
            return out
    return [t]


def lines_of(t):
    """the lines of a text, each a list of cells, each a pair of its constant text and the values in it"""
    lines, cell = [[]], ["", set()]
    for a in atoms(t):
        if not isinstance(a, str):
            cell[1] |= {x for x in walk(a) if x in V}
            continue
        for ch in a:
            if ch == "\n" or ch in BARS:
                lines[-1].append(cell)
                cell = ["", set()]
                if ch == "\n":
                    lines.append([])
            else:
                cell[0] += ch
    lines[-1].append(cell)
    out = []
    for l in lines:
        # a line of the table begins and ends with a bar
        if len(l) > 2:
            l = [(a.strip(), frozenset(b)) for a, b in l]
            out.append(l[1:-1] if not l[0][0] and not l[-1][0] and not l[0][1] and not l[-1][1] else l)
    return out


def rows_of(t):
    """the rows of an HTML table, each a list of cells"""
    rows, tag, cell = [], None, None

    def close():
        if cell is not None and rows:
            rows[-1].append((cell[0].strip(), frozenset(cell[1])))
    for a in atoms(t):
        if not isinstance(a, str):
            if tag is None and cell is not None:
                cell[1] |= {x for x in walk(a) if x in V}
            continue
        for ch in a:
            if tag is None and ch == "<":
                tag = ""
            elif tag is not None and ch == ">":
                name = tag.split()[0].lower() if tag.split() else ""
                tag = None
                if name in ("tr", "/tr", "td", "th", "/td", "/th", "/table", "/thead", "/tbody"):
                    close()
                    cell = ["", set()] if name in ("td", "th") else None
                if name == "tr":
                    rows.append([])
            elif tag is not None:
                tag += ch
            elif cell is not None:
                cell[0] += ch
    close()
    return rows


def shown(ck, what, t, records, limit, split):
    rows = split(t)
    label = f"{what}: {limit} of {len(records)}"
    path = [show(t, 9)[:600], str([[(a, [v[1] for v in b]) for a, b in r] for r in rows])[:500]]
    want = records[:limit]
    names = []
    for r in want:
        for k in r:
            if k[2] not in names:
                names.append(k[2])
    heads = [[c[0] for c in r] for r in rows if any(c[0] in names for c in r) and not any(c[1] for c in r)]
    ok = len(heads) == 1 and all(heads[0].count(n) == 1 for n in names)
    ck.ob("columns", what, ok, f"the names of the columns of the rows shown are not each there once ({label})", None, path)
    if not ok:
        return
    at = {n: heads[0].index(n) for n in names}
    body = [r for r in rows if any(c[1] for c in r)]
    ck.ob("first-rows", what, len(body) == len(want), f"not the first rows are shown ({label})", None, path)
    for r, rec in zip(body, want):
        for n in names:
            c = r[at[n]] if at[n] < len(r) else ("", frozenset())
            v = rec.get(C(n))
            if v is None:
                ck.ob("blank", what, not c[0] and not c[1], f"a value is shown in a column the record does not have ({label})", None, path)
            else:
                ck.ob("own-column", what, c[1] == {v} and not c[0], f"a value is not shown below the name of its own column ({label})", None, path)


def tables(ck):
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, on_call=oc, watch=lambda k, n: False)
    I.ordered_sets = True
    I.while_turns = 30

    def given(records):
        st = I.fresh()
        rs = []
        for i, r in enumerate(records):
            st, ref = I.new_dict(st, ("record", i), dict(r))
            rs.append(("one", ref))
        return I.new_list(st, ("records",), "list", tuple(rs))
    for name, split, via in (("ascii_table", lines_of, "to_ascii_table"), ("html_table", rows_of, "to_html_table")):
        ck.saw(DISPLAY + name, DS + ".DictSet." + via)
        for records in SETS:
            for limit in (1, 2, 3, 5):
                st, ref = given(records)
                some = 0
                for s, k, v in ck.took(I.call(st, I.value(DISPLAY + name), (ref, C(limit)))):
                    if k == "ret":
                        some += 1
                        shown(ck, name, I.freeze(s, v), records, limit, split)
                    else:
                        ck.ob("table", name, False, "no table is made", None, [show(v)])
                ck.ob("table", name, some, "no table is made", None)
        for limit in (1, 2, 5):
            st, ref = given(RECORDS)
            for s, k, r in I.call(st, I.value(DS + ".DictSet"), (ref,)):
                for s2, k2, v in ck.took(I.method(I.clear(s), r, via, (C(limit),))) if k == "ret" else []:
                    if k2 == "ret":
                        shown(ck, via, I.freeze(s2, v), RECORDS, limit, split)
    ck.need("own-column", 80)
    ck.need("blank", 20)
    ck.need("first-rows", 40)
