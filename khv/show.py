import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, ir
d, _ = facts.extract()
P = ir.Prog(d)


def pl(fn, p):
    s = f"_{p[0]}" + (f"({fn.names[p[0]]})" if p[0] in fn.names else "")
    for e in p[1:]:
        if e[0] == "d": s = f"*{s}"
        elif e[0] == "f": s = f"{s}.{e[2]}"
        elif e[0] == "v": s = f"({s} as {e[2]})"
        else: s = f"{s}{e}"
    return s


def op(fn, o):
    if o[0] in "cm": return (("move " if o[0] == "m" else "") + pl(fn, o[1]))
    if o[0] == "fn": return "fn " + fn.strs[o[1].get("res", o[1]["fn"])]
    if o[0] == "kn": return "const " + fn.strs[o[1]]
    return "const " + str(o[1])


def show(fn):
    print(f"fn {fn.path} [{fn.kind}] {fn.file}:{fn.line} argc={fn.argc} vis={fn.vis}")
    for i, t in enumerate(fn.locals):
        print(f"   _{i} {fn.names.get(i,'')}: {t}")
    for i, b in enumerate(fn.blocks):
        if b[2]: continue
        print(f" bb{i}:")
        for s in b[0]:
            if s[0] == "a":
                rv = s[2]
                k = rv[0]
                if k == "use": r = op(fn, rv[1])
                elif k == "ref": r = "&" + ("mut " if rv[1] else "") + pl(fn, rv[2])
                elif k == "agg": r = f"{rv[1]} {fn.strs[rv[2]] if rv[2] or rv[1] in ('adt','clo','cor') else ''}::{rv[3]}({', '.join(op(fn,x) for x in rv[4])})"
                elif k == "disc": r = f"disc({pl(fn, rv[1])})"
                elif k == "bin": r = f"{rv[1]}({op(fn,rv[2])}, {op(fn,rv[3])})"
                elif k == "cast": r = f"cast {op(fn,rv[1])} as {fn.strs[rv[2]]}"
                else: r = str(rv)
                print(f"    {pl(fn, s[1])} = {r}   // {s[3]}")
        t = b[1]
        if t[0] == "call":
            c = P.callee(fn, t[1])
            nm = (c[1] + ("" if c[0] == c[1] else f"  [{c[0]}]") + f" <{', '.join(x[-40:] for x in c[3])}>") if c else op(fn, t[1])
            print(f"    {pl(fn, t[3])} = {nm}({', '.join(op(fn, a) for a in t[2])}) -> bb{t[4]}  // {t[5]} {t[6]}")
        elif t[0] == "sw":
            print(f"    switch {op(fn, t[1])} {t[2]} else {t[3]}")
        elif t[0] == "drop":
            print(f"    drop {pl(fn, t[1])} -> bb{t[2]}")
        else:
            print("   ", t)


if __name__ == "__main__":
    pat = sys.argv[1]
    if pat == "-l":
        for p in sorted(P.fns):
            if len(sys.argv) < 3 or sys.argv[2] in p: print(p, P.fns[p].kind)
    else:
        for p in sorted(P.fns):
            if p == pat or (len(sys.argv) > 2 and pat in p): show(P.fns[p])
