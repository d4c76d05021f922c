import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog
p = prog.load()
def show(n, d=0, maxd=40):
    if n is None:
        print("  " * d + "-"); return
    x = n.cq or (repr(n.var) if n.var else "") or (repr(n.s) if n.s is not None else "")
    print("  " * d + "%d:%s %s %s%s [%s] L%d" % (n.id, n.k, n.op or "", x, "" if n.v is None else " =%d" % n.v, n.t.s[:60], n.line))
    if n.k == "decl":
        for dd, c in zip(n.a["ds"], n.ch):
            print("  " * d + "  var", n.fn.unit.vd[dd["d"]])
    for c in n.ch:
        show(c, d + 1)
if __name__ == "__main__":
    for f in p.fns(sys.argv[1]):
        print("=====", f.q, f.loc(), "params", f.params)
        for i in f.inits: print("init", i[0], i[1]); show(i[2], 1)
        if f.body: show(f.body)
        if len(sys.argv) > 2:
            for b in f.blocks.values():
                print("B%d -> %s label=%s term=%s cond=%s" % (b.id, b.succ, b.label, b.tk, b.cond))
                for e in b.elems: print("    ", e if isinstance(e, tuple) else (e.id, e))
