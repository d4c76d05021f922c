"""writes ref/functions.txt: the functions of the tree the rules were written for (a function that is not listed may be a helper
extracted from one of them)"""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/lib")
import prog
p = prog.load()
open(H + "/ref/functions.txt", "w").write("\n".join(sorted({f.q for f in p.src_funcs() if f.parent is None and "<" not in f.q})) + "\n")
