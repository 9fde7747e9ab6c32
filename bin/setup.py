import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
ctx = lib.Ctx("setup", "other")
try:
    fams = sorted(d for d in os.listdir(os.path.join(lib.VERIF, "harness")) if d not in ("vh", "overlay"))
    for f in fams:
        ctx.build(f)
        print("built", f)
finally:
    ctx.cleanup()
