"""debug runner: run.py prog.json harness..."""
import sys, time, traceback
sys.path.insert(0, __file__.rsplit("/",1)[0])
from core import *
import interp
def main():
    import gc; gc.disable(); prog = Prog(sys.argv[1])
    for h in sys.argv[2:]:
        I = interp.Interp(prog, dict(__import__("json").loads(__import__("os").environ.get("VPCFG", "{}")), debug=False))
        f = prog.byname[h][0]
        t=time.time()
        import faulthandler; faulthandler.dump_traceback_later(int(__import__('os').environ.get('TO','100')), exit=True)
        st=St.new()
        try:
            rs=I.call_fn(st, f, [], None, "entry")
            print(h, "ended states", len(rs), "imp", [sorted(s.imp) for s,_ in rs][:3])
        except Exception:
            traceback.print_exc()
            for fr in []: pass
        print("time %.1f steps %d"%(time.time()-t, I.steps), "loc", I.curloc)
        for k,v in I.asserts.items(): print("  A",k,v)
        for k,v in I.reports.items(): print("  R",k,"DEF" if v["definite"] else "undecided", v["imp"][:3], v["stack"][-4:])
        print("  unsup", I.unsupported)
        print("  events", I.events)
main()
