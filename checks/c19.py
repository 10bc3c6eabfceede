"""C19: a failed signature leaves the key tree unchanged."""
import sim
from sim import show
from kctx import *
from keytree import *


def run(rep, P, tier):
    """Every public method of Cgka that creates signed operations (found in the call graph) is evaluated as a dataflow over the value of
    `self`: at every return of an error the tree and the operation history are the initial ones (up to a replay of the history), at
    every return they changed together, and nothing of them has changed when the signer is called, so that neither a failing nor a
    cancelled signature can leave a change behind."""
    g = CallGraph(P)
    cr = creators(P, g)
    rep.analysed["creators"] = sorted(cr)
    for n in ("add", "remove", "update"): rep.need(CGKA + "::" + n in cr, f"creator:{n}", f"{CGKA}::{n} no longer creates a signed operation: rule cannot be decided", n)
    rep.fn(REPLAY)
    signs = rets = 0
    for p in sorted(cr):
        c = K(P, p, cr | {REPLAY})
        s = sim.Sim(P, c)
        n = p.split("::")[-1]
        for ret, facts, outs in s.entry_mut(p):
            rets += 1
            ch = changes(outs[0], cr)
            if not rep.need(ch is not None, f"{n}:known", f"{p}: cannot follow what happens to the key tree ({show(outs[0], 5)[:300]})", "followed"): continue
            tree, graph = "tree" in ch, "ops_graph" in ch
            oc = outcome(ret)
            if oc == "?" : oc = "Err" if tree or graph else "Ok"
            if oc == "Err":
                rep.need(not tree, f"{n}:err-tree", f"{p} can fail ({show(ret, 4)[:160]}) after changing the key tree", show(ret, 4)[:120])
                rep.need(not graph, f"{n}:err-history", f"{p} can fail ({show(ret, 4)[:160]}) after changing the operation history")
            else:
                rep.need(tree == graph, f"{n}:together", f"{p} can return with the {'tree' if tree else 'history'} changed but not the {'history' if tree else 'tree'}")
        for facts, w in c.signs:
            signs += 1
            for k, what in (("tree", "key tree"), ("ops_graph", "operation history")):
                rep.need((mk("touched", k), True) not in facts, f"{n}:sign-{k}", f"{w}: the signer is called (and may fail, or the call be cancelled) after the {what} was changed", w)
        rep.use(s)
    rep.floor("returns", rets, 12, "returns of creators")
    rep.floor("signatures", signs, 3, "signer calls")
    rep.assume.append("BeeKem methods change only the tree they are called on (ownership); a replay rebuilds the tree from the recorded history")
