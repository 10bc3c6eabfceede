"""C09: nonces are derived from the content, and content keys are bound to what identifies the content."""
import re
import sim
from sim import mk, subs, show
from kctx import *

SK = "keyhive_crypto::symmetric_key::SymmetricKey"
SIV = "keyhive_crypto::siv::Siv::new"
NEW, DEC = "beekem::cgka::Cgka::new_app_secret_for", "beekem::cgka::Cgka::decryption_key_for"
UPDATE, ROOT, HASHES = "beekem::cgka::Cgka::update", "beekem::cgka::Cgka::pcs_key_from_tree_root", "beekem::cgka::Cgka::pcs_key_from_hashes"
BYOP = "beekem::cgka::Cgka::derive_pcs_key_for_op"
INSPCS = "beekem::cgka::Cgka::insert_pcs_key"
OPAQUE = {SIV, UPDATE, ROOT, HASHES, BYOP}
# calls whose result holds everything of their arguments
WHOLE = {"into", "from", "as_ref", "as_slice", "as_bytes", "to_vec", "to_bytes", "clone", "dupe", "deref", "hash", "derive_key", "derive_from_bytes", "directly_from_32_bytes", "finalize", "finalize_xof",
         "new_keyed", "new_derive_key", "keyed_hash", "concat", "to_owned", "into_bytes", "format", "new_display", "new_debug", "new_lower_hex", "borrow", "as_xnonce", "to_string", "into_boxed_slice", "chain",
         "from_slice", "into_vec", "expect", "unwrap", "serialize", "copied", "cloned", "iter", "into_iter", "as_str", "as_mut", "as_mut_slice", "must_use"}


def last(p): return p.rsplit("::", 1)[-1]


def base_name(p): return re.sub(r"(::\{closure#\d+\})+$", "", p)


def whole(t, atoms):
    """those of the atoms that t holds entirely"""
    if t in atoms: return {t}
    if t.k in ("absorb", "filled"): return set().union(*(whole(x, atoms) for x in t.a))
    if t.k == "coll": return (whole(t.a[0], atoms) if t.a[0] is not None else set()).union(*(whole(x, atoms) for x in t.a[1]))
    if t.k == "elem": return whole(t.a[0], atoms)
    if t.k == "agg": return set().union(*(whole(x, atoms) for x in t.a[3]))
    if t.k == "arr": return set().union(*(whole(x, atoms) for x in t.a if hasattr(x, "k")), *(whole(x, atoms) for y in t.a if isinstance(y, tuple) for x in y))
    if t.k == "cast": return set().union(*(whole(x, atoms) for x in t.a if hasattr(x, "k")))
    if t.k == "phi": return set.intersection(*(whole(x, atoms) for x in t.a[0]))
    if t.k == "fld" and t.a[2] == "0": return whole(t.a[0], atoms)     # newtypes and Ok / Some
    if t.k == "call" and (last(t.a[0]) in WHOLE or t.a[0].endswith("Arguments::new")): return set().union(*(whole(x, atoms) for x in t.a[1]))
    return set()


def bare(t):
    """looks through conversions"""
    while True:
        if t.k == "call" and last(t.a[0]) in ("into", "from", "as_ref", "as_slice", "to_vec", "clone", "deref", "as_bytes", "as_xnonce", "to_owned", "borrow", "dupe", "copied", "cloned") and len(t.a[1]) == 1: t = t.a[1][0]
        elif t.k == "coll" and t.a[0] is None and len(t.a[1]) == 1 and next(iter(t.a[1])).k == "elem": t = next(iter(t.a[1])).a[0]
        else: return t


def core(t):
    """the secret a key is made of"""
    while True:
        t = bare(t)
        if t.k == "call" and last(t.a[0]) in ("directly_from_32_bytes", "derive_from_bytes", "derive_key", "to_bytes"): t = t.a[1][-1]
        elif t.k == "fld" and t.a[2] == "0" and not (t.a[0].k == "call" or str(t.a[1]).startswith(("core::", "std::"))) : t = t.a[0]
        else: return t


class M(KCtx):
    mutates = True

    def __init__(self, P, me, opq=OPAQUE):
        super().__init__(P)
        self.me, self.opq, self.crypt, self.derives, self.noted = me, set(opq) - {me}, [], [], []

    def keep(self, p): return p.k == "eq" and any(is_call(x, "hash") for x in p.a)

    near = None     # the functions that matter; others are only entered when they are small

    def opaque(self, p):
        if p in self.opq: return True
        if self.near is None or p not in self.P.fns or p == self.me: return False
        f = self.P.fns[p]
        return base_name(p) not in self.near and weight(f) > 6 and not f.is_async and not re.search("SymmetricKey|Siv|ApplicationSecret|Vec<u8|\\[u8", f.locals[0])

    def mut_term(self, name, old, args): return old if old.k == "mut" and old.a[0] == name else mk("mut", name, old, ())

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        n = last(path)
        new = None
        aead = path.startswith("aead::") and (n.startswith("encrypt") or n.startswith("decrypt"))
        if not (aead or path.startswith(("blake3::Hasher", "blake3::OutputReader")) or path in (INSPCS,) or path.startswith("x25519")): return None
        a = [s.strip_mref(fn, st.env, x) for x in args]
        w = f"{fn.path} ({fn.file}:{line})"
        if aead:
            k = n[:7]
            self.crypt.append((k, w, tuple(a), st.facts, n))
            if n.endswith("_in_place"): new = 3, mk("aead", k, *a)
        elif n == "update" or n == "update_rayon": new = 0, mk("absorb", a[0], a[1])
        elif n == "reset": new = 0, mk("call", "blake3::Hasher::new", ())
        elif n == "fill": new = 1, mk("filled", a[0])
        elif path == INSPCS: self.noted.append((w, a[1], a[2], st.facts))
        if new is None: return None
        v = s.raw[new[0]]
        if v.k == "mref": s.write_at_raw(fn, st, v.a[0], list(v.a[1]), new[1])
        return [(v if n == "update" and v.k == "mref" else mk("call", path, tuple(a)), st.facts)]


def ok(r):
    """the success value of a result"""
    if r.k == "agg" and r.a[1] in (sim.RES, sim.OPT): return r.a[3][0] if r.a[2] in ("Ok", "Some") else None
    return r


def run(rep, P, tier):
    """Every call of the cipher (found in the call graph) is evaluated with its callers inlined until the nonce is known: it is Siv::new of
    the very plaintext that is encrypted, a secret the encryption key is made of, and a document id. The result carries that nonce
    next to the ciphertext; every decryption takes nonce and ciphertext from one object. Siv::new absorbs its three arguments whole and
    nothing else, and fills the whole nonce. The content key is compared as a term between encryption and decryption, after naming the key,
    the reference and the predecessors on either side, and holds all three whole."""
    G = CallGraph(P)
    nonce(rep, P)
    cipher(rep, P, G)
    encrypt(rep, P, G)
    decrypt(rep, P, G)
    binding(rep, P, G)
    epoch(rep, P)
    shared(rep, P, G)


def leaves(t):
    for x in subs(t):
        if x.k == "param": yield x
        elif x.k == "call" and not x.a[1] and not x.a[0].startswith(("blake3::Hasher::new",)): yield x


def nonce(rep, P):
    if not rep.fn(SIV): return
    s = sim.Sim(P, M(P, SIV))
    n = 0
    for r, facts, o in s.entry_mut(SIV):
        ps = {x for x in subs(r) if x.k == "param"}
        have = {x.a[1] for x in whole(r, ps)}
        n += 1
        for i, nm in enumerate(("key", "plaintext", "document")):
            rep.need(i in have, f"siv:{nm}", f"{SIV}: the nonce does not depend on the whole {nm} ({show(r, 9)[:300]})", "absorbed whole")
        odd = [x for x in leaves(r) if x.k == "call"]
        rep.need(not odd, "siv:deterministic", f"{SIV}: the nonce depends on {[show(x, 3) for x in odd][:3]}", "only on the arguments")
        y = r
        while y.k == "agg" and len(y.a[3]) == 1: y = y.a[3][0]
        full = y.k == "filled" or is_call(bare(y), "derive_key", "hash") or y.k == "call"
        rep.need(full, "siv:filled", f"{SIV}: the nonce is not entirely filled from the hash ({show(r, 6)[:200]})", "whole nonce")
    rep.floor("siv:returns", n, 1, "paths of Siv::new")
    rep.use(s)


def cipher(rep, P, G):
    """SymmetricKey's own encrypt and decrypt"""
    got = {}
    for n in ("try_encrypt", "try_decrypt"):
        p = f"{SK}::{n}"
        if not rep.fn(p): continue
        c = M(P, p)
        s = sim.Sim(P, c)
        for r, facts, o in s.entry_mut(p): pass
        rep.need(c.crypt, f"cipher:{n}", f"{p} does not reach the cipher", "calls the cipher")
        for k, w, a, f, nm in c.crypt:
            ps = {x for t in a for x in subs(t) if x.k == "param"}
            rep.need(any(x.a[1] == 0 for x in whole(a[0], ps)) or any(x.k == "param" and x.a[1] == 0 for x in subs(a[0])), f"cipher:{n}:key", f"{w}: the cipher does not use this key: {show(a[0], 4)}", show(a[0], 4)[:80])
            rep.need(bare(a[1]).k == "param" and bare(a[1]).a[1] == 1, f"cipher:{n}:nonce", f"{w}: the cipher does not use the nonce given: {show(a[1], 4)}", show(a[1], 4)[:80])
            rep.need(a[3].k == "param" and a[3].a[1] == 2, f"cipher:{n}:data", f"{w}: the cipher does not cover the whole buffer: {show(a[3], 4)}", show(a[3], 3)[:80])
            got[n] = (a[2], a[0])
        rep.use(s)
    if len(got) == 2:
        rep.need(got["try_encrypt"][0] is got["try_decrypt"][0], "cipher:associated", f"encryption and decryption use different associated data: {show(got['try_encrypt'][0], 3)}, {show(got['try_decrypt'][0], 3)}", "same associated data")
        strip = lambda t: show(t, 9).replace("try_encrypt", "").replace("try_decrypt", "")
        rep.need(strip(got["try_encrypt"][1]) == strip(got["try_decrypt"][1]), "cipher:same", "encryption and decryption make the cipher from the key differently", "same cipher")
    direct = sorted({base_name(x) for f in G.inn if f.startswith("aead::") and last(f).startswith(("encrypt", "decrypt")) for x in G.inn[f] if x in P.fns})
    rep.analysed["calls of the cipher"] = direct
    rep.floor("cipher:calls", len(direct), 2, "functions that call the cipher")


def callers(G, P, p):
    out = set()
    for x in G.inn.get(p, ()):
        if x in P.fns or base_name(x) in P.fns: out.add(base_name(x))
    for x in list(G.inn):
        if x.startswith(p + "::{closure") or x.startswith(p + "::{{"): pass
    return out - {p}


def aeads(G, P):
    return sorted({base_name(x) for f in G.inn if f.startswith("aead::") and last(f).startswith(("encrypt", "decrypt")) for x in G.inn[f] if x in P.fns})


def ancestors(G, ps):
    seen, todo = set(), list(ps)
    while todo:
        x = base_name(todo.pop())
        if x in seen: continue
        seen.add(x)
        for y in list(G.inn.get(x, ())): todo.append(y)
    return seen


def rooted(t):
    """t is (part of) a parameter: it is known only in the caller"""
    t = bare(t)
    t, _ = fpath(t)
    return t.k == "param"


def docid(t):
    t = bare(t)
    n = fields(t)
    return bool(n) and ("doc_id" in n or n[-1:] == ("id",)) or is_call(t, "doc_id")


def encrypt(rep, P, G):
    todo = sorted({base_name(x) for f in G.inn if f.startswith("aead::") and last(f).startswith("encrypt") for x in G.inn[f] if x in P.fns})
    seen, good = set(), 0
    near = ancestors(G, aeads(G, P) + [SIV])
    while todo:
        p = todo.pop(0)
        if p in seen or p not in P.fns: continue
        seen.add(p)
        c = M(P, p)
        c.near = near
        s = sim.Sim(P, c)
        outs = list(s.entry_mut(p))
        up = False
        sealed = 0
        for k, w, a, f, nm in c.crypt:
            if k != "encrypt": continue
            n, data = bare(a[1]), a[3]
            if n.k == "call" and n.a[0] == SIV:
                K, pt, D = n.a[1]
                rep.need(bare(pt) is bare(data), f"nonce:plaintext:{p}", f"in {p}, {w}: the nonce is derived from {show(pt, 4)[:120]} but {show(data, 4)[:120]} is encrypted", "of the plaintext")
                rep.need(core(K) in set(subs(a[0])) and core(K).k not in ("const", "named", "str"), f"nonce:key:{p}", f"in {p}, {w}: the nonce is derived from {show(K, 5)[:160]}, which the encryption key {show(a[0], 6)[:160]} is not made of", show(core(K), 3)[:100])
                if docid(D): rep.ok(f"nonce:document:{p}", show(bare(D), 3)[:80])
                elif rooted(D):
                    up = True
                    rep.need(callers(G, P, p) or True, f"nonce:document:{p}", "", "given by the caller")
                else: rep.bad(f"nonce:document:{p}", f"in {p}, {w}: the nonce is not bound to a document: {show(D, 5)[:160]}")
                good += 1
            elif rooted(n):
                up = True
                rep.ok(f"nonce:given:{p}", f"{show(n, 3)[:80]}: decided in the callers")
            else: rep.bad(f"nonce:derived:{p}", f"in {p}, {w}: the nonce {show(n, 6)[:200]} is not derived from key, document and plaintext")
        # what is returned
        for r, facts, o in outs:
            v = ok(r)
            if v is None: continue
            ae = {x for x in subs(v) if x.k == "aead" and x.a[0] == "encrypt"}
            struct = [x for x in subs(v) if x.k == "agg" and x.a[0] == "adt" and any(t[1].endswith("siv::Siv") for vn, fs in P.adts.get(x.a[1], {"variants": []})["variants"] for t in fs)]
            if p == f"{SK}::try_encrypt": continue
            if not ae:
                # fine if encryption is delegated to a caller given secret
                rep.need(not c.crypt or not produces(P, p), f"stored:ciphertext:{p}", f"{p} can succeed without returning the ciphertext: {show(v, 5)[:200]}", "returns the ciphertext")
                continue
            sealed += 1
            for x in struct:
                adt = P.adts[x.a[1]]
                fs = adt["variants"][0][1]
                ni = next(i for i, t in enumerate(fs) if t[1].endswith("siv::Siv"))
                es = [y for i, z in enumerate(x.a[3]) if i != ni for y in subs(z) if y.k == "aead" and y.a[0] == "encrypt"]
                for e in es: rep.need(bare(x.a[3][ni]) is bare(e.a[2]), f"stored:nonce:{p}", f"{p} stores {show(x.a[3][ni], 5)[:160]} with a ciphertext made with the nonce {show(e.a[2], 5)[:160]}", "the nonce used")
            if not struct:
                for e in ae:
                    rest = {bare(y) for y in outside(v, e)}
                    rep.need(bare(e.a[2]) in rest, f"stored:nonce:{p}", f"{p} returns a ciphertext without its nonce: {show(v, 5)[:200]}", "the nonce used")
        if up:
            cs = callers(G, P, p)
            todo += sorted(cs)
            if not cs: rep.ok(f"api:{p}", "public function with no caller in the workspace: the caller chooses the document")
        rep.use(s)
    rep.analysed["encryptions evaluated from"] = sorted(seen)
    rep.floor("nonce:derived", good, 4, "encryption paths with a derived nonce")


def produces(P, p):
    """returns something that holds a ciphertext"""
    t = P.fns[p].locals[0]
    if not ("Vec<u8" in t or "Encrypted" in t) and P.fns[p].is_async: t = " ".join(c.locals[0] for c in P.fns.values() if base_name(c.path) == p)
    return "Vec<u8" in t or "Encrypted" in t


def outside(t, e):
    """subterms of t that are not inside e"""
    if t is e: return
    yield t
    for x in kids(t): yield from outside(x, e)


def kids(t):
    for x in t.a:
        if hasattr(x, "k"): yield x
        elif isinstance(x, (tuple, list, frozenset)):
            for y in x:
                if hasattr(y, "k"): yield y


def decrypt(rep, P, G):
    fs = sorted({base_name(x) for x in G.inn.get(f"{SK}::try_decrypt", ()) if x in P.fns} | {base_name(x) for f in G.inn if f.startswith("aead::") and last(f).startswith("decrypt") for x in G.inn[f] if x in P.fns and not base_name(x).startswith(f"{SK}::try_decrypt")})
    rep.analysed["decryptions"] = fs
    rep.floor("decrypt:sites", len(fs), 4, "functions that decrypt")
    near = ancestors(G, aeads(G, P))
    todo, seen = list(fs), set()
    while todo:
        p = todo.pop(0)
        if p in seen or p not in P.fns: continue
        seen.add(p)
        c = M(P, p)
        c.near = near
        s = sim.Sim(P, c)
        outs = list(s.entry_mut(p))
        cr = [x for x in c.crypt if x[0] == "decrypt"]
        rep.need(cr, f"decrypt:reached:{p}", f"{p} does not reach the cipher", "reaches the cipher")
        for k, w, a, f, nm in cr:
            n, d = bare(a[1]), bare(a[3])
            if n.k == "param" and d.k == "param":
                rep.ok(f"decrypt:given:{p}", "decided in the callers")
                todo += sorted(callers(G, P, p))
                continue
            same = n.k == "fld" and d.k == "fld" and n.a[0] is d.a[0] and (n.a[2] == "nonce" and d.a[2] == "ciphertext" or (n.a[2], d.a[2]) == ("0", "1"))
            rep.need(same, f"decrypt:pair:{p}", f"in {p}, {w}: decrypts {show(d, 4)[:120]} with the nonce {show(n, 4)[:120]}", f"{show(n, 3)[:60]} with {show(d, 3)[:60]}")
        for r, facts, o in outs:
            v = ok(r)
            if v is None or r.k != "agg": continue
            rep.need(any(x.k == "aead" and x.a[0] == "decrypt" for x in subs(v)), f"decrypt:result:{p}", f"{p} can succeed without decrypting: {show(v, 4)[:160]}", "the decrypted buffer")
        rep.use(s)


def subst(t, m):
    memo = {}

    def deep(y):
        if hasattr(y, "k"): return go(y)
        if isinstance(y, tuple): return tuple(deep(z) for z in y)
        if isinstance(y, frozenset): return frozenset(deep(z) for z in y)
        return y

    def go(x):
        if x in m: return m[x]
        if x in memo: return memo[x]
        a = tuple(deep(y) for y in x.a)
        memo[x] = r = mk(x.k, *a) if a != x.a else x
        return r
    return go(t)


APP = "beekem::pcs_key::ApplicationSecret"


def binding(rep, P, G):
    """the content key: same function of key, reference and predecessors on both sides"""
    PCS, CR, PR = mk("named", "PCS"), mk("named", "REF"), mk("named", "PRED")
    enc, dec = set(), set()
    names = [f[0] for f in P.adts.get(APP, {"variants": [["", []]]})["variants"][0][1]]
    if rep.fn(NEW):
        c = M(P, NEW)
        s = sim.Sim(P, c)
        n = 0
        ps = P.fns[NEW]
        for r, facts, o in s.entry_mut(NEW):
            v = ok(r)
            if v is None: continue
            ap = [x for x in subs(v) if x.k == "agg" and x.a[1] == APP]
            rep.need(len(ap) == 1, "key:secret", f"{NEW} can succeed without deriving an application secret: {show(v, 4)[:160]}", "derives the secret")
            if len(ap) != 1: continue
            n += 1
            g = lambda f: ap[0].a[3][names.index(f)]
            h = g("pcs_key_hash")
            pcs = h.a[1][0] if is_call(h, "hash") else None
            rep.need(pcs is not None, "key:epoch", f"{NEW}: the secret's key hash {show(h, 4)[:120]} is not the hash of a document key", show(h, 3)[:80])
            if pcs is None: continue
            src = pcs.k == "fld" and any(x.k == "call" and x.a[0] in (ROOT, UPDATE) for x in subs(pcs)) and fresh(pcs)
            rep.need(src, "key:current", f"{NEW}: content is encrypted with {show(pcs, 5)[:160]}, not with the document's current key", show(pcs, 3)[:100])
            rep.need(bare(g("content_ref")).k == "param" and bare(g("content_ref")).a[1] == 1, "key:ref", f"{NEW}: the secret is labelled with {show(g('content_ref'), 4)[:120]}, not with the content's reference", "content_ref")
            pr = g("pred_refs")
            rep.need(is_call(pr, "hash") and bare(pr.a[1][0]).k == "param" and bare(pr.a[1][0]).a[1] == 3, "key:pred", f"{NEW}: the secret is labelled with {show(pr, 4)[:120]}, not with the hash of the predecessors", "pred_refs")
            no = bare(g("nonce"))
            good = no.k == "call" and no.a[0] == SIV and core(no.a[1][0]) is core(pcs) and bare(no.a[1][1]).k == "param" and bare(no.a[1][1]).a[1] == 2 and docid(no.a[1][2])
            rep.need(good, "key:nonce", f"{NEW}: the nonce {show(no, 5)[:200]} is not derived from the document key, the content and the document", "Siv of key, content, document")
            enc.add(subst(g("key"), {g("content_ref"): CR, pr: PR, pcs: PCS}))
            op = g("pcs_update_op_hash")
            rep.need(opof(op, pcs), "key:op", f"{NEW}: the secret names {show(op, 5)[:200]} as the update that made the key", show(op, 2)[:80])
        rep.floor("key:secrets", n, 2, "paths of new_app_secret_for that derive a secret")
        for w, k, h, f in c.noted:
            upd = k.k == "fld" and is_call(h, "hash") and h.a[1][0].k == "fld" and h.a[1][0].a[0] is k.a[0] and k.a[2] == "0" and h.a[1][0].a[2] == "1"
            head = any(x.k == "call" and x.a[0] == ROOT for x in subs(k)) and h.k == "elem" and fields(h.a[0])[-1:] == ("cgka_op_heads",)
            rep.need(upd or head, "key:recorded", f"{w}: {show(h, 4)[:120]} is recorded as the update that made {show(k, 4)[:100]}", "its own update")
        rep.use(s)
    if rep.fn(DEC):
        c = M(P, DEC)
        s = sim.Sim(P, c)
        for r, facts, o in s.entry_mut(DEC):
            v = ok(r)
            if v is None: continue
            e = next((x for x in subs(v) if x.k == "param" and x.a[1] == 1), None)
            pk = [x for x in subs(v) if x.k == "fld" and x.a[0].k == "call" and x.a[0].a[0] == HASHES or x.k == "fld" and x.a[0].k == "fld" and x.a[0].a[0].k == "call" and x.a[0].a[0].a[0] == HASHES and x.a[2] == "0"]
            call = next((x for x in subs(v) if x.k == "call" and x.a[0] == HASHES), None)
            rep.need(call is not None and e is not None, "key:decrypt", f"{DEC}: the key {show(v, 6)[:200]} does not come from the document key named by the content", "by the hashes of the content")
            if call is None or e is None: continue
            rep.need(fields(call.a[1][1])[-1:] == ("pcs_key_hash",) and fields(call.a[1][2])[-1:] == ("pcs_update_op_hash",) and fpath(call.a[1][1])[0] is e and fpath(call.a[1][2])[0] is e, "key:decrypt:hashes", f"{DEC}: looks up {[show(x, 3) for x in call.a[1][1:]]}", "key hash and update of the content")
            m = {}
            for x in subs(v):
                if x.k == "fld" and x.a[0] is e and x.a[2] == "content_ref": m[x] = CR
                if x.k == "fld" and x.a[0] is e and x.a[2] == "pred_refs": m[x] = PR
                if x.k == "fld" and x.a[0] is call and x.a[2] == "0": m[x] = PCS
                if x.k == "fld" and x.a[0].k == "as" and x.a[0].a[0] is call: m[x] = PCS
            dec.add(subst(v, m))
        rep.use(s)
    for side, ts in (("encryption", enc), ("decryption", dec)):
        rep.floor(f"key:{side}", len(ts), 1, f"content keys on the {side} side")
        for t in ts:
            have = whole(t, {PCS, CR, PR})
            for a in (PCS, CR, PR): rep.need(a in have, f"key:bound:{side}:{a.a[0]}", f"on {side} the content key is not bound to the whole {dict(PCS='document key', REF='content reference', PRED='predecessors')[a.a[0]]}: {show(t, 12)[:300]}", "bound")
            odd = [x for x in subs(t) if x.k == "param"]
            rep.need(not odd, f"key:only:{side}", f"on {side} the content key also depends on {[show(x, 2) for x in odd][:3]}", "nothing else")
    rep.need(len(enc) == 1 and enc == dec, "key:same", f"content keys are derived differently for encryption and decryption: {[show(x, 14)[:260] for x in sorted(enc ^ dec, key=str)][:3]}", show(next(iter(enc), mk("none")), 8)[:200])


def fresh(pcs):
    """the success value of the key derivation, or the key of the new update"""
    n = fields(pcs)
    b, _ = fpath(pcs)
    if b.k == "as": return True
    return b.k == "call" and b.a[0] in (ROOT, UPDATE) and n in (("0",), ("0", "0"), ("(Ok)", "0"), ("(Ok)", "0", "0")) or b.k == "call" and b.a[0] in (ROOT, UPDATE) and set(n) <= {"0"}


def opof(op, pcs):
    """the update that made this key: looked up by the key's hash, or the operation that came with the key, or the only head"""
    op = bare(op)
    if is_call(op, "hash"): return op.a[1][0].k == "fld" and op.a[1][0].a[0] is pcs.a[0]
    b, n = fpath(op)
    if is_call(b, "get"): return fields(b.a[1][0])[-1:] == ("pcs_key_ops",) and is_call(b.a[1][1], "hash") and b.a[1][1].a[1][0] is pcs
    if b.k == "elem": return fields(b.a[0])[-1:] in (("cgka_op_heads",), ("pcs_key_ops",))
    if b.k in ("val", "key"): return fields(b.a[0])[-1:] == ("pcs_key_ops",)
    return False


def epoch(rep, P):
    """the document key for a content's hashes"""
    if not rep.fn(HASHES): return
    c = M(P, HASHES)
    s = sim.Sim(P, c)
    n = 0
    for r, facts, o in s.entry_mut(HASHES):
        if r.k == "agg" and r.a[2] == "Err": continue
        n += 1
        v = ok(r)
        byop = [x for x in subs(r) if x.k == "call" and x.a[0] == BYOP]
        root = [x for x in subs(r) if x.k == "call" and x.a[0] == ROOT]
        b, ns = fpath(bare(v))
        got = is_call(b, "get") and fields(b.a[1][0])[-1:] == ("0",) or is_call(b, "get")
        if byop: good = all(bare(x.a[1][-1]).k == "param" and bare(x.a[1][-1]).a[1] == 2 for x in byop)
        elif root: good = any(p.k == "eq" and t and any(is_call(x, "hash") and root[0] in set(subs(x)) for x in p.a) and any(bare(x).k == "param" and bare(x).a[1] == 1 for x in p.a) for p, t in facts)
        elif got: good = b.a[1][1].k == "param" and b.a[1][1].a[1] == 1
        else: good = v.k in ("val",) or b.k in ("elem", "val")
        rep.need(good, "epoch:key", f"{HASHES} can return a key that is neither the one with this hash nor the one of this update: {show(r, 6)[:240]}", show(r, 3)[:100])
    rep.floor("epoch:returns", n, 2, "paths of pcs_key_from_hashes")
    rep.use(s)


DH = ("diffie_hellman",)


def shared(rep, P, G):
    """tree secrets: both sides derive the pairwise key the same way"""
    S = mk("named", "SHARED")
    got = {}
    todo = sorted({base_name(x) for f in ("try_encrypt", "try_decrypt") for x in G.inn.get(f"{SK}::{f}", ()) if x in P.fns})
    near, seen = ancestors(G, aeads(G, P)), set()
    while todo:
        p = todo.pop(0)
        if p in seen or p not in P.fns or p.startswith(SK): continue
        seen.add(p)
        c = M(P, p)
        c.near = near
        s = sim.Sim(P, c)
        outs = list(s.entry_mut(p))
        for k, w, a, f, nm in c.crypt:
            dh = [x for x in subs(a[0]) if x.k == "call" and last(x.a[0]) in DH]
            if not dh:
                if core(a[0].a[1][0] if a[0].k == "call" and a[0].a[1] else a[0]).k == "param": todo += sorted(x for x in callers(G, P, p) if x.startswith("beekem::"))
                continue
            rep.need(len(dh) == 1, f"shared:one:{p}", f"{w}: the pairwise key mixes {len(dh)} shared secrets", "one shared secret")
            got.setdefault(subst(a[0], {dh[0]: S}), []).append(f"{k} in {p}")
            pk = bare(dh[0].a[1][1])
            if k == "encrypt":
                n = bare(a[1])
                for r, facts, o in outs:
                    v = ok(r)
                    if v is None: continue
                    for x in subs(v):
                        if x.k == "agg" and x.a[1] == "beekem::encrypted::EncryptedSecret":
                            rep.need(any(bare(y) is pk for y in x.a[3]), f"shared:paired:{p}", f"{p} does not store the public key {show(pk, 3)[:100]} the secret is encrypted for", "paired key stored")
            else:
                sk = bare(dh[0].a[1][0])
                owner = [x for t in dh[0].a[1] for x in subs(t) if x.k == "fld" and x.a[2] == "paired_pk"]
                rep.need(owner, f"shared:paired:{p}", f"{p} decrypts with a key that does not involve the key the secret was encrypted for", "paired_pk")
        rep.use(s)
    rep.floor("shared:sites", sum(len(x) for x in got.values()), 3, "pairwise encryptions and decryptions")
    rep.need(len(got) == 1, "shared:same", f"pairwise keys are derived in {len(got)} different ways: {[(show(t, 9)[:160], sorted(set(x))[:3]) for t, x in got.items()]}", "one derivation")
    for t in got:
        rep.need(S in whole(t, {S}) or any(x is S for x in subs(t)) , "shared:whole", f"the pairwise key does not hold the shared secret: {show(t, 9)[:200]}", "holds the shared secret")
