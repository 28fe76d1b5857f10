"""Loop summaries by optimistic value numbering of the loop-carried slots.

The loop is rotated (`if c: do body while c`).  Every location whose content differs
between the loop entry and the back edge becomes a *slot* (variable, attribute, array
element, list item, last element of a growing list).  All slots that start with the
same value are optimistically assumed to stay equal; the body is analysed under that
assumption and the classes are split until the assumption is inductive (Alpern-Wegman-
Zadeck partition refinement).  Each class gets one symbol (numbers) or one finite switch
(flags).  The body facts of the last, inductive pass are kept in a LoopRecord.
"""
import ast
from . import terms as T
from . import gated as G
from .terms import Poly
from .gated import Node, Tup, b_and, b_not, b_or, vkey, lift
from .interp import (State, Outcome, merge, Dead, Ref, ArrRef, EnvC, ListC, HBase, DictC, ArrC, InstC, Opq, UNBOUND, NAN, Unsupported)

from .interp import _Single
from .live import live_at
ABSENT = _Single('<absent>')      # no entry value: the slot only exists after the first iteration
DEBUG = False
MAX_PASSES = 25
MAX_INT_DOMAIN = 3


def reachable(v, st, out=None):
    """heap locations of the containers reachable from a value"""
    out = [] if out is None else out
    for x, _ in G.leaves(v) if v is not UNBOUND and v is not ABSENT else []:
        if isinstance(x, Tup):
            for y in x.items:
                reachable(y, st, out)
        elif isinstance(x, (ArrRef, Ref)) and x.loc not in out:
            out.append(x.loc)
            for c, _ in G.leaves(st.heap.get(x.loc)) if isinstance(x, Ref) and x.loc in st.heap else []:
                if isinstance(c, ListC):
                    for y in c.items:
                        reachable(y, st, out)
                elif isinstance(c, DictC):
                    for _, y in c.items.values():
                        reachable(y, st, out)
                elif isinstance(c, InstC):
                    for y in c.attrs.values():
                        reachable(y, st, out)
    return out


class LoopRecord:
    def __init__(self):
        self.node = self.mod = self.func = None
        self.entry = None        # state before the loop (condition true)
        self.entry_false = None  # entry state in which the loop is not entered
        self.header = None       # generic header state (condition assumed)
        self.back = None         # state on the back edge
        self.ends = []           # [(kind, state)]  kind: back | break | done
        self.slots = {}          # path -> class id
        self.values = {}         # class id -> value at the start of an iteration
        self.passes = 0
        self.nevents = 0
        self.nslots = 0
        self.nclasses = 0

    def where(self):
        return f"{self.mod}.{self.func} line {self.node.lineno}"


class Summary:
    def __init__(self, it, s, env, itv):
        self.it, self.s, self.env, self.itv = it, s, env, itv
        self.classes = {}        # path -> class id (partition)
        self.leafs = {}          # path -> (entry leaf, back leaf)
        self.domains = {}        # class id -> list of kinds (non numeric leaves) / 'num'
        self.bases = {}          # path -> HBase
        self.syms = {}
        self.intlike = {}
        self.idx_name = f"__idx_{s.lineno}_{s.col_offset}__"
        self.live = live_at(it.envnode.get(env), s)
        self.hook, it.loop_hook = it.loop_hook, None

    # ------------------------------------------------------------- condition
    def cond(self, st):
        it, s = self.it, self.s
        if isinstance(s, ast.While):
            return it.truth(it.eval(s.test, st, self.env), st, s)
        k = st.heap[self.env].vars[self.idx_name]
        rng = self.range_of(st)
        if rng is not None:
            a, b, c = rng
            cur = it.binop("Add", a, it.binop("Mult", k, c, st, s), st, s)
            if isinstance(c, int):
                return it.compare("Lt" if c > 0 else "Gt", cur, b, st, s)
            return G.boolvar(("hasnext", s.lineno, vkey(k)))
        return lift(lambda x: G.boolvar(("hasnext", s.lineno, vkey(x), vkey(self.itv))), k)

    def range_of(self, st):
        v = self.itv
        if isinstance(v, Opq) and v.name == "range":
            a = list(v.args)
            if len(a) == 1:
                return 0, a[0], 1
            if len(a) == 2:
                return a[0], a[1], 1
            return tuple(a)
        return None

    def begin_iteration(self, st):
        it, s = self.it, self.s
        if isinstance(s, ast.While):
            return
        k = st.heap[self.env].vars[self.idx_name]
        rng = self.range_of(st)
        if rng is not None:
            x = it.binop("Add", rng[0], it.binop("Mult", k, rng[2], st, s), st, s)
        else:
            x = self.item(st, k)
        it.assign(s.target, x, st, self.env)
        it._setvar(st, self.env, self.idx_name, it.binop("Add", k, 1, st, s))

    def item(self, st, k):
        it = self.it
        v = self.itv
        if isinstance(v, Opq) and v.name == "enumerate" and v.args:
            return Tup((k, it.getitem(v.args[0], k, st, self.s)))
        if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListC):
            c = st.heap[v.loc]
            return Opq("listitem", (c.base.label if c.base else "list", k))
        return lift(lambda x: Opq("item", (v if not isinstance(v, (Node,)) else v, x)), k)

    # ------------------------------------------------------------------ main
    def run(self, st):
        it, s = self.it, self.s
        if not isinstance(s, ast.While):
            it._setvar(st, self.env, self.idx_name, 0)
        c = it.truth(self.cond(st), st, s)
        c = G.restrict(c, st.pc)
        exits = []
        entry_false = None
        if c is not True:
            f = st.fork(b_not(c))
            if f.pc is not False:
                entry_false = f
        if c is False:
            return self.finish([f], [])
        entry = st.fork(c)
        marks = self.marks()
        passes = 0
        while True:
            passes += 1
            if passes > MAX_PASSES:
                it.unsupported("loop summary does not stabilise", s)
            self.reset(marks)
            header = self.build_header(entry)
            body = header.fork()
            cc = it.truth(self.cond(body), body, s)
            cc = G.restrict(cc, body.pc)
            if cc is False:
                it.unsupported("loop condition contradicts itself", s)
            body.pc = b_and(body.pc, cc)
            hdr = body.fork()
            brk, rets, nxts = [], [], []
            try:
                self.begin_iteration(body)
                if self.hook is not None:
                    self.hook.begin(body)
                outs = it.block(s.body, body, self.env)
            except Dead:
                outs = []
            for o in outs:
                if o.state.pc is False:
                    continue
                if o.kind in ("next", "continue"):
                    nxts.append(o.state)
                elif o.kind == "break":
                    brk.append(o.state)
                else:
                    rets.append(o)
            back = merge(nxts)
            if self.hook is not None:
                for o in brk + [o.state for o in rets] + ([back] if back is not None else []):
                    self.hook.end(o)
            done = None
            if back is not None:
                bc = it.truth(self.cond(back), back, s)
                bc = G.restrict(bc, back.pc)
                if bc is False:
                    done, back = back, None
                elif bc is not True:
                    done = back.fork(b_not(bc))
                    back = back.fork(bc)
            if back is None:
                break
            if self.refine(entry, header, back):
                break
        r = LoopRecord()
        r.node, (r.mod, r.func, _) = s, it.cur[-1]
        r.entry, r.entry_false, r.header, r.back = entry, entry_false, hdr, back
        r.ends = [("break", b) for b in brk]
        if done is not None:
            r.ends.append(("done", done))
        if back is not None:
            r.ends.append(("back", back))
        r.rets = rets
        r.slots = dict(self.classes)
        r.leafs = dict(self.leafs)
        r.values = {c: self.class_value(c) for c in set(self.classes.values())}
        r.passes = passes
        r.nslots = len(self.classes)
        r.nclasses = len(set(self.classes.values()))
        r.nevents = len(entry.events)
        it.loops.append(r)
        if done is not None:
            exits.append(done)
        if entry_false is not None:
            exits.append(entry_false)
        return self.finish(exits, brk) + rets

    def finish(self, normal, brk):
        it, s = self.it, self.s
        outs = []
        m = merge(normal)
        if m is not None:
            if s.orelse:
                outs += it.block(s.orelse, m, self.env)
            else:
                outs.append(Outcome("next", m))
        nx = [o.state for o in outs if o.kind == "next"] + list(brk)
        rest = [o for o in outs if o.kind != "next"]
        m = merge(nx)
        if m is not None:
            rest.append(Outcome("next", m))
        return rest

    def marks(self):
        it = self.it
        return {n: len(getattr(it, n)) for n in ("raises", "unbound", "domain", "loops", "mutations")}

    def reset(self, marks):
        for n, k in marks.items():
            del getattr(self.it, n)[k:]

    # ---------------------------------------------------------------- header
    def class_value(self, cid):
        """header value of a leaf class"""
        kinds = self.domains[cid]
        vals = []
        for k in kinds:
            vals.append(self.sym(cid) if k == "num" else k[1])
        if len(vals) == 1:
            return vals[0]
        return G.branch(G.mkvar("enum", ("loop", self.s.lineno, id(self), cid, tuple(map(str, kinds))), len(vals)), vals)

    def sym(self, cid):
        if cid not in self.syms:
            name = self.name_of(min((p for p, c in self.classes.items() if c == cid), key=lambda p: (len(p), str(p)))) \
                if any(c == cid for c in self.classes.values()) else cid
            self.syms[cid] = T.sym(f"{name}@{self.s.lineno}.{cid}.{id(self)}", extra=("slot", name))
        return self.syms[cid]

    def name_of(self, path):
        out = []
        for k in path[1:]:
            if isinstance(k, tuple):
                out.append(f"[{k[1]}]" if k[0] in ("e", "l", "t") else str(k[1]))
            else:
                out.append(str(k))
        return ".".join(out).replace(".[", "[")

    def build_header(self, entry):
        st = entry.fork()
        self.objs = {}
        if not self.classes and not self.bases:
            return st
        for loc in list(entry.heap):
            c = entry.heap[loc]
            st.heap[loc] = self.hav_content((loc,), c, entry, st)
        return st

    def changed_under(self, path):
        n = len(path)
        return any(p[:n] == path for p in self.prefixes if len(p) >= n)

    def dead(self, path, k):
        """local name of the looping function that is always rewritten before being read"""
        return self.live is not None and path == (self.env,) and k not in self.live and not k.startswith("__")

    def hav_content(self, path, c, est, st):
        if not self.touched(path):
            return c
        if isinstance(c, EnvC):
            return EnvC({k: self.hav(path + (("v", k),), v, est, st) for k, v in self.with_new(path, "v", c.vars).items()}, c.parent, c.glob)
        if isinstance(c, InstC):
            return InstC(c.cls, {k: self.hav(path + (("a", k),), v, est, st) for k, v in self.with_new(path, "a", c.attrs).items()})
        if isinstance(c, DictC):
            out = {}
            for k, (kk, v) in c.items.items():
                out[k] = (kk, self.hav(path + (("d", k),), v, est, st))
            return DictC(out)
        if isinstance(c, ArrC):
            return ArrC((self.hav(path + (("e", i),), v, est, st) for i, v in enumerate(c.elems)), c.dt)
        if isinstance(c, ListC):
            return self.hav_list(path, c, est, st)
        return c

    def with_new(self, path, tag, d):
        d = dict(d)
        for p in self.prefixes:
            if len(p) > len(path) and p[:len(path)] == path and p[len(path)][0] == tag and p[len(path)][1] not in d:
                d[p[len(path)][1]] = UNBOUND
        return d

    def hav_list(self, path, c, est, st):
        if path in self.bases:
            b = self.bases[path]
            lastv = c.items[-1] if c.items else (c.base.last if c.base else UNBOUND)
            b.last = self.hav(path + ("last",), lastv, est, st)
            b.lenv = self.class_value(self.classes[path + ("len",)]) if (path + ("len",)) in self.classes else None
            self.label_last(b, st)
            return ListC((), b)
        return ListC((self.hav(path + (("l", i),), v, est, st) for i, v in enumerate(c.items)), c.base)

    def label_last(self, b, st):
        for loc in reachable(b.last, st):
            self.it.watch.setdefault(loc, f"recorded element of {b.label}")

    def touched(self, path):
        return path in self.prefixes

    def hav(self, path, v, est, st):
        """header value of the component at path whose entry value is v"""
        if path in self.classes:
            return self.class_value(self.classes[path])
        if path not in self.prefixes:
            return v
        k = self.objs_key.get(path)
        if k is not None:
            if k in self.objs:
                return self.objs[k]
        kind = self.kinds.get(path)
        r = v
        if kind is not None:
            r = self.make_obj(path, kind, v, est, st)
        if k is not None:
            self.objs[k] = r
        return r

    def make_obj(self, path, kind, v, est, st):
        it = self.it
        tag = kind[0]
        if tag == "arr":
            n = 1
            for d in kind[1]:
                n *= d
            ents = self.arr_entry(v, est, n)
            a = it.new_array(st, kind[1], [self.hav(path + (("e", i),), ents[i], est, st) for i in range(n)])
            self.relabel(path, a.loc)
            return a
        if tag == "tup":
            items = v.items if isinstance(v, Tup) and len(v.items) == kind[1] else [ABSENT] * kind[1]
            return Tup(self.hav(path + (("t", i),), x, est, st) for i, x in enumerate(items))
        if tag == "list":
            c = self.content(v, est)
            loc = it.alloc(st, None)
            items = c.items if isinstance(c, ListC) and len(c.items) == kind[1] else [ABSENT] * kind[1]
            st.heap[loc] = ListC(self.hav(path + (("l", i),), x, est, st) for i, x in enumerate(items))
            self.relabel(path, loc)
            return Ref(loc)
        if tag == "glist":
            c = self.content(v, est)
            loc = it.alloc(st, None)
            st.heap[loc] = self.hav_list(path, c if isinstance(c, ListC) else ListC(()), est, st)
            self.relabel(path, loc)
            return Ref(loc)
        if tag == "dict":
            c = self.content(v, est)
            loc = it.alloc(st, None)
            out = {}
            for k, kk in kind[1]:
                x = c.items[k][1] if isinstance(c, DictC) and k in c.items else ABSENT
                out[k] = (kk, self.hav(path + (("d", k),), x, est, st))
            st.heap[loc] = DictC(out)
            self.relabel(path, loc)
            return Ref(loc)
        if tag == "inst":
            c = self.content(v, est)
            loc = it.alloc(st, None)
            out = {}
            for k in kind[2]:
                x = c.attrs.get(k, ABSENT) if isinstance(c, InstC) else ABSENT
                out[k] = self.hav(path + (("a", k),), x, est, st)
            st.heap[loc] = InstC(kind[1], out)
            self.relabel(path, loc)
            return Ref(loc)
        if tag == "union":
            # value is either the entry object or the object built in the body
            other = self.make_obj(path + ("alt",), kind[1], ABSENT, est, st)
            var = G.mkvar("enum", ("union", self.s.lineno, id(self), path), 2)
            return G.node(var, (v, other)) if not isinstance(v, Node) else G.ite(G.node(var, (True, False)), v, other)
        return v

    def relabel(self, path, loc):
        lab = self.labels.get(path)
        if lab:
            self.it.watch[loc] = lab

    def content(self, v, st):
        if isinstance(v, Ref):
            return st.heap.get(v.loc)
        return None

    def arr_entry(self, v, est, n):
        if v is ABSENT:
            return [ABSENT] * n
        r = self.it.models.as_nested(self.it, v, est)
        if r is None or len(r[1]) != n:
            return [ABSENT] * n
        return r[1]

    # ------------------------------------------------------------ refinement
    prefixes = frozenset()
    objs_key = {}
    kinds = {}
    labels = {}

    def refine(self, entry, header, back):
        """compare entry with back edge; returns True when the partition is inductive"""
        self.found = {}        # leaf path -> (entry, back)
        self.new_kinds = {}
        self.new_keys = {}
        self.new_labels = dict(self.labels)
        self.new_bases = dict(self.bases)
        self.pc = back.pc
        self.entry_heap = entry.heap
        self.recorded = {}     # objects put into a growing list in this step
        for loc, bc in back.heap.items():
            for l, _ in G.leaves(bc):
                if isinstance(l, ListC):
                    ec = entry.heap.get(loc)
                    n = len(ec.items) if isinstance(ec, ListC) and l.base is ec.base else 0
                    if l.base is not None or isinstance(ec, ListC) and len(l.items) > n:
                        for x in l.items[n:]:
                            for o in reachable(x, back):
                                self.recorded.setdefault(o, f"recorded element of list@{loc}")
        for loc, hc in header.heap.items():
            if loc not in entry.heap:
                continue
            bc = back.heap.get(loc)
            if bc is None or bc is hc and not self.touched((loc,)):
                continue
            self.cmp_content((loc,), entry.heap[loc], entry, bc, back)
        changed = False
        if set(self.new_bases) != set(self.bases):
            changed = True
        if {k: v for k, v in self.new_kinds.items()} != self.kinds:
            changed = True
        if set(self.found) != set(self.classes):
            changed = True
        if self.new_labels != self.labels:
            changed = True
        # partition by (entry value, back value)
        old = self.classes
        groups = {}
        for p, (e, b) in self.found.items():
            k = (old.get(p, "new"), vkey(e), vkey(b))
            if k not in groups and k[0] != "new":
                for k2, ps in groups.items():
                    if k2[0] == k[0] and k2[1] == k[1] and equal_on(self.found[ps[0]][1], b, self.pc):
                        k = k2
                        break
            groups.setdefault(k, []).append(p)
        new = {}
        # number classes stably: keep the old id for one group of each old class
        used = set()
        ids = [0]

        def fresh():
            ids[0] += 1
            while f"c{ids[0]}" in used or f"c{ids[0]}" in self.domains:
                ids[0] += 1
            used.add(f"c{ids[0]}")
            return f"c{ids[0]}"

        byold = {}
        for k, ps in groups.items():
            byold.setdefault(k[0], []).append((k, ps))
        for o, gs in byold.items():
            if o == "new":
                # optimistic: group new slots by entry value only
                g2 = {}
                for (_, ek, bk), ps in gs:
                    g2.setdefault(ek, []).extend(ps)
                for ps in g2.values():
                    c = fresh()
                    for p in ps:
                        new[p] = c
                changed = True
            elif len(gs) == 1:
                used.add(o)
                for p in gs[0][1]:
                    new[p] = o
            else:
                changed = True
                for _, ps in gs:
                    c = fresh()
                    for p in ps:
                        new[p] = c
        # domains
        doms = {}
        for p, c in new.items():
            e, b = self.found[p]
            d = doms.setdefault(c, [])
            for v in (e, G.restrict(b, self.pc)):
                if v is ABSENT:
                    continue
                for leaf, cnd in G.leaves(v):
                    k = self.kind_of(leaf)
                    if k not in d:
                        d.append(k)
        for c, d in list(doms.items()):
            prev = self.domains.get(c, [])
            # keep earlier kinds so that the iteration is monotone
            for k in prev:
                if k not in d:
                    d.append(k)
            ints = [k for k in d if k[0] == "int"]
            if "num" in d or len(ints) > MAX_INT_DOMAIN:
                d = [k for k in d if k[0] != "int" and k != "num"] + (["num"] if ints or "num" in d else [])
            objs = [k for k in d if k != "num" and k[0] == "obj"]
            if len(objs) > 4 or any(isinstance(k[1], Opq) and k[1].name == "carried" for k in objs) \
                    or any(isinstance(k[1], (Ref, ArrRef)) and k[1].loc not in self.entry_heap for k in objs):
                d = [k for k in d if k not in objs] + [("obj", Opq("carried", (c, id(self))))]
            d.sort(key=str)
            doms[c] = d
            if c in self.domains and sorted(map(str, self.domains[c])) != sorted(map(str, d)):
                changed = True
            if c not in self.domains:
                changed = True
        if not changed:
            return True
        if DEBUG:
            self.debug(new, doms)
        self.classes, self.domains = new, doms
        self.leafs = self.found
        self.kinds, self.objs_key, self.bases, self.labels = self.new_kinds, self.new_keys, self.new_bases, self.new_labels
        pre = set()
        for p in list(new) + list(self.bases) + list(self.kinds):
            for i in range(1, len(p) + 1):
                pre.add(p[:i])
        self.prefixes = pre
        return False

    def debug(self, new, doms):
        if set(self.new_bases) != set(self.bases):
            print("bases", set(self.new_bases) ^ set(self.bases))
        for k in set(self.new_kinds) | set(self.kinds):
            if self.new_kinds.get(k) != self.kinds.get(k):
                print("kinds", k, self.kinds.get(k), self.new_kinds.get(k))
        print("leafs", list(set(self.found) ^ set(self.classes))[:5])
        if self.new_labels != self.labels:
            print("labels", self.new_labels, self.labels)
        for p, c in new.items():
            if self.classes.get(p) != c:
                print("class", p, self.classes.get(p), c, self.found[p][0])
        for c, d in doms.items():
            if sorted(map(str, self.domains.get(c, []))) != sorted(map(str, d)):
                print("dom", c, [p for p, q in new.items() if q == c][:3], [str(x)[:80] for x in self.domains.get(c, [])], "->", [str(x)[:80] for x in d])

    def kind_of(self, leaf):
        if isinstance(leaf, bool) or leaf is None or leaf is UNBOUND or leaf is NAN or isinstance(leaf, str):
            return ("const", leaf)
        if isinstance(leaf, int):
            return ("int", leaf)
        if isinstance(leaf, Poly):
            c = leaf.const()
            if c is not None and c.denominator == 1 and abs(c) < 50:
                return "num"
            return "num"
        return ("obj", leaf)

    def cmp_content(self, path, ec, est, bc, bst):
        if ec is bc and not self.touched(path):
            return
        if isinstance(bc, Node):
            ls = [(l, c) for l, c in G.leaves(bc) if b_and(c, bst.pc) is not False]
            if isinstance(ec, ListC) and all(isinstance(l, ListC) for l, _ in ls):
                return self.cmp_list(path, ec, est, ls, bst)
            if isinstance(ec, ArrC) or isinstance(ec, DictC):
                self.it.unsupported("loop-carried storage of varying shape", self.s)
            self.it.unsupported(f"loop-carried object {type(ec).__name__} of varying kind", self.s)
        if isinstance(ec, EnvC):
            for k in list(ec.vars) + [k for k in bc.vars if k not in ec.vars]:
                if self.dead(path, k):
                    continue
                self.cmp(path + (("v", k),), ec.vars.get(k, UNBOUND), est, bc.vars.get(k, UNBOUND), bst)
        elif isinstance(ec, InstC):
            for k in list(ec.attrs) + [k for k in bc.attrs if k not in ec.attrs]:
                self.cmp(path + (("a", k),), ec.attrs.get(k, UNBOUND), est, bc.attrs.get(k, UNBOUND), bst)
        elif isinstance(ec, DictC):
            if set(ec.items) != set(bc.items):
                self.it.unsupported("mapping with loop-dependent keys", self.s)
            for k in ec.items:
                self.cmp(path + (("d", k),), ec.items[k][1], est, bc.items[k][1], bst)
        elif isinstance(ec, ArrC):
            for i, (x, y) in enumerate(zip(ec.elems, bc.elems)):
                self.cmp(path + (("e", i),), x, est, y, bst)
        elif isinstance(ec, ListC):
            self.cmp_list(path, ec, est, [(bc, True)], bst)

    def cmp_list(self, path, ec, est, leaves, bst):
        b = self.bases.get(path)
        grow = b is not None or any(len(l.items) != len(ec.items) or l.base is not ec.base for l, _ in leaves)
        if not grow:
            if len(leaves) == 1:
                for i, (x, y) in enumerate(zip(ec.items, leaves[0][0].items)):
                    self.cmp(path + (("l", i),), x, est, y, bst)
                return
            for i in range(len(ec.items)):
                v = leaves[-1][0].items[i]
                for l, c in reversed(leaves[:-1]):
                    v = G.ite(c, l.items[i], v)
                self.cmp(path + (("l", i),), ec.items[i], est, v, bst)
            return
        if b is None:
            # must extend the entry list
            for l, _ in leaves:
                if l.base is not ec.base or [vkey(x) for x in l.items[:len(ec.items)]] != [vkey(x) for x in ec.items]:
                    self.rewritten(path[0], est)
                    self.it.unsupported("list is not only appended to in the loop", self.s)
            b = HBase(self.name_of(path) or f"list@{path[0]}", UNBOUND, None)
            b.path = path
            b.entry = ec
            self.new_bases[path] = b
        else:
            for l, _ in leaves:
                if l.base is not b:
                    self.it.unsupported("list is not only appended to in the loop", self.s)
        elast = ec.items[-1] if ec.items else (ec.base.last if ec.base else UNBOUND)
        v = None
        for l, c in leaves:
            x = l.items[-1] if l.items else b.last
            v = x if v is None else G.ite(c, x, v)
        self.cmp(path + ("last",), elast, est, v, bst)
        # number of appended elements, as a carried number
        if b.lenv is None:
            b.lenv = self.sym(("len",) + path) if False else None

    def rewritten(self, loc, est):
        """an entry that is already recorded is replaced or removed"""
        it = self.it
        for c in est.heap.values():
            if isinstance(c, InstC):
                for n, v in c.attrs.items():
                    if isinstance(v, Ref) and v.loc == loc:
                        mod, fn, _ = it.cur[-1]
                        it.mutations.append((f"recorded element of {n}", mod, fn, self.s.lineno, self.pc))

    def arr_shape(self, v, st):
        """shape if v is an array (or gated arrays of equal shape)"""
        ls = G.leaves(v)
        sh = None
        for l, c in ls:
            if b_and(c, st.pc) is False:
                continue
            if not isinstance(l, ArrRef):
                return None
            if sh is None:
                sh = l.shape
            elif sh != l.shape:
                return None
        return sh

    def obj_kind(self, v, st):
        sh = self.arr_shape(v, st)
        if sh is not None:
            return ("arr", sh)
        if isinstance(v, Tup):
            return ("tup", len(v.items))
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, ListC):
                return ("list", len(c.items)) if c.base is None else ("glist",)
            if isinstance(c, DictC):
                return ("dict", tuple((k, kk) for k, (kk, _) in c.items.items()))
            if isinstance(c, InstC):
                return ("inst", c.cls, tuple(sorted(c.attrs)))
        return None

    def note_labels(self, path, ev, bv):
        labs = set()
        for v in (ev, bv):
            for l, _ in G.leaves(v) if v is not UNBOUND and v is not ABSENT else []:
                if isinstance(l, (ArrRef, Ref)):
                    for w in (self.it.watch.get(l.loc), self.recorded.get(l.loc)):
                        if w:
                            labs.update(w.split(" / "))
        if labs:
            old = self.new_labels.get(path)
            if old:
                labs.update(old.split(" / "))
            self.new_labels[path] = " / ".join(sorted(labs))

    def cmp(self, path, ev, est, bv, bst):
        """entry value vs back-edge value of one component"""
        if path not in self.prefixes and (ev is bv or vkey(ev) == vkey(bv)):
            return
        if isinstance(bv, Node):
            bv = G.restrict(bv, bst.pc)
        if path not in self.prefixes and vkey(ev) == vkey(bv):
            return
        bk = self.obj_kind(bv, bst)
        ek = self.obj_kind(ev, est)
        if bk is None and ek is None:
            if bv is UNBOUND and ev is UNBOUND:
                return
            self.found[path] = (ev, bv)
            return
        if bk is None or (ek is None and ev is not ABSENT):
            prev = self.kinds.get(path)
            if bk is not None and ek is None:
                # entry leaf (e.g. None), object later: union
                self.new_kinds[path] = ("union", self.gl(path, bk, ev, est, bv, bst))
                self.new_keys[path] = (vkey(ev), vkey(bv))
                self.cmp_obj(path + ("alt",), self.new_kinds[path][1], ABSENT, est, self.alt_part(bv), bst)
                return
            if bk is None and isinstance(bv, Node):
                # gated mix of objects and leaves: keep as leaf kinds
                self.found[path] = (ev, bv)
                return
            self.found[path] = (ev, bv)
            return
        kind = self.gl(path, bk, ev, est, bv, bst)
        if kind[0] == "list" and ek is not None and ek != bk or (kind[0] in ("dict", "inst") and ek is not None and ek != bk):
            if kind[0] == "list" and ek[0] == "list":
                kind = ("glist",)
            else:
                self.it.unsupported(f"loop-carried object of varying structure at {self.name_of(path)}", self.s)
        if kind[0] == "arr" and ek is not None and ek != bk:
            if ek[0] in ("list", "tup") and len(kind[1]) == 1 and ek[1] == kind[1][0]:
                # a python sequence at entry, an array later: union over the container kind
                self.new_kinds[path] = ("union", kind)
                self.new_keys[path] = (vkey(ev), vkey(bv))
                self.cmp_obj(path + ("alt",), kind, ABSENT, est, self.alt_part(bv), bst)
                return
            self.it.unsupported(f"loop-carried array of varying shape at {self.name_of(path)}", self.s)
        if isinstance(bv, Ref) and isinstance(ev, Ref) and bv == ev and bv.loc in est.heap:
            return      # same object: its content is compared at its location
        if isinstance(bv, ArrRef) and isinstance(ev, ArrRef) and bv == ev and path not in self.prefixes:
            return
        self.new_kinds[path] = kind
        self.new_keys[path] = (vkey(ev), vkey(bv))
        self.note_labels(path, ev, bv)
        self.cmp_obj(path, kind, ev, est, bv, bst)

    def gl(self, path, bk, ev, est, bv, bst):
        prev = self.kinds.get(path)
        if prev is not None and prev[0] == "glist" and bk[0] in ("list", "glist"):
            return ("glist",)
        return bk

    def alt_part(self, bv):
        if isinstance(bv, Node):
            for l, _ in G.leaves(bv):
                if isinstance(l, (ArrRef, Ref)):
                    return l
        return bv

    def cmp_obj(self, path, kind, ev, est, bv, bst):
        it = self.it
        if kind[0] == "arr":
            n = 1
            for d in kind[1]:
                n *= d
            ents = self.arr_entry(ev, est, n)
            r = it.models.as_nested(it, bv, bst)
            for i in range(n):
                self.cmp_always(path + (("e", i),), ents[i], est, r[1][i], bst)
        elif kind[0] == "tup":
            items = ev.items if isinstance(ev, Tup) and len(ev.items) == kind[1] else [ABSENT] * kind[1]
            for i, x in enumerate(items):
                self.cmp(path + (("t", i),), x, est, bv.items[i], bst)
        elif kind[0] == "list":
            ce, cb = self.content(ev, est), self.content(bv, bst)
            items = ce.items if isinstance(ce, ListC) else [ABSENT] * kind[1]
            for i, x in enumerate(items):
                self.cmp(path + (("l", i),), x, est, cb.items[i], bst)
        elif kind[0] == "glist":
            ce, cb = self.content(ev, est), self.content(bv, bst)
            self.cmp_list(path, ce if isinstance(ce, ListC) else ListC(()), est, [(cb, True)], bst)
        elif kind[0] == "dict":
            ce, cb = self.content(ev, est), self.content(bv, bst)
            for k, _ in kind[1]:
                x = ce.items[k][1] if isinstance(ce, DictC) and k in ce.items else ABSENT
                self.cmp(path + (("d", k),), x, est, cb.items[k][1], bst)
        elif kind[0] == "inst":
            ce, cb = self.content(ev, est), self.content(bv, bst)
            for k in kind[2]:
                x = ce.attrs.get(k, ABSENT) if isinstance(ce, InstC) else ABSENT
                self.cmp(path + (("a", k),), x, est, cb.attrs[k], bst)

    def cmp_always(self, path, ev, est, bv, bst):
        self.cmp(path, ev, est, bv, bst)


def equal_on(a, b, pc, limit=400):
    """a == b on every feasible path of pc"""
    if a is ABSENT or b is ABSENT:
        return a is b

    def leaf(x, y):
        if vkey(x) == vkey(y):
            return True
        if isinstance(x, Poly) and isinstance(y, Poly):
            return T.is_zero(x - y)
        return False

    bad = b_and(pc, b_not(lift(leaf, a, b)))
    if bad is False:
        return True
    n = 0
    for lits, _ in G.paths(bad, lambda x: x is True):
        n += 1
        if n > limit or G.feasible(lits)[0]:
            return False
    return True


def summarise(it, s, st, env, itv):
    return Summary(it, s, env, itv).run(st)
