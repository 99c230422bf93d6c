"""Where contracts attach.  Loop contracts name loops by their place and locals by their names in the tree the contracts
were written against (pyvc/baseline.json, written by tools/mkbaseline.py).  When the current source moved or renamed
some of them, this module finds the counterparts by similarity.  It only decides which formula is attached where: every
obligation is generated from the current source and a wrong guess can only leave an obligation undischarged."""
import ast
import builtins
import difflib
import io
import json
import os
import tokenize
from .engine import number_loops, locals_in_order

BASE = os.path.join(os.path.dirname(__file__), "baseline.json")


def comp_names(node):
    return {x.id for c in ast.walk(node) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}


def strip(node):
    """source without documentation"""
    node = ast.parse(ast.unparse(node)).body[0]
    if isinstance(node, ast.FunctionDef) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
        node.body = node.body[1:] or [ast.Pass()]
    return ast.unparse(node)


def tokens(src):
    out = []
    prev = ""
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type in (tokenize.NAME, tokenize.NUMBER, tokenize.STRING, tokenize.OP):
            out.append((t.string, t.type == tokenize.NAME and prev != "."))
            prev = t.string
    return out


class FnInfo:
    def __init__(self, qual, node):
        self.qual, self.node = qual, node
        self.names = list(dict.fromkeys(locals_in_order(node) + sorted(comp_names(node))))
        lo = {}
        number_loops(node, lo)
        self.loops = {lid: x for x in ast.walk(node) for i, lid in lo.items() if id(x) == i}
        self.loops = {k: self.loops[k] for k in sorted(self.loops, key=lambda s: [int(p) for p in s.split(".")])}
        self.toks = tokens(strip(node))
        self.ltoks = {}

    def loop_tokens(self, lid):
        if lid not in self.ltoks:
            self.ltoks[lid] = tokens(strip(self.loops[lid]))
        return self.ltoks[lid]


def ratio(a, an, b, bn):
    """similarity of two token lists up to the names in an, bn"""
    x = ["§" if n and t in an else t for t, n in a]
    y = ["§" if n and t in bn else t for t, n in b]
    return difflib.SequenceMatcher(None, x, y, autojunk=False).ratio()


class Anchors:
    def __init__(self, repo):
        self.repo = repo
        self.base = {}
        if os.path.exists(BASE):
            for q, src in json.load(open(BASE)).items():
                self.base[q] = FnInfo(q, ast.parse(src).body[0])
        self.cur, self.maps = {}, {}
        self.renamed = {}                        # baseline name of a function -> current name
        new = [q for q in repo.fns if q not in self.base]
        for q in self.base:
            if q in repo.fns or not new:
                continue
            scope = q.rsplit(".", 1)[0]
            best, which = 0.6, None
            for m in new:
                if m.rsplit(".", 1)[0] == scope and m not in self.renamed.values():
                    b, c = self.base[q], self.info(m)
                    r = ratio(b.toks, b.names, c.toks, c.names)
                    if r > best:
                        best, which = r, m
            if which:
                self.renamed[q] = which
        self.back = {v: k for k, v in self.renamed.items()}

    def info(self, q):
        if q not in self.cur:
            f = self.repo.fns[q]
            self.cur[q] = FnInfo(q, f.node)
        return self.cur[q]

    def map(self, qual, context):
        """(loops: current lid -> (baseline function, lid), names: baseline local -> current local) of a current function.
        context: the baseline function a new helper was taken from"""
        key = (qual, context)
        if key in self.maps:
            return self.maps[key]
        home = self.back.get(qual, qual)
        helper = home not in self.base
        r = None
        if helper:
            home = self.back.get(context, context)
        if qual not in self.repo.fns or home not in self.base:
            r = ({}, {})
        else:
            b, c = self.base[home], self.info(qual)
            loops = {}
            if not helper and [t for t in b.loops] == [t for t in c.loops]:
                loops = {lid: (home, lid) for lid in c.loops}
            else:
                taken = set()
                if helper and context in self.repo.fns:
                    taken = {l for (_, l) in self.map(context, None)[0].values()}
                self.match(b, c, [l for l in b.loops if l not in taken or not helper], loops, 0.4)
            names = self.names(b, c)
            if helper:
                names = self.handed(qual, context, b, c, names)
            r = (loops, names)
        self.maps[key] = r
        return r

    def match(self, b, c, blids, loops, least):
        """top-level loops of c against loops of b: best similarity first, order is kept among siblings"""
        score = {}
        for l in c.loops:
            for m in blids:
                s = ratio(b.loop_tokens(m), b.names, c.loop_tokens(l), c.names)
                if s >= least and type(b.loops[m]) is type(c.loops[l]):
                    score[l, m] = s
        used = set()
        for (l, m), s in sorted(score.items(), key=lambda t: (-t[1], len(t[0][0]), t[0])):
            if l in loops or m in used:
                continue
            # a loop inside a matched loop stays inside its counterpart, and siblings stay in order
            ok = True
            for l2, (_, m2) in loops.items():
                if l.startswith(l2 + ".") != m.startswith(m2 + ".") or l2.startswith(l + ".") != m2.startswith(m + "."):
                    ok = False
                if (l < l2) != (m < m2):
                    ok = False
            if ok:
                loops[l] = (b.qual, m)
                used.add(m)

    def handed(self, qual, context, b, c, names):
        """names of a helper: its parameters by what its caller hands over, locals that moved along by similarity"""
        caller = self.info(context)
        back = {n: o for o, n in self.map(context, None)[1].items()}
        params = [a.arg for a in c.node.args.args]
        out = {}
        for x in ast.walk(caller.node):
            if isinstance(x, ast.Call):
                f = x.func
                name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if name != qual.rsplit(".", 1)[1]:
                    continue
                ps = params[1:] if isinstance(f, ast.Attribute) and params[:1] == ["self"] else params
                for p, a in list(zip(ps, x.args)) + [(k.arg, k.value) for k in x.keywords]:
                    if isinstance(a, ast.Name):
                        o = back.get(a.id, a.id)
                        if o in b.names and o != p:
                            out.setdefault(o, p)
        for o, n in names.items():
            if o not in out and n not in params:
                out[o] = n
        return out

    def names(self, b, c):
        gone = [n for n in b.names if n not in c.names]
        fresh = {n for n in c.names if n not in b.names}
        if not gone or not fresh:
            return {}
        gs = set(gone)
        x = ["§" if n and t in gs else t for t, n in b.toks]
        y = ["§" if n and t in fresh else t for t, n in c.toks]
        votes = {}
        for i, j, k in difflib.SequenceMatcher(None, x, y, autojunk=False).get_matching_blocks():
            for d in range(k):
                if x[i + d] == "§":
                    p = (b.toks[i + d][0], c.toks[j + d][0])
                    votes[p] = votes.get(p, 0) + 1
        out = {}
        for (o, n), v in sorted(votes.items(), key=lambda t: -t[1]):
            if o not in out and n not in out.values():
                out[o] = n
        return out


def write():
    from .repo import Repo
    repo = Repo()
    out = {q: ast.unparse(ast.parse(strip(f.node))) for q, f in sorted(repo.fns.items())}
    json.dump(out, open(BASE, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    write()
