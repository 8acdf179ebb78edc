"""Lemmas: proved once with symbolic parameters, then instantiated where a contract asks for them."""
import z3
from .solve import Task

USED = {}


class Lemma:
    """stmt(*params) is the formula; proof(*params) -> [(name, hyps, goal)] are the verification conditions that
    establish it for arbitrary parameters; `uses` are lemmas proved elsewhere and used inside the proof."""
    def __init__(self, name, sorts, stmt, proof, theory=(), uses=()):
        self.name, self.sorts, self.stmt, self.proof, self.theory, self.uses = name, sorts, stmt, proof, theory, uses

    def __call__(self, *args):
        self.mark()
        return self.stmt(*args)

    def mark(self):
        if self.name not in USED:
            USED[self.name] = self
            for u in self.uses:
                u.mark()

    def tasks(self):
        ps = [z3.Const('%s_p%d' % (self.name, i), s) for i, s in enumerate(self.sorts)]
        out = []
        for nm, hyps, goal in self.proof(*ps):
            out.append(Task('lemma %s: %s' % (self.name, nm), 'lemma ' + self.name, list(hyps), goal, tuple(self.theory), 'lemma'))
        return out


def induction(name, sorts, prop, lo, uses=(), theory=(), hyps=lambda *a: [], pat=None):
    """prop(n, *params) for every n >= lo by strong induction on n; statement: hyps -> forall n >= lo. prop(n)"""
    def stmt(*ps):
        n = z3.Int('n_' + name)
        b = z3.Implies(n >= lo, prop(n, *ps))
        q = z3.ForAll([n], b, patterns=pat(n, *ps)) if pat else z3.ForAll([n], b)
        h = hyps(*ps)
        return z3.Implies(z3.And(*h), q) if h else q

    def proof(*ps):
        n, k = z3.Int('n'), z3.Int('k_' + name)
        b = z3.Implies(z3.And(k >= lo, k < n), prop(k, *ps))
        ih = z3.ForAll([k], b, patterns=pat(k, *ps)) if pat else z3.ForAll([k], b)
        return [('induction step', list(hyps(*ps)) + [n >= lo, ih], prop(n, *ps))]
    return Lemma(name, sorts, stmt, proof, theory, uses)
