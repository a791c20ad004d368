"""Linearizability of small histories: brute force over the linear extensions of the real-time order."""


class Op(object):
    __slots__ = ("thread", "name", "args", "start", "end", "result")

    def __init__(self, thread, name, args, start):
        self.thread, self.name, self.args, self.start = thread, name, args, start
        self.end = None
        self.result = None

    def __repr__(self):
        return "%s:%s%r->%r" % (self.thread, self.name, self.args, self.result)


class History(object):
    def __init__(self, w):
        self.w = w
        self.ops = []
        self.clock = 0

    def call(self, thread, name, args, fn):
        self.clock += 1
        op = Op(thread, name, args, self.clock)
        self.ops.append(op)
        op.result = fn()
        self.clock += 1
        op.end = self.clock
        return op.result


def linearizable(ops, model, apply, same, final=None):
    """apply(model, op) -> (new model, expected result); same(expected, got); final(model) -> bool.
    True if some total order of `ops` consistent with real time explains every result and the final state."""
    ops = list(ops)
    seen = set()

    def go(m, left):
        if not left:
            return final is None or final(m)
        k = (m.key(), left)
        if k in seen:
            return False
        seen.add(k)
        for i in left:
            op = ops[i]
            if any(ops[j].end < op.start for j in left if j != i):
                continue          # another pending op ended before this one started
            m2, exp = apply(m, op)
            if same(exp, op.result) and go(m2, left - {i}):
                return True
        return False
    return go(model, frozenset(range(len(ops))))
