"""C12: immediate events: priority order, first in first out, exactly once, never after cancellation."""
from vf import evloop
from vf.core import Target

KINDS = ('imm', 'tim', 'net')
TARGETS = [
    Target("history", lambda t: evloop.strategy(KINDS, t)(t), lambda c: evloop.run(c, KINDS[0]),
           "at least one immediate event ran among two or more callbacks", quick=(6, 1500, 14), thorough=(8, 60000, 300)),
    Target("only", lambda t: evloop.strategy(KINDS[:1], t)(t), lambda c: evloop.run(c, KINDS[0]),
           "at least one immediate event ran among two or more callbacks", quick=(2, 1500, 14), thorough=(4, 60000, 300)),
]
