"""Numeric fields that were overwritten, by an overflow of their format or on the disk."""
from dsim.core import PlanError

DAMAGE = ['stars', 'full', 'tail', 'inside', 'junk', 'overflow', 'head', 'line']


def damaged(text, style):
    """Characters that take the place of a printed number: never a number themselves."""
    kind, pick = style
    body = text.strip()
    lead, tail = text[:len(text) - len(text.lstrip())], text[len(text.rstrip()):]
    if kind == 'full':  # as Fortran does: the whole field, without a blank to the number before it
        return '*' * len(lead + body) + tail
    return lead + _damaged(body, kind, pick) + tail


def _damaged(body, kind, pick):
    if kind == 'head':  # the first characters are hit, the last ones survive
        gone = 1 + int(pick * len(body))
        return '*' * min(gone, len(body)) + body[gone:]
    if kind == 'stars':
        return '*' * max(1, len(body))
    if kind == 'tail':  # the last characters are hit, the first ones survive
        keep = int(pick * len(body))
        return body[:keep] + '*' * (len(body) - keep)
    if kind == 'inside':
        pos = int(pick * len(body))
        return body[:pos] + '#' + body[pos + 1:]
    if kind == 'line':  # one bit away from an 'O', and no blank; at the ends it is no part of a number in any case
        pos = int(pick * len(body))
        return body[:pos] + '_' + body[pos + 1:]
    if kind == 'junk':
        return ('*?#~@x' * len(body))[:max(2, len(body))]
    if kind == 'overflow':  # a wider field than usual
        return '*' * (len(body) + 3)
    raise PlanError('unknown damage')
