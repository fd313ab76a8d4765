"""Basic vocabulary of the checks."""

import hashlib
import json


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Hang(BaseException):
    """CPU limit of one case exceeded."""


def fail(msg, *details):
    text = str(msg)
    for d in details:
        text += '\n  ' + (d if isinstance(d, str) else repr(d))[:3000]
    raise Violation(text)


def check(cond, msg, *details):
    if not cond:
        fail(msg, *details)


def same(got, want, what, *details):
    """got == want, with the first difference in the message."""
    if got == want:
        return
    fail(f'{what}: ' + first_diff(got, want), *details)


def first_diff(got, want, path=''):
    if isinstance(got, dict) and isinstance(want, dict):
        for k in want:
            if k not in got:
                return f'{path}: missing {k!r} (expected {str(want[k])[:300]})'
        for k in got:
            if k not in want:
                return f'{path}: unexpected {k!r} = {str(got[k])[:300]}'
        for k in want:
            if got[k] != want[k]:
                return first_diff(got[k], want[k], f'{path}/{k}')
    if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                return first_diff(g, w, f'{path}[{i}]')
        if len(got) != len(want):
            return f'{path}: {len(got)} items instead of {len(want)}: {str(got)[:400]} instead of {str(want)[:400]}'
    return f'{path}: got {str(got)[:600]!r}, expected {str(want)[:600]!r}'


def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def digest(case):
    return hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
