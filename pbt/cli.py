"""Running the code under test in-process and reading its reports back."""

import contextlib
import csv
import io
import json
import os
import re
import shutil
import sys
import traceback

from .core import Hang, Violation, check, fail
from .env import REPO

_scratch = None


def init(scratch):
    global _scratch
    _scratch = scratch
    os.makedirs(scratch, exist_ok=True)
    # Imported here, after env.setup().
    import esp_idf_size.main  # noqa: F401


def fresh_dir(name='case'):
    """An empty directory for the files of one case."""
    d = os.path.join(_scratch, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


class Result:
    def __init__(self, argv, code, out, err, exc, calls=None):
        self.argv, self.code, self.out, self.err, self.exc = argv, code, out, err, exc
        self.calls = calls  # calls of functions of the package, if they were counted

    def __repr__(self):
        return f'<{self.argv} -> {self.code}\nstdout: {self.out[:1500]}\nstderr: {self.err[:1500]}\n{self.exc or ""}>'


class _Out(io.StringIO):
    def __init__(self, tty):
        super().__init__()
        self._tty = tty

    def isatty(self):
        return self._tty


class _Encoded(io.TextIOWrapper):
    """A stream with the encoding of the locale."""

    def __init__(self, encoding):
        super().__init__(io.BytesIO(), encoding=encoding, errors='strict', newline='', write_through=True)

    def getvalue(self):
        self.flush()
        return self.buffer.getvalue().decode(self.encoding)


def _interrupter(at):
    """Counts the calls of functions of the package and interrupts the given one (0: none)."""
    package = os.path.join(REPO, 'esp_idf_size') + os.sep
    count = [0]

    def profile(frame, event, _arg):
        if event != 'call' or not frame.f_code.co_filename.startswith(package) or frame.f_code.co_name == '__del__':
            return
        count[0] += 1
        if count[0] == at:
            raise KeyboardInterrupt

    return profile, count


def run(argv, cwd=None, tty=False, encoding=None, interrupt=None):
    """The command line tool with argv; an unhandled exception is reported in .exc.

    interrupt: raise KeyboardInterrupt when the function of this number is called (0: just count the calls).
    """
    from esp_idf_size import main as m

    out, err = _Out(tty), _Out(tty)
    if encoding:
        out = _Encoded(encoding)
    count = [None]
    if interrupt is not None:
        profile, count = _interrupter(interrupt)
    code, exc = 0, None
    old = sys.stdout, sys.stderr
    old_cwd = os.getcwd()
    sys.stdout, sys.stderr = out, err
    try:
        if cwd:
            os.chdir(cwd)
        try:
            if interrupt is not None:
                sys.setprofile(profile)
            m.main(args=list(argv), prog_name='esp-idf-size')
        except SystemExit as e:
            code = e.code
            if code is None:
                code = 0
            elif not isinstance(code, int):
                err.write(str(code))
                code = 1
        except (Hang, MemoryError):
            raise
        except BaseException:
            code, exc = 1, traceback.format_exc()
    finally:
        sys.setprofile(None)
        sys.stdout, sys.stderr = old
        os.chdir(old_cwd)
    return Result(list(argv), code, out.getvalue(), err.getvalue(), exc, count[0])


def ok(argv, **kw):
    """Run and require success."""
    r = run(argv, **kw)
    if r.exc or r.code != 0:
        fail('the tool failed on a valid project', repr(r))
    return r


def raw(fn, *opts):
    """The raw report as data."""
    r = ok(['--format', 'raw', *opts, fn])
    return parse_json(r.out)


@contextlib.contextmanager
def library():
    """Quiet streams for library calls; yields an object with .err() text."""
    from esp_pylib.logger import Verbosity, log

    out, err = _Out(False), _Out(False)
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    log.set_verbosity(Verbosity.NORMAL)
    log.set_console_options(width=10000)

    class Streams:
        @staticmethod
        def err():
            return err.getvalue()

        @staticmethod
        def out():
            return out.getvalue()

    try:
        yield Streams
    finally:
        sys.stdout, sys.stderr = old


def get(fn, **kw):
    """memorymap.get() -> (memory map, stderr text)"""
    from esp_idf_size import memorymap

    with library() as s:
        mm = memorymap.get(fn, **kw)
        return mm, s.err()


def parse_json(text):
    try:
        return json.loads(text)
    except ValueError as e:
        fail(f'output is not valid JSON: {e}', text[:1000])


# ---------------------------------------------------------------- table, CSV


def parse_table(text):
    """Rich table -> (title, header cells, rows); the first cell keeps its indentation."""
    lines = text.split('\n')
    top = [i for i, ln in enumerate(lines) if ln.startswith('┏')]
    check(len(top) == 1, 'no table in the output', text[:2000])
    i = top[0]
    title = '\n'.join(ln.strip() for ln in lines[:i])
    rest = lines[i + 1 :]
    header, rows = None, []
    ended = False
    for ln in rest:
        if ended:
            check(ln == '', 'text after the table', ln)
            continue
        if ln.startswith('┃'):
            check(header is None, 'two header rows', text[:2000])
            check(ln.endswith('┃'), 'broken header row', ln)
            header = [c[1:-1].strip() for c in ln[1:-1].split('┃')]
        elif ln.startswith('│'):
            check(ln.endswith('│'), 'broken table row', ln)
            cells = ln[1:-1].split('│')
            check(len(cells) == len(header), f'row with {len(cells)} instead of {len(header)} cells', ln)
            for c in cells:
                check(c.startswith(' '), 'cell without padding', ln)
            rows.append([c[1:].rstrip() if k == 0 else c.strip() for k, c in enumerate(cells)])
        elif ln.startswith(('┡', '├')):
            continue
        elif ln.startswith('└'):
            ended = True
        else:
            fail('unexpected line in the table', ln)
    check(ended and header is not None, 'incomplete table', text[:2000])
    return title, header, rows


def parse_csv(text):
    """CSV -> (header, rows); every row must have as many cells as the header."""
    check(text.endswith('\n'), 'CSV output does not end with a newline', text[-200:])
    try:
        rows = list(csv.reader(io.StringIO(text, newline=''), strict=True))
    except csv.Error as e:
        fail(f'output is not valid CSV: {e}', text[:1500])
    check(rows, 'empty CSV output')
    for r in rows:
        check(len(r) == len(rows[0]), 'CSV row with a different number of cells', repr(r), repr(rows[0]))
    return rows[0], rows[1:]


NUM = r'-?\d+(?:\.\d+)?(?:e-?\d+)?'


def parse_value(cell, diff):
    """'12' or '12  +3' -> (value, difference); ''-> None"""
    if cell == '':
        return None
    if not diff:
        m = re.fullmatch(f'({NUM})', cell)
        check(m, f'not a number: {cell!r}')
        return (num(m[1]), None)
    m = re.fullmatch(f'({NUM}) +([+-]?{NUM[2:]})', cell)
    check(m, f'not a number with difference: {cell!r}')
    return (num(m[1]), num(m[2]))


def num(s):
    return float(s) if ('.' in s or 'e' in s) else int(s)


# ---------------------------------------------------------------- tree


def parse_tree(text):
    """Rich tree -> (root label, [(label, children)...])"""
    lines = text.split('\n')
    check(lines[-1] == '', 'tree output does not end with a newline')
    lines = lines[:-1]
    root = (lines[0], [])
    stack = [root]
    for ln in lines[1:]:
        depth = 0
        while ln[4 * depth : 4 * depth + 4] in ('│   ', '    '):
            depth += 1
        guide = ln[4 * depth : 4 * depth + 4]
        check(guide in ('├── ', '└── '), 'unexpected line in the tree', ln, text[:1500])
        depth += 1
        check(depth <= len(stack), 'broken tree nesting', ln)
        del stack[depth:]
        node = (ln[4 * depth :], [])
        stack[-1][1].append(node)
        stack.append(node)
    return root


# ---------------------------------------------------------------- DOT


def parse_dot(text):
    """-> (nodes: {name: attrs}, edges: [(from, to, label or None)])"""
    text = text.rstrip('\n')
    check(text.startswith('strict digraph {\n') and text.endswith('\n}'), 'not a digraph', text[:500])
    body = text[len('strict digraph {\n') : -1]
    pos = 0
    nodes, edges = {}, []

    def string():
        nonlocal pos
        check(body[pos : pos + 1] == '"', 'quoted string expected', body[pos : pos + 200])
        pos += 1
        res = []
        while True:
            check(pos < len(body), 'unterminated string in DOT output', body[-300:])
            c = body[pos]
            if c == '\\':
                check(body[pos + 1 : pos + 2] in ('\\', '"'), 'unknown escape in DOT output', body[pos : pos + 20])
                res.append(body[pos + 1])
                pos += 2
            elif c == '"':
                pos += 1
                return ''.join(res)
            else:
                res.append(c)
                pos += 1

    def attrs():
        nonlocal pos
        res = {}
        check(body.startswith('[', pos), 'attribute list expected', body[pos : pos + 100])
        pos += 1
        while True:
            m = re.compile(r'(\w+)=').match(body, pos)
            check(m, 'attribute expected', body[pos : pos + 100])
            pos = m.end()
            if body[pos] == '"':
                res[m[1]] = string()
            else:
                v = re.compile(r'\w+').match(body, pos)
                check(v, 'attribute value expected', body[pos : pos + 100])
                res[m[1]] = v[0]
                pos = v.end()
            if body.startswith(', ', pos):
                pos += 2
            elif body.startswith(']', pos):
                pos += 1
                return res
            else:
                fail('broken attribute list', body[pos : pos + 100])

    while pos < len(body):
        a = string()
        if body.startswith(' -> ', pos):
            pos += 4
            b = string()
            label = None
            if body.startswith(' [', pos):
                pos += 1
                label = attrs().get('label')
            edges.append((a, b, label))
        else:
            check(body.startswith(' [', pos), 'broken DOT statement', body[pos : pos + 100])
            pos += 1
            check(a not in nodes, 'node declared twice', a)
            nodes[a] = attrs()
        check(body.startswith('\n', pos), 'broken DOT statement', body[pos : pos + 100])
        pos += 1
    return nodes, edges


__all__ = ['Violation']
