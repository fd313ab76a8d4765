"""The tool in other interpreters: a child process that runs command lines sent to it, one JSON object per line."""

import json
import os
import select
import signal
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from pbt import core, env  # noqa: E402

WAIT_S = 300  # wall clock; the CPU limit below ends a hanging case much earlier
CPU_S = 20


class Server:
    def __init__(self, hash_seed, scratch, **variables):
        e = env.child_env(hash_seed, scratch)
        e.update(variables)
        self.p = subprocess.Popen(
            [env.PYTHON, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, cwd=scratch
        )

    def run(self, argv, cwd=None, tty=False, encoding=None):
        from pbt.cli import Result

        self.p.stdin.write((json.dumps({'argv': argv, 'cwd': cwd, 'tty': tty, 'encoding': encoding}) + '\n').encode())
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], WAIT_S)[0]:
            self.p.kill()
            core.fail(f'no result after {WAIT_S} s', repr(argv))
        line = self.p.stdout.readline()
        if not line:
            core.fail('the interpreter running the tool ended', repr(argv))
        r = json.loads(line)
        if r == 'hang':
            core.fail(f'no result after {CPU_S} s of CPU time', repr(argv))
        return Result(argv, *r)


def main():
    channel = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    env.CLEAN = ()  # the parent chose the environment
    env.setup()
    from pbt import cli

    def on_prof(_sig, _frame):
        raise core.Hang()

    signal.signal(signal.SIGPROF, on_prof)
    for line in sys.stdin:
        req = json.loads(line)
        signal.setitimer(signal.ITIMER_PROF, CPU_S)
        try:
            r = cli.run(req['argv'], cwd=req['cwd'], tty=req['tty'], encoding=req['encoding'])
            res = [r.code, r.out, r.err, r.exc]
        except core.Hang:
            res = 'hang'
        except MemoryError:
            res = [1, '', '', 'memory limit exceeded']
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        channel.write(json.dumps(res) + '\n')
        channel.flush()


if __name__ == '__main__':
    main()
