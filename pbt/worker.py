"""One worker process: corpus replay, then generated cases for one property.

usage: worker.py PROPERTY CONFIG_JSON OUT_JSON
"""

import importlib
import json
import os
import resource
import shutil
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from pbt import core, env, shrink  # noqa: E402
from pbt.gen import D  # noqa: E402

CASE_CPU_S = 20  # CPU seconds for one case; ordinary cases take milliseconds
MEMORY = 6 << 30


class Runner:
    def __init__(self, prop, cfg):
        self.prop = prop
        self.cfg = cfg
        self.evaluations = 0
        self.nontrivial = set()
        self.events = {}
        self.samples = []
        self.failure = None  # smallest failing case
        self.failures = 0
        self.stop_at = None

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def judge(self, case):
        """Judge one case; returns None or the text of the violation."""
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            try:
                labels = self.prop.judge(case)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            for label in labels or ():
                self.event(label)
            return None
        except core.Violation as e:
            return str(e)
        except core.Hang:
            return f'no result after {CASE_CPU_S} s of CPU time'
        except MemoryError:
            return 'memory limit exceeded'
        except (OSError, ImportError) as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.filename.startswith(env.REPO + '/') for f in tb):
                return 'unexpected exception from the tool:\n' + traceback.format_exc()
            raise
        except Exception:
            # The tool or the interpretation of its results failed: results do not have the expected shape.
            return 'unexpected exception:\n' + traceback.format_exc()

    def remember(self, case, text, origin):
        self.failures += 1
        size = len(core.dumps(case))
        if self.failure is None or size < self.failure['size']:
            self.failure = {'case': case, 'message': text, 'size': size, 'origin': origin}

    def count(self, case):
        self.evaluations += 1
        key = core.digest(case)
        if self.prop.nontrivial(case):
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                if len(self.samples) < 2 or (len(self.samples) < 4 and len(self.nontrivial) % 97 == 0):
                    self.samples.append(case)

    def corpus(self):
        n = 0
        for fn in self.cfg['corpus']:
            with open(fn) as f:
                case = json.load(f)['case']
            text = self.judge(case)
            self.count(case)
            n += 1
            if text is not None:
                self.remember(case, text, 'corpus ' + os.path.basename(fn))
        self.events['corpus cases'] = n

    def fixed(self):
        """Cases which are enumerated rather than drawn (optional per property)."""
        if not hasattr(self.prop, 'fixed_cases'):
            return
        cases = self.prop.fixed_cases(self.cfg['tier'])
        for case in cases[self.cfg['worker'] :: self.cfg['workers']]:
            text = self.judge(case)
            self.count(case)
            self.event('enumerated cases')
            if text is not None:
                self.remember(case, text, 'enumerated')
                return

    def generate(self):
        make = self.prop.strategy(self.cfg['tier'])
        base = f'{self.cfg["property"]} {self.cfg["seed"]} {self.cfg["worker"]}'
        for k in range(self.cfg['examples']):
            if time.monotonic() > self.stop_at:
                return
            d = D(seed=f'{base} {k}')
            try:
                case = json.loads(core.dumps(make(d)))
            except Exception:
                # A fault of the generator, not of the tool: skip a rare one, but don't hide a broken generator.
                self.event('cases the generator failed to build')
                if self.events['cases the generator failed to build'] > 2 + k // 50:
                    raise
                continue
            text = self.judge(case)
            self.count(case)
            self.event('generated cases')
            if text is not None:
                self.remember(case, text, 'generated')
                if 'CPU time' not in text and 'memory limit' not in text:
                    self.shrink(make, d.choices)
                return

    def shrink(self, make, choices):
        seen = set()

        def fails(seq):
            d = D(choices=seq)
            try:
                case = json.loads(core.dumps(make(d)))
            except Exception:
                return None
            key = core.digest(case)
            if key in seen:
                return None
            seen.add(key)
            text = self.judge(case)
            if text is None:
                return None
            self.remember(case, text, 'generated and shrunk')
            return d.choices

        steps = shrink.minimise(choices, fails, time.monotonic() + self.cfg['shrink_s'])
        self.event('shrink steps', steps)


def main():
    pid, cfg_fn, out_fn = sys.argv[1:4]
    with open(cfg_fn) as f:
        cfg = json.load(f)
    env.setup()
    result = {'ok': False}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def on_prof(_sig, _frame):
            raise core.Hang()

        signal.signal(signal.SIGPROF, on_prof)
        from pbt import cli

        cli.init(cfg['scratch'])
        prop = importlib.import_module(f'pbt.props.{pid.lower()}')
        if hasattr(prop, 'init'):
            prop.init(cfg)
        r = Runner(prop, cfg)
        t0 = time.monotonic()
        r.stop_at = t0 + cfg['time_s']
        if cfg.get('replay'):
            with open(cfg['replay']) as f:
                case = json.load(f)['case']
            text = r.judge(case)
            r.count(case)
            if text is not None:
                r.remember(case, text, 'replay')
        else:
            r.corpus()
            if r.failure is None:
                r.fixed()
            if r.failure is None:
                r.generate()
        result = {
            'ok': True,
            'evaluations': r.evaluations,
            'nontrivial': sorted(r.nontrivial),
            'events': r.events,
            'samples': r.samples,
            'failure': r.failure,
            'rule': ' '.join(prop.RULE.split()),
            'timed_out': time.monotonic() > r.stop_at,
        }
    except BaseException:
        result['error'] = traceback.format_exc()
    finally:
        os.chdir('/')
        shutil.rmtree(cfg['scratch'], ignore_errors=True)
    with open(out_fn, 'w') as f:
        json.dump(result, f)


if __name__ == '__main__':
    main()
