"""C27: what is logged to file is read back, completely and only what was asked for."""
import contextlib
import datetime
import importlib
import io
import itertools
import logging
import os
import shutil
import sys
import tempfile
import threading
import time

import numpy as np
from hypothesis import strategies as st

from harness import facet

ASSUMPTIONS = ['keys are words; values do not contain the text of another key-value pair nor carriage returns',
               'one process at a time writes a log file; modification times do not run backwards',
               'loggers are not nested in each other']

_SERIAL = itertools.count()
FMT = '%Y/%m/%d %H:%M:%S'
_REAL_TIME = time.time


class World:
    """a scratch directory with its own home; start() gives a fresh copy of the logging package, as a new process has."""

    def __init__(self):
        self.names = []
        self.now = None

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='c27-')
        self.cwd, self.home = os.getcwd(), os.environ.get('HOME')
        os.makedirs(os.path.join(self.dir, 'home', '.qiskit'))
        os.makedirs(os.path.join(self.dir, 'work'))
        os.environ['HOME'] = os.path.join(self.dir, 'home')
        os.chdir(os.path.join(self.dir, 'work'))
        self.err, self.stderr = io.StringIO(), sys.stderr
        sys.stderr = self.err
        time.time = lambda: _REAL_TIME() if self.now is None else self.now
        return self

    def __exit__(self, *_):
        time.time = _REAL_TIME
        self.forget()
        sys.stderr = self.stderr
        os.chdir(self.cwd)
        if self.home is None:
            os.environ.pop('HOME')
        else:
            os.environ['HOME'] = self.home
        shutil.rmtree(self.dir, ignore_errors=True)

    def forget(self):
        logging.setLoggerClass(logging.Logger)
        for name in self.names:
            old = logging.Logger.manager.loggerDict.pop(name, None)
            for hand in list(getattr(old, 'handlers', [])):
                old.removeHandler(hand)
        self.names = []
        for mod in [m for m in sys.modules if m.startswith('qiskit.ignis.logging')]:
            del sys.modules[mod]

    def start(self, config_path=None):
        self.forget()
        self.mod = importlib.import_module('qiskit.ignis.logging')
        self.logs = self.mod.IgnisLogging(config_path) if config_path else self.mod.IgnisLogging()
        self.prefix = 'c27log%d_' % next(_SERIAL)
        return self

    def logger(self, tag):
        self.names.append(self.prefix + tag)
        return self.mod.IgnisLogging().get_logger(self.prefix + tag)

    def reader(self):
        return self.mod.IgnisLogReader()

    def config(self, text, path=None):
        path = path or os.path.join(os.environ['HOME'], '.qiskit', 'logging.yaml')
        with open(path, 'w') as f:
            f.write(text)

    @staticmethod
    def files():
        out = []
        for base, _, names in os.walk('.'):
            out += [os.path.normpath(os.path.join(base, n)) for n in names]
        return sorted(out)


def value(desc):
    kind, arg = desc
    if kind == 'list':
        return list(arg)
    if kind == 'dict':
        return {str(i): v for i, v in enumerate(arg)}
    if kind == 'array':
        return np.array(arg, dtype=float)
    if kind == 'matrix':
        return np.array([arg, arg], dtype=float)
    if kind == 'tuple':
        return tuple(arg)
    return arg


def pairs(entry):
    return ["'%s':'%s'" % (k, value(v)) for k, v in entry]


KEYS = ['t1', 'qubits', 'k', 'k1', 'k10', 'err_T2', 'T1', 'self_', 'data', 'a_b', 'x9']
texts = st.text(alphabet='abcXYZ019 .,:;=+-_/()[]{}"#%|\\\'éß\n\t', max_size=12)
nums = st.lists(st.integers(-20, 20), min_size=0, max_size=5)
values = st.one_of(st.tuples(st.just('text'), texts), st.tuples(st.just('num'), st.one_of(st.integers(-10**6, 10**6), st.floats(-1e6, 1e6))),
                   st.tuples(st.sampled_from(['list', 'dict', 'array', 'matrix', 'tuple']), nums)).map(list)


def clean(entry):
    """ambiguous texts are outside the property"""
    return all(kind != 'text' or "':'" not in str(arg) for _, (kind, arg) in entry)


entries = st.lists(st.tuples(st.sampled_from(KEYS), values).map(list), min_size=1, max_size=8, unique_by=lambda kv: kv[0]).filter(clean)


def rows(got):
    """(stamp, pairs) of the rows a reader returned"""
    return [(' '.join(r[:2]), list(r[2:])) for r in got]


# ---------------------------------------------------------------------------------------------------------- histories
ops = st.one_of(st.tuples(st.just('log'), st.integers(0, 2), entries), st.tuples(st.just('log'), st.integers(0, 2), entries),
                st.tuples(st.just('log'), st.integers(0, 2), entries), st.tuples(st.just('empty'), st.integers(0, 2)),
                st.tuples(st.just('enable'), st.integers(0, 2)), st.tuples(st.just('disable'), st.integers(0, 2)),
                st.tuples(st.just('get'), st.integers(0, 2)), st.tuples(st.just('warn'), st.integers(0, 2)),
                st.tuples(st.just('restart'), st.sampled_from([True, True, False])), st.tuples(st.just('read'))).map(list)


@st.composite
def histories(draw):
    return {'on': draw(st.sampled_from([True, True, True, False])), 'config': draw(st.sampled_from(['home', 'home', 'path', 'none'])),
            'size': draw(st.sampled_from([0, 0, 60, 120, 300, 1000])), 'keep': draw(st.integers(0, 4)), 'file': draw(st.sampled_from(FILES)),
            'ops': draw(st.lists(ops, min_size=draw(st.sampled_from([1, 6, 12])), max_size=25))}


FILES = ['', 'ignis.log', 'Results.Log', 'sub/My.log', 'a+b.log', 'x(1).log', 'b[2].log', 'no_extension', 'star$.log', 'with space.log', 'a:b.log', 'Ünï.log']


def settings(case, on):
    text = 'file_logging: %s\n' % ('true' if on else 'false')
    if case['size']:
        text += 'max_size: %d\nmax_rotations: %d\n' % (case['size'], case['keep'])
    if case['file']:
        text += 'log_file: %s\n' % case['file']
    return text


@facet('history', histories(), quick=900, thorough=12000, shards=3, rule='at least three entries logged and a restart, several loggers or a rotation')
def history(case, ctx):
    with World() as w:
        os.makedirs('sub')
        has_config = case['config'] != 'none'
        path = os.path.abspath('conf.yaml') if case['config'] == 'path' else None
        target = os.path.normpath((case['file'] if has_config else '') or 'ignis.log')

        def boot(on):
            if has_config:
                w.config(settings(case, on), path)
            w.start(path)
            state['on'] = {}
            state['conf'] = on and has_config
            loggers.clear()

        state, loggers, model, warned, restarts, users = {}, {}, [], 0, 0, set()
        boot(case['on'])

        def get(i):
            if i not in loggers:
                loggers[i] = w.logger('abc'[i])
                state['on'][i] = state['conf']
            return loggers[i]

        def verify():
            files = [f for f in w.files() if f != 'conf.yaml']
            if not model:
                ctx.check(not files, 'nothing was logged, yet the files %s exist', files)
                return
            limit = case['size'] if has_config else 0
            keep = case['keep'] if limit else 0
            ctx.check(target in files, 'the log file %r does not exist; files: %s', target, files)
            expect = [target] + ['%s.%d' % (target, i) for i in range(1, keep + 1)]
            ctx.check(set(files) <= set(expect), 'unexpected files %s (log file %r, %d rotations)', files, target, keep)
            found = w.reader().get_log_files()
            ctx.check([os.path.relpath(f) for f in found] == [f for f in reversed(expect) if f in files], 'log files found: %s, present: %s', found, files)
            got = [p for _, p in rows(w.reader().read_values())]
            ctx.check(got and got == model[len(model) - len(got):], 'read back %s, logged %s', got, model[-len(got) - 1:])
            if len(got) < len(model):
                ctx.check(keep and len(files) == keep + 1, '%d entries lost though only %d of %d files are used', len(model) - len(got), len(files), keep + 1)
                held = [os.path.getsize(f) for f in files]
                ctx.check(sum(held) > limit * keep // 2, 'entries lost though the files hold only %s bytes of %d each', held, limit)
            for f in found:
                n = len(w.reader().read_values(log_files=[f]))
                with open(f, encoding='utf-8', newline='') as fh:
                    length = len(fh.read())         # Python's handler counts the characters of a new entry
                ctx.check(not (keep and n > 1 and length > limit), '%s has %d characters and %d entries, the limit is %d', f, length, n, limit)

        for op in case['ops']:
            kind = op[0]
            if kind == 'log':
                before = w.err.getvalue()
                get(op[1]).log_to_file(**{k: value(v) for k, v in op[2]})
                if state['on'][op[1]]:
                    model.append(pairs(op[2]))
                    users.add(op[1])
                    ctx.check(w.err.getvalue() == before, 'logging to file printed %r', w.err.getvalue()[len(before):])
                else:
                    told = w.err.getvalue()[len(before):]
                    if told:
                        ctx.check(('no config file' in told) == (not has_config), 'with%s a config file: %r', '' if has_config else 'out', told)
            elif kind == 'empty' and model and not (case['size'] and has_config):
                get(op[1]).log_to_file()
            elif kind == 'enable':
                get(op[1]).enable_file_logging()
                state['on'][op[1]] = True
            elif kind == 'disable':
                get(op[1]).disable_file_logging()
                state['on'][op[1]] = False
            elif kind == 'get':
                if state['on'].get(op[1], state['conf']) == state['conf'] or not state['conf']:
                    get(op[1])
                    again = w.logger('abc'[op[1]])
                    ctx.check(again is loggers[op[1]], 'another object for the same logger name')
            elif kind == 'warn':
                warned += 1
                get(op[1]).warning('console message %d;', warned)
                ctx.check(w.err.getvalue().count('console message %d;' % warned) == 1, 'a console message was printed %d times: %r',
                          w.err.getvalue().count('console message %d;' % warned), w.err.getvalue()[-200:])
            elif kind == 'restart':
                restarts += 1
                boot(op[1])
            elif kind == 'read':
                verify()
        verify()
        rotated = any(f != target and f.startswith(target) for f in w.files())
        ctx.nontrivial(len(model) >= 3 and (restarts or len(users) > 1 or rotated))
        for flag, name in ((rotated, 'rotated'), (restarts, 'restarted'), (len(users) > 1, 'several loggers'), (not state['conf'], 'switched on by hand')):
            if flag and model:
                ctx.label(name)


# ------------------------------------------------------------------------------------------------------------ filters
@st.composite
def filter_case(draw):
    times = draw(st.lists(st.integers(0, 40), min_size=1, max_size=8))
    return {'steps': times, 'entries': [draw(entries) for _ in times], 'start': draw(st.integers(10**9, 17 * 10**8)),
            'queries': [{'keys': draw(st.one_of(st.none(), st.lists(st.sampled_from(KEYS + ['missing', 't', '']), max_size=8))),
                         'lo': draw(st.one_of(st.none(), st.tuples(st.integers(0, 7), st.integers(-1, 1)).map(list))),
                         'hi': draw(st.one_of(st.none(), st.tuples(st.integers(0, 7), st.integers(-1, 1)).map(list))),
                         'as': draw(st.sampled_from(['default', 'custom', 'object', 'mixed'])), 'files': draw(st.sampled_from(['auto', 'str', 'list']))}
                        for _ in range(draw(st.integers(1, 5)))]}


CUSTOM = '%d-%m-%Y %H.%M.%S'


@facet('filters', filter_case(), quick=900, thorough=12000, shards=2, rule='a query that returns some but not all entries')
def filters(case, ctx):
    with World() as w:
        w.config('file_logging: true\n')
        w.start()
        log = w.logger('f')
        stamps, model = [], []
        now = case['start']
        for step, entry in zip(case['steps'], case['entries']):
            now += step
            w.now = now + 0.25
            log.log_to_file(**{k: value(v) for k, v in entry})
            stamps.append(datetime.datetime.fromtimestamp(now))
            model.append(entry)
        w.now = None
        for q in case['queries']:
            kw, lo, hi = {}, None, None
            if q['lo'] is not None:
                lo = stamps[q['lo'][0] % len(stamps)] + datetime.timedelta(seconds=q['lo'][1])
            if q['hi'] is not None:
                hi = stamps[q['hi'][0] % len(stamps)] + datetime.timedelta(seconds=q['hi'][1])
            for name, when, how in (('from_datetime', lo, q['as']), ('to_datetime', hi, 'default' if q['as'] == 'mixed' else q['as'])):
                if when is None:
                    continue
                if how == 'object':
                    kw[name] = when
                elif how == 'default':
                    kw[name] = when.strftime(FMT)
                else:
                    kw[name], kw[name + '_format'] = when.strftime(CUSTOM), CUSTOM
            if q['keys'] is not None:
                kw['keys'] = list(q['keys'])
            if q['files'] != 'auto':
                kw['log_files'] = 'ignis.log' if q['files'] == 'str' else ['ignis.log']
            expect = []
            for when, entry in zip(stamps, model):
                if (lo is not None and when < lo) or (hi is not None and when > hi):
                    continue
                chosen = [kv for kv in entry if q['keys'] is None or kv[0] in q['keys']]
                if chosen:
                    expect.append((when.strftime(FMT), pairs(chosen)))
            got = rows(w.reader().read_values(**kw))
            ctx.check(got == expect, 'query %s returned %s, expected %s', kw, got, expect)
            ctx.nontrivial(0 < len(expect) < len(model))
            for flag, name in ((lo is not None and hi is not None, 'window'), (q['keys'] is not None and expect, 'keys found')):
                if flag:
                    ctx.label(name)
        ctx.raises(ValueError, lambda: w.reader().read_values(from_datetime='yesterday'), 'an unreadable time was accepted')


# ---------------------------------------------------------------------------------------------------------- discovery
@st.composite
def found_case(draw):
    return {'file': draw(st.sampled_from(FILES[1:])), 'count': draw(st.integers(1, 13)), 'decoys': draw(st.lists(st.integers(0, 9), max_size=6, unique=True)),
            'same': draw(st.booleans()), 'seed': draw(st.integers(0, 999))}


@facet('discovery', found_case(), quick=300, thorough=4000, rule='rotated files and files of other names')
def discovery(case, ctx):
    with World() as w:
        os.makedirs('sub')
        w.config('log_file: %s\n' % case['file'])
        w.start()
        name = case['file']
        present = [name] + ['%s.%d' % (name, i) for i in range(1, case['count'])]
        decoys = ['%s.bak', '%s12', '%sX3', '%s.1.gz', '%s.x1', '%s-7', 'old_%s', '%s.', '%s.1x', '%s.12.3']
        decoys = [os.path.join(os.path.dirname(name), d % os.path.basename(name)) for i, d in enumerate(decoys) if i in case['decoys']]
        every = present + decoys
        order = [every[i] for i in np.random.RandomState(case['seed']).permutation(len(every))]
        for f in order:
            with open(f, 'w') as fh:
                fh.write("2019/08/04 13:27:04 ignis_logging 'k':'%s'\n" % (present.index(f) if f in present else 'decoy'))
        for age, f in enumerate(present):
            when = 1.5e9 - (0 if case['same'] else age)
            os.utime(f, (when, when))
        got = [os.path.relpath(f) for f in w.reader().get_log_files()]
        expect = [os.path.normpath(f) for f in reversed(present)]
        ctx.check(got == expect, 'log files %s, expected %s', got, expect)
        vals = [p for _, p in rows(w.reader().read_values())]
        ctx.check(vals == [["'k':'%d'" % i] for i in reversed(range(case['count']))], 'rows %s', vals)
        ctx.nontrivial(case['count'] > 1 and decoys)


# ------------------------------------------------------------------------------------------------------- configuration
@st.composite
def config_case(draw):
    pad = st.sampled_from(['', ' ', '  ', '\t'])
    lines = []
    for key in draw(st.permutations(['file_logging', 'log_file', 'max_size', 'max_rotations', 'other'])):
        if draw(st.integers(0, 4)) == 0:
            continue
        if key == 'file_logging':
            val = draw(st.sampled_from(['true', 'true', 'True', 'TRUE', 'false', 'tru', 'yes', '']))
        elif key == 'log_file':
            val = draw(st.sampled_from(FILES + ['deep/er/Log.txt']))
        elif key == 'other':
            val = draw(st.sampled_from(['x', 'true']))
        else:
            val = draw(st.sampled_from(['100', '150', '0', 'many', '-5', '']) if key == 'max_size' else st.sampled_from(['1', '3', '20', '0', 'few', '-5', '']))
        shown = draw(st.sampled_from([key, key, key, key.upper(), key.title(), key + '1']))
        lines.append([shown, val, draw(pad), draw(pad), draw(st.sampled_from(['', '', ' # note', '# file_logging: true', ' #'])), draw(st.booleans())])
    return {'lines': lines, 'entries': draw(st.integers(1, 12)), 'nl': draw(st.booleans())}


@facet('configuration', config_case(), quick=600, thorough=8000, rule='logging switched on with another setting present')
def configuration(case, ctx):
    with World() as w:
        os.makedirs('sub')
        os.makedirs('deep/er')
        text, conf = '', {}
        for key, val, a, b, comment, blank in case['lines']:
            text += '%s%s%s:%s%s%s\n' % ('\n' if blank else '', a, key, b or ' ', val, comment)
            conf[key.lower()] = val
        if not case['nl']:
            text = text.rstrip('\n')
        w.config(text)
        w.start()
        log = w.logger('c')
        on = conf.get('file_logging', '').lower() == 'true'
        target = os.path.normpath(conf.get('log_file') or 'ignis.log')
        limit = int(conf['max_size']) if conf.get('max_size', '').isdigit() else 0
        keep = int(conf['max_rotations']) if conf.get('max_rotations', '').isdigit() else 0
        for i in range(case['entries']):
            log.log_to_file(i=i, pad='x' * 40)                # longer than half of every limit used here
        files = w.files()
        if not on:
            ctx.check(not files, 'logging is off, yet %s were written', files)
            return
        ctx.nontrivial(len(conf) > 1)
        if limit and keep:
            n = min(case['entries'], keep + 1)
            ctx.check(files == sorted([target] + ['%s.%d' % (target, i) for i in range(1, n)]), 'files %s with max_size %d, max_rotations %d', files, limit, keep)
        else:
            n = case['entries']
            ctx.check(files == [target], 'files %s, configured %r', files, target)
        ctx.check(w.logs.get_log_file() and os.path.normpath(w.logs.get_log_file()) == target, 'name of the log file %r, configured %r', w.logs.get_log_file(), target)
        got = [p for _, p in rows(w.reader().read_values(keys=['i']))]
        ctx.check(got == [["'i':'%d'" % i] for i in range(case['entries'] - n, case['entries'])], 'rows %s', got)
        for flag, name in ((limit and keep, 'rotation configured'), (conf.get('log_file'), 'file configured')):
            if flag:
                ctx.label(name)


# ------------------------------------------------------------------------------------------------------------- threads
@st.composite
def thread_case(draw):
    return {'threads': draw(st.integers(2, 6)), 'loggers': draw(st.integers(1, 3)), 'count': draw(st.integers(5, 60)),
            'rotate': draw(st.sampled_from([0, 0, 2000])), 'chatter': draw(st.booleans())}


@facet('threads', thread_case(), quick=60, thorough=800, rule='two threads share a logger')
def threads(case, ctx):
    with World() as w:
        w.config('file_logging: true\n' + ('max_size: %d\nmax_rotations: 500\n' % case['rotate'] if case['rotate'] else ''))
        w.start()
        logs = [w.logger('abc'[i]) for i in range(case['loggers'])]
        gate = threading.Barrier(case['threads'])
        errors = []

        def work(t):
            try:
                gate.wait()
                for i in range(case['count']):
                    logs[t % len(logs)].log_to_file(thread=t, i=i)
                    if case['chatter']:
                        logs[(t + 1) % len(logs)].warning('chatter')
            except Exception as exc:  # pylint: disable=broad-except
                errors.append(repr(exc))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            crew = [threading.Thread(target=work, args=(t,)) for t in range(case['threads'])]
            for t in crew:
                t.start()
            for t in crew:
                t.join()
        finally:
            sys.setswitchinterval(old)
        ctx.check(not errors, 'a thread failed: %s', errors)
        got = [p for _, p in rows(w.reader().read_values())]
        for t in range(case['threads']):
            mine = [p for p in got if p[0] == "'thread':'%d'" % t]
            ctx.check(mine == [["'thread':'%d'" % t, "'i':'%d'" % i] for i in range(case['count'])], 'thread %d logged %d entries, read back %d: %s', t,
                      case['count'], len(mine), mine[:5])
        ctx.check(len(got) == case['threads'] * case['count'], '%d rows for %d entries', len(got), case['threads'] * case['count'])
        ctx.nontrivial(case['threads'] > case['loggers'])
