"""The check framework: sub-checks, one case, one shard.

A property module defines

    ID     = 'C01'
    RULE   = how cases are made and what makes one non-trivial
    CHECKS = [Sub(name, strategy, fn, quick=.., thorough=..), ...]

A strategy generates *plain JSON data* (the case); fn(case, ctx) executes the
library on the case and compares with the oracle.  fn raises Violation when
the property is broken.  Because the case is the only source of variation, a
case written to a file is a complete reproduction: `check.sh C01 --replay F`.
"""
import hashlib
import json
import time
import traceback


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The case is outside of the property's domain (counted)."""


class Sub(object):
    def __init__(self, name, strategy, fn, quick, thorough=None, max_shards=8,
                 shrink_s=45):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.max_shards = max_shards
        self.shrink_s = shrink_s


class Ctx(object):
    """Per-case recorder."""

    def __init__(self):
        self.nontrivial = False
        self.labels = set()

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    raise HarnessError('case is not JSON data: %r' % (o,))


def run_case(sub, case):
    """Returns (ctx, None) or (ctx, message)."""
    from hypothesis.errors import HypothesisException, UnsatisfiedAssumption
    ctx = Ctx()
    try:
        sub.fn(json.loads(dumps(case)), ctx)
    except Violation as e:
        return ctx, str(e)
    except Skip:
        ctx.label('skipped')
        ctx.nontrivial = False
        return ctx, None
    except (HarnessError, HypothesisException, UnsatisfiedAssumption, MemoryError,
            KeyboardInterrupt, ImportError):
        raise
    except OSError as e:
        # a full disk is an error of the run, not of the library
        if getattr(e, 'errno', None) in (28, 12, 24, 23):
            raise
        return ctx, unexpected(e)
    except Exception as e:
        return ctx, unexpected(e)
    return ctx, None


def unexpected(e):
    tb = traceback.extract_tb(e.__traceback__)
    lines = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb
             if '/site-packages/' not in f.filename]
    return 'unexpected %s: %s\n  at %s' % (type(e).__name__, str(e)[:600],
                                           '\n     '.join(lines[-8:]))


def run_shard(mod, tier, seed, shard, nshards, only=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    out = {'subs': {}, 'violations': []}
    for idx, sub in enumerate(mod.CHECKS):
        if only and sub.name not in only:
            continue
        total = sub.quick if tier == 'quick' else sub.thorough
        shards = min(nshards, sub.max_shards)
        # spread sub-checks with few shards over different workers
        slot = (shard + idx) % nshards
        if slot >= shards:
            continue
        n = total // shards + (1 if slot < total % shards else 0)
        if n == 0:
            continue
        st = {'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'samples': [],
              'skipped': 0}
        state = {'fail': None, 't_fail': None, 'stop': False}

        def body(case):
            text = dumps(case)
            if state['stop']:
                return
            if state['t_fail'] and time.monotonic() - state['t_fail'] > sub.shrink_s:
                state['stop'] = True
                return
            ctx, msg = run_case(sub, case)
            if state['t_fail'] is None:
                st['evaluations'] += 1
                for lb in ctx.labels:
                    st['labels'][lb] = st['labels'].get(lb, 0) + 1
                if ctx.nontrivial:
                    h = hashlib.sha1(text.encode()).hexdigest()[:16]
                    if h not in st['nontrivial']:
                        st['nontrivial'].add(h)
                        if len(st['samples']) < 2 and len(st['nontrivial']) >= 3:
                            st['samples'].append(text)
            if msg is not None:
                if state['t_fail'] is None:
                    state['t_fail'] = time.monotonic()
                if state['fail'] is None or len(text) <= len(state['fail'][0]):
                    state['fail'] = (text, msg)
                raise Violation(msg.split('\n')[0][:200])

        sd = int(hashlib.sha1(('%s/%s/%d/%d/%d' % (mod.ID, sub.name, seed, slot, shards))
                              .encode()).hexdigest()[:12], 16)
        test = given(sub.strategy)(body)
        test = settings(max_examples=n, deadline=None, database=None,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck),
                        report_multiple_bugs=False, print_blob=False)(test)
        test = hypothesis.seed(sd)(test)
        t0 = time.monotonic()
        try:
            test()
        except HarnessError:
            raise
        except BaseException:
            if state['fail'] is None:
                raise
        if state['fail'] is not None:
            text, msg = state['fail']
            out['violations'].append({'sub': sub.name, 'case': json.loads(text),
                                      'message': msg})
        st['nontrivial'] = sorted(st['nontrivial'])
        st['wall'] = time.monotonic() - t0
        out['subs'][sub.name] = st
        if state['fail'] is not None:
            break
    return out
