"""One worker process: generates and runs cases of one shard, or replays one case."""
import collections
import faulthandler
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback


def seed_for(base, pid, shard):
    return int(hashlib.sha256('{}/{}/{}'.format(base, pid, shard).encode()).hexdigest()[:15], 16)


def main(argv):
    job = json.load(open(argv[0], encoding='utf-8'))
    out = argv[1]
    sys.path.insert(0, job['sut'])
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    import sudachipy
    assert os.path.realpath(sudachipy.__file__).startswith(os.path.realpath(job['sut'])), sudachipy.__file__
    import logging
    logging.disable(logging.NOTSET)

    from vh.core import Ctx, Inconclusive, Violation, case_hash
    check = importlib.import_module('checks.' + job['pid'].lower()).CHECK
    ctx = Ctx(job['scratch'])
    journal = out + '.journal'

    def on_alarm(sig, frame):
        with open(out + '.hang', 'w') as f:
            f.write(''.join(traceback.format_stack(frame)[-6:]))
        os._exit(97)

    signal.signal(signal.SIGALRM, on_alarm)
    stats = dict(evaluations=0, inconclusive=0, nontrivial=set(), labels=collections.Counter(), samples=[])
    last = dict(failure=None, first=None)
    t0 = time.monotonic()
    limit = job.get('case_timeout') or check.case_timeout

    def one(case, count=True):
        with open(journal, 'w', encoding='utf-8') as f:
            json.dump(case, f)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            nontrivial, labels = check.run(case, ctx)
        except Inconclusive as e:
            stats['evaluations'] += 1
            stats['inconclusive'] += 1
            stats['labels']['inconclusive: ' + str(e)] += 1
            return
        except Violation as e:
            last['failure'] = dict(case=case, message=str(e))
            if last['first'] is None:
                last['first'] = last['failure']
            raise
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            own = not frames or job['sut'] not in frames[-1].filename and not frames[-1].filename.startswith('sudachipy/')
            if own and not isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, RecursionError)):
                raise
            # an unexpected error out of the code under test, or a result of a form the check cannot work with
            msg = ('a result of unexpected form: ' if own else '') + '{}: {} [{}]'.format(type(e).__name__, e, '; '.join('{}:{}'.format(f.filename.rsplit('/', 1)[-1], f.lineno) for f in frames[-4:]))
            last['failure'] = dict(case=case, message=msg)
            if last['first'] is None:
                last['first'] = last['failure']
            raise Violation(msg) from e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if count:
            stats['evaluations'] += 1
            stats['labels'].update(set(labels))
            if nontrivial:
                h = case_hash(case)
                if h not in stats['nontrivial']:
                    stats['nontrivial'].add(h)
                    n = len(stats['nontrivial'])
                    if n & (n - 1) == 0 and len(stats['samples']) < 12:
                        s = json.dumps(case, ensure_ascii=True)
                        stats['samples'].append(case if len(s) < 1500 else s[:1500] + '...')

    result = dict(status='ok')
    try:
        if job['mode'] == 'replay':
            one(job['case'])
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, Verbosity, given, settings
            import hypothesis.internal.conjecture.engine as engine
            engine.MAX_SHRINKING_SECONDS = job.get('shrink_s', 40)
            budget = job['budget_s']

            @hypothesis.seed(seed_for(job['seed'], job['pid'], job['shard']))
            @settings(max_examples=job['examples'], database=None, deadline=None, phases=[Phase.generate] if job.get('fast') else [Phase.generate, Phase.shrink],
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                      verbosity=Verbosity.quiet)
            @given(check.strategy(job['tier']))
            def test(case):
                if last['first'] is None and time.monotonic() - t0 > budget:
                    result['truncated'] = True
                    return
                one(case)

            for case in check.corpus(job['tier'])[job['shard']::check.workers]:
                one(case)
                stats['labels']['fixed case'] += 1
            test()
    except Violation as e:
        result = dict(status='violation', failure=last['failure'], first=last['first'])
    except BaseException as e:
        if last['first'] is not None and type(e).__name__ in ('Flaky', 'FlakyFailure', 'FlakyStrategyDefinition', 'ExceptionGroup', 'BaseExceptionGroup'):
            result = dict(status='violation', failure=last['failure'], first=last['first'], flaky=True)
        else:
            result = dict(status='error', message=''.join(traceback.format_exception(e))[-6000:])
    result.update(evaluations=stats['evaluations'], inconclusive=stats['inconclusive'], nontrivial=sorted(stats['nontrivial']),
                  labels=dict(stats['labels']), samples=stats['samples'], wall_s=time.monotonic() - t0)
    with open(out + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(result, f)
    os.rename(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1:])
