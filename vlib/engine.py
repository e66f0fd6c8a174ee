"""A small property-based testing engine (Hypothesis-like) for the interpreter /repo runs on.

Hypothesis has no wheel for the PyPy 3.9 interpreter that runs algebraixlib, so this module provides
what is needed of it: every random decision of a case is drawn through a `Data` object, which
records it as one small non-negative integer (0 is always the simplest alternative). A case is
therefore fully described by its list of choices, which is what gets shrunk and what a replay file
stores. A run is a pure function of the code under test and VERIF_SEED: the number of worker
processes has no influence on which cases are generated or which failure is reported.
"""
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
import zlib

REPO = '/repo'
LIB = os.path.join(REPO, 'algebraixlib') + os.sep
EXAMPLES = os.path.join(REPO, 'examples') + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# A case normally takes about a millisecond; far beyond, it does not terminate. Processor time counts
# (the machine may be busy); the limit of real time is for a case that waits.
CASE_SECONDS = 30
CASE_REAL_SECONDS = 240
MEMORY = 4 << 30  # Address space of one worker; normally it uses about 200 MB.


class Fail(Exception):
    """The property does not hold for this case."""

    def __init__(self, message, tag=''):
        super().__init__(message)
        self.tag = tag


class Hang(Fail):
    """The case did not terminate."""


class Reject(Exception):
    """The case is outside the domain of the property (counted, not evaluated)."""


class Data:
    """The source of all random decisions of one case."""

    def __init__(self, rng=None, choices=None):
        self._rng = rng
        self._fixed = choices
        self._pos = 0
        self.choices = []
        self.labels = []
        self.keys = []
        self.notes = []
        self.excluded = []

    # Primitive ------------------------------------------------------------------------------------

    def _draw(self, count, gen=None):
        """Return an integer in [0, count)."""
        if self._fixed is not None:
            val = self._fixed[self._pos] if self._pos < len(self._fixed) else 0
            self._pos += 1
            if val >= count:
                val = count - 1
        elif count <= 1:
            val = 0
        elif gen is None:
            val = int(self._rng.random() * count)
        else:
            val = gen()
        self.choices.append(val)
        return val

    # Derived --------------------------------------------------------------------------------------

    def int(self, low, high):
        return low + self._draw(high - low + 1)

    def bool(self, chance=0.5):
        return bool(self._draw(2, lambda: 1 if self._rng.random() < chance else 0))

    def pick(self, seq):
        return seq[self._draw(len(seq))]

    def weighted(self, *pairs):
        """Pick from (weight, item) pairs; the first pair is the simplest."""
        def gen():
            total = 0
            for weight, _ in pairs:
                total += weight
            point = self._rng.random() * total
            for i, (weight, _) in enumerate(pairs):
                point -= weight
                if point < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._draw(len(pairs), gen)][1]

    def size(self, low, high, mean):
        """Return a length in [low, high] that is geometrically distributed around mean."""
        def gen():
            stop = 1.0 / (max(mean - low, 0.01) + 1.0)
            length = 0
            while length < high - low and self._rng.random() > stop:
                length += 1
            return length
        return low + self._draw(high - low + 1, gen)

    def extent(self, low, high, mean, most=200, rare=0.012):
        """Return a length as `size` does, rarely a much larger one."""
        if not self.bool(rare):
            return self.size(low, high, mean)
        return self.int(most, 11 * most) if self.bool(0.07) else self.int(high, most)

    def steps(self, high, mean):
        """Iterate up to ``high`` times; every step draws whether there is one (shrinks well)."""
        stop = 1.0 / (mean + 1.0)
        for i in range(high):
            if not self._draw(2, lambda: 1 if self._rng.random() > stop else 0):
                return
            yield i

    def shuffle(self, items):
        items = list(items)
        for i in range(len(items) - 1):
            j = i + self._draw(len(items) - i)
            items[i], items[j] = items[j], items[i]
        return items

    def subset(self, items, chance=0.5):
        return [item for item in items if self.bool(chance)]

    def text(self, alphabet, low=0, high=8, mean=2.5):
        return ''.join(self.pick(alphabet) for _ in range(self.size(low, high, mean)))

    # Reporting ------------------------------------------------------------------------------------

    def label(self, name, when=True):
        """Classify the case."""
        if when:
            self.labels.append(name)

    def nontrivial(self, *key):
        """Mark the case as non-trivial; ``key`` identifies it (for counting distinct cases)."""
        self.keys.append(zlib.crc32(repr(key).encode('utf-8', 'backslashreplace'))
                         | (hash(repr(key)) & 0xffffffff) << 32)

    def note(self, *texts):
        """Describe the case for samples and for failure reports."""
        self.notes.append(' '.join(str(text) for text in texts))

    def exclude(self, finding):
        """Count that something was left out of the case because of a listed known finding."""
        self.excluded.append(finding)


class Test:
    def __init__(self, func, quick, thorough, rule, name=None):
        self.func, self.quick, self.thorough, self.rule = func, quick, thorough, rule
        self.name = name or func.__name__


def prop(quick, thorough, rule):
    """Decorator that turns a function with one `Data` argument into a `Test`."""
    def wrap(func):
        return Test(func, quick, thorough, rule)
    return wrap


# Running one case ---------------------------------------------------------------------------------

RESETS = []  # Called before every case: bring global state of the code under test to its default.


def _on_alarm(_signum, _frame):
    raise Hang('the case did not finish within {} s of processor time'.format(CASE_SECONDS), 'hang')


def _set_handlers():
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)


def _in_code_under_test(tb):
    for frame in traceback.extract_tb(tb):
        if frame.filename.startswith(LIB) or frame.filename.startswith(EXAMPLES):
            return True
    return False


def run_case(test, data):
    """Run one case. Return None, ('reject',) or ('fail', kind, message)."""
    for reset in RESETS:
        reset()
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    signal.setitimer(signal.ITIMER_REAL, CASE_REAL_SECONDS)
    try:
        test.func(data)
        return None
    except Reject:
        return ('reject',)
    except Fail as exc:
        return ('fail', 'Fail:' + exc.tag, str(exc))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:  # pylint: disable=broad-except
        text = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-8:])
        # An exception of the oracle itself means that what the code under test returned is not even
        # of the shape the oracle can look at. (On the unchanged tree, this never happens.)
        where = 'code under test' if _in_code_under_test(exc.__traceback__) else 'oracle'
        return ('fail', 'Exception:' + type(exc).__name__,
                'the {} raised {}: {}\n{}'.format(where, type(exc).__name__, exc, text))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _rng(seed, test, index):
    return random.Random((zlib.crc32(test.name.encode()) << 64) ^ (seed << 32) ^ index)


class _Stats:
    def __init__(self):
        self.cases = self.rejected = 0
        self.labels, self.excluded = {}, {}
        self.keys, self.samples, self.failures = set(), [], []

    def merge(self, other):
        self.cases += other.cases
        self.rejected += other.rejected
        for mine, theirs in ((self.labels, other.labels), (self.excluded, other.excluded)):
            for key, val in theirs.items():
                mine[key] = mine.get(key, 0) + val
        self.keys |= other.keys
        self.samples += other.samples
        self.failures += other.failures


JOBS = []  # The jobs that this process started, as (test, count, seed, shard, shards).


def _shard(args):
    module, index, count, seed, shard, shards = args
    JOBS.append(args[1:])
    _set_handlers()
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    test = module.TESTS[index]
    stats = _Stats()
    for i in range(shard, count, shards):
        data = Data(rng=_rng(seed, test, i))
        outcome = run_case(test, data)
        stats.cases += 1
        for label in set(data.labels):
            stats.labels[label] = stats.labels.get(label, 0) + 1
        for label in set(data.excluded):
            stats.excluded[label] = stats.excluded.get(label, 0) + 1
        if outcome is None:
            if data.keys:
                stats.keys.update(data.keys)
                if len(stats.samples) < 2 and i >= shards:
                    stats.samples.append((i, '; '.join(data.notes)[:600]))
        elif outcome[0] == 'reject':
            stats.rejected += 1
        else:
            stats.failures.append((i, outcome, data.choices, list(JOBS)))
            break
    return index, stats


_MODULE = None


def _shard_entry(args):
    return _shard((_MODULE,) + args)


# Shrinking ----------------------------------------------------------------------------------------

def in_child(func, *args, max_seconds=400):
    """Return func(*args), called in a fork of this process; None if it did not finish. (What is
    called cannot leave a state of the code under test in this process.)"""
    context = multiprocessing.get_context('fork')
    receiver, sender = context.Pipe(False)

    def main():
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        sender.send(func(*args))

    process = context.Process(target=main)
    process.start()
    sender.close()
    try:
        return receiver.recv() if receiver.poll(max_seconds) else None
    except EOFError:
        return None
    finally:
        process.kill()
        process.join()
        receiver.close()


def one_case(test, choices):
    """Return (outcome, choices that were used, notes)."""
    data = Data(choices=choices)
    outcome = run_case(test, data)
    return outcome, data.choices, data.notes


def shrink(test, choices, kind, run=one_case, max_runs=3000, max_seconds=60):
    """Return a smaller list of choices that fails in the same way."""
    deadline = time.time() + max_seconds
    runs = [0]
    best = [list(choices)]

    def attempt(candidate):
        if runs[0] >= max_runs or time.time() > deadline or candidate == best[0]:
            return False
        runs[0] += 1
        outcome, result, _ = run(test, candidate) or (None, None, None)
        if outcome is None or outcome[0] != 'fail' or outcome[1] != kind:
            return False
        if (len(result), sum(result), result) < (len(best[0]), sum(best[0]), best[0]):
            best[0] = list(result)
            return True
        return False

    improved = True
    while improved and runs[0] < max_runs and time.time() < deadline:
        before = list(best[0])
        width = max(1, len(best[0]) // 2)
        while width:
            pos = 0
            while pos < len(best[0]):
                cand = best[0][:pos] + best[0][pos + width:]
                if not attempt(cand):
                    # Delete a block and shorten the length that was drawn just before it.
                    done = False
                    if pos > 0 and best[0][pos - 1] > 0 and width <= 8:
                        cand = best[0][:pos - 1] + [best[0][pos - 1] - 1] + best[0][pos + width:]
                        done = attempt(cand)
                    if not done:
                        pos += 1 if width <= 4 else width
            width //= 2
        for pos in range(len(best[0])):
            if pos >= len(best[0]):
                break
            for val in (0, best[0][pos] // 2, best[0][pos] - 1):
                if pos < len(best[0]) and 0 <= val < best[0][pos]:
                    cand = list(best[0])
                    cand[pos] = val
                    if attempt(cand):
                        break
        # Lower a length and delete one later choice.
        for pos in range(len(best[0])):
            if pos < len(best[0]) and best[0][pos] > 0:
                for other in range(pos + 1, min(pos + 40, len(best[0]))):
                    cand = list(best[0])
                    cand[pos] -= 1
                    del cand[other]
                    if attempt(cand):
                        break
        improved = best[0] != before
    return best[0], runs[0]


# Failures that depend on the cases before ---------------------------------------------------------

def cases_before(module, jobs, case):
    """Return all cases that a process ran, up to and including ``case``, as (test index, rng)."""
    for number, (index, count, seed, shard, shards) in enumerate(jobs):
        test = module.TESTS[index]
        last = number == len(jobs) - 1
        for i in range(shard, case + 1 if last else count, shards):
            yield index, (seed, i)


def run_history(module, history):
    """Run cases one after the other. Return the outcome, notes of the last one and all choices."""
    outcome, notes, used = None, [], []
    for index, source in history:
        test = module.TESTS[index]
        data = Data(rng=_rng(source[0], test, source[1])) if isinstance(source, tuple) \
            else Data(choices=source)
        outcome = run_case(test, data)
        notes = data.notes
        used.append((index, data.choices))
        del notes[40:]
    return outcome, notes, used


def shrink_history(module, jobs, case, kind, max_seconds=100):
    """A failure that only occurs after other cases: return (the shortest found history of cases as
    [(test index, choices)], outcome, notes of the last case); None if it does not occur again."""
    deadline = time.time() + max_seconds
    result = [None]

    def attempt(history):
        if time.time() > deadline:
            return False
        got = in_child(run_history, module, history)
        if got is None or got[0] is None or got[0][:2] != ('fail', kind):
            return False
        result[0] = got
        return True

    history = list(cases_before(module, jobs[-1:], case))
    if not attempt(history):
        history = list(cases_before(module, jobs, case))
        if not attempt(history):
            return None
    width = len(history) // 2
    while width:
        pos = 0
        while pos < len(history) - 1:
            cand = history[:pos] + history[min(pos + width, len(history) - 1):]
            if attempt(cand):
                history = cand
            else:
                pos += width
        width //= 2
    history = result[0][2]
    if len(history) <= 6:
        # Shrink the single cases.
        for number in range(len(history) - 1, -1, -1):
            def run(_test, choices):
                cand = history[:number] + [(history[number][0], choices)] + history[number + 1:]
                got = in_child(run_history, module, cand)
                return got and (got[0], got[2][number][1], [])
            choices, _ = shrink(None, history[number][1], kind, run, 1500, 25)
            cand = history[:number] + [(history[number][0], choices)] + history[number + 1:]
            got = in_child(run_history, module, cand)
            if got and got[0] and got[0][:2] == ('fail', kind):
                result[0], history = got, got[2]
    return history, result[0][0], result[0][1]


def minimize(module, test, failure, max_seconds):
    """Return (choices, history before, outcome, notes, number of runs, whether it occurs again)."""
    case, outcome, choices, jobs = failure
    if outcome[1] == 'Fail:hang' or max_seconds < 5:
        return choices, [], outcome, [], 0, True
    kind = outcome[1]
    alone = in_child(one_case, test, choices)
    if alone and alone[0] and alone[0][:2] == ('fail', kind):
        for run in (one_case, lambda *args: in_child(one_case, *args)):
            # Try it in one process; if what remains only fails in that process, in new ones.
            got = in_child(shrink, test, choices, kind, run, 3000, min(60, max_seconds / 2))
            final = got and in_child(one_case, test, got[0])
            if final and final[0] and final[0][:2] == ('fail', kind):
                return got[0], [], final[0], final[2], got[1], True
        return choices, [], alone[0], alone[2], 0, True
    got = shrink_history(module, jobs, case, kind, max_seconds / 2)
    if got is None:
        return choices, [], outcome, [], 0, False
    history, final, notes = got
    return history[-1][1], history[:-1], final, notes, 0, True


# Running a property -------------------------------------------------------------------------------

def _load_findings():
    with open(os.path.join(VERIF, 'known_findings.json')) as file:
        return json.load(file)


def _open_findings():
    return [item['id'] for item in _load_findings() if item['status'] == 'open']


LISTED = set()  # The ids of all open known findings.


def run_property(pid, module, tier, seed):
    """Run all tests of a property; print the verdict, write the evidence, return the exit code."""
    global _MODULE
    start = time.time()
    listed = [item for item in _load_findings()
              if item['property'] == pid and item['status'] == 'open']
    LISTED.clear()
    LISTED.update(_open_findings())
    _set_handlers()

    replay_dir = os.path.join(VERIF, 'out', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    violations, errors, known_lines = [], [], []

    # Reproduce the listed findings.
    for item in listed:
        reproduce = getattr(module, 'FINDINGS', {}).get(item['id'])
        if reproduce is None:
            errors.append('known finding {} has no reproduction'.format(item['id']))
            continue
        for reset in RESETS:
            reset()
        try:
            again = reproduce()
        except Exception as exc:  # pylint: disable=broad-except
            print('note: {}: {!r}'.format(item['id'], exc))
            again = False
        if again:
            known_lines.append('KNOWN-FINDING: property={} {}: {}'.format(
                pid, item['id'], item['what']))
        else:
            print('note: listed finding {} no longer reproduces'.format(item['id']))

    # Generate and evaluate. Work is split so that the set of cases does not depend on the split.
    _MODULE = module
    jobs = []
    shards = 16 if tier == 'quick' else 64
    for index, test in enumerate(module.TESTS):
        count = test.quick if tier == 'quick' else test.thorough
        count = max(1, int(count * float(os.environ.get('VERIF_SCALE', '1'))))
        for shard in range(min(shards, count)):
            jobs.append((index, count, seed, shard, min(shards, count)))
    workers = max(1, min(int(os.environ.get('VERIF_JOBS', '8')), os.cpu_count() or 1, len(jobs)))
    merged = {}
    if workers == 1:
        results = [_shard_entry(job) for job in jobs]
    else:
        with multiprocessing.get_context('fork').Pool(workers) as pool:
            results = list(pool.imap_unordered(_shard_entry, jobs, chunksize=1))
    for index, stats in sorted(results, key=lambda item: item[0]):
        merged.setdefault(index, _Stats()).merge(stats)

    deadline = time.time() + 400  # For minimizing all failures.
    evaluations = nontrivial = 0
    samples, rules, per_test = [], [], {}
    for index, test in enumerate(module.TESTS):
        stats = merged[index]
        evaluations += stats.cases - stats.rejected
        nontrivial += len(stats.keys)
        stats.samples.sort()
        rules.append('[{}] {}'.format(test.name, test.rule))
        samples += ['[{}] {}'.format(test.name, text) for _, text in stats.samples[:2]]
        per_test[test.name] = {
            'cases': stats.cases, 'outside_domain': stats.rejected,
            'distinct_nontrivial': len(stats.keys),
            'excluded_known': stats.excluded,
            'classes': dict(sorted(stats.labels.items()))}
        if not stats.failures:
            continue
        stats.failures.sort(key=lambda item: item[0])
        failure = stats.failures[0]
        small, history, final, notes, runs, again = minimize(
            module, test, failure, min(180, deadline - time.time()))
        path = os.path.join(replay_dir, '{}-{}-{}.json'.format(
            pid, test.name, hashlib.sha1(repr((small, history)).encode()).hexdigest()[:8]))
        record = {
            'property': pid, 'test': test.name, 'seed': seed, 'case': failure[0],
            'choices': small, 'shrink_runs': runs, 'kind': final[1],
            'what_failed': final[2], 'inputs': notes,
            'replay_cmd': '/verif/check replay ' + path}
        if history:
            record['cases_before'] = [
                {'test': module.TESTS[number].name, 'choices': item} for number, item in history]
            notes.insert(0, 'only after {} other case(s), see the replay file'.format(len(history)))
        if not again:
            notes.insert(0, 'it occurred once (case {} of seed {}), but not again'.format(
                failure[0], seed))
        with open(path, 'w') as file:
            json.dump(record, file, indent=1)
        violations.append({'test': test.name, 'replay': path, 'message': final[2][:2000],
                           'inputs': notes[:40]})

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': nontrivial,
            'rule': ' '.join(rules), 'samples': samples, 'per_test': per_test,
            'violations': violations},
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'violations': len(violations),
        'wall_s': round(time.time() - start, 2)}
    evidence_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(evidence_dir, exist_ok=True)
    with open(os.path.join(evidence_dir, pid + '.json'), 'w') as file:
        json.dump(evidence, file, indent=1)

    for line in known_lines:
        print(line)
    print('{} {} seed={}: {} cases, {} distinct non-trivial, {:.1f} s'.format(
        pid, tier, seed, evaluations, nontrivial, time.time() - start))
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(per_test, indent=1))
    for item in violations:
        print('[{}] {}'.format(item['test'], item['message']))
        for line in item['inputs']:
            print('    ' + line)
        print('VIOLATION property={} replay={}'.format(pid, item['replay']))
    for text in errors:
        print('HARNESS ERROR ' + text, file=sys.stderr)
    if violations:
        return 1
    return 3 if errors else 0


def replay(path, modules):
    with open(path) as file:
        record = json.load(file)
    module = modules(record['property'])
    _set_handlers()
    LISTED.update(_open_findings())
    names = [test.name for test in module.TESTS]
    history = [(names.index(item['test']), item['choices'])
               for item in record.get('cases_before', []) + [record]]
    outcome, notes, _ = run_history(module, history)
    for line in notes:
        print('    ' + line)
    if outcome is None or outcome[0] == 'reject':
        print('replay: the property holds for this case')
        return 0
    print(outcome[2])
    print('VIOLATION property={} replay={}'.format(record['property'], path))
    return 1
