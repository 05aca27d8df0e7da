"""
Common machinery of the checks: runs TLC on the specifications, drives the real code on the cases that TLC
generates, has TLC judge the observations against the specification, and reports.

A check is a module checks/<id>.py with a function ``main(check)``; run it with ``./run <ID>`` (see also
``--replay``).  Exit codes: 0 the property held, 1 violation (with a VIOLATION line), 2 machinery failure.
"""

from __future__ import annotations

import importlib
import json
import math
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
BUILD = VERIF / 'build'
EVIDENCE = VERIF / 'evidence'
KNOWN = VERIF / 'KNOWN_FINDINGS.txt'
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def enc(v):
    """JSON value that TLC's Json module reads: reals as decimal text, None as "none"."""
    import numpy as np

    if v is None:
        return 'none'
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return v if abs(v) < 2**31 else repr(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return 'nan' if math.isnan(v) else ('inf' if v > 0 else '-inf') if math.isinf(v) else repr(v)
    if isinstance(v, np.ndarray):
        return enc(v.tolist())
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return str(v)


def num(v):
    """Python number from a case value: TLC writes reals as text or as [num, den]."""
    if isinstance(v, str):
        return float(v)
    if isinstance(v, (list, tuple)):
        return v[0] / v[1]
    return v


def build():
    """Compile TLC's implementation of the Real64 module."""
    src = sorted((VERIF / 'lib' / 'java').glob('*.java'))
    out = [BUILD / (s.stem + '.class') for s in src]
    if all(o.exists() and o.stat().st_mtime >= s.stat().st_mtime for o, s in zip(out, src)):
        return
    BUILD.mkdir(exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vfj_')
    try:
        subprocess.run(['javac', '-cp', TLA_JARS, '-d', tmp, *map(str, src)], check=True)
        for f in Path(tmp).glob('*.class'):
            shutil.copy(f, BUILD / (f.name + f'.{os.getpid()}'))
            os.replace(BUILD / (f.name + f'.{os.getpid()}'), BUILD / f.name)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Check:
    def __init__(self, prop: str, replay: str | None = None):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == 'quick'
        self.t0 = time.time()
        self.tmp = Path(tempfile.mkdtemp(prefix=f'vf_{prop}_'))
        self.replay_case = json.loads(Path(replay).read_text()) if replay else None
        self.states = 0
        self.transitions = 0
        self.spec_runs = []
        self.evaluations = 0
        self.traces = 0
        self.nontrivial = set()
        self.samples = []
        self.violations = []  # (key, what, data)
        self.assumptions = []
        self.rule = ''
        self.exhaustive = False
        self.level = 'model_checking'
        self.extra = {}
        self._n = 0

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, env=None, args=(), workers=1, timeout=800, heap='4g'):
        """Run TLC in a scratch directory; returns (return code, output)."""
        self._n += 1
        d = self.tmp / f'tlc{self._n}'
        d.mkdir()
        cfg = d / f'{module}.cfg'
        cfg.write_text(cfg_text)
        e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
        cmd = [
            'java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', f'-DTLA-Library={SPEC}',
            f'-Djava.io.tmpdir={d}', '-cp', f'{BUILD}:{TLA_JARS}', 'tlc2.TLC', '-workers', str(workers),
            '-metadir', str(d / 'states'), '-noGenerateSpecTE', '-config', str(cfg), *args,
            str(SPEC / f'{module}.tla'),
        ]  # fmt: skip
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timed out on {module}')
        out = '\n'.join(x for x in (r.stdout + r.stderr).splitlines() if not x.startswith(('Loading ', 'Parsing ', 'Semantic ', 'Linting ')))
        (d / 'out.txt').write_text(out)
        return r.returncode, out

    def _count(self, module, out, what):
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            gen = dist = int(m[-1].replace(',', '')) if m else 0
        self.spec_runs.append(dict(module=module, what=what, states_generated=gen, distinct_states=dist))
        return gen, dist

    def model(self, module, cfg, args=(), workers=8, timeout=800, heap='8g', env=None):
        """Model check a specification; a violated invariant is a failure of the machinery, not of the code."""
        rc, out = self.tlc(module, cfg, args=args, workers=workers, timeout=timeout, heap=heap, env=env)
        if rc != 0:
            raise MachineryError(f'TLC rejects the specification {module}:\n{out[-4000:]}')
        gen, dist = self._count(module, out, 'model checking')
        self.states += dist
        self.transitions += gen
        return out

    def generate(self, module, cfg='', consts=None, args=(), env=None, simulate=None, timeout=600):
        """
        Cases from TLC: the specification writes them to the file VF_OUT (ndjson), or prints them as
        ``VF@<json>`` lines (behaviours found with -simulate).
        """
        if self.replay_case is not None:
            return [self.replay_case['case']]
        out_file = self.tmp / f'cases{self._n}.ndjson'
        text = cfg + ''.join(f'\nCONSTANT {k} = {v}' for k, v in (consts or {}).items()) + '\n'
        if 'INIT' not in text and 'SPECIFICATION' not in text:
            text += 'INIT Init\nNEXT Next\n'
        e = dict(VF_OUT=out_file, VF_SEED=self.seed, VF_TIER=self.tier, **(env or {}))
        a = ['-deadlock', '-seed', str(self.seed), *args]
        if simulate:
            a = ['-simulate', f'num={simulate[0]}', '-depth', str(simulate[1]), *a]
        rc, out = self.tlc(module, text, env=e, args=a, timeout=timeout)
        if rc != 0:
            raise MachineryError(f'TLC could not generate cases from {module}:\n{out[-4000:]}')
        gen, dist = self._count(module, out, 'case generation')
        self.states += dist
        self.transitions += gen
        cases = []
        if out_file.exists():
            cases = [json.loads(line) for line in out_file.read_text().splitlines() if line.strip()]
        for line in out.splitlines():
            line = line.strip().strip('"')
            if line.startswith('VF@'):
                cases.append(json.loads(line[3:].replace('\\"', '"').replace('\\\\', '\\')))
        if not cases:
            raise MachineryError(f'no cases from {module}:\n{out[-3000:]}')
        return cases

    # ------------------------------------------------------------- driving
    def drive(self, func, cases, procs=8, timeout=300, keep=False):
        """
        Run ``func(case, scratch_dir)`` for every case in worker processes.  Returns a list of
        dict(case=, obs=): an exception that ``func`` lets through, a dead or a hanging worker are
        observations too (obs['outcome'] in {'raised', 'died', 'hung'}).
        """
        results = [None] * len(cases)
        ctx = mp.get_context('fork')
        todo = list(range(len(cases)))[::-1]
        active = {}

        def spawn():
            parent, child = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(child, func, str(self.tmp)), daemon=True)
            p.start()
            child.close()
            return p, parent

        def feed(p, conn):
            if todo:
                k = todo.pop()
                conn.send((k, cases[k]))
                active[conn] = (p, k, time.time())
            else:
                conn.send(None)

        for _ in range(max(1, min(procs, len(cases)))):
            feed(*spawn())
        while active:
            ready = wait(list(active), timeout=1)
            for conn in ready:
                p, k, _ = active.pop(conn)
                try:
                    results[k] = conn.recv()
                    feed(p, conn)
                except (EOFError, ConnectionResetError, BrokenPipeError):
                    p.join(5)
                    results[k] = dict(outcome='died', error=f'exit code {p.exitcode}')
                    conn.close()
                    if todo:
                        feed(*spawn())
            for conn, (p, k, t) in list(active.items()):
                if time.time() - t > timeout:
                    del active[conn]
                    os.kill(p.pid, signal.SIGKILL)
                    p.join(5)
                    conn.close()
                    results[k] = dict(outcome='hung', error=f'no answer in {timeout} s')
                    if todo:
                        feed(*spawn())
        self.evaluations += len(cases)
        return [dict(case=c, obs=o) for c, o in zip(cases, results)]

    # ------------------------------------------------------------- judging
    def judge(self, module, runs, cfg='', consts=None, chunks=8, timeout=800, heap='3g', cases_fmt=True):
        """
        Have TLC judge the runs against a trace specification: it reads VF_TRACE (ndjson) and writes to
        VF_VERDICT (JSON) a list of [id, clauses, note] for the runs it rejects.
        """
        from concurrent.futures import ThreadPoolExecutor

        chunks = max(1, min(chunks, len(runs)))
        parts = [[] for _ in range(chunks)]
        for k, run in enumerate(runs):
            parts[k % chunks].append(dict(id=k, **run))

        def one(n):
            tr = self.tmp / f'trace_{module}_{self._n}_{n}.ndjson'
            vd = self.tmp / f'verdict_{module}_{self._n}_{n}.json'
            with open(tr, 'w') as f:
                for run in parts[n]:
                    f.write(json.dumps(enc(run)) + '\n')
            text = cfg + ''.join(f'\nCONSTANT {k} = {v}' for k, v in (consts or {}).items()) + '\n'
            if 'INIT' not in text and 'SPECIFICATION' not in text:
                text += 'INIT Init\nNEXT Next\n'
            rc, out = self.tlc(
                module, text, env=dict(VF_TRACE=tr, VF_VERDICT=vd, VF_TIER=self.tier), args=['-deadlock'],
                timeout=timeout, heap=heap,
            )  # fmt: skip
            return rc, out, vd

        with ThreadPoolExecutor(chunks) as ex:
            res = list(ex.map(one, range(chunks)))
        bad = {}
        for n, (rc, out, vd) in enumerate(res):
            self._count(module, out, 'trace validation')
            if rc != 0 or not vd.exists():
                # no step of the specification explains an observation it cannot even evaluate
                if re.search(r'The error occurred when TLC was evaluating|Evaluating (assumption|invariant)|Attempted to', out):
                    m = re.findall(r'/\\ l = (\d+)', out)
                    k = parts[n][min(int(m[-1]), len(parts[n])) - 1 if m else 0]['id']
                    bad[k] = (['not-a-behaviour'], out[-1500:])
                    continue
                raise MachineryError(f'TLC failed on {module}:\n{out[-4000:]}')
            for v in json.loads(vd.read_text()):
                bad[v['id']] = (v['clauses'], v.get('note', ''))
        self.traces += len(runs)
        for k in sorted(bad):
            clauses, note = bad[k]
            self.violation(sorted(clauses), runs[k], note)
        for k, run in enumerate(runs[:: max(1, len(runs) // 3)]):
            if len(self.samples) < 6:
                self.samples.append(_clip(run))
        return bad

    def violation(self, clauses, run, note=''):
        key = '+'.join(clauses)
        self.violations.append((key, clauses, run, note))

    # ----------------------------------------------------------- reporting
    def finish(self) -> int:
        known = []
        if KNOWN.exists():
            for line in KNOWN.read_text().splitlines():
                m = re.match(r'known: property=(\S+) case=(\S+) clause=(\S+) (.*)', line)
                if m and m[1] == self.prop:
                    known.append(m.groups()[1:])
        new, seen = [], {}
        for key, clauses, run, note in self.violations:
            cid = str(run.get('case', {}).get('name', '')) if isinstance(run.get('case'), dict) else ''
            rest = []
            for cl in clauses:
                hit = [k for k in known if k[0] == cid and k[1] == cl]
                if hit:
                    seen[hit[0]] = seen.get(hit[0], 0) + 1
                else:
                    rest.append(cl)
            if rest:
                new.append((rest, run, note))
        for k in seen:
            print(f'KNOWN-FINDING: property={self.prop} case={k[0]} clause={k[1]} {k[2]}')
        rep_dir = EVIDENCE / 'replays'
        rep_dir.mkdir(parents=True, exist_ok=True)
        for f in rep_dir.glob(f'{self.prop}-*.json'):
            f.unlink()
        for n, (clauses, run, note) in enumerate(new[:5]):
            rep = rep_dir / f'{self.prop}-{n:02d}.json'
            rep.write_text(json.dumps(dict(property=self.prop, clauses=clauses, note=note, **enc(run)), indent=1))
            print(f'  rejected: clauses={",".join(clauses)} case={json.dumps(enc(run.get("case")))[:600]}')
            if note:
                print(f'    note: {str(note)[:600]}')
            o = run.get('obs')
            if isinstance(o, dict) and o.get('error'):
                print(f'    error: {str(o["error"])[:600]}')
        if new:
            hist = {}
            for clauses, run, _ in new:
                for cl in clauses:
                    k = f"{cl} ({run['case'].get('name', '')})" if isinstance(run.get('case'), dict) else cl
                    hist[k] = hist.get(k, 0) + 1
            print('  rejected clauses: ' + ', '.join(f'{k}: {v}' for k, v in sorted(hist.items(), key=lambda x: -x[1])[: int(os.environ.get('VF_SHOW', 30))]))
        for n in range(len(new[:5])):
            print(f'VIOLATION property={self.prop} replay={rep_dir / f"{self.prop}-{n:02d}.json"}')
        cov = dict(
            states=self.states,
            transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            evaluations=self.evaluations,
            distinct_nontrivial=len(self.nontrivial) if self.nontrivial else self.evaluations,
            rule=self.rule,
            samples=self.samples or ['none'],
            spec_runs=self.spec_runs[:40],
            known_findings=len(seen),
            **self.extra,
        )
        if self.exhaustive:
            cov['exhaustive'] = True
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new),
        )  # fmt: skip
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f'{self.prop}.json').write_text(json.dumps(ev, indent=1))
        print(
            f'{self.prop}: {len(new)} violation(s), {self.evaluations} executions of the code, {self.traces} traces '
            f'validated, {self.states} spec states, {time.time() - self.t0:.1f} s'
        )
        return 1 if new else 0


def _clip(v, n=24):
    v = enc(v)

    def rec(x):
        if isinstance(x, list):
            return [rec(y) for y in x[:n]] + (['...'] if len(x) > n else [])
        if isinstance(x, dict):
            return {k: rec(y) for k, y in x.items()}
        return x[:400] if isinstance(x, str) else x

    return rec(v)


def _worker(conn, func, tmp):
    os.setpgrp()
    base = Path(tempfile.mkdtemp(prefix='w_', dir=tmp))
    n = 0
    while True:
        msg = conn.recv()
        if msg is None:
            conn.close()
            os._exit(0)
        k, case = msg
        n += 1
        d = base / f'{n}'
        d.mkdir()
        try:
            obs = func(case, d)
        except Exception as ex:
            obs = dict(outcome='raised', error=f'{type(ex).__name__}: {ex}', tb=traceback.format_exc()[-2000:])
        try:
            shutil.rmtree(d, ignore_errors=True)
        except Exception:
            pass
        conn.send(enc(obs))


def main():
    prop = sys.argv[1]
    replay = None
    if '--replay' in sys.argv:
        replay = sys.argv[sys.argv.index('--replay') + 1]
    sys.path.insert(0, str(VERIF / 'lib'))
    sys.path.insert(0, str(VERIF / 'checks'))
    c = Check(prop, replay)
    rc = 2
    try:
        build()
        mod = importlib.import_module(prop.lower())
        mod.main(c)
        rc = c.finish()
    except MachineryError as ex:
        print(f'MACHINERY FAILURE: {ex}')
    except Exception:
        traceback.print_exc()
    finally:
        if os.environ.get('VF_KEEP'):
            print('scratch:', c.tmp)
        else:
            shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    sys.modules['vf'] = sys.modules['__main__']
    main()
