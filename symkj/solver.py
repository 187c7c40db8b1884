"""One long-lived SMT solver process, spoken to in SMT-LIB2 over a pipe."""
import os
import re
import subprocess
import time

from . import terms as tm

PRIMARY = os.environ.get('SYMKJ_SOLVER', 'z3-new -in')


class SolverError(BaseException):
    pass


_val_re = re.compile(r'\(\|([^|]*)\|\s+(true|false|\d+|\(-\s*\d+\))\)')


class Solver(object):
    def __init__(self, cmd=None, log=None):
        self.cmd = (cmd or PRIMARY).split()
        self.proc = None
        self.cache = {}
        self.queries = 0
        self.cache_hits = 0
        self.time = 0.0
        self.unknown = 0
        self.log = log
        self.kept = []          # (smt text, answer): re-asked of a second solver

    def _start(self):
        self.proc = subprocess.Popen(self.cmd, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, bufsize=0)
        self.declared = set()
        self.n = 0
        self._send('(set-option :produce-models true)\n')
        if self.cmd[0].startswith('z3'):
            self._send('(set-option :timeout 20000)\n')
        self._send('(set-logic QF_LIA)\n' if 'cvc5' in self.cmd[0] else '')

    def _send(self, s):
        self.proc.stdin.write(s.encode('utf-8'))

    def _line(self):
        l = self.proc.stdout.readline()
        if not l:
            raise SolverError('solver died')
        return l.decode('utf-8')

    def check(self, constraints, want_model=True):
        """Returns ('sat', model) / ('unsat', None) / ('unknown', None)."""
        key = frozenset(c.tid for c in constraints)
        r = self.cache.get(key)
        if r is not None:
            self.cache_hits += 1
            return r
        t0 = time.time()
        if self.proc is None or self.n > 4000:
            self.close()
            self._start()
        self.n += 1
        self.queries += 1
        vs = set()
        for c in constraints:
            vs |= c.vars
        vs = sorted(vs, key=lambda v: v.tid)
        decl = ''.join('(declare-const %s %s)' % (tm.smt(v), v.sort) for v in vs)
        body = ''.join('(assert %s)' % tm.smt(c) for c in constraints)
        self._send('(push 1)' + decl + body + '(check-sat)\n')
        ans = self._line().strip()
        model = None
        if ans == 'sat':
            if vs:
                self._send('(get-value (%s))\n' % ' '.join(tm.smt(v) for v in vs))
                txt = ''
                depth = 0
                while True:
                    l = self._line()
                    txt += l
                    stripped = re.sub(r'\|[^|]*\|', '', l)
                    depth += stripped.count('(') - stripped.count(')')
                    if depth <= 0:
                        break
                if txt.startswith('(error'):
                    raise SolverError(txt)
                got = dict(_val_re.findall(txt))
                model = {}
                for v in vs:
                    s = got.get(tm.smt(v)[1:-1])
                    if s is None:
                        raise SolverError('no value for %s in %s' % (v, txt))
                    if s in ('true', 'false'):
                        model[v] = s == 'true'
                    else:
                        neg = s.startswith('(')
                        n = int(re.sub(r'[^0-9]', '', s))
                        model[v] = -n if neg else n
                for c in constraints:      # never trust an unchecked model
                    if not tm.ev(c, model):
                        raise SolverError('solver model does not satisfy %s' % c)
            else:
                model = {}
        elif ans == 'unsat':
            pass
        elif ans in ('unknown', 'timeout'):
            ans = 'unknown'
            self.unknown += 1
        else:
            raise SolverError('unexpected solver answer %r for %s' % (ans, body))
        self._send('(pop 1)\n')
        self.time += time.time() - t0
        if ans != 'unknown':
            n = self.queries
            if n <= 40 or n % 50 == 0:
                if len(self.kept) < 400:
                    self.kept.append((decl + body, ans))
        r = (ans, model)
        self.cache[key] = r
        return r

    def close(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.kill()
                self.proc.wait()
                self.proc.stdout.close()
            except Exception:
                pass
            self.proc = None


def crosscheck(kept, cmd='cvc5 --incremental --lang smt2 --tlimit-per=3000', limit=60):
    """Re-ask kept queries of a second solver; returns (asked, disagreements, undecided)."""
    if not kept:
        return 0, [], 0
    script = ['(set-logic ALL)\n']
    for body, _ in kept:
        script.append('(push 1)%s(check-sat)(pop 1)\n' % body)
    try:
        p = subprocess.run(cmd.split(), input=''.join(script).encode('utf-8'),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
        lines = p.stdout.decode('utf-8').split()
        if len(lines) != len(kept):
            return len(kept), [('?', 'short answer', p.stdout[-300:], p.stderr[-300:])], 0
    except subprocess.TimeoutExpired as e:
        lines = (e.stdout or b'').decode('utf-8').split()[:-1]
    bad, und = [], len(kept) - len(lines)
    for (body, ans), l in zip(kept, lines):
        if l == 'unknown':
            und += 1
        elif l != ans:
            bad.append((body, ans, l))
    return len(kept), bad, und
