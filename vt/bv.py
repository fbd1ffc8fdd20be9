"""Bit-exact harness runs: integer inputs and outputs, obligations over bit-vectors.

The obligations are z3 formulas over constants for the inputs and outputs; a path's query replaces the outputs by the terms
the code computed, a replay replaces inputs and outputs by the concrete words of the real run."""
import ctypes
import gc
import os
import pickle
import signal
import time
import traceback

import z3

import core
import sys
import terms as TM
from build import ENT
from core import Runner, lanes_dict, lane_types
from real import RealCtx
from symex import Engine, Unencodable


sys.setrecursionlimit(100000)
LIBC = ctypes.CDLL(None)


class BitRunner(Runner):
    merge = True
    inc = None

    def consts(self):
        if not hasattr(self, '_I'):
            self._I = lanes_dict(self.h.ins, [z3.BitVec(n, 32) for n in core.all_lanes(self.h)])
            self._O = lanes_dict(self.h.outs, [z3.BitVec('out_%d' % i, 32) for i in range(self.h.nout())])
            pre = self.h.kw.get('bpre')
            self._pre = list(pre(self._I)) if pre else []
            self.tc = RealCtx()
        return self._I, self._O

    def fsolve(self, cons, ms=10000):
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(cons)
        t = time.time()
        r = s.check()
        self.out.solver_s += time.time() - t
        self.out.queries += 1
        return r, (s.model() if r == z3.sat else None)

    def feasible(self, pc):
        self.consts()
        # one incremental solver follows the path; conditions it has not seen yet are assumptions
        if self.inc is None:
            self.inc = z3.Solver()
            self.inc.set('timeout', 4000)
            self.inc.add(self._pre)
            self.told = []
        k = 0
        while k < len(self.told) and k < len(pc) and self.told[k] is pc[k]:
            k += 1
        if k < len(self.told):
            self.inc = None
            return self.feasible(pc)
        try:
            for p in pc[k:-1]:
                self.inc.add(self.tc.trb(p))
                self.told.append(p)
            last = [self.tc.trb(pc[-1])]
        except Unencodable:
            return True
        t = time.time()
        r = self.inc.check(*last)
        self.out.solver_s += time.time() - t
        self.out.queries += 1
        return r != z3.unsat

    def enum(self, pc, t, limit=64):
        self.consts()
        try:
            return core.all_values(self.out, [self.tc.trb(p) for p in pc] + self._pre, self.tc.trbv(t), limit)
        except Unencodable:
            return None

    def inputs(self, eng):
        return [eng.arg_floats('in', core.in_terms(self.h), 0), eng.arg_floats('out', [None] * self.h.nout(), 0)]

    def engine(self):
        h = self.h
        eng = Engine(self.m, self.feasible, max_paths=h.kw.get('max_paths', 20000), max_steps=h.kw.get('max_steps', 400000))
        eng.enum = self.enum
        eng.merge = self.merge and not h.kw.get('nomerge')
        return eng

    def run(self):
        self.consts()
        self.done = []
        self.depth = self.shared = self.before = 0
        self.pipe = None
        eng = self.eng = self.engine()
        eng.preparse(self.h.name)
        gc.freeze()
        eng.split = self.split
        try:
            return self.explore(eng)
        except core.Overtime:
            raise
        except Unencodable as e:
            if self.pipe is None:
                raise
            self.out.undecided.append('not encodable: %s' % e)
        except Exception:
            if self.pipe is None:
                raise
            self.out.undecided.append('internal error: %s' % traceback.format_exc()[-1500:])
        finally:
            if self.pipe is not None:
                self.out.funcs = set(eng.funcs_seen)
                with os.fdopen(self.pipe, 'wb') as f:
                    pickle.dump(self.out, f)
                os._exit(0)

    def split(self):
        """copies the process: the copy explores one side of a branch and reports what it found, then this one goes on"""
        self.eng.did_split = False
        if self.found():
            self.eng.did_split = True       # enough to report; the other side is left out
            return False
        if self.depth >= 40:
            return False
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            LIBC.prctl(1, signal.SIGKILL)
            os.close(rd)
            if self.pipe is not None:
                os.close(self.pipe)
            self.pipe = wr
            self.depth += 1
            w = self.out.witness
            self.before += len(self.out.violations)
            self.out = core.Outcome()
            self.out.witness = w
            self.done = []
            self.shared = self.eng.steps
            return True
        try:
            os.close(wr)
            with os.fdopen(rd, 'rb') as f:
                data = f.read()
        except BaseException:
            os.kill(pid, signal.SIGKILL)
            raise
        finally:
            os.waitpid(pid, 0)
        self.eng.did_split = True
        if not data:
            raise RuntimeError('a copy of the process ended without an answer')
        o, out = pickle.loads(data), self.out
        for k, v in vars(o).items():
            if k == 'funcs':
                self.eng.funcs_seen |= v
            elif k == 'witness':
                out.witness = out.witness or v
            else:
                setattr(out, k, getattr(out, k) + v)
        return False

    def found(self):
        return self.before + len(self.out.violations) >= 3

    def explore(self, eng):
        for r in eng.explore(self.h.name, self.inputs):
            self.out.paths += 1
            self.out.steps += r.steps - self.shared
            self.shared = 0
            self.path(r)
            if self.found():
                break
        if self.pipe is None and eng.nmerges:
            self.out.notes.append('%d branches joined' % eng.nmerges)
        self.validate()
        self.out.funcs = eng.funcs_seen
        return self.out

    def path(self, r):
        if r.kind in ('violation', 'assert', 'abort', 'stop', 'throw'):
            self.event(r)
            return
        self.done.append(r)
        self.bits_path(r)

    def pcz(self, r):
        return [self.tc.trb(p) for p in r.pc] + self._pre

    def out_terms(self, r):
        o = r.objs['out']
        ts = []
        for i in range(self.h.nout()):
            c = o.cells.get(4 * i)
            t = TM.undef(32) if c is None or c[0] != 4 else c[1]
            ts.append(TM.tobits(t) if t.sort == 'f32' else t)
        return ts

    def bits_path(self, r):
        h, out = self.h, self.out
        I, O = self.consts()
        pc = self.pcz(r)
        ts = self.out_terms(r)
        flat = [o for v, e in h.outs for o in O[v]]
        und = [i for i, t in enumerate(ts) if TM.has_undef([t])]
        if und:
            self.undefined(r, pc, und)
            return
        try:
            sub = [(o, self.tc.trbv(t)) for o, t in zip(flat, ts)]
        except Unencodable as e:
            out.undecided.append('output: %s' % e)
            return
        obs = h.spec(I, O)
        out.assertions += len(obs)
        if not out.witness:
            out.witness = self.fsolve(pc)[0] == z3.sat
        goal = z3.Not(z3.And([z3.substitute(g, *sub) for _, g in obs]))
        res, model = self.fsolve(pc + [goal], h.kw.get('timeout', 60000))
        if res == z3.unsat:
            return
        if res == z3.unknown:
            out.undecided.append('obligations of a path: unknown')
            return
        if not self.confirm(model, pc, goal):
            out.undecided.append('counterexample not reproduced by the real code: %s' % model)

    def confirm(self, model, pc, goal):
        # inputs the real code is more likely to take where the encoding has a stand-in
        for extra in (self.h.kw['prefer'](self._I) if 'prefer' in self.h.kw else []):
            res, m = self.fsolve(pc + [goal, extra])
            if res == z3.sat and self.try_words(self.words(m)):
                return True
        for k in range(6):
            if self.try_words(self.words(model)):
                return True
            if k == 5:
                return False
            # another counterexample
            block = z3.Or([c != model.eval(c, model_completion=True) for l in self._I.values() for c in l])
            pc = pc + [block]
            res, model = self.fsolve(pc + [goal])
            if res != z3.sat:
                return False
        return False

    def words(self, model):
        fixed = self.h.kw.get('fixed', {})
        w = []
        for (v, e) in self.h.ins:
            for i, c in enumerate(self._I[v]):
                n = '%s_%d' % (v, i)
                if n in fixed:
                    w.append(TM.f32_bits(fixed[n]))
                else:
                    w.append(model.eval(c, model_completion=True).as_long())
        return w

    def try_words(self, bits, label=None):
        for v in ('O0', 'O2'):
            st, o, err = self.native.run(self.cfg, v, self.h.name, self.h.nout(), bits, 0, 0, timeout=20)
            if st != 'ok':
                self.report('%s: %s' % (label or 'run', st), bits, '%s build: %s %s' % (v, st, (err or '')[-200:]))
                return True
            bad = self.judge_bits(bits, o)
            if bad:
                self.report('; '.join(bad[:4]), bits, 'reproduced by the %s build: %s' % (v, ' '.join('%d' % TM._s(x, 32) for x in o)), None)
                return True
        return False

    def judge_bits(self, bits, words):
        I, O = self.consts()
        sub = []
        k = 0
        for v, e in self.h.ins:
            for c in I[v]:
                sub.append((c, z3.BitVecVal(bits[k], 32)))
                k += 1
        k = 0
        for p in self._pre:
            if not z3.is_true(z3.simplify(z3.substitute(p, *sub))):
                return None
        for v, e in self.h.outs:
            for c in O[v]:
                sub.append((c, z3.BitVecVal(words[k], 32)))
                k += 1
        return [l for l, g in self.h.spec(I, O) if not z3.is_true(z3.simplify(z3.substitute(g, *sub)))]

    def undefined(self, r, pc, und):
        self.out.assertions += 1
        res, model = self.fsolve(pc)
        if res == z3.unsat:
            return
        bits = self.words(model)
        for i in und:
            rep = self.replay_undef(bits, i)
            if rep:
                self.report('uninitialised output %d' % i, bits, rep)
                return
        self.out.undecided.append('outputs %s never written (not observable in replay)' % und)

    def event(self, r):
        """memory error, failed assertion, termination or exhausted step bound"""
        out = self.out
        out.assertions += 1
        try:
            pc = self.pcz(r)
        except Unencodable as e:
            out.undecided.append('%s: %s' % (r.msg, e))
            return
        res, model = self.fsolve(pc)
        if res == z3.unsat:
            return
        if model is None:
            out.undecided.append('%s: unknown' % r.msg)
            return
        bits = self.words(model)
        why = '%s (%s)' % (r.msg, r.where)
        st, o, err = self.native.run(self.cfg, 'O0' if r.kind == 'stop' else 'asan', self.h.name, self.h.nout(), bits, 0, 0, timeout=20)
        if st != 'ok':
            self.report('%s: %s' % (r.kind, why), bits, '%s: %s' % (st, (err or '')[-300:]))
        elif 'uninitialised' in r.msg and self.replay_undef(bits, None):
            self.report('%s: %s' % (r.kind, why), bits, self.replay_undef(bits, None))
        else:
            out.undecided.append('unconfirmed %s: %s' % (r.kind, why))

    def validate(self):
        """encoding against the real code on solver-chosen inputs of completed paths"""
        out = self.out
        if self.h.kw.get('novalidate') or self.pipe is not None and len(self.eng.taken) % 4:
            return
        for r in self.done[:1] + self.done[1:][-1:]:
            try:
                res, model = self.fsolve(self.pcz(r))
                if model is None:
                    continue
                bits = self.words(model)
                st, o, err = self.native.run(self.cfg, 'O0', self.h.name, self.h.nout(), bits, 0, 0)
                if st != 'ok':
                    continue
                I, O = self.consts()
                sub = [(c, z3.BitVecVal(b, 32)) for c, b in zip([c for v, e in self.h.ins for c in I[v]], bits)]
                got = [z3.simplify(z3.substitute(self.tc.trbv(t), *sub)) for t in self.out_terms(r)]
                if all(z3.is_bv_value(g) and g.as_long() == w for g, w in zip(got, o)):
                    out.validated += 1
                else:
                    out.mismatch.append('%s: encoding %s, real code %s' % (bits, got, o))
            except Unencodable:
                pass
