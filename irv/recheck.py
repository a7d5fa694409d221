"""Second back end: the negated obligation must be unsatisfiable for cvc5 as well."""
import subprocess, tempfile, os
class Recheck:
    def __init__(self, counts): self.c = counts
    def __call__(self, name, pc, q):
        import z3
        s = z3.Solver(); s.add(*pc); s.add(q)
        t = s.to_smt2().replace('(check-sat)', '')
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic QF_UFBV)\n' + '\n'.join(l for l in t.split('\n') if not l.startswith('(set-info')) + '\n(check-sat)\n')
        try:
            r = subprocess.run(['cvc5', '--tlimit=20000', f.name], capture_output=True, text=True)
            out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        finally: os.remove(f.name)
        if out not in ('sat', 'unsat'): out = 'unknown'
        self.c[out] = self.c.get(out, 0) + 1
        if out == 'sat': raise RuntimeError('back ends disagree on ' + name)
