bug("C28-units", "C28", "progress.py", [("        if secs >= val:\n", "        if secs > val:\n")],
 "a duration of exactly one minute, hour or day", "an hour is written as 60 minutes", '''
from zoidberg.progress import format_time
import re
for v, want in ((3600, "01h00m00s"), (3599, "59m59s"), (86400.0, "01d00h00m00s"), (3601, "01h00m01s"), (12, "12s")):
    assert format_time(v) == want, (v, format_time(v))
''')
bug("C28-eta", "C28", "progress.py", [("format_time(needed / (prog) - needed)", "format_time(needed / (prog))")],
 "the timed report", "the total time is shown as the time left", '''
import contextlib, io, time
from zoidberg import progress
t = [100.0]
class C:
    def time(self): return t[0]
time.time = C().time
s = io.StringIO()
with contextlib.redirect_stdout(s):
    with progress.Progress() as p:
        t[0] += 30
        p.update(0.75)
        out = s.getvalue()
assert "30s>10s" in out, out
''')
bug("C28-done", "C28", "progress.py", [("    if progress >= 1:\n", "    if progress > 1:\n")],
 "a fraction of exactly one", "the last report does not say that the work is done", '''
import subprocess, sys
o = subprocess.run([sys.executable, "-c", "from zoidberg.progress import update_progress as u\\nfor i in range(1, 5): u(i / 4, ascii=True)"], capture_output=True, check=True).stdout.decode()
assert o.count("Done") == 1 and "[##########] 100.00%" in o, o
''')
bug("C06-equal", "C06", "zoidberg.py", [("weights = np.outer(ws, ws).reshape(-1)", "weights = np.full(nsamples, np.mean(ws) ** 2)")],
 "three or more samples in each direction", "the samples of a cell are weighted equally", '''
import numpy as np
import zoidberg as zb
g = zb.grid.rectangular_grid(6, 3, 5, Lx=1.0, Ly=1.0, Lz=1.0, yperiodic=True)
f = zb.field.Slab(By=1.0, Bz=0.0, Bzprime=0.0)
for n in (1, 2, 3, 4):
    m = zb.make_maps(g, f, quiet=True, samples_per_dim=n)
    x = m["forward_xt_primes"]
    c = m["forward_xt_prime"][..., None]
    w = m["subcell_weights"]
    assert abs(np.sum(w) - 1) < 1e-12
    q = np.sum((x - c) ** 2 * w, axis=-1)
    assert n == 1 or np.allclose(q, 1 / 12), (n, q.ravel()[:3])
''')
bug("C22-periodic", "C22", "diff.py", [("        return (-fi(2) + 8 * fi(1) - 8 * fi(-1) + fi(-2)) / 12\n\n    def fi(i):\n        slc0", "        return (-fi(2) + 8 * (fi(1) - fi(-1)) + fi(-2)) * 0.0833333\n\n    def fi(i):\n        slc0")],
 "fine grids, where the truncation error is below 1e-6", "the periodic derivative has a relative error of 4e-7", '''
import numpy as np
from zoidberg.diff import c4
n = 2000
t = np.linspace(0, 2 * np.pi, n, endpoint=False)
h = t[1]
assert np.max(np.abs(c4(np.sin(t), 0, periodic=True) / h - np.cos(t))) < 1e-9
''')
bug("C04-float", "C04", "fieldtracer.py", [('            dat = np.loadtxt(fn)\n', '            dat = np.loadtxt(fn, dtype=np.float32).astype(float)\n')],
 "the second call", "answers from the cache have seven digits", '''
import os, tempfile
import numpy as np
import zoidberg as zb
f = zb.field.Slab(By=1.0, Bz=0.1, Bzprime=0.3)
with tempfile.TemporaryDirectory() as d:
    c = zb.fieldtracer.CachingFieldTracer(zb.fieldtracer.FieldTracer(f), cachename=os.path.join(d, "c_%s"))
    x = np.linspace(0.1, 0.9, 7)
    a = c.follow_field_lines(x, x, np.array([0.0, 1.0, 2.0]))
    b = c.follow_field_lines(x, x, np.array([0.0, 1.0, 2.0]))
    assert np.max(np.abs(a - b)) < 1e-14
''')
