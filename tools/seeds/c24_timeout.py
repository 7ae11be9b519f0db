PROP = "C24"
NEEDS = "a comparison with a function whose comparison timed out"
BREAKS = "it is missing from the number of failed comparisons"
EDITS = [("diffkemp/semdiff/result.py", '''                    if r.kind in [Result.Kind.ERROR, Result.Kind.TIMEOUT]])''', '''                    if r.kind == Result.Kind.ERROR])''')]
DEMO = r'''
import contextlib, io
from diffkemp.semdiff.result import Result
r = Result(Result.Kind.NONE, "a", "b")
r.add_inner(Result(Result.Kind.TIMEOUT, "f", "f"))
out = io.StringIO()
with contextlib.redirect_stdout(out):
    r.report_symbol_stat()
assert "Errors:        1 " in out.getvalue(), out.getvalue()
'''
