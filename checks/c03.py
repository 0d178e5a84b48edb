"""failed allocations and opens are noticed before the result is used"""
import prog
from nullrules import analyse


def run(R):
    R.explain = ("Path-sensitive nullness over every function of lemon and of both byacc variants: each call that may return null "
                 "because an allocation or open failed (directly or through a callee, by computed return summaries) splits the path; "
                 "a dereference, a null-intolerant library argument, an argument of a callee that uses it untested, or leaving the "
                 "function with the untested null stored in shared state is a violation.")
    R.rule("tested", "a result that is null when an allocation, an open or a lookup fails is tested before it is used or handed on")
    R.assumes += ["an allocation of zero bytes is never dereferenced", "memory_error() and on_error() do not return (checked on their bodies)"]
    analyse(R, prog.lemon(), "tested", lambda n: False, 2500, 40)
    analyse(R, prog.byacc(True), "tested", lambda n: False, 4000, 70)
    analyse(R, prog.byacc(False), "tested", lambda n: False, 3000, 50)
