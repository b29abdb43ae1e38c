"""Programs that misuse labels, identifiers, access, timers or names must be rejected by the compiler,
each with the error that belongs to the misuse; their correct twins must be accepted."""
TECHNIQUE = 'compile-fail witnesses with error codes and compiling twins'
NOTE = 'every misuse listed is compiled against the current crates and must be rejected for its own reason; the misuses are those expressible with the public interface of the current tree, not every conceivable program'
from . import witness


def run(cx):
    n = witness.run(cx, 'misuse')
    n += witness.run(cx, 'names', r'.*const.*|.*coerce|valid-names')
    cx.need('witnesses', 'programs compiled', n, 90)
