"""Parts of the harness API shared by symbolic and concrete execution."""
import os
import string

REPO = os.environ.get("H800_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PRINTABLE = "".join(chr(c) for c in range(32, 127))
TEXT = PRINTABLE + "\t"
UPPER = string.ascii_uppercase
DIGITS = string.digits


class Result:
    """Outcome of S.attempt."""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


class ToolRun:
    def __init__(self, out, err, exc):
        self.out = out          # stdout lines
        self.err = err          # stderr lines
        self.exc = exc          # SystemExit / exception or None
