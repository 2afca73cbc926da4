'''Names of the functions that existed when the rules were written.

A function that is not on this list is a helper introduced later: the interpreter always follows
calls into it, so that code moved into a new helper is analysed where it is called.
'''

import json
import os

_known = None


def known_functions():
    global _known
    if _known is None:
        with open(os.path.join(os.path.dirname(__file__), 'baseline.json')) as fh:
            _known = frozenset(json.load(fh))
    return _known
