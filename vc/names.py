"""Local variable names of the functions under contract as they were when the contracts were written
(contracts/locals.json, tools/mklocals.py). A contract names local variables; if a function's locals were renamed since,
the current names are mapped back, in order of appearance, before the contract is applied (an injective renaming of locals
to unused names preserves the meaning of the function, whatever the mapping). Obligations of a function whose locals or
loops changed in this way are reported as undecided, not as violated, when they are not discharged: the contract may no
longer be about the same loop."""
import json, os
_F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'locals.json')
_R = None
def ref():
    global _R
    if _R is None:
        try: _R = json.load(open(_F))
        except Exception: _R = {}
    return _R
def mapping(kind, q, now, loops, used=(), shape=None):
    """({current name: reference name}, drift)"""
    rs = ref().get(kind, {}).get(q)
    if not rs: return {}, False
    now = list(dict.fromkeys(now))
    r = max(rs, key=lambda r: len(set(r['locals']) & set(now)))
    missing = [n for n in r['locals'] if n not in now]; new = [n for n in now if n not in r['locals']]
    drift = loops != r['loops'] or bool(new) or (shape is not None and 'shape' in r and shape != r['shape'])
    if missing and len(missing) == len(new) and not set(missing) & set(used): return dict(zip(new, missing)), True
    return {}, drift or bool(missing)
