"""Development tool (not run by any check): writes tables.py, the frozen code tables, from a reviewed tree."""
import enum
import sys
sys.path.insert(0, sys.argv[1] if len(sys.argv) > 1 else '/repo')
from procmon_parser import consts as c    # noqa: E402

out = ['"""Frozen code tables of the PML/PMC formats (reviewed against the format documentation and the Windows headers)."""\n']
for k, v in vars(c).items():
    if isinstance(v, type) and issubclass(v, enum.Enum):
        out.append('ENUM_%s = {' % k)
        for m in v:
            out.append('    %r: %r,' % (int(m.value), m.name))
        out.append('}\n')
for k, v in vars(c).items():
    if k.startswith('__') or isinstance(v, type):
        continue
    if isinstance(v, dict):
        name = 'TABLE_' + k.lstrip('_')
        out.append('%s = {' % name)
        for a, b in v.items():
            a = int(a)
            b = b.__name__ if isinstance(b, type) else b
            out.append('    %r: %r,' % (a, b))
        out.append('}\n')
    elif isinstance(v, list):
        out.append('%s = %r\n' % ('LIST_' + k, v))
open('/verif/ref/tables.py', 'w').write('\n'.join(out))
