"""Cython to Python, line by line, for the constructs used by cfog: the text that is verified is the .pyx file itself.

What is changed, and nothing else:
* C types of parameters and `cdef` declarations are dropped; a declaration without a value becomes `pass`;
* every assignment to an `unsigned int` is followed on its line by `assert x >= 0`, so wrapping below zero is an obligation
  (wrapping above 2**32 - 1 is excluded by assumption: lengths and distances are far smaller);
* `malloc(n * sizeof(unsigned int))` becomes a block of n cells of unknown content (every access is then checked against n: with
  boundscheck off an access out of range is undefined behaviour, here it is a failed obligation), `free(x)` becomes `del x`;
* `cimport` lines and decorators on the C level are dropped.
Any other C construct is refused.
"""
import re

PARAM = re.compile(r'^\s*(?:(unsigned int|unsigned long|int|long|str|bint|double|float|list|dict|object)\s+)?(\w+)(.*)$', re.S)


class NotTranslated(Exception): pass


def transform(src):
    from .engine import Unsupported
    out = []
    unsigned = set()
    for line in src.split('\n'):
        body = line.strip()
        indent = line[:len(line) - len(line.lstrip())]
        code = body
        if code.startswith('from ') and ' cimport ' in code or code.startswith('cimport ') or code.startswith('@cython.'):
            out.append(indent + ('' if code.startswith('@') else 'pass'))
            continue
        m = re.match(r'^(def|cpdef)\s+(\w+)\((.*)\):$', code)
        if m:
            unsigned = set()
            params = []
            for p in m.group(3).split(','):
                if not p.strip(): continue
                q = PARAM.match(p)
                if not q: raise Unsupported('parameter %s' % p)
                if q.group(1) in ('unsigned int', 'unsigned long'): unsigned.add(q.group(2))
                params.append(q.group(2) + q.group(3))
            out.append('%sdef %s(%s):' % (indent, m.group(2), ', '.join(params)))
            continue
        m = re.match(r'^cdef\s+unsigned int\s*\*\s*(\w+)\s*=\s*<unsigned int \*>\s*malloc\((.+)\s*\*\s*sizeof\(unsigned int\)\)$', code)
        if m:
            out.append('%s%s = __malloc(%s)' % (indent, m.group(1), m.group(2).strip()))
            continue
        m = re.match(r'^cdef\s+(unsigned int|bint|int|Py_ssize_t|Py_UCS4|str)\s+(\w+)(?:\s*=\s*(.+))?$', code)
        if m:
            if m.group(1) == 'unsigned int': unsigned.add(m.group(2))
            if m.group(3) is None: out.append(indent + 'pass')
            else: out.append('%s%s = %s%s' % (indent, m.group(2), m.group(3), '; assert %s >= 0' % m.group(2) if m.group(1) == 'unsigned int' else ''))
            continue
        m = re.match(r'^free\((\w+)\)$', code)
        if m:
            out.append('%sdel %s' % (indent, m.group(1)))
            continue
        m = re.match(r'^(\w+)\s*(?:[-+*]|//|%)?=\s*[^=].*$', code)
        if m and m.group(1) in unsigned:
            out.append('%s%s; assert %s >= 0' % (indent, code.split('  #')[0], m.group(1)))
            continue
        if re.match(r'^(cdef|ctypedef|cpdef|with nogil|DEF |IF )', code) or re.search(r'<\w[\w ]*\*?>|sizeof|&\w|malloc\(', code.split('#')[0]) and not body.startswith(('#', '"')):
            raise Unsupported('Cython construct: %s' % body)
        out.append(line)
    return '\n'.join(out)
