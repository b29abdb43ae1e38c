"""The calls a collector makes on an arbitrary encoder, read off a trace."""
from engine.lib import *
from .c18 import norm, size, text

BEGIN = {'px_begin_help': ('px_end_help',), 'px_begin_type': ('px_end_type',), 'px_begin_sample': ('px_end_counter', 'px_end_gauge', 'px_end_float')}


class Call:
    __slots__ = ('kind', 'name', 'args', 'labels', 'res', 'sized', 'site')

    def __repr__(self):
        return '%s %s %s %s' % (self.kind, text(self.name), [(show(a), k, show(v)[:60]) for a, k, v in self.labels], [show(a)[:60] for a in self.args])


def calls(trace, enc):
    """[Call] of a sequence of events, or None when it is not made of whole calls"""
    out, cur = [], None
    for e in trace:
        if e.kind == 'loop':
            return None
        if e.kind != 'px':
            continue
        if not e.args or e.args[0] is not enc:
            return None
        if e.name in BEGIN:
            if cur is not None:
                return None
            cur, ln, lb = (BEGIN[e.name], [], []), None, None
        elif cur is None:
            return None
        elif e.name == 'px_sink':
            cur[1].append(e.args[1])
        elif e.name == 'px_name_len':
            ln = e.args[1]
        elif e.name == 'px_label_name':
            if lb is not None:
                return None
            lb = e.args[1]
        elif e.name in ('px_label_int', 'px_label_float', 'px_label_str'):
            if lb is None:
                return None
            cur[2].append((lb, e.name[9:], e.args[1]))
            lb = None
        elif e.name in cur[0]:
            if lb is not None:
                return None
            c = Call()
            c.kind, c.name, c.args, c.labels, c.res, c.site = e.name[7:], norm(cur[1]), tuple(e.args[1:]), tuple(cur[2]), e.res, e.site
            c.sized = ln is not None and ln is size(c.name)
            out.append(c)
            cur = None
        else:
            return None
    return None if cur is not None else out
