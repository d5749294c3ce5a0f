CHECKS = {}


def check(pid, floor, explain, **kw):
    def d(f):
        CHECKS[pid] = dict(fn=f, floor=floor, explain=explain, **kw)
        return f
    return d


from . import mailbox, admin, hooks, igp, isms, warp, formats, va, wire, lists, events, flow, deploy, plan, schema  # noqa
