"""Enumerating connections with TLC from FramingEnv."""


def _set(xs):
    return '{' + ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + '}'


def gen(chk, methods, reqf, statuses, respf, tails=('',), maxreq=1, maxresp=1, must=True):
    cfg = ('INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS\n Methods = %s\n ReqFramings = %s\n Statuses = %s\n'
           ' RespFramings = %s\n Tails = %s\n MaxReq = %d\n MaxResp = %d\n MustOn = %s\n' % (
               _set(methods), _set(reqf), _set(statuses), _set(respf), _set(tails), maxreq, maxresp,
               'TRUE' if must else 'FALSE'))
    r = chk.explore('FramingEnv', cfg)
    return sorted(r.prints, key=repr)
