"""C29: semantics of single headers.  Well-formed lines, judged by spec/HeaderSem.tla; and whole
messages for the notices that need the context of a message, judged by spec/Rules.tla."""
import headers
import rules

MESSAGE_IDS = {1035, 1042, 1109, 1197, 1235, 1277, 1280, 1293}
FOCUS = [dict(freq=['content-type', 'date', 'x-foo', 'x-bar', 'content-md5', 'vary', 'if-modified-since'],
              fresp=['content-type', 'vary', 'date', 'last-modified', 'x-foo', 'content-location', 'expires', 'content-md5'], noreq=.1),
         dict(fresp=['content-type', 'vary', 'content-type', 'vary', 'vary'], statuses=[200, 206, 304], nresp=1)]


def run(chk):
    cs = headers.cases(chk, None, chk.scale(16000, 400000), mutated=.25)
    light = [e for e in {c['k'] for c in cs} if any(e[2:].replace('_', '-') in s for s in (
        {'content-disposition', 'link', 'forwarded', 'alt-svc', 'strict-transport-security', 'warning', 'via'},))]
    cs += headers.cases(chk, set(light), chk.scale(8000, 200000), mutated=.15)
    chk.sample(repr(bytes(cs[7]['es'][0])))
    headers.run(chk, headers.SEMANTIC_IDS, cs)
    rules.run(chk, MESSAGE_IDS, [], FOCUS, quick=(0, 6000), thorough=(0, 100000))
