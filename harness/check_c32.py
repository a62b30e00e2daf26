"""C32: reports show hostile data inertly."""
import reports

CLAUSES = {'encoding', 'html structure', 'html markup', 'text characters', 'html characters', 'html start line', 'html remark', 'html headers', 'html trailers', 'html body',
           'text marker', 'html exchanges', 'html messages', 'text lines'}


def run(chk):
    reports.run(chk, CLAUSES, .9, chk.scale(1500, 40000))
