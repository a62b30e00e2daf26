"""C31: reports list exactly the notices there are."""
import reports

CLAUSES = {'text lines', 'text marker', 'text notice', 'html exchanges', 'html messages', 'html notices', 'html title', 'html structure', 'titles differ'}


def run(chk):
    reports.run(chk, CLAUSES, .35, chk.scale(1500, 40000))
