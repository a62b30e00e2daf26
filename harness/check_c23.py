"""C23: see rules.py and properties.jsonl.  The arguments of directives are judged by spec/HeaderSem.tla."""
import headers
import rules

ELEMENTS = {'h_cache_control', 'h_pragma', 'h_prefer', 'h_preference_applied', 'h_strict_transport_security', 'h_alt_svc', 'h_forwarded', 'h_warning'}


def run(chk):
    headers.run(chk, headers.ARGUMENT_IDS, headers.cases(chk, ELEMENTS, chk.scale(6000, 200000), mutated=.15))
    rules.run(chk)
