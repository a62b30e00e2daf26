"""C24: see rules.py and properties.jsonl.  Range syntax is judged by spec/HeaderSem.tla."""
import headers
import rules

ELEMENTS = {'h_range', 'h_content_range', 'h_if_range'}


def run(chk):
    headers.run(chk, headers.RANGE_IDS, headers.cases(chk, ELEMENTS, chk.scale(3000, 100000), mutated=.15))
    rules.run(chk)
