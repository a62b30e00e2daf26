"""C27: see rules.py and properties.jsonl."""
import rules
from exgen import U, header

EXPLICIT = [
    ('reference with an empty path segment',
     rules.simple([], [header('content-location', U('-', '-', '..//a'), raw='..//a')], 'DELETE', 204)),
    ('reference to the same path', rules.simple([], [header('content-location', U('-', '-', '../a'), raw='../a')], 'DELETE', 204)),
]


def run(chk):
    rules.run(chk, explicit=EXPLICIT)
