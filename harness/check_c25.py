"""C25: see rules.py and properties.jsonl."""
import rules


def run(chk):
    rules.run(chk)
