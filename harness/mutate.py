"""Random octet-level damage to a connection."""
BITS = [b'\r', b'\n', b'\r\n', b' ', b':', b'\x00', b'0', b';', b'\t', b',', b'"', b'\xff', b'HTTP/1.1', b'a', b'chunked',
        b'\r\n\r\n', b'Content-Length: 2\r\n', b'-', b'+', b'GET / HTTP/1.1\r\n\r\n', b'HTTP/1.1 200 OK\r\n\r\n', b'\x0b', b'\x85']


def mutate_bytes(rng, b, n=None):
    b = bytearray(b)
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(len(b) + 1)
        op = rng.randrange(4)
        if op == 0:
            b[k:k] = rng.choice(BITS)
        elif op == 1:
            del b[k:k + rng.choice([1, 1, 2, 5])]
        elif op == 2:
            b[k:k + 1] = rng.choice(BITS)
        else:
            j = rng.randrange(len(b) + 1)
            b[k:k] = b[j:j + rng.randrange(12)]
    return bytes(b)


def mutate(rng, case):
    case = dict(case)
    side = rng.choice('io')
    if case[side] is None:
        side = 'o' if side == 'i' else 'i'
    case[side] = mutate_bytes(rng, case[side])
    return case
