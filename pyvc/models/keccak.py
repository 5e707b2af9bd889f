"""Keccak-256 (the pre-standard padding), for concrete data."""
RC = []
_r = 1
for _ in range(24):
    c = 0
    for j in range(7):
        if _r & 1:
            c ^= 1 << ((1 << j) - 1)
        _r = (_r << 1) ^ ((_r >> 7) * 0x171)
    RC.append(c)
M = (1 << 64) - 1


def rol(x, n):
    n %= 64
    return ((x << n) | (x >> (64 - n))) & M if n else x


def f1600(a):
    for rc in RC:
        c = [a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
             for x in range(5)]
        d = [c[(x - 1) % 5] ^ rol(c[(x + 1) % 5], 1) for x in range(5)]
        a = [[a[x][y] ^ d[x] for y in range(5)] for x in range(5)]
        x, y = 1, 0
        cur = a[x][y]
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            cur, a[x][y] = a[x][y], rol(cur, (t + 1) * (t + 2) // 2)
        for y in range(5):
            t = [a[x][y] for x in range(5)]
            for x in range(5):
                a[x][y] = t[x] ^ (~t[(x + 1) % 5] & t[(x + 2) % 5] & M)
        a[0][0] ^= rc
    return a


def keccak256(data, pad=0x01):
    rate = 136
    p = bytearray(data)
    p.append(pad)
    while len(p) % rate:
        p.append(0)
    p[-1] |= 0x80
    a = [[0] * 5 for _ in range(5)]
    for off in range(0, len(p), rate):
        for i in range(rate // 8):
            a[i % 5][i // 5] ^= int.from_bytes(
                p[off + 8 * i:off + 8 * i + 8], 'little')
        a = f1600(a)
    out = b''.join(a[i % 5][i // 5].to_bytes(8, 'little') for i in range(4))
    return out
