"""Reference model of the packet channel, used by C05-C08 and C30: chunk c of the data travels in packet
order[c mod n]."""


def chunks(words, ws):
    """The data as a list of ws-bit chunks, lowest bits of the first word first (ws divides 32)."""
    return [(w >> k) & ((1 << ws) - 1) for w in words for k in range(0, 32, ws)]


def lost_chunks(total_chunks, order, lost):
    lost = set(lost)
    n = len(order)
    return [c for c in range(total_chunks) if int(order[c % n]) in lost]


def lost_bits(words, ws, order, lost):
    """{word index: set of bit indices} that the lost packets carried."""
    res = {}
    for c in lost_chunks(words * 32 // ws, order, lost):
        b = c * ws
        res.setdefault(b // 32, set()).update(range(b % 32, b % 32 + ws))
    return res


def shifted_lost_bits(words, ws, order, lost):
    """The recorded deviation (known finding boundary-shift): a chunk that ends with bit 31 of a word is reported
    without that bit, and with the first bit of the following word instead."""
    res, hit = {}, False
    for c in lost_chunks(words * 32 // ws, order, lost):
        b = c * ws
        bits = set(range(b % 32, b % 32 + ws))
        if 31 in bits:
            hit = True
            bits.discard(31)
            res.setdefault(b // 32 + 1, set()).add(0)
        if bits:
            res.setdefault(b // 32, set()).update(bits)
    return res, hit
