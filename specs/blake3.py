"""BLAKE3 over words, following the BLAKE3 paper: chunks, the binary tree of section 2.1
(left subtree = largest power of two of chunks that leaves at least one), and the XOF."""
import json, os, random
from vc.word import *
from . import sha2
IV = sha2.INIT['sha256']
PERM = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8]
CHUNK_START, CHUNK_END, PARENT, ROOT, KEYED, CTX, MATERIAL = 1, 2, 4, 8, 16, 32, 64

def compress(cv, m, counter, blen, flags):
    """cv: 8 words, m: 16 words, counter: 64 bit, blen, flags: 32 bit -> 16 words"""
    N = mode(cv[0])
    v = list(cv) + [N(x, 32) for x in IV[:4]] + [trunc(counter, 32), ext(counter, 63, 32), blen, flags]
    m = list(m)
    def G(a, b, c, d, x, y):
        v[a] = v[a] + v[b] + x; v[d] = rotr(v[d] ^ v[a], 16)
        v[c] = v[c] + v[d]; v[b] = rotr(v[b] ^ v[c], 12)
        v[a] = v[a] + v[b] + y; v[d] = rotr(v[d] ^ v[a], 8)
        v[c] = v[c] + v[d]; v[b] = rotr(v[b] ^ v[c], 7)
    for r in range(7):
        G(0, 4, 8, 12, m[0], m[1]); G(1, 5, 9, 13, m[2], m[3]); G(2, 6, 10, 14, m[4], m[5]); G(3, 7, 11, 15, m[6], m[7])
        G(0, 5, 10, 15, m[8], m[9]); G(1, 6, 11, 12, m[10], m[11]); G(2, 7, 8, 13, m[12], m[13]); G(3, 4, 9, 14, m[14], m[15])
        m = [m[p] for p in PERM]
    return [a ^ b for a, b in zip(v[:8], v[8:])] + [b ^ c for b, c in zip(v[8:], cv)]

def block_words(bs):
    N = mode(bs[0]) if bs else INT
    bs = list(bs) + [N(0, 8)] * (64 - len(bs))
    return [le(bs[4 * i:4 * i + 4]) for i in range(16)]

# ---- concrete oracle: the recursive tree
def _chunk_node(key, flags, data, ctr):
    cv = key
    blocks = [data[i:i + 64] for i in range(0, len(data), 64)] or [b'']
    for i, b in enumerate(blocks):
        f = flags | (CHUNK_START if i == 0 else 0) | (CHUNK_END if i == len(blocks) - 1 else 0)
        node = (cv, block_words(wbytes(b) or [INT(0, 8)]), INT(ctr, 64), INT(len(b), 32), f)
        if i < len(blocks) - 1: cv = compress(*node[:4], INT(f, 32))[:8]
    return node
def _cv(node): return compress(*node[:4], INT(node[4], 32))[:8]
def _tree(key, flags, data, ctr):
    n = max(1, (len(data) + 1023) // 1024)
    if n == 1: return _chunk_node(key, flags, data, ctr)
    left = 1
    while left * 2 < n: left *= 2
    l = _cv(_tree(key, flags, data[:left * 1024], ctr)); r = _cv(_tree(key, flags, data[left * 1024:], ctr + left))
    return (key, l + r, INT(0, 64), INT(64, 32), flags | PARENT)
def _out(node, n):
    o = []
    i = 0
    while len(o) < n:
        o += [b for w in compress(node[0], node[1], INT(i, 64), node[3], INT(node[4] | ROOT, 32)) for b in le_bytes(w)]
        i += 1
    return to_bytes(o[:n])
def hash(data, n=32): return _out(_tree([INT(x, 32) for x in IV], 0, data, 0), n)
def keyed(key, data, n=32):
    key = (key + bytes(32))[:32]
    return _out(_tree([le(wbytes(key[4 * i:4 * i + 4])) for i in range(8)], KEYED, data, 0), n)
def derive(context, material, n=32):
    k = _out(_tree([INT(x, 32) for x in IV], CTX, context, 0), 32)
    return _out(_tree([le(wbytes(k[4 * i:4 * i + 4])) for i in range(8)], MATERIAL, material, 0), n)

def selftest():
    v = json.load(open(os.path.join(os.path.dirname(__file__), 'blake3_vectors.json')))
    n = 0
    for e in v['rows']:
        if e["len"] > 5200: continue
        d = bytes(i % 251 for i in range(e['len']))
        assert hash(d).hex() == e['hash']; assert keyed(v['key'].encode(), d).hex() == e['keyed']; assert derive(v['context'].encode(), d).hex() == e['derived']
        n += 3
    for e in v['xof']:
        d = bytes(i % 251 for i in range(e['len'])); n += 1
        assert hash(d, 131).hex() == e['hex']
    return n
