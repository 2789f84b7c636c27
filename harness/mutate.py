"""Damage a DER encoded message at one place, and protect it again.

A message is read into a tree of TLVs (also through OCTET STRINGs and BIT STRINGs that hold DER), so
that one node can be removed, repeated, emptied, retyped, exchanged or overwritten while all lengths stay
right.
"""
import hashlib
import hmac as _hmac
import random

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec


class Node:
    __slots__ = ("tag", "kids", "val", "pre")

    def __init__(self, tag, kids=None, val=b"", pre=b""):
        self.tag, self.kids, self.val, self.pre = tag, kids, val, pre

    def enc(self):
        body = self.pre + b"".join(k.enc() for k in self.kids) if self.kids is not None else self.val
        return self.tag + length(len(body)) + body

    def copy(self):
        return Node(self.tag, [k.copy() for k in self.kids] if self.kids is not None else None, self.val, self.pre)


def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 + len(b)]) + b


def _tlv(data, i):
    j = i + 1
    if data[i] & 0x1f == 0x1f:
        while data[j] & 0x80:
            j += 1
        j += 1
    tag = data[i:j]
    n = data[j]
    j += 1
    if n == 0x80:
        raise ValueError
    if n > 0x80:
        k = n & 0x7f
        if k > 4:
            raise ValueError
        n = int.from_bytes(data[j:j + k], "big")
        j += k
    if j + n > len(data):
        raise ValueError
    return tag, data[j:j + n], j + n


def parse(data, depth=0):
    """All of data as a list of nodes; ValueError when it is not DER."""
    out, i = [], 0
    while i < len(data):
        tag, val, i = _tlv(data, i)
        n = Node(tag, None, val)
        if tag[0] & 0x20:
            n.kids = parse(val, depth + 1)
        elif tag in (b"\x04", b"\x03") and len(val) > 4:
            pre, inner = (val[:1], val[1:]) if tag == b"\x03" else (b"", val)
            if inner[:1] in (b"\x30", b"\x02", b"\x04", b"\x03"):
                try:
                    n.kids, n.pre = parse(inner, depth + 1), pre
                except (ValueError, IndexError):
                    n.kids = None
        out.append(n)
    return out


def tree(data):
    (root,) = parse(data)
    return root


def paths(node, pre=()):
    """All places below a node."""
    out = [pre]
    if node.kids is not None:
        for i, k in enumerate(node.kids):
            out += paths(k, pre + (i,))
    return out


def at(node, path):
    for i in path:
        node = node.kids[i]
    return node


def region(root, path):
    """header / body / protection / extraCerts, and the header field."""
    if not path:
        return "message"
    k = root.kids[path[0]]
    if path[0] == 0:
        return "header"
    if path[0] == 1:
        return "body"
    return {0xa0: "protection", 0xa1: "extraCerts"}.get(k.tag[0], "other")


def header_field(root, path):
    """Which header field a path lies in."""
    if len(path) < 2 or path[0] != 0:
        return ""
    k = root.kids[0].kids[path[1]]
    return {0x02: "pvno", 0xa4: ("sender", "recipient", "transactionID")[0 if path[1] == 1 else 1 if path[1] == 2 else 2],
            0xa0: "messageTime", 0xa1: "protectionAlg", 0xa2: "senderKID", 0xa3: "recipKID", 0xa5: "senderNonce",
            0xa6: "recipNonce", 0xa7: "freeText", 0xa8: "generalInfo"}.get(k.tag[0], "other")


# ---------------------------------------------------------------- operations
def _flip(rng, n, parent, i):
    v = bytearray(n.enc())
    body_at = len(n.tag) + (1 if v[len(n.tag)] < 0x80 else 1 + (v[len(n.tag)] & 0x7f))
    if body_at >= len(v):
        return False
    j = rng.randrange(body_at, len(v))
    v[j] ^= 1 << rng.randrange(8)
    parent.kids[i] = Node(n.tag, None, bytes(v[body_at:]))


def _remove(rng, n, parent, i):
    del parent.kids[i]


def _repeat(rng, n, parent, i):
    parent.kids.insert(i, n.copy())


def _empty(rng, n, parent, i):
    if n.kids is None and not n.val:
        return False
    parent.kids[i] = Node(n.tag, [] if n.tag[0] & 0x20 else None, b"")


def _swap(rng, n, parent, i):
    if i + 1 >= len(parent.kids) or n.enc() == parent.kids[i + 1].enc():
        return False
    parent.kids[i], parent.kids[i + 1] = parent.kids[i + 1], n


def _null(rng, n, parent, i):
    parent.kids[i] = Node(b"\x05", None, b"")


def _retag(rng, n, parent, i):
    t = n.tag[0]
    parent.kids[i] = Node(bytes([t ^ rng.choice([0x01, 0x02, 0x20, 0x80])]) + n.tag[1:], None, n.enc()[len(n.tag):][_hdr(n):])


def _hdr(n):
    e = n.enc()
    b = e[len(n.tag)]
    return 1 if b < 0x80 else 1 + (b & 0x7f)


def _truncate(rng, n, parent, i):
    v = n.enc()[len(n.tag) + _hdr(n):]
    if len(v) < 2:
        return False
    parent.kids[i] = Node(n.tag, None, v[:rng.randrange(1, len(v))])


def _grow(rng, n, parent, i):
    v = n.enc()[len(n.tag) + _hdr(n):]
    parent.kids[i] = Node(n.tag, None, v + rng.choice([b"\x00", b"\x05\x00", b"\x30\x00", bytes(64)]))


def _extreme(rng, n, parent, i):
    if n.kids is not None:
        return False
    new = {0x02: [b"\x00", b"\xff", b"\x7f" + b"\xff" * 8, b"\x80" + b"\x00" * 20],
           0x06: [b"\x2a", b"\x88\x37\x81\x01", b"\x2b\x06\x01\x05\x05\x07\x7f\x01"],
           0x05: [b"\x00"],
           0x0c: [b"\xff\xfe", "ü\u0000".encode()],
           0x13: [b"@*_\x00", b"\xff"],
           0x18: [b"00000000000000Z", b"99991231235959Z", b"20261119", b"garbage"],
           0x17: [b"000000000000Z", b"garbage"],
           0x01: [b"\x00", b"\xff", b"\x01"]}.get(n.tag[0])
    if new is None:
        new = [bytes(len(n.val)), b"\xff" * max(1, len(n.val))]
    new = [v for v in new if v != n.val]
    parent.kids[i] = Node(n.tag, None, rng.choice(new))


def _stranger(rng, n, parent, i):
    """Another node of the same message in its place."""
    parent.kids[i] = rng.choice(_stranger.pool).copy()
    if parent.kids[i].enc() == n.enc():
        return False


def _splice(rng, n, parent, i):
    """The node at the same place of another message."""
    if _splice.node is None or _splice.node.enc() == n.enc():
        return False
    parent.kids[i] = _splice.node


OPS = {"splice": _splice, "earlier": _splice, "flip": _flip, "remove": _remove, "repeat": _repeat, "empty": _empty, "swap": _swap, "null": _null, "retag": _retag,
       "truncate": _truncate, "grow": _grow, "extreme": _extreme, "stranger": _stranger}


def mutate(data, path, op, seed, other=None):
    """The message with one change, or None when the operation does not apply there."""
    rng = random.Random(f"{seed}/{path}/{op}")
    root = tree(data)
    if not path:
        return None
    _stranger.pool = [at(root, p) for p in paths(root) if p]
    _splice.node = None
    if other is not None:
        r2 = tree(other)
        if path in set(paths(r2)):
            _splice.node = at(r2, path)
    parent = at(root, path[:-1])
    if OPS[op](rng, parent.kids[path[-1]], parent, path[-1]) is False:
        return None
    out = root.enc()
    return None if out == data else out


# ---------------------------------------------------------------- protection
def reprotect(data, key=None, password=None):
    """Protect the header and the body that are there (ECDSA with SHA-256, or PBM with the parameters of the original)."""
    try:
        _, val, _ = _tlv(data, 0)
        kids, i = [], 0
        while i < len(val):
            t, v, i = _tlv(val, i)
            kids.append(Node(t, None, v))
    except (ValueError, IndexError):
        return None
    root = Node(b"\x30", kids)
    if len(root.kids) < 3:
        return None
    part = Node(b"\x30", root.kids[:2]).enc()
    prot = [k for k in root.kids[2:] if k.tag == b"\xa0"]
    if not prot:
        return None
    if key is not None:
        sig = key.sign(part, ec.ECDSA(hashes.SHA256()))
    else:
        sig = pbm(part, **password)
    prot[0].kids = [Node(b"\x03", None, b"\x00" + sig)]
    return root.enc()


def pbm(part, password, salt, iterations, owf, mac):
    k = password + salt
    for _ in range(iterations):
        k = hashlib.new(owf, k).digest()
    return _hmac.new(k, part, mac).digest()
