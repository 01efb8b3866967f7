"""Tiny JSON codec for cases: JSON values plus bytes, tuples and every float."""
import json
import math
import struct


def enc(x):
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return {"$f": struct.pack("!d", x).hex()}
        return x
    if isinstance(x, (bytes, bytearray)):
        return {"$b": bytes(x).hex()}
    if isinstance(x, tuple):
        return {"$t": [enc(i) for i in x]}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    return x


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if len(x) == 1:
            if "$b" in x:
                return bytes.fromhex(x["$b"])
            if "$f" in x:
                return struct.unpack("!d", bytes.fromhex(x["$f"]))[0]
            if "$t" in x:
                return tuple(dec(i) for i in x["$t"])
        return {k: dec(v) for k, v in x.items()}
    return x


def dumps(x, **kw):
    return json.dumps(enc(x), sort_keys=True, **kw)


def loads(s):
    return dec(json.loads(s))
