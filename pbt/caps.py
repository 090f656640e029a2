"""Case helpers: ICU through ctypes (the case mapping itself is not under test), case patterns, stream pieces."""
import ctypes, ctypes.util, functools, glob, re, unicodedata


@functools.lru_cache(None)
def _icu():
    for p in sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libicuuc.so.*") + glob.glob("/usr/lib/*/libicuuc.so.*"), reverse=True):
        v = p.rsplit("so.", 1)[1].split(".")[0]
        lib = ctypes.CDLL(p)
        return lib, v
    raise RuntimeError("no ICU")


def _call(fn, s, title=False):
    lib, v = _icu()
    f = getattr(lib, "%s_%s" % (fn, v))
    src = s.encode("utf-16-le")
    n = len(src) // 2
    buf = ctypes.create_string_buffer((n * 3 + 16) * 2)
    err = ctypes.c_int(0)
    a = [buf, ctypes.c_int32(n * 3 + 16), src, ctypes.c_int32(n)] + ([None] if title else []) + [b"", ctypes.byref(err)]
    k = f(*a)
    if err.value > 0:
        raise RuntimeError("ICU error %d" % err.value)
    return buf.raw[:k * 2].decode("utf-16-le")


def lower(s):
    return _call("u_strToLower", s)


def upper(s):
    return _call("u_strToUpper", s)


def title(s):
    return _call("u_strToTitle", s, True)


def is_up(c):
    return unicodedata.category(c) == "Lu"


def pattern(s):
    """case pattern of a string"""
    if not s or not is_up(s[0]):
        return "aa"
    return "AA" if len(s) > 1 and is_up(s[-1]) else "Aa"


def toks(s):
    """characters (escapes kept together) and tags of a lexical form"""
    o, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            o.append(s[i:i + 2])
            i += 2
        elif s[i] == "<" and ">" in s[i:]:
            j = s.index(">", i) + 1
            o.append(s[i:j])
            i = j
        else:
            o.append(s[i])
            i += 1
    return o
