"""Independent reader/writer of the token stream  `name { key: "value" ... } name { ... }`."""


class WireError(Exception):
    pass


def parse(stream):
    """-> list of (type, [(key, value), ...]); strict single-space layout as taggers emit it."""
    out, i, n = [], 0, len(stream)

    def name(i):
        j = i
        while j < n and (stream[j].isascii() and (stream[j].isalpha() or stream[j] == "_")):
            j += 1
        if j == i:
            raise WireError("name expected at %d in %r" % (i, stream))
        return stream[i:j], j

    def skip(i):
        while i < n and stream[i] == " ":
            i += 1
        return i

    i = skip(i)
    while i < n:
        typ, i = name(i)
        i = skip(i)
        if i >= n or stream[i] != "{":
            raise WireError("{ expected at %d in %r" % (i, stream))
        i = skip(i + 1)
        fields = []
        while i < n and stream[i] != "}":
            key, i = name(i)
            i = skip(i)
            if i >= n or stream[i] != ":":
                raise WireError(": expected at %d in %r" % (i, stream))
            i = skip(i + 1)
            if i >= n or stream[i] != '"':
                raise WireError('" expected at %d in %r' % (i, stream))
            i += 1
            buf = []
            while i < n and stream[i] != '"':
                if stream[i] == "\\":
                    i += 1
                    if i >= n or stream[i] not in '"\\':
                        raise WireError("bad escape at %d in %r" % (i, stream))
                buf.append(stream[i])
                i += 1
            if i >= n:
                raise WireError("unterminated value in %r" % stream)
            fields.append((key, "".join(buf)))
            i = skip(i + 1)
        if i >= n:
            raise WireError("unterminated token in %r" % stream)
        if not fields:
            raise WireError("token without fields in %r" % stream)
        out.append((typ, fields))
        i = skip(i + 1)
    return out


def escape(value):
    return value.replace("\\", "\\\\").replace('"', '\\"')


def write(tokens):
    return " ".join("%s { %s }" % (t, " ".join('%s: "%s"' % (k, escape(v)) for k, v in fs)) for t, fs in tokens)
