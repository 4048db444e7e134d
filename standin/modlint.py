"""A checker of compiled modules, written from the VM's loader and instruction set
(amanda/vm/src), not from the compiler.

decode(blob) reads the document; lint(doc) returns a list of (kind, text):
  decode   the bytes are not a document with exactly the parts of a module
  operand  an operand is outside its table, or the instructions do not tile the code
  jump     a jump or function start is not the start of an instruction
  stack    an instruction takes more operands than there can be on the stack
  local    a slot lies outside the frame of its function
  map      the line table leaves a byte out, covers it twice, or cuts an instruction
"""
import struct


class Bad(Exception):
    pass


# opcode -> (name, operand widths, pops, pushes); None: depends on the operand
OPS = {}
for _i, _row in enumerate("""MOSTRA . 1 0|LOAD_CONST 2 0 1|LOAD_NAME 2 0 1|OP_ADD . 2 1|OP_MINUS . 2 1|OP_MUL . 2 1|OP_DIV . 2 1
OP_FLOORDIV . 2 1|OP_MODULO . 2 1|OP_INVERT . 1 1|OP_AND . 2 1|OP_OR . 2 1|OP_NOT . 1 1|OP_EQ . 2 1|OP_NOTEQ . 2 1|OP_GREATER . 2 1
OP_GREATEREQ . 2 1|OP_LESS . 2 1|OP_LESSEQ . 2 1|OP_INDEX_GET . 2 1|OP_INDEX_SET . 3 0|GET_GLOBAL 2 0 1|SET_GLOBAL 2 1 0
JUMP 8 0 0|JUMP_IF_FALSE 8 1 0|GET_LOCAL 2 0 1|SET_LOCAL 2 1 0|CALL_FUNCTION 1 n+1 1|RETURN . 1 0|CAST 1 2 1|BUILD_STR 1 n 1
BUILD_VEC 1 n 1|LOAD_REGISTO 2 0 1|BUILD_OBJ 1 2n+1 1|GET_PROP . 2 1|SET_PROP . 3 0|OP_UNWRAP 1 n+1 1|OP_ISNULL . 1 1
LOAD_MODULE_DEF 88 0 1|BUILD_VARIANT 1 n+1 1|BIND_MATCH_ARGS 1 n+1 0|MATCH_VARIANT 8 1 1""".replace("\n", "|").split("|")):
    _n, _w, _p, _q = _row.split()
    OPS[_i] = (_n, tuple(int(c) for c in _w if c != "."), _p, int(_q))
OPS[0xFF] = ("HALT", (), "0", 0)
CODE = {v[0]: k for k, v in OPS.items()}


# ------------------------------------------------------------------- documents
def decode(blob):
    doc, end = _doc(blob, 0)
    if end != len(blob):
        raise Bad(f"{len(blob) - end} bytes after the document")
    return doc


def _take(b, i, n):
    if n < 0 or i + n > len(b):
        raise Bad(f"the document ends inside a value at byte {i}")
    return b[i:i + n], i + n


def _doc(b, i):
    # the loader skips the length of a document; what it counts is not settled
    _, i = _take(b, i, 4)
    out = {}
    while True:
        t, i = _take(b, i, 1)
        if t == b"\0":
            return out, i
        j = b.index(b"\0", i) if b"\0" in b[i:] else None
        if j is None:
            raise Bad("a key without end")
        key, i = b[i:j].decode("utf8"), j + 1
        if key in out:
            raise Bad(f"the key {key!r} twice")
        out[key], i = _value(b, i, t[0])


def _value(b, i, t):
    if t == 0x01:
        v, i = _take(b, i, 8)
        return struct.unpack("<d", v)[0], i
    if t == 0x02:
        n, i = _take(b, i, 4)
        s, i = _take(b, i, struct.unpack("<i", n)[0])
        z, i = _take(b, i, 1)
        if z != b"\0":
            raise Bad("a text that does not end where it says")
        return s.decode("utf8"), i
    if t == 0x03:
        return _doc(b, i)
    if t == 0x04:
        d, i = _doc(b, i)
        if list(d) != [str(k) for k in range(len(d))]:
            raise Bad("the keys of an array are not 0, 1, ...")
        return list(d.values()), i
    if t == 0x05:
        n, i = _take(b, i, 4)
        _, i = _take(b, i, 1)
        return _take(b, i, struct.unpack("<i", n)[0])
    if t == 0x12:
        v, i = _take(b, i, 8)
        return struct.unpack("<q", v)[0], i
    raise Bad(f"type byte {t}")


def same(a, b):
    """Same value and same type, however nested (and the same bits of a real)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return struct.pack("<d", a) == struct.pack("<d", b)
    return a == b


# ------------------------------------------------------------------- code
def instructions(code):
    """[(offset, name, operands)], in order."""
    out, i = [], 0
    while i < len(code):
        if code[i] not in OPS:
            raise Bad(f"byte {i} of the code is {code[i]}, which is no instruction")
        name, widths, _, _ = OPS[code[i]]
        j, args = i + 1, []
        for w in widths:
            if j + w > len(code):
                raise Bad(f"the code ends inside the instruction at {i}")
            args.append(int.from_bytes(code[j:j + w], "big"))
            j += w
        out.append((i, name, args))
        i = j
    return out


SHAPE = {"name": str, "builtin": int, "entry_locals": int, "constants": list, "names": list, "ops": bytes,
         "functions": list, "registos": list, "src_map": list, "imports": list}


def const(text):
    """What the loader makes of a constant."""
    if isinstance(text, (int, float)):
        return text
    if text in ("verdadeiro", "falso"):
        return text == "verdadeiro"
    if text == "nulo":
        return None
    try:
        v = int(text) if text.isascii() and "_" not in text and text.strip() == text else None
        if v is not None and -2 ** 63 <= v < 2 ** 63:
            return v
    except ValueError:
        pass
    return text


def lint(doc, main=True, n_modules=None):
    out = []
    for k, t in SHAPE.items():
        if type(doc.get(k)) is not t:
            return [("decode", f"the module's part {k!r} is {type(doc.get(k)).__name__}")]
    if n_modules is None:
        n_modules = len(doc["imports"])
    where = doc["name"]
    for i in doc["imports"]:
        out += lint(i, False, n_modules)
    try:
        code = instructions(doc["ops"])
    except Bad as e:
        return out + [("operand", f"{where}: {e}")]
    if not code or code[-1][1] != "HALT" or any(n == "HALT" for _, n, _ in code[:-1]):
        out.append(("operand", f"{where}: the code does not end with its only HALT"))
        return out
    if doc["builtin"]:
        return out
    at = {o: k for k, (o, _, _) in enumerate(code)}
    size = len(doc["ops"])
    consts, names = doc["constants"], doc["names"]
    if len(set(map(str, names))) != len(names) or len(set(map(repr, consts))) != len(consts):
        out.append(("operand", f"{where}: a table holds an entry twice"))
    limit = {"LOAD_CONST": len(consts), "LOAD_NAME": len(names), "GET_GLOBAL": len(names), "SET_GLOBAL": len(names),
             "LOAD_REGISTO": len(doc["registos"])}
    for o, name, args in code:
        if name in limit and args[0] >= limit[name]:
            out.append(("operand", f"{where}: {name} {args[0]} at {o}: its table has {limit[name]} entries"))
        if name == "LOAD_MODULE_DEF" and (args[0] >= n_modules or args[1] >= len(names)):
            out.append(("operand", f"{where}: {name} {args} at {o}: {n_modules} modules, {len(names)} names"))
        if name in ("CAST", "OP_UNWRAP") and args[0] > 1:
            out.append(("operand", f"{where}: {name} {args[0]} at {o}"))
        if name in ("JUMP", "JUMP_IF_FALSE") and args[0] not in at:
            out.append(("jump", f"{where}: {name} {args[0]} at {o} does not go to the start of an instruction"))
    for f in doc["functions"]:
        if not (type(f.get("name")) is str and type(f.get("start_ip")) is int and type(f.get("locals")) is int
                and type(f.get("module")) is int):
            out.append(("decode", f"{where}: function {f}"))
        elif f["start_ip"] not in at:
            out.append(("jump", f"{where}: function {f['name']} starts at {f['start_ip']}, inside an instruction"))
        elif not -1 <= f["module"] < n_modules:
            out.append(("operand", f"{where}: function {f['name']} is of module {f['module']} of {n_modules}"))
    if any(k != "stack" for k, _ in out):
        return out
    owner = {}
    for f in [{"name": "(main)", "start_ip": 0, "locals": doc["entry_locals"]}] + doc["functions"]:
        out += flow(where, f, code, at, consts, owner)
    out += lines(where, doc["src_map"], code, size)
    return out


def flow(where, f, code, at, consts, owner):
    """Greatest stack height at every instruction reachable from the start of a function:
    the failing edge of the last test of an exhaustive iguala, which is never taken, leaves no value."""
    out = []
    start = at[f["start_ip"]]
    height, work = {start: 0}, [start]
    fn = f["name"]
    visits = {}

    def needs(name, args):
        n = args[0] if args else 0
        pops = OPS[CODE[name]][2]
        need = {"n": n, "n+1": n + 1, "2n+1": 2 * n + 1}.get(pops)
        return int(pops) if need is None else need

    while work:
        k = work.pop()
        o, name, args = code[k]
        if owner.setdefault(k, fn) != fn:
            return [("jump", f"{where}: the instruction at {o} belongs to {owner[k]} and to {fn}")]
        g = min(max(height[k] - needs(name, args), 0) + OPS[CODE[name]][3], 600)
        nxt = [] if name in ("RETURN", "HALT", "JUMP") else [k + 1]
        if name in ("JUMP", "JUMP_IF_FALSE"):
            nxt.append(at[args[0]])
        for m in nxt:
            if m >= len(code):
                return [("jump", f"{where}: {fn} runs past the end of the code")]
            if m not in height or height[m] < g:
                # a loop that leaves values behind: as many as one likes
                height[m] = g if visits.get(m, 0) < 3 else 600
                visits[m] = visits.get(m, 0) + 1
                work.append(m)
    for k, h in sorted(height.items()):
        o, name, args = code[k]
        n = args[0] if args else 0
        need = needs(name, args)
        if h < need:
            out.append(("stack", f"{where}: {name} at {o} in {fn} takes {need} values, there are at most {h}"))
        if name in ("GET_LOCAL", "SET_LOCAL") and n >= f["locals"]:
            out.append(("local", f"{where}: {name} {n} at {o} in {fn}, whose frame has {f['locals']} slots"))
        if name == "BIND_MATCH_ARGS":
            slots = [const(consts[code[p][2][0]]) for p in range(max(k - n, 0), k) if code[p][1] == "LOAD_CONST"]
            for s in slots if len(slots) == n else []:
                if type(s) is not int or not 0 <= s < f["locals"]:
                    out.append(("local", f"{where}: BIND_MATCH_ARGS slot {s!r} at {o} in {fn}, whose frame has {f['locals']} slots"))
            if len(slots) == n and len(set(slots)) != len(slots):
                out.append(("local", f"{where}: BIND_MATCH_ARGS at {o} in {fn} binds one slot twice"))
        if name == "HALT" and fn != "(main)":
            out.append(("jump", f"{where}: {fn} runs into the end of the module"))
        if name == "RETURN" and fn == "(main)":
            out.append(("jump", f"{where}: the main code returns"))
    return out[:5]


def lines(where, src_map, code, size):
    if len(src_map) % 3 or any(type(x) is not int for x in src_map):
        return [("map", f"{where}: the line table is not made of triples")]
    rows = [src_map[i:i + 3] for i in range(0, len(src_map), 3)]
    starts = {o for o, _, _ in code}
    ends = {o - 1 for o, _, _ in code[1:]} | {size - 1}
    pos = 0
    for a, b, line in rows:
        if a != pos:
            return [("map", f"{where}: the line table goes on at byte {a}, {pos} was next")]
        if a not in starts or b not in ends or b < a:
            return [("map", f"{where}: the line table cuts an instruction at {a}..{b}")]
        if line < 1:
            return [("map", f"{where}: bytes {a}..{b} have line {line}")]
        pos = b + 1
    # only the final HALT has no line
    if pos != size - 1:
        return [("map", f"{where}: the line table ends at byte {pos} of {size}")]
    return []


def line_of(src_map, off):
    for i in range(0, len(src_map), 3):
        if src_map[i] <= off <= src_map[i + 1]:
            return src_map[i + 2]
    return 0
