"""Reader for Java class files: constant pool, methods, code, exception tables, bootstrap methods."""
import os
import struct

OPS = {}


def _ops():
    simple = {
        0: "nop", 1: "aconst_null", 46: "iaload", 47: "laload", 48: "faload", 49: "daload", 50: "aaload",
        51: "baload", 52: "caload", 53: "saload", 79: "iastore", 80: "lastore", 81: "fastore", 82: "dastore",
        83: "aastore", 84: "bastore", 85: "castore", 86: "sastore", 87: "pop", 88: "pop2", 89: "dup",
        90: "dup_x1", 91: "dup_x2", 92: "dup2", 93: "dup2_x1", 94: "dup2_x2", 95: "swap",
        96: "iadd", 97: "ladd", 98: "fadd", 99: "dadd", 100: "isub", 101: "lsub", 102: "fsub", 103: "dsub",
        104: "imul", 105: "lmul", 106: "fmul", 107: "dmul", 108: "idiv", 109: "ldiv", 110: "fdiv", 111: "ddiv",
        112: "irem", 113: "lrem", 114: "frem", 115: "drem", 116: "ineg", 117: "lneg", 118: "fneg", 119: "dneg",
        120: "ishl", 121: "lshl", 122: "ishr", 123: "lshr", 124: "iushr", 125: "lushr", 126: "iand", 127: "land",
        128: "ior", 129: "lor", 130: "ixor", 131: "lxor", 133: "i2l", 134: "i2f", 135: "i2d", 136: "l2i",
        137: "l2f", 138: "l2d", 139: "f2i", 140: "f2l", 141: "f2d", 142: "d2i", 143: "d2l", 144: "d2f",
        145: "i2b", 146: "i2c", 147: "i2s", 148: "lcmp", 149: "fcmpl", 150: "fcmpg", 151: "dcmpl", 152: "dcmpg",
        172: "ireturn", 173: "lreturn", 174: "freturn", 175: "dreturn", 176: "areturn", 177: "return",
        190: "arraylength", 191: "athrow", 194: "monitorenter", 195: "monitorexit",
    }
    for k, v in simple.items():
        OPS[k] = (v, "")
    for i in range(7):
        OPS[2 + i] = ("const", ("I", i - 1))
    OPS[9], OPS[10] = ("const", ("J", 0)), ("const", ("J", 1))
    for i in range(3):
        OPS[11 + i] = ("const", ("F", float(i)))
    OPS[14], OPS[15] = ("const", ("D", 0.0)), ("const", ("D", 1.0))
    for base, t in ((26, "i"), (30, "l"), (34, "f"), (38, "d"), (42, "a")):
        for i in range(4):
            OPS[base + i] = (t + "load", ("n", i))
    for base, t in ((59, "i"), (63, "l"), (67, "f"), (71, "d"), (75, "a")):
        for i in range(4):
            OPS[base + i] = (t + "store", ("n", i))
    for i, t in enumerate("ilfda"):
        OPS[21 + i] = (t + "load", "u1")
        OPS[54 + i] = (t + "store", "u1")
    for i, n in enumerate(["ifeq", "ifne", "iflt", "ifge", "ifgt", "ifle", "if_icmpeq", "if_icmpne", "if_icmplt",
                           "if_icmpge", "if_icmpgt", "if_icmple", "if_acmpeq", "if_acmpne", "goto"]):
        OPS[153 + i] = (n, "br")
    OPS[198], OPS[199] = ("ifnull", "br"), ("ifnonnull", "br")
    for k, n in ((178, "getstatic"), (179, "putstatic"), (180, "getfield"), (181, "putfield"),
                 (182, "invokevirtual"), (183, "invokespecial"), (184, "invokestatic"), (187, "new"),
                 (189, "anewarray"), (192, "checkcast"), (193, "instanceof")):
        OPS[k] = (n, "cp")


_ops()


class Instr:
    __slots__ = ("op", "arg", "pc", "line")

    def __init__(self, op, arg, pc):
        self.op, self.arg, self.pc, self.line = op, arg, pc, 0

    def __repr__(self):
        return "%d:%s %s" % (self.pc, self.op, self.arg)


class Method:
    def __init__(self, cls, name, desc, access):
        self.cls, self.name, self.desc, self.access = cls, name, desc, access
        self.code = None
        self.handlers = []
        self.max_locals = 0
        self.args, self.ret = parse_desc(desc)
        self._cfg = None

    @property
    def static(self):
        return bool(self.access & 8)

    @property
    def abstract(self):
        return self.code is None

    @property
    def key(self):
        return "%s.%s%s" % (self.cls.name, self.name, self.desc)

    def __repr__(self):
        return "<%s>" % self.key


class Class:
    def __init__(self):
        self.name = self.super = None
        self.interfaces = []
        self.access = 0
        self.fields = {}
        self.methods = {}
        self.bootstrap = []

    @property
    def interface(self):
        return bool(self.access & 0x200)


def parse_desc(desc):
    args, i = [], 1
    while desc[i] != ")":
        j = i
        while desc[j] == "[":
            j += 1
        if desc[j] == "L":
            j = desc.index(";", j)
        args.append(desc[i:j + 1])
        i = j + 1
    return args, desc[i + 1:]


def _utf(b):
    out, i = [], 0
    while i < len(b):
        c = b[i]
        if c < 0x80:
            out.append(c)
            i += 1
        elif c >> 5 == 6:
            out.append((c & 31) << 6 | b[i + 1] & 63)
            i += 2
        else:
            out.append((c & 15) << 12 | (b[i + 1] & 63) << 6 | b[i + 2] & 63)
            i += 3
    return "".join(map(chr, out))


def load(data):
    pos = [8]

    def u(n):
        v = int.from_bytes(data[pos[0]:pos[0] + n], "big")
        pos[0] += n
        return v

    cp, n = [None], u(2)
    while len(cp) < n:
        t = u(1)
        if t == 1:
            ln = u(2)
            cp.append(("utf", _utf(data[pos[0]:pos[0] + ln])))
            pos[0] += ln
        elif t == 3:
            cp.append(("I", struct.unpack(">i", u(4).to_bytes(4, "big"))[0]))
        elif t == 4:
            cp.append(("F", struct.unpack(">f", u(4).to_bytes(4, "big"))[0]))
        elif t == 5:
            cp += [("J", struct.unpack(">q", u(8).to_bytes(8, "big"))[0]), None]
        elif t == 6:
            cp += [("D", struct.unpack(">d", u(8).to_bytes(8, "big"))[0]), None]
        elif t in (7, 8, 16, 19, 20):
            cp.append((t, u(2)))
        elif t in (9, 10, 11, 12, 17, 18):
            cp.append((t, u(2), u(2)))
        elif t == 15:
            cp.append((t, u(1), u(2)))
        else:
            raise ValueError("constant %d" % t)

    def utf(i):
        return cp[i][1]

    def cname(i):
        return utf(cp[i][1]) if i else None

    def nt(i):
        return utf(cp[i][1]), utf(cp[i][2])

    def member(i):
        return (cname(cp[i][1]),) + nt(cp[i][2]) + (cp[i][0] == 11,)

    def const(i):
        e = cp[i]
        if e[0] in ("I", "J", "F", "D"):
            return e
        if e[0] == 8:
            return ("S", utf(e[1]))
        if e[0] == 7:
            return ("C", utf(e[1]))
        if e[0] == 16:
            return ("MT", utf(e[1]))
        if e[0] == 15:
            return ("MH", e[1], member(e[2]))
        raise ValueError(e)

    c = Class()
    c.access = u(2)
    c.name, c.super = cname(u(2)), cname(u(2))
    c.interfaces = [cname(u(2)) for _ in range(u(2))]
    for _ in range(u(2)):
        acc, name, desc = u(2), utf(u(2)), utf(u(2))
        cv = None
        for _ in range(u(2)):
            an, ln = utf(u(2)), u(4)
            if an == "ConstantValue":
                cv = const(u(2))
            else:
                pos[0] += ln
        c.fields[name] = (acc, desc, cv)
    raw = []
    for _ in range(u(2)):
        acc, name, desc = u(2), utf(u(2)), utf(u(2))
        m = Method(c, name, desc, acc)
        c.methods[(name, desc)] = m
        for _ in range(u(2)):
            an, ln = utf(u(2)), u(4)
            if an == "Code":
                end = pos[0] + ln
                u(2)
                m.max_locals = u(2)
                cl = u(4)
                code = data[pos[0]:pos[0] + cl]
                pos[0] += cl
                hs = [(u(2), u(2), u(2), cname(u(2))) for _ in range(u(2))]
                lines, lvt = [], []
                for _ in range(u(2)):
                    an2, ln2 = utf(u(2)), u(4)
                    if an2 == "LineNumberTable":
                        lines = [(u(2), u(2)) for _ in range(u(2))]
                    elif an2 == "LocalVariableTable":
                        lvt = [(u(2), u(2), utf(u(2)), utf(u(2)), u(2)) for _ in range(u(2))]
                    else:
                        pos[0] += ln2
                raw.append((m, code, hs, lines, lvt))
                pos[0] = end
            else:
                pos[0] += ln
    for _ in range(u(2)):
        an, ln = utf(u(2)), u(4)
        if an == "BootstrapMethods":
            c.bootstrap = [(const(u(2)), [const(u(2)) for _ in range(u(2))]) for _ in range(u(2))]
        else:
            pos[0] += ln
    for m, code, hs, lines, lvt in raw:
        _decode(m, code, hs, lines, lvt, cp, member, cname, const, nt)
    return c


def _decode(m, code, hs, lines, lvt, cp, member, cname, const, nt):
    out, at, pc = [], {}, 0
    s1 = lambda i: struct.unpack(">b", code[i:i + 1])[0]
    s2 = lambda i: struct.unpack(">h", code[i:i + 2])[0]
    s4 = lambda i: struct.unpack(">i", code[i:i + 4])[0]
    u2 = lambda i: code[i] << 8 | code[i + 1]
    while pc < len(code):
        op, start = code[pc], pc
        if op in OPS:
            name, k = OPS[op]
            if k == "":
                arg, pc = None, pc + 1
            elif k == "u1":
                arg, pc = code[pc + 1], pc + 2
            elif k == "br":
                arg, pc = pc + s2(pc + 1), pc + 3
            elif k == "cp":
                i = u2(pc + 1)
                arg = cname(i) if name in ("new", "anewarray", "checkcast", "instanceof") else member(i)
                pc += 3
            elif k[0] == "n":
                arg, pc = k[1], pc + 1
            else:
                arg, pc = k, pc + 1
        elif op == 16:
            name, arg, pc = "const", ("I", s1(pc + 1)), pc + 2
        elif op == 17:
            name, arg, pc = "const", ("I", s2(pc + 1)), pc + 3
        elif op == 18:
            name, arg, pc = "const", const(code[pc + 1]), pc + 2
        elif op in (19, 20):
            name, arg, pc = "const", const(u2(pc + 1)), pc + 3
        elif op == 132:
            name, arg, pc = "iinc", (code[pc + 1], s1(pc + 2)), pc + 3
        elif op in (170, 171):
            p = (pc + 4) & ~3
            d = pc + s4(p)
            if op == 170:
                lo, hi = s4(p + 4), s4(p + 8)
                arg = (d, [(lo + i, pc + s4(p + 12 + 4 * i)) for i in range(hi - lo + 1)])
                pc = p + 12 + 4 * (hi - lo + 1)
            else:
                n = s4(p + 4)
                arg = (d, [(s4(p + 8 + 8 * i), pc + s4(p + 12 + 8 * i)) for i in range(n)])
                pc = p + 8 + 8 * n
            name = "switch"
        elif op == 185:
            name, arg, pc = "invokeinterface", member(u2(pc + 1)), pc + 5
        elif op == 186:
            e = cp[u2(pc + 1)]
            name, arg, pc = "invokedynamic", (e[1],) + nt(e[2]), pc + 5
        elif op == 188:
            name, arg, pc = "newarray", code[pc + 1], pc + 2
        elif op == 196:
            o2 = code[pc + 1]
            if o2 == 132:
                name, arg, pc = "iinc", (u2(pc + 2), s2(pc + 4)), pc + 6
            else:
                name, arg, pc = OPS[o2][0], u2(pc + 2), pc + 4
        elif op == 197:
            name, arg, pc = "multianewarray", (cname(u2(pc + 1)), code[pc + 3]), pc + 4
        elif op == 200:
            name, arg, pc = "goto", pc + s4(pc + 1), pc + 5
        else:
            raise ValueError("opcode %d" % op)
        at[start] = len(out)
        out.append(Instr(name, arg, start))
    at[len(code)] = len(out)
    for ins in out:
        if ins.op == "goto" or ins.op.startswith("if"):
            ins.arg = at[ins.arg]
        elif ins.op == "switch":
            ins.arg = (at[ins.arg[0]], [(k, at[t]) for k, t in ins.arg[1]])
    m.code = out
    m.handlers = [(at[a], at[b], at[h], c) for a, b, h, c in hs]
    ls = sorted(lines)
    for ins in out:
        for a, ln in ls:
            if a <= ins.pc:
                ins.line = ln
    m.lvt = [(at.get(a, 0), at.get(a + n, len(out)), nm, d, slot) for a, n, nm, d, slot in lvt]


class Program:
    """All classes of the code under test."""

    def __init__(self, root):
        self.classes = {}
        for dp, _, fs in os.walk(root):
            for f in sorted(fs):
                if f.endswith(".class") and f != "module-info.class":
                    with open(os.path.join(dp, f), "rb") as fh:
                        c = load(fh.read())
                    self.classes[c.name] = c
        self._super = {}

    def supers(self, name):
        """All supertypes of a class, itself included, as far as known."""
        if name in self._super:
            return self._super[name]
        out, todo = [], [name]
        while todo:
            n = todo.pop(0)
            if n is None or n in out:
                continue
            out.append(n)
            c = self.classes.get(n)
            if c:
                todo += [c.super] + c.interfaces
            else:
                todo += JDK_SUPER.get(n, ["java/lang/Object"] if n != "java/lang/Object" else [])
        self._super[name] = out
        return out

    def subclass(self, a, b):
        if a == b or b == "java/lang/Object":
            return True
        if a.startswith("["):
            if b.startswith("[L") and a.startswith("[L"):
                return self.subclass(a[2:-1], b[2:-1])
            return b in ("java/lang/Cloneable", "java/io/Serializable")
        return b in self.supers(a)

    def resolve(self, cls, name, desc):
        """Virtual lookup of a method, superclasses first, then default methods of interfaces."""
        c = cls
        while c in self.classes:
            m = self.classes[c].methods.get((name, desc))
            if m and not m.abstract:
                return m
            c = self.classes[c].super
        best = None
        for s in self.supers(cls):
            k = self.classes.get(s)
            if k and k.interface:
                m = k.methods.get((name, desc))
                if m and not m.abstract and (best is None or self.subclass(s, best.cls.name)):
                    best = m
        return best

    def implementors(self, iface):
        return sorted(n for n, c in self.classes.items() if not c.interface and not c.access & 0x400 and self.subclass(n, iface))


J = "java/lang/"
JDK_SUPER = {
    J + "Throwable": [J + "Object"], J + "Exception": [J + "Throwable"], J + "Error": [J + "Throwable"],
    J + "RuntimeException": [J + "Exception"], J + "IllegalArgumentException": [J + "RuntimeException"],
    J + "IllegalStateException": [J + "RuntimeException"], J + "NumberFormatException": [J + "IllegalArgumentException"],
    J + "IndexOutOfBoundsException": [J + "RuntimeException"],
    J + "StringIndexOutOfBoundsException": [J + "IndexOutOfBoundsException"],
    J + "ArrayIndexOutOfBoundsException": [J + "IndexOutOfBoundsException"],
    J + "NullPointerException": [J + "RuntimeException"], J + "ArithmeticException": [J + "RuntimeException"],
    J + "ClassCastException": [J + "RuntimeException"], J + "NegativeArraySizeException": [J + "RuntimeException"],
    J + "ArrayStoreException": [J + "RuntimeException"],
    J + "UnsupportedOperationException": [J + "RuntimeException"], J + "AssertionError": [J + "Error"],
    J + "ExceptionInInitializerError": [J + "Error"], J + "NoSuchFieldError": [J + "Error"],
    J + "ReflectiveOperationException": [J + "Exception"], J + "NoSuchMethodException": [J + "ReflectiveOperationException"],
    J + "IllegalAccessException": [J + "ReflectiveOperationException"],
    J + "ClassNotFoundException": [J + "ReflectiveOperationException"],
    "java/util/NoSuchElementException": [J + "RuntimeException"], "java/io/IOException": [J + "Exception"],
    "java/io/UncheckedIOException": [J + "RuntimeException"], "java/time/DateTimeException": [J + "RuntimeException"],
    "java/time/temporal/UnsupportedTemporalTypeException": ["java/time/DateTimeException"],
    J + "String": [J + "Object", J + "CharSequence", J + "Comparable"],
    J + "StringBuilder": [J + "Object", J + "CharSequence", J + "Appendable"],
    J + "StringBuffer": [J + "Object", J + "CharSequence", J + "Appendable"],
    J + "Number": [J + "Object"], J + "Enum": [J + "Object", J + "Comparable"],
    J + "Integer": [J + "Number", J + "Comparable"], J + "Long": [J + "Number", J + "Comparable"],
    J + "Short": [J + "Number", J + "Comparable"], J + "Byte": [J + "Number", J + "Comparable"],
    J + "Float": [J + "Number", J + "Comparable"], J + "Double": [J + "Number", J + "Comparable"],
    J + "Character": [J + "Object", J + "Comparable"], J + "Boolean": [J + "Object", J + "Comparable"],
    "java/math/BigInteger": [J + "Number", J + "Comparable"], "java/math/BigDecimal": [J + "Number", J + "Comparable"],
    "java/util/concurrent/atomic/AtomicInteger": [J + "Number"], "java/util/concurrent/atomic/AtomicLong": [J + "Number"],
    "java/util/ArrayList": ["java/util/List", J + "Object"], "java/util/List": ["java/util/Collection"],
    "java/util/Collection": [J + "Iterable"], "java/util/ArrayDeque": ["java/util/Deque", J + "Object"],
    "java/util/Deque": ["java/util/Queue"], "java/util/Queue": ["java/util/Collection"],
    "java/util/LinkedList": ["java/util/List", "java/util/Deque"],
    "java/util/EnumSet": ["java/util/Set"], "java/util/Set": ["java/util/Collection"],
    "java/util/Date": [J + "Object", J + "Comparable"], "java/util/Calendar": [J + "Object", J + "Comparable"],
    "java/util/GregorianCalendar": ["java/util/Calendar"],
    "java/time/Instant": ["java/time/temporal/Temporal"], "java/time/temporal/Temporal": ["java/time/temporal/TemporalAccessor"],
    "java/time/chrono/ChronoZonedDateTime": ["java/time/temporal/Temporal"],
    "java/time/chrono/ChronoLocalDateTime": ["java/time/temporal/Temporal"],
    "java/time/chrono/ChronoLocalDate": ["java/time/temporal/Temporal"],
    "java/time/ZonedDateTime": ["java/time/temporal/Temporal", "java/time/chrono/ChronoZonedDateTime"],
    "java/time/OffsetDateTime": ["java/time/temporal/Temporal"],
    "java/time/LocalDateTime": ["java/time/temporal/Temporal", "java/time/chrono/ChronoLocalDateTime"],
    "java/time/LocalDate": ["java/time/temporal/Temporal", "java/time/chrono/ChronoLocalDate"],
    "java/time/LocalTime": ["java/time/temporal/Temporal"],
}
