"""C23: values, units and tags of an input mean what they say.

All small documents of a grammar are read by the real parser: units (every kind x unit
x prefix), values of every type in every layout, trees of tags, sets of options of an
element (given, left out, repeated, unknown), and requests for outputs. What comes out is
compared with an independent reading (SI constants, Python literals, ElementTree), and
what is written is read back.
"""

import itertools
import xml.etree.ElementTree as ET

import numpy as np

from vlib.core import Result

PROPERTY = "C23"
LEVEL = "model_checking"
TIMEOUT = 300.0
RULE = "one case per (part, kind); states are distinct documents, transitions are readings and writings"
ASSUMPTIONS = ["CODATA 2018 values of the constants, to 1e-4"]
BOUNDS = {
    "quick": "all kinds x units x 17 prefixes x letter cases; 7 types x all values of an alphabet x layouts, arrays up to 7 elements; trees up to 3 tags with attributes, texts and comments; all sets of up to 3 deviations from an input with 10 options",
    "thorough": "as quick with trees of 4 tags, arrays up to 12 elements and sets of 4 deviations",
}

# ------------------------------------------------------------------ units, from SI
HA, ME, A0, HBAR, KB, EV, AMU, NA = 4.3597447222071e-18, 9.1093837015e-31, 5.29177210903e-11, 1.054571817e-34, 1.380649e-23, 1.602176634e-19, 1.66053906660e-27, 6.02214076e23
AT = HBAR / HA
ANG = 1e-10 / A0
C_CM = 2.99792458e10
SI = {
    "undefined": {},
    "energy": {"electronvolt": EV / HA, "j/mol": 1 / NA / HA, "cal/mol": 4.1868 / NA / HA, "kelvin": KB / HA},
    "temperature": {"kelvin": KB / HA},
    "time": {"second": 1 / AT},
    "frequency": {"inversecm": 2 * np.pi * C_CM * AT, "hertz*rad": AT, "hertz": 2 * np.pi * AT, "hz": 2 * np.pi * AT, "thz": 2e12 * np.pi * AT},
    "electric-field": {"v/ang": EV / HA / ANG},
    "electric-dipole": {"eang": ANG, "debye": 3.33564095e-30 / (EV * A0)},
    "ms-momentum": {},
    "length": {"angstrom": ANG, "meter": 1 / A0, "radian": 1.0, "degree": np.pi / 180},
    "action": {"joule*second": 1 / HBAR},
    "volume": {"angstrom3": ANG**3},
    "velocity": {"m/s": AT / A0},
    "momentum": {},
    "mass": {"dalton": AMU / ME, "electronmass": 1.0},
    "pressure": {"bar": 1e5 * A0**3 / HA, "atmosphere": 101325.0 * A0**3 / HA, "pascal": A0**3 / HA, "ev/ang3": EV / HA / ANG**3},
    "density": {"g/cm3": 1e3 * A0**3 / ME},
    "force": {"newton": A0 / HA, "ev/ang": EV / HA / ANG},
    "hessian": {"ev/ang^2": EV / HA / ANG**2},
}
ASE_T = ANG * (AMU / ME / (EV / HA)) ** 0.5
ASE = {
    "undefined": 1.0, "energy": EV / HA, "length": ANG, "temperature": KB / HA, "time": ASE_T, "velocity": ANG / ASE_T, "force": EV / HA / ANG, "volume": ANG**3,
    "frequency": 1 / ASE_T, "action": EV / HA * ASE_T, "mass": AMU / ME, "pressure": EV / HA / ANG**3, "momentum": AMU / ME * ANG / ASE_T, "density": AMU / ME / ANG**3,
    "hessian": EV / HA / ANG**2, "electric-dipole": ANG, "electric-field": EV / HA / ANG,
}
PREFIX = {"": 0, "yotta": 24, "zetta": 21, "exa": 18, "peta": 15, "tera": 12, "giga": 9, "mega": 6, "kilo": 3, "milli": -3, "micro": -6, "nano": -9, "pico": -12, "femto": -15,
          "atto": -18, "zepto": -21, "yocto": -24}


def units(item, R):
    from ipi.utils import units as U

    fam = item["kind"]
    table = dict(SI[fam])
    for n in ("", "automatic", "atomic_unit"):
        table[n] = 1.0
    if fam in ASE:
        try:
            import ase  # noqa: F401

            table["ase"] = ASE[fam]
        except ImportError:
            pass
    for base, si in table.items():
        for pre, e in PREFIX.items():
            for text in {pre + base, pre + base.upper(), pre + base.capitalize()}:
                if base == "" and pre:
                    continue
                R.state(fam, text)
                for x in (1.0, -2.5, 1e-7):
                    R.transitions += 2
                    want = x * si * 10.0**e
                    try:
                        got = U.unit_to_internal(fam, text, x)
                        back = U.unit_to_user(fam, text, got)
                    except Exception as err:
                        R.fail("unit:%s" % fam, "%s of kind %s cannot be converted: %r" % (text, fam, err), item)
                        break
                    if not abs(got - want) <= 1e-4 * abs(want):
                        R.fail("unit:%s" % fam, "%g %s (%s) is read as %.10g, not %.10g" % (x, text, fam, got, want), item)
                        break
                    if not abs(back - x) <= 1e-12 * abs(x):
                        R.fail("unit-back:%s" % fam, "%g %s (%s) comes back as %.17g" % (x, text, fam, back), item)
                        break
    # what is not a unit of this kind must be refused
    for other in SI:
        for base in SI[other]:
            if base in table:
                continue
            for pre in ("", "milli", "giga"):
                R.transitions += 1
                try:
                    got = U.unit_to_internal(fam, pre + base, 1.0)
                except Exception:
                    R.outcome("refused")
                    continue
                R.fail("unit-kind:%s" % fam, "%s is accepted as a unit of %s (%.6g)" % (pre + base, fam, got), item)
    R.outcome("unit kinds")


# ------------------------------------------------------------------ values
FLOATS = [("0", 0.0), ("1", 1.0), ("-1.5", -1.5), ("+2.25e-3", 2.25e-3), (".5", 0.5), ("3.", 3.0), ("1E5", 1e5), ("-0.0", 0.0), ("1e-300", 1e-300), ("123456.789012345", 123456.789012345)]
INTS = [("0", 0), ("7", 7), ("-3", -3), ("+12", 12), ("123456789", 123456789)]
BOOLS = [("true", True), ("True", True), ("TRUE", True), ("false", False), ("False", False), ("FALSE", False)]
STRS = [("a", "a"), ("word two", "word two"), ("x_1-y.z/w", "x_1-y.z/w"), ("C5'", "C5'"), ("a&amp;b", "a&b"), ("1 &lt; 2", "1 < 2"), ("q&quot;q", 'q"q')]
LABELS = [("H", "H"), ("'O'", "O"), ("C5'", "C5'"), ("H5''", "H5''"), ("1H", "1H"), ("Uuo", "Uuo")]
BAD = {float: ["", "a", "1,2", "1 2", "[1]", "--1"], int: ["", "a", "1.5", "1 2", "[ 1 ]", "1e3"], bool: ["", "1", "0", "yes", "t", "truefalse"]}
PAD = [("", ""), (" ", " "), ("\n\t", "\n   ")]


def equal(a, b):
    if isinstance(b, float):
        return isinstance(a, float) and abs(a - b) <= 1e-8 * abs(b)
    return type(a) is type(b) and a == b


def read(obj, text, attrs=""):
    from ipi.utils.io.inputs import io_xml

    obj.parse(xml=io_xml.xml_parse_string("<x%s>%s</x>" % (attrs, text)).fields[0][1])
    return obj


def values(item, R):
    from ipi.utils.inputvalue import InputValue, InputArray

    kind = item["kind"]
    types = dict(float=(float, FLOATS), int=(int, INTS), bool=(bool, BOOLS), str=(str, STRS))
    if kind in types:
        t, alpha = types[kind]
        for text, want in alpha:
            for l, r in PAD:
                R.state(kind, l + text + r)
                R.transitions += 2
                v = read(InputValue(dtype=t), l + text + r)
                if not equal(v.fetch(), want):
                    R.fail("value:" + kind, "<x>%r</x> is read as %r" % (l + text + r, v.fetch()), item)
                    continue
                # stored, written and read again
                w = InputValue(dtype=t)
                w.store(want)
                out = w.write("x")
                try:
                    again = parse_written(InputValue(dtype=t), out).fetch()
                except Exception as e:
                    R.fail("written:" + kind, "%r is written as %r, which cannot be read: %r" % (want, out, e), item)
                    continue
                if not equal(again, want):
                    R.fail("written:" + kind, "%r is written as %r and read as %r" % (want, out, again), item)
                # as an attribute
                h = holder(t)
                h.at.store(want)
                try:
                    back = parse_written(holder(t), h.write("x")).at.fetch()
                except Exception as e:
                    R.fail("attribute:" + kind, "%r as an attribute is written as %r, which cannot be read: %r" % (want, h.write("x"), e), item)
                    continue
                if not equal(back, want):
                    R.fail("attribute:" + kind, "%r as an attribute comes back as %r" % (want, back), item)
        for text in BAD.get(t, []):
            R.transitions += 1
            try:
                got = read(InputValue(dtype=t), text).fetch()
            except Exception:
                R.outcome("refused")
                continue
            R.fail("bad:" + kind, "%r is accepted as %s (%r)" % (text, kind, got), item)
        return
    if kind.startswith("array"):
        t, alpha = dict(float=(float, FLOATS), int=(int, INTS), bool=(bool, BOOLS), str=(str, LABELS))[kind.split("-")[1]]
        top = item["size"]
        for n in range(0, top + 1):
            for off in range(len(alpha)):
                el = [alpha[(off + (i * (1 + off % 2))) % len(alpha)] for i in range(n)]
                want = [x[1] for x in el]
                for sep, (l, r) in itertools.product((",", ", ", " ,\n  "), PAD):
                    text = l + "[" + l + sep.join(x[0] for x in el) + r + "]" + r
                    R.state(kind, text)
                    R.transitions += 1
                    got = read(InputArray(dtype=t), text).fetch()
                    if not (got.shape == (n,) and all(equal(x.item() if t is not str else str(x), y) for x, y in zip(got, want))):
                        R.fail(kind, "%r is read as %r" % (text, got), item)
                        return
                shapes = [(n,)] + [(a, n // a) for a in range(1, n + 1) if n % a == 0]
                for sh in shapes:
                    R.transitions += 1
                    a = InputArray(dtype=t)
                    a.store(np.array(want, dtype=t).reshape(sh))
                    out = a.write("x")
                    try:
                        got = parse_written(InputArray(dtype=t), out).fetch()
                    except Exception as e:
                        R.fail("written:" + kind, "%r is written as %r, which cannot be read: %r" % (want, out, e), item)
                        return
                    if n and got.shape != sh or not all(equal(x.item() if t is not str else str(x), y) for x, y in zip(got.flatten(), want)) or got.size != n:
                        R.fail("written:" + kind, "%r of shape %s is written as %r and read as %r of shape %s" % (want, sh, out, got.tolist(), got.shape), item)
                        return
                    if n and t is not str:
                        g2 = read(InputArray(dtype=t), "[" + ",".join(x[0] for x in el) + "]", " shape='(%s)'" % ",".join(str(k) for k in sh)).fetch()
                        if g2.shape != sh or not np.allclose(np.array(g2, float), np.array(got, float), rtol=1e-8, atol=0):
                            R.fail("shape:" + kind, "shape %s gives %s" % (sh, g2.shape), item)
        return
    if kind == "tuple":
        for n in range(1, 4):
            for c in itertools.product([x for x in INTS], repeat=n):
                for sep, (l, r) in itertools.product((",", ", "), PAD):
                    R.state(kind, str(c), sep, l)
                    R.transitions += 2
                    got = read(InputValue(dtype=tuple), l + "(" + sep.join(x[0] for x in c) + ")" + r).fetch()
                    w = InputValue(dtype=tuple)
                    w.store(got)
                    back = parse_written(InputValue(dtype=tuple), w.write("x")).fetch()
                    if got != tuple(x[1] for x in c) or back != got:
                        R.fail("tuple", "%s is read as %r and comes back as %r" % (c, got, back), item)
                        return
        return
    if kind == "dict":
        vals = [("1", 1), ("2.5", 2.5), ("-3e-4", -3e-4), ("true", True), ("False", False), ("word", "word"), ("a/b.c", "a/b.c")]
        for n in range(0, 4):
            for c in itertools.product(vals, repeat=n):
                for sep, ks in itertools.product((",", ", "), (":", " : ", ": ")):
                    R.state(kind, str(c), sep, ks)
                    R.transitions += 2
                    text = "{" + sep.join("k%d%s%s" % (i, ks, x[0]) for i, x in enumerate(c)) + "}"
                    want = {"k%d" % i: x[1] for i, x in enumerate(c)}
                    try:
                        got = read(InputValue(dtype=dict), text).fetch()
                        w = InputValue(dtype=dict)
                        w.store(got)
                        back = parse_written(InputValue(dtype=dict), w.write("x")).fetch()
                    except Exception as e:
                        R.fail("dict", "%s cannot be read or written: %r" % (text, e), item)
                        return
                    if got != want or back != got or [type(v) for v in got.values()] != [type(v) for v in want.values()]:
                        R.fail("dict", "%s is read as %r and comes back as %r" % (text, got, back), item)
                        return
        return


def holder(t):
    from ipi.utils.inputvalue import Input, InputAttribute

    class H(Input):
        attribs = {"at": (InputAttribute, {"dtype": t, "help": ""})}
        fields = {}

    return H()


def parse_written(obj, text):
    from ipi.utils.io.inputs import io_xml

    obj.parse(xml=io_xml.xml_parse_string(text).fields[0][1])
    return obj


# ------------------------------------------------------------------ trees of tags
TEXTS = ["", "t", " 1 2 ", "a&amp;b", "<!-- c -->", "x<!-- c -->y", "<![CDATA[<z>]]>", "\n  "]
ATTR = ["", " p='1'", " p='1' q=\"two\"", " p='&amp;&lt;'"]


def trees(n):
    """Shapes: nested lists with n nodes."""
    if n == 1:
        yield []
        return
    for parts in compositions(n - 1):
        for kids in itertools.product(*[list(trees(k)) for k in parts]):
            yield list(kids)


def compositions(n):
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield [k] + rest


def render(t, spec):
    name, at, tx = next(spec)
    return "<%s%s>%s%s</%s>" % (name, at, tx[0], "".join(render(k, spec) + tx[1] for k in t), name)


def node(x):
    """(name, attributes, children, text) of i-PI's tree."""
    kids = [node(v) for f, v in x.fields if f != "_text"]
    names = [f for f, v in x.fields if f != "_text"]
    assert names == [k[0] for k in kids]
    return (x.name, dict(x.attribs), kids, "".join(v for f, v in x.fields if f == "_text"))


def enode(e):
    return (e.tag, dict(e.attrib), [enode(k) for k in e], (e.text or "") + "".join(k.tail or "" for k in e))


def strip(n):
    return (n[0], n[1], [strip(k) for k in n[2]], n[3].strip())


def documents(item, R):
    from ipi.utils.io.inputs import io_xml

    n = item["n"]
    for t in trees(n):
        choices = []
        for i in range(n):
            full = [("ab"[i % 2], a, (x, y)) for a in ATTR for x in TEXTS for y in ("", "u")]
            choices.append(full if n <= 2 else full[:: 5 if n == 3 else 13])
        for c in itertools.product(*choices):
            doc = render(t, iter(c))
            R.state(doc)
            R.transitions += 2
            want = enode(ET.fromstring(doc))
            try:
                x = io_xml.xml_parse_string(doc)
            except Exception as e:
                R.fail("xml", "%r cannot be parsed: %r" % (doc, e), item)
                return
            got = node(x.fields[0][1])
            if got != want:
                R.fail("xml", "%r is parsed as %r" % (doc, got), item)
                return
            # written and read again: the same tree up to the space around texts
            # (text between tags is gathered in front of or behind the tags)
            if all(len(k[3].strip()) == 0 or not k[2] for k in flat(want)):
                out = io_xml.xml_write(x.fields[0][1], name=want[0])
                again = node(io_xml.xml_parse_string(out).fields[0][1])
                if strip(again) != strip(want):
                    R.fail("xml-write", "%r is written as %r" % (doc, out), item)
                    return
    R.outcome("documents")


def flat(n):
    return [n] + [x for k in n[2] for x in flat(k)]


# ------------------------------------------------------------------ elements with options
def element():
    from ipi.utils.inputvalue import Input, InputAttribute, InputValue, InputArray, input_default

    class Inner(Input):
        attribs = {"mode": (InputAttribute, {"dtype": str, "default": "one", "options": ["one", "two"], "help": ""})}
        fields = {"depth": (InputValue, {"dtype": float, "default": 2.0, "help": "", "dimension": "energy"})}

        def store(self, value):
            super().store(value)
            self.mode.store("one")
            self.depth.store(2.0)

    class Outer(Input):
        attribs = {
            "mode": (InputAttribute, {"dtype": str, "default": "m1", "options": ["m1", "m2", "m3"], "help": ""}),
            "count": (InputAttribute, {"dtype": int, "default": 4, "help": ""}),
        }
        fields = {
            "need": (InputValue, {"dtype": int, "help": ""}),
            "length": (InputValue, {"dtype": float, "default": 1.5, "help": "", "dimension": "length"}),
            "flag": (InputValue, {"dtype": bool, "default": False, "help": ""}),
            "word": (InputValue, {"dtype": str, "default": "", "help": ""}),
            "pick": (InputValue, {"dtype": str, "default": "x", "options": ["x", "y"], "help": ""}),
            "vector": (InputArray, {"dtype": float, "default": np.zeros(0), "help": "", "dimension": "temperature"}),
            "inner": (Inner, {"help": "", "default": input_default(factory=dict)}),
        }
        dynamic = {"extra": (InputValue, {"dtype": float, "default": 0.0, "help": "", "dimension": "time"})}

    return Outer()


K = KB / HA
# option: (how it is given, what it means); None = refused
DEV = {
    "@mode": [("mode='m2'", "m2"), ("mode=' m3 '", "m3"), ("mode='m4'", None), ("mode='M1'", None)],
    "@count": [("count='7'", 7), ("count='x'", None)],
    "@nope": [("nope='1'", None)],
    "length": [("<length>2.5</length>", 2.5), ("<length units='angstrom'>2.0</length>", 2 * ANG), ("<length units='nanometer'>0.3</length>", 3 * ANG), ("<length units='atomic_unit'> 4 </length>", 4.0),
               ("<length units='kelvin'>2.5</length>", None), ("<length unit='angstrom'>2.5</length>", None), ("<length>long</length>", None)],
    "flag": [("<flag>True</flag>", True), ("<flag> false </flag>", False), ("<flag>maybe</flag>", None)],
    "word": [("<word> some text </word>", "some text"), ("<word><!-- no -->z</word>", "z")],
    "pick": [("<pick> y </pick>", "y"), ("<pick>z</pick>", None)],
    "vector": [("<vector>[ 1, 2.5 ]</vector>", [1.0, 2.5]), ("<vector units='kelvin'>[300,\n 10]</vector>", [300 * K, 10 * K]), ("<vector units='kilokelvin' shape='(1,2)'>[ 1, 2 ]</vector>", [1e3 * K, 2e3 * K]),
               ("<vector> 1, 2 </vector>", None), ("<vector>[ ]</vector>", [])],
    "inner": [("<inner/>", ("one", 2.0)), ("<inner mode='two'><depth units='kelvin'>100</depth></inner>", ("two", 100 * K)), ("<inner><depth>3</depth></inner>", ("one", 3.0)), ("<inner><other>3</other></inner>", None)],
    "extra": [("<extra>1</extra>", [1.0]), ("<extra units='femtosecond'>1</extra><extra>2</extra>", [1e-15 / AT, 2.0])],
    "unknown": [("<unknown>1</unknown>", None)],
    "need": [("", None), ("<need>5</need>", 5), ("<need>5.5</need>", None)],
}
DEFAULT = {"@mode": "m1", "@count": 4, "length": 1.5, "flag": False, "word": "", "pick": "x", "vector": [], "inner": ("one", 2.0), "extra": [], "need": 3}


def what(o):
    r = {"@mode": o.mode.fetch(), "@count": o.count.fetch()}
    for k in ("length", "flag", "word", "pick", "need"):
        r[k] = getattr(o, k).fetch()
    r["vector"] = o.vector.fetch().flatten().tolist()
    r["inner"] = (o.inner.mode.fetch(), o.inner.depth.fetch())
    r["extra"] = [v.fetch() for f, v in o.extra]
    return r


def close(a, b, tol=1e-5):
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(b, float):
        return abs(a - b) <= tol * abs(b)
    return a == b and type(a) is type(b)


def options(item, R):
    keys = list(DEV)
    single = [(k, i) for k in keys for i in range(len(DEV[k]))]
    for n in range(0, item["n"] + 1):
        for c in itertools.combinations(single, n):
            if len({k for k, i in c}) != n or (n and c[0] != tuple(item["first"])) or (n == 0 and tuple(item["first"]) != single[0]):
                continue
            used = [DEV[k][i] for k, i in c]
            at = [u[0] for (k, i), u in zip(c, used) if k.startswith("@")]
            fl = [u[0] for (k, i), u in zip(c, used) if not k.startswith("@")]
            if not any(k == "need" for k, i in c):
                fl.append("<need>3</need>")
            refuse = any(u[1] is None for u in used)
            want = dict(DEFAULT)
            for (k, i), u in zip(c, used):
                want[k] = u[1]
            for order in (list(fl), list(reversed(fl))):
                text = "<x %s>%s</x>" % (" ".join(at), "\n ".join(order))
                R.state(text)
                R.transitions += 1
                o = element()
                try:
                    o = parse_written(o, text)
                    got = what(o)
                    ok = True
                except Exception:
                    ok = False
                if ok == refuse:
                    R.fail("accept" if ok else "refuse", "%r is %s" % (text, "accepted as %r" % got if ok else "refused"), item)
                    return
                if not ok:
                    R.outcome("refused")
                    continue
                if not all(close(got[k], want[k]) for k in want):
                    R.fail("options", "%r is read as %r" % (text, {k: got[k] for k in want if not close(got[k], want[k])}), item)
                    return
                R.transitions += 1
                out = o.write("x")
                try:
                    back = what(parse_written(element(), out))
                except Exception as e:
                    R.fail("options-write", "%r is written as %r, which cannot be read: %r" % (text, out, e), item)
                    return
                if not all(close(back[k], got[k], 1e-9) for k in want):
                    R.fail("options-write", "%r is written as %r" % (text, out), item)
                    return
    R.outcome("elements")


# ------------------------------------------------------------------ requests for outputs
def requests(item, R):
    from ipi.engine.properties import getall, getkey

    names = ["potential", "atom_x", "kinetic_md"]
    un = [None, "", "angstrom", "ev/ang^2", "milli kelvin", "hertz*rad"]
    args = [None, [], ["0"], ["H"], ["1", "2"], ["atom=1"], ["3", "fd_delta=-1e-3"], ["a=1", "b=two"], ["1", "2", "k=v"], ["k=v", "1"], ["1", "k=v", "2"], ["a=1", "7", "b=x=y", "8"], ["5", "5"], ["k=5", "5"]]
    for nm, u, a in itertools.product(names, un, args):
        for sp in ("", " "):
            s = nm
            if u is not None:
                s += sp + "{" + u + "}"
            if a is not None:
                s += sp + "(" + (";" + sp).join(a) + ")"
            forms = {s, sp + s + sp}
            if u is not None and a is not None:
                forms.add(nm + "(" + ";".join(a) + ")" + sp + "{" + u + "}")
            for f in forms:
                R.state(f)
                R.transitions += 2
                want = (nm, u or "", tuple(x for x in a or [] if "=" not in x), {x.split("=")[0]: x.split("=", 1)[1] for x in a or [] if "=" in x})
                got = getall(f)
                if got != want or getkey(f) != nm:
                    R.fail("request", "%r is read as %r (%r)" % (f, got, getkey(f)), item)
                    return
    R.outcome("requests")


PARTS = dict(units=units, values=values, documents=documents, options=options, requests=requests)


def items(tier):
    q = tier == "quick"
    out = [dict(part="units", kind=k) for k in SI]
    out += [dict(part="values", kind=k) for k in ("float", "int", "bool", "str", "tuple", "dict")]
    out += [dict(part="values", kind="array-" + k, size=7 if q else 12) for k in ("float", "int", "bool", "str")]
    out += [dict(part="documents", n=n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    out += [dict(part="options", n=3 if q else 4, first=(k, i)) for k in DEV for i in range(len(DEV[k]))]
    out += [dict(part="requests")]
    return out


def run(item):
    R = Result()
    if item["part"] == "options":
        item = dict(item, first=tuple(item["first"]))
    PARTS[item["part"]](item, R)
    return R
