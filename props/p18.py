"""Dumped shape catalogues: what is written, and reading it back."""
import os
import resource
import signal
import sys

import numpy as np
from hypothesis import strategies as st

from props import p15
from props.p16 import unit_setup
from vlib import gad, gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = "a case counts when a catalogue of at least one object was dumped and compared with the shapes computed without any dump, or read back"

KINDS = ["local", "global", "vlocal", "vglobal"]
FILES = ["d", "q", "s", "minor", "inter", "major", "m", "centers"]
GET = {"local": "getShapeCatLocal", "global": "getShapeCatGlobal", "vlocal": "getShapeCatVelLocal", "vglobal": "getShapeCatVelGlobal"}
DUMP = {"local": "dumpShapeCatLocal", "global": "dumpShapeCatGlobal", "vlocal": "dumpShapeVelCatLocal", "vglobal": "dumpShapeVelCatGlobal"}


def session(spec, ctx):
    """-> make(catdir, snap), number of objects, file name infixes, length and mass factors from internal to Out."""
    if spec["source"] == "direct":
        sc = gen.make_scene(spec["scene"])
        fl, fm, ol, om = unit_setup(spec)

        def make(cat, snap="024"):
            return obj.direct(sc, ctx, spec["center"], xyz=sc.xyz * fl, m=sc.m * fm, r200=sc.r200 * fl, L=sc.L * fl, catdir=cat, snap=snap)
        return make, len(sc.cat), {"local": "_", "global": "_"}, ol, om
    from cosmic_profiles import DensShapeProfsGadget
    U = gad.make_universe(spec["u"])
    fl, fm, ol, om = unit_setup(spec)
    t = gad.TYPES[spec["type"]]
    want = gad.centrals(U, t, 6)
    if not want:
        raise Skip
    V = gad.convert(U, fl, fm)
    p = gad.write_hdf5(V, ctx.dir("snapdir"), nfiles=1, dt=np.float64, seed=1)
    g = gad.write_groups(V, ctx.dir("groups"), nfiles=1, seed=1, dt=np.float64)

    def make(cat, snap="024"):
        return call("DensShapeProfsGadget()", DensShapeProfsGadget, p, g, spec["type"], snap, ctx.dir("viz"), cat, MIN_NUMBER_PTCS=6, CENTER=spec["center"])
    T = spec["type"]
    return make, len(want), {"local": "_%s_" % T, "global": "_%s_" % T, "vlocal": "_v%s_" % T, "vglobal": "_v%s_" % T}, ol, om


def config(seed):
    rng = np.random.default_rng(seed)
    R = np.sort(rng.uniform(0.2, 1.3, size=int(rng.integers(1, 6))))
    return obj.katz_config(R, imin=int(rng.integers(3, 8)), reduced=bool(rng.integers(2)), shell=bool(rng.integers(2)))


def compare(got, want, what, rt=2e-6):
    check(len(got) == len(want), "%s: %d objects, expected %d" % (what, len(got), len(want)))
    for k in want.dtype.names:
        close(got[k], want[k], rtol=rt, atol=2e-7 if k in ("minor", "inter", "major") else 0, what="%s: %s" % (what, k))


def catdir(ctx, how, tag=""):
    """Existing, missing, nested, or relative destination -> (as given, absolute)."""
    base = ctx.dir("w" + tag)
    if how == "exists":
        d = os.path.join(base, "cat")
        os.makedirs(d)
        return d, d
    if how == "missing":
        d = os.path.join(base, "a", "b", "cat")
        return d, d
    if how == "space":
        d = os.path.join(base, "my cat")
        return d, d
    os.chdir(base)
    return "cat", os.path.join(base, "cat")


def selection(spec, n):
    return [int(i) for i in np.random.default_rng(spec["seed"]).permutation(n)[: 1 + spec["seed"] % n]]


def run_dump(spec, ctx):
    make, n, infix, ol, om = session(spec, ctx)
    sel = selection(spec, n)
    kinds = [k for k in KINDS if k in infix]
    kinds = [kinds[i] for i in np.random.default_rng(spec["seed"] + 1).permutation(len(kinds))[: 1 + spec["nk"] % len(kinds)]]
    snap = spec["snap"]
    # What the shapes are without any dump.
    free = make(ctx.dir("free"), snap)
    want, cfgs = {}, {}
    for i, k in enumerate(kinds):
        cfgs[k] = config(spec["seed"] + i)
        want[k] = call(GET[k], getattr(free, GET[k]), sel, cfgs[k])
    mc = call("getMassesCenters", free.getMassesCenters, sel)
    check(not os.listdir(ctx.dir("free")), "getShapeCat* left files behind: %s" % os.listdir(ctx.dir("free")))
    given, real = catdir(ctx, spec["dir"])
    o = make(given, snap)
    expected = set()
    for k in kinds:
        call("%s into a directory that is %s" % (DUMP[k], spec["dir"]), getattr(o, DUMP[k]), sel, cfgs[k])
        expected |= {"%s_%s%s%s.txt" % (f, k.lstrip("v"), infix[k], snap) for f in FILES}
    check(os.path.isdir(real), "nothing was written to %s" % real)
    check(set(os.listdir(real)) == expected, "files %s, expected %s" % (sorted(set(os.listdir(real)) ^ expected), "as documented"))
    check(not os.listdir(ctx.dir("viz")), "a dump left files in the plot directory")
    for k in kinds:
        loc = k.endswith("local")
        nr = len(cfgs[k]["ROverR200"]) if loc else 1
        z = {}
        for f in FILES:
            z[f] = call("reading %s" % f, np.loadtxt, os.path.join(real, "%s_%s%s%s.txt" % (f, k.lstrip("v"), infix[k], snap)), ndmin=2)
        w = want[k]
        for f in ("d", "q", "s"):
            close(z[f].reshape(len(sel), nr), w[f].reshape(len(sel), nr), rtol=1e-6, what="dumped %s, %s" % (k, f))
        for f in ("minor", "inter", "major"):
            close(z[f].reshape(len(sel), nr, 3), w[f].reshape(len(sel), nr, 3), rtol=1e-6, atol=1e-7, what="dumped %s, %s axis" % (k, f))
        close(z["m"].ravel(), mc["mass"], rtol=1e-6, what="dumped %s masses" % k)
        close(z["centers"].reshape(len(sel), 3), mc["centre"], rtol=1e-4 if spec["center"] == "mode" else 1e-6, atol=1e-6 * np.abs(mc["centre"]).max() if spec["center"] == "com" else np.inf,
              what="dumped %s centres" % k)
    # Reading back: the same instance, a new one, the same call.
    for o2, who in ((o, "the instance that dumped"), (make(given, snap), "a new instance")):
        for k in kinds:
            got = call("%s after the dump" % GET[k], getattr(o2, GET[k]), sel, cfgs[k])
            compare(got, want[k], "%s from the dump, %s" % (k, who))
    # Dumping again changes nothing.
    old = {f: open(os.path.join(real, f)).read() for f in os.listdir(real)}
    k = kinds[0]
    call(DUMP[k] + " again", getattr(o, DUMP[k]), sel, cfgs[k])
    for f in old:
        a, b = np.array(old[f].split(), float), np.array(open(os.path.join(real, f)).read().split(), float)
        close(b, a, rtol=1e-6, what="%s after dumping again" % f)
    # A different snapshot in the same directory is not confused with this one.
    k = kinds[-1]
    other = make(given, "9" + snap)
    cfg2 = config(spec["seed"] + 77)
    got = call("%s of another snapshot" % GET[k], getattr(other, GET[k]), sel, cfg2)
    w2 = call(GET[k], getattr(free, GET[k]), sel, cfg2)
    compare(got, w2, "%s of another snapshot with the dump of the first one next to it" % k, rt=0)
    return True


def run_stale(spec, ctx):
    """A dump belongs to one selection and one configuration: another call is not answered from it."""
    make, n, infix, ol, om = session(spec, ctx)
    kinds = [k for k in KINDS if k in infix]
    k = kinds[spec["nk"] % len(kinds)]
    sel, cfg = selection(spec, n), config(spec["seed"])
    sel2, cfg2 = (sel, config(spec["seed"] + 1)) if n == 1 or spec["same_sel"] else (selection(dict(spec, seed=spec["seed"] + 1), n), cfg)
    free = make(ctx.dir("free"))
    want = call(GET[k], getattr(free, GET[k]), sel2, cfg2)
    o = make(ctx.dir("cat"))
    call(DUMP[k], getattr(o, DUMP[k]), sel, cfg)
    if spec["units"]:
        obj.units(spec["inl"], spec["inm"], "kpc" if spec["outl"] != "kpc" else "Gpc", spec["outm"], spec["h"])
        want = call(GET[k], getattr(free, GET[k]), sel2, cfg2)
    dumped = np.loadtxt(os.path.join(ctx.dir("cat"), "q_%s%s024.txt" % (k.lstrip("v"), infix[k]))).ravel()
    what = "%s of objects %s after dumping objects %s" % (k, sel2, sel)
    shape = dumped.size != want["q"].size
    try:
        got = getattr(o, GET[k])(sel2, cfg2)
    except Exception as e:
        # The dumped arrays do not fit the number of objects or radii asked for.
        raise Violation("%s: %s" % (what, e), sig="stale-dump-reused" if shape else None)
    reused = shape or np.allclose(np.ravel(got["q"]), dumped, rtol=1e-5, equal_nan=True)
    try:
        compare(got, want, what)
    except Violation as e:
        raise Violation(str(e), sig="stale-dump-reused" if reused else None)
    return True


class Fault(Exception):
    pass


FAULT = {"left": None, "under": "", "hooked": False}


def _hook(event, args):
    """Raises at the k-th change of a file of the catalogue, when armed."""
    if FAULT["left"] is None or event not in ("open", "os.rename", "os.remove", "os.truncate", "os.link"):
        return
    if event == "open" and not (isinstance(args[1], str) and set(args[1]) & set("wax+") or isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR)):
        return
    if not any(isinstance(a, (str, bytes)) and FAULT["under"] in os.path.abspath(os.fsdecode(a)) for a in args[:2]):
        return
    FAULT["left"] -= 1
    if FAULT["left"] < 0:
        FAULT["left"] = None
        raise Fault("injected at %s" % event)


def interrupted(fn, what, spec, under):
    """Call the dump with a fault at the k-th change of a file, or on a disk that takes no more than b bytes per file -> whether it failed."""
    if spec["fault"] == "file":
        if not FAULT["hooked"]:
            sys.addaudithook(_hook)
            FAULT["hooked"] = True
        FAULT["under"], FAULT["left"] = under, spec["at"] % 12
        try:
            fn()
            return False
        except Fault:
            return True
        except Exception as e:
            raise Violation("%s, interrupted, raised %s" % (what, e))
        finally:
            FAULT["left"] = None
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (spec["bytes"], old[1]))
        fn()
        return False
    except OSError:
        return True
    except Exception as e:
        raise Violation("%s on a full disk raised %s" % (what, e))
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def run_interrupted(spec, ctx):
    """A dump that fails half-way leaves nothing behind that is taken for a catalogue."""
    make, n, infix, ol, om = session(spec, ctx)
    kinds = [k for k in KINDS if k in infix]
    k = kinds[spec["nk"] % len(kinds)]
    sel, cfg = selection(spec, n), config(spec["seed"])
    free = make(ctx.dir("free"))
    want = call(GET[k], getattr(free, GET[k]), sel, cfg)
    cat = ctx.dir("cat")
    o = make(cat)
    if spec["again"]:
        call(DUMP[k], getattr(o, DUMP[k]), sel, cfg)
    what = "%s%s" % (DUMP[k], " again" if spec["again"] else "")
    if not interrupted(lambda: getattr(o, DUMP[k])(sel, cfg), what, spec, cat):
        return False
    where = "interrupted at file change %d" % (spec["at"] % 12) if spec["fault"] == "file" else "on a disk that takes %d bytes per file" % spec["bytes"]
    for o2, who in ((o, "the same object"), (make(cat), "a new object")):
        got = call("%s of %s after %s %s" % (GET[k], who, what, where), getattr(o2, GET[k]), sel, cfg)
        compare(got, want, "%s of %s after %s %s" % (GET[k], who, what, where))
    call("%s after %s %s" % (DUMP[k], what, where), getattr(o, DUMP[k]), sel, cfg)
    for f in FILES:
        p = os.path.join(cat, "%s_%s%s024.txt" % (f, k.lstrip("v"), infix[k]))
        check(os.path.exists(p), "no %s after repeating %s" % (os.path.basename(p), what))
    for f in ("q", "s", "d", "major"):
        z = np.loadtxt(os.path.join(cat, "%s_%s%s024.txt" % (f, k.lstrip("v"), infix[k])))
        close(z.ravel(), want[f].ravel(), rtol=1e-6, atol=1e-7 if f == "major" else 0, what="%s dumped after %s %s" % (f, what, where))
    compare(call(GET[k], getattr(make(cat), GET[k]), sel, cfg), want, "%s of the repeated dump" % GET[k])
    return True


BASE = {"seed": st.integers(0, 10**6), "center": st.sampled_from(["com", "mode"]), "nk": st.integers(0, 3), "type": st.sampled_from(["dm", "stars", "gas"]),
        "h": st.sampled_from([0.6774, 0.5, 0.9, 1.0]), "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(gen.LENGTHS),
        "outm": st.sampled_from(gen.MASSES), "source": st.sampled_from(["direct", "gadget"]), "scene": gen.scene_strategy((1, 5), 1, 60), "u": gad.universe_strategy((1, 5), 40)}
SUBS = [
    Sub("dump", st.fixed_dictionaries(dict(BASE, snap=st.sampled_from(["024", "0", "snap_7", "100"]), dir=st.sampled_from(["exists", "missing", "relative", "space"]))),
        run_dump, quick=600, weight=2),
    Sub("stale", st.fixed_dictionaries(dict(BASE, same_sel=st.booleans(), units=st.sampled_from([False, False, True]))), run_stale, quick=100, weight=0.4),
    Sub("interrupted", st.fixed_dictionaries(dict(BASE, fault=st.sampled_from(["file", "bytes"]), at=st.integers(0, 35), bytes=st.integers(0, 400), again=st.booleans())),
        run_interrupted, quick=300, weight=0.8),
]
