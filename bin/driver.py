"""Executes scenarios against the real code in /repo's working tree and records what happened.

usage: driver.py SCENARIOS.ndjson TRACE.ndjson [workers]

Every number of a scenario is a rational [num, den]; the driver passes num/den. Every real number of the
trace is an IEEE double written as its two 32-bit halves [hi, lo]. Only interfaces that users (or the
repository's own tests) call are used. Nothing is judged here: the specification does that.
"""
import sys, time
sys.dont_write_bytecode = True
import os, json, struct, hashlib, signal, math, shutil, tempfile, contextlib, io, multiprocessing, copy, warnings
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONPYCACHEPREFIX"] = "/nonexistent"
REPO = os.environ.get("MACHUP_REPO", "/repo")
sys.path.insert(0, REPO)

CALL_LIMIT = float(os.environ.get("CALL_LIMIT", "240"))    # seconds of processor time


def limit():
    """Once calls have been found that do not end, less patience will do."""
    n = TIMEOUTS.value
    return CALL_LIMIT if n == 0 else CALL_LIMIT / (4 if n < MAX_TIMEOUTS else 12)


class CallTimeout(BaseException):
    pass


def _alarm(*_a):
    raise CallTimeout()


# ------------------------------------------------------------------ encoding
def real(x):
    x = float(x)
    if x != x:
        x = float("nan")                # one bit pattern for every NaN
    hi, lo = struct.unpack(">ii", struct.pack(">d", x))
    return [hi, lo]


def enc(x):
    import numpy as np
    if x is None:
        return "None"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, str):
        return x
    if isinstance(x, (int, float, np.integer, np.floating)):
        return real(x)
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return [enc(v) for v in (x if x.ndim else [x.item()])]
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return "object:" + type(x).__name__


def show(x):
    """A text that changes whenever the value does."""
    import numpy as np
    if isinstance(x, np.ndarray):
        return "array" + repr(x.tolist())
    if isinstance(x, dict):
        return "{" + ",".join("%r:%s" % (k, show(v)) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(show(v) for v in x) + "]"
    if isinstance(x, float):
        return x.hex()
    if isinstance(x, np.floating):
        return float(x).hex()
    return repr(x)


# ---------------------------------------------------------------- descriptions
# How the caller's own numbers and sequences are held: the same quantities, whatever they are kept in.
HELD = "list"


def q(v):
    if HELD == "ints" and v[0] % v[1] == 0:
        return v[0] // v[1]
    if HELD == "array":
        import numpy as np
        return np.float64(v[0] / v[1])
    return v[0] / v[1]


def seq(vs, usual=list):
    vs = [q(v) for v in vs]
    if HELD == "list":
        return usual(vs)
    if HELD == "array":
        import numpy as np
        return np.array(vs)
    return {"lists": list, "tuple": tuple, "ints": list}[HELD](vs)


def isq(v):
    return isinstance(v, list) and len(v) == 2 and all(isinstance(e, int) and not isinstance(e, bool) for e in v)


def af_props(p):
    return {k: q(v) for k, v in p.items()}


def write_table(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write("%r %r\n" % (q(r[0]), q(r[1])))


ROT = {"CCW": "CCW", "ccw": "ccw", "CW": "CW", "cw": "cw", "1": 1, "-1": -1, "0": 0, "1.0": 1., "-1.0": -1.,
       "widdershins": "widdershins"}


def shape_info(sub, tag, dirname):
    out = {}
    for k, v in sub.items():
        if k == "table":
            path = os.path.join(dirname, tag + ".txt")
            write_table(path, v)
            out["filename"] = path
        elif k == "type":
            out[k] = v
        elif k == "increment":
            out["pitch_increment"] = q(v)
        else:
            out[k] = q(v)
    return out


def wing_kwargs(w):
    d = {}
    for src, dst in (("yoffset", "yoffset"), ("semispan", "semispan"), ("sweep", "sweep"), ("dihedral", "dihedral"),
                     ("mount_angle", "mount_angle"), ("washout", "washout"), ("root_chord", "root_chord"),
                     ("tip_chord", "tip_chord")):
        if src in w:
            d[dst] = q(w[src])
    if "pos" in w:
        d["position"] = seq(w["pos"])
    if "grid" in w:
        d["grid"] = w["grid"]
    if "is_main" in w:
        d["is_main"] = w["is_main"]
    return d


def control_kwargs(c):
    d = {}
    if "span" in c:
        d["percent_span"] = seq(c["span"], tuple)
    if "chord" in c:
        d["percent_chord"] = q(c["chord"][0]) if len(c["chord"]) == 1 else seq(c["chord"], tuple)
    d["mix"] = {k: q(v) for k, v in c["mix"].items()} if isinstance(c["mix"], dict) else {}
    if "sealed" in c:
        d[c.get("sealed_key", "sealed")] = c["sealed"]
    return d


def prop_kwargs(p, dirname):
    d = {}
    if "pos" in p:
        d["position"] = seq(p["pos"])
    if "orient" in p:
        d["orientation"] = seq(p["orient"])
    for src, dst in (("nodes", "nodes"), ("blades", "num_of_blades")):
        if src in p:
            d[dst] = p[src]
    if "diameter" in p:
        d["diameter"] = q(p["diameter"])
    if "hub" in p:
        d["hub_diameter"] = q(p["hub"])
    if "rot" in p:
        d["rot_dir"] = ROT[p["rot"]]
    if "pitch" in p:
        d["pitch_info"] = shape_info(p["pitch"], "pitch_" + p["name"], dirname)
    if "chord" in p:
        d["chord_info"] = shape_info(p["chord"], "chord_" + p["name"], dirname)
    if "motor" in p:
        d["electric_motor"] = dict({k: q(v) for k, v in p["motor"].items()}, has_motor=True)
    return d


def airfoil_at(a):
    at = a["at"]
    return at if isinstance(at, str) else q(at)


class Built:
    """An airplane together with the caller's own objects it was built from."""

    def __init__(self, plane, how, dirname):
        import machup
        os.makedirs(dirname, exist_ok=True)
        self.given = []          # the caller's objects, for checking that they stay as they were
        self.plane = None
        if how == "file":
            path = os.path.join(dirname, "plane.json")
            with open(path, "w") as f:
                json.dump(self.file_form(plane, dirname), f)
            self.path = path
            with open(path) as f:
                self.given.append(f.read())
            self.plane = machup.Airplane(inputfile=path)
            return
        self.path = None
        kw = {}
        if "position" in plane:
            kw["position"] = seq(plane["position"])
            self.given.append(kw)
        ap = machup.Airplane(plane.get("name", "plane"), **kw)
        if "cg" in plane:
            ap.cg_location(*[q(v) for v in plane["cg"]])
        if "cg_part" in plane:   # only some coordinates, by name
            ap.cg_location(**{k: q(v) for k, v in plane["cg_part"].items()})
        if "lat_ref" in plane or "long_ref" in plane:
            ap.set_reference_lengths(lateral=q(plane["lat_ref"]) if "lat_ref" in plane else None,
                                     longitudinal=q(plane["long_ref"]) if "long_ref" in plane else None)
        for w in plane["wings"]:
            kw = wing_kwargs(w)
            self.given.append(kw)
            opt = {}
            if w.get("parent"):
                opt["connect_to"] = (list if HELD in ("lists", "ints") else tuple)((w["parent"], w.get("at", "tip")))
            if "side" in w:
                opt["side"] = w["side"]
            wing = ap.add_wing(w["name"], **opt, **kw)
            for a in w.get("airfoils", []):
                pr = af_props(a["p"]) if "p" in a else {}
                self.given.append(pr)
                if a["end"] == "unsaid":
                    wing.airfoil(a["name"], **pr)
                else:
                    wing.airfoil(a["name"], a["end"], **pr)
            if "control" in w:
                ck = control_kwargs(w["control"])
                self.given.append(ck)
                wing.control_surface(**ck)
        for p in plane["props"]:
            kw = prop_kwargs(p, dirname)
            self.given.append(kw)
            prop = ap.add_prop(p["name"], **kw)
            for a in p.get("airfoils", []):
                pr = af_props(a["p"]) if "p" in a else {}
                if "at" in a:
                    pr["span_position"] = airfoil_at(a)
                self.given.append(pr)
                prop.airfoil(a["name"], **pr)
        self.plane = ap

    @staticmethod
    def file_form(plane, dirname):
        wings = {}
        ids = {}
        for k, w in enumerate(plane["wings"]):
            ids[w["name"]] = w.get("id", k + 1)
            kw = wing_kwargs(w)
            pos = kw.get("position", [0, 0, 0])
            parent = w.get("parent", "")
            d = {"ID": ids[w["name"]], "side": w["side"],
                 "connect": {"ID": ids[parent] if parent else 0, "location": w.get("at", "tip"), "dx": pos[0],
                             "dy": pos[1], "dz": pos[2], "yoffset": kw["yoffset"]},
                 "span": kw["semispan"], "sweep": kw["sweep"], "dihedral": kw["dihedral"],
                 "mounting_angle": kw["mount_angle"], "washout": kw["washout"], "root_chord": kw["root_chord"],
                 "tip_chord": kw["tip_chord"], "grid": kw["grid"],
                 "airfoils": {a["name"]: {"properties": af_props(a["p"])} for a in w["airfoils"]}}
            if "is_main" in kw:
                d["is_main"] = kw["is_main"]
            if "control" in w:
                c = control_kwargs(w["control"])
                ch = c["percent_chord"]
                ch = (ch, ch) if len(w["control"]["chord"]) == 1 else ch
                d["control"] = {"has_control_surface": True, "span_root": c["percent_span"][0],
                                "span_tip": c["percent_span"][1], "chord_root": ch[0], "chord_tip": ch[1],
                                "is_sealed": c["sealed"] if "sealed" in c else c["is_sealed"], "mix": c["mix"]}
            elif w.get("absent_control") == "false":
                d["control"] = {"has_control_surface": False, "span_root": 0.1, "span_tip": 0.9, "chord_root": 0.2,
                                "chord_tip": 0.2, "is_sealed": 1,
                                "mix": {"elevator": 1., "aileron": 1., "flap": 1., "rudder": 1.}}
            else:
                d["control"] = {}
            wings[w["name"]] = d
        props = {}
        for p in plane["props"]:
            kw = prop_kwargs(p, dirname)
            props[p["name"]] = {
                "position": dict(zip(("dx", "dy", "dz"), kw["position"])),
                "orientation": {"elevation_angle": kw["orientation"][0], "heading_angle": kw["orientation"][1]},
                "radial_nodes": kw["nodes"], "diameter": kw["diameter"], "hub_diameter": kw["hub_diameter"],
                "num_of_blades": kw["num_of_blades"], "rotation_direction": kw["rot_dir"], "pitch": kw["pitch_info"],
                "chord": kw["chord_info"], "airfoils": {a["name"]: {"properties": af_props(a["p"])}
                                                        for a in p["airfoils"]}}
            if "electric_motor" in kw:
                props[p["name"]]["electric_motor"] = kw["electric_motor"]
        cg = [q(v) for v in plane["cg"]] if "cg" in plane else [0, 0, 0]
        data = {"plane": {"name": plane.get("name", "plane"), "CGx": cg[0], "CGy": cg[1], "CGz": cg[2]},
                "reference": {"longitudinal_length": q(plane["long_ref"]) if "long_ref" in plane else None,
                              "lateral_length": q(plane["lat_ref"]) if "lat_ref" in plane else None},
                "condition": {}}
        if "units" in plane:
            data["condition"]["units"] = plane["units"]
        if plane["wings"] or not plane.get("omit_empty"):
            data["wings"] = wings
        if plane["props"] or not plane.get("omit_empty"):
            data["propellers"] = props
        return data


class Growing:
    """An airplane being built call by call, and what its caller still holds."""

    def __init__(self, call, dirname):
        import machup
        self.given = []
        self.path = None
        self.parts = {}
        if "base" in call:
            self.plane = Built(call["base"], "file", dirname).plane
            return
        kw = {}
        if "position" in call:
            kw["position"] = seq(call["position"])
            self.given.append(kw)
        self.plane = machup.Airplane(call.get("name", "plane"), **kw)

    def step(self, st, dirname):
        do, ap = st["do"], self.plane
        os.makedirs(dirname, exist_ok=True)
        if do == "wing":
            w = st["w"]
            kw = wing_kwargs(w)
            opt = {"side": w["side"]} if "side" in w else {}
            if w.get("parent"):
                opt["connect_to"] = (w["parent"], w.get("at", "tip"))
            self.given.append(kw)
            self.parts["wing", w["name"]] = ap.add_wing(w["name"], **opt, **kw)
        elif do == "prop":
            kw = prop_kwargs(st["p"], dirname)
            self.given.append(kw)
            self.parts["prop", st["p"]["name"]] = ap.add_prop(st["p"]["name"], **kw)
        elif do == "airfoil":
            a = st["a"]
            pr = af_props(a["p"]) if "p" in a else {}
            ends = () if a["end"] == "unsaid" else (a["end"],)
            self.parts["wing", st["name"]].airfoil(a["name"], *ends, **pr)
        elif do == "blade":
            a = st["a"]
            pr = af_props(a["p"]) if "p" in a else {}
            if "at" in a:
                pr["span_position"] = airfoil_at(a)
            self.parts["prop", st["name"]].airfoil(a["name"], **pr)
        elif do == "control":
            ck = control_kwargs(st["c"])
            self.given.append(ck)
            self.parts["wing", st["name"]].control_surface(**ck)
        elif do == "connect":
            parent = self.parts["wing", st["parent"]] if st["parent"] else ap
            self.parts["wing", st["name"]].connect_to(parent, "tip")
        elif do == "cg":
            ap.cg_location(**{c + "_coord": q(v) for c, v in (st["part"] or {}).items()})
        elif do == "refs":
            ap.set_reference_lengths(**{{"lat_ref": "lateral", "long_ref": "longitudinal"}[r]: q(v)
                                        for r, v in (st["part"] or {}).items()})
        else:
            raise KeyError(do)

    def look(self):
        import numpy as np
        ap = self.plane
        segs, props = [], []

        def section(a):
            return {"name": a.get_name(), "CL_alpha": a.get_lift_slope(), "alpha_L0": a.get_zero_lift_alpha(),
                    "CL_max": a.get_max_lift(), "Cm_alpha": a.get_moment_slope(), "Cm_L0": a.get_zero_lift_moment(),
                    "CD": list(a.get_drag_coefficients())}
        for g in ap.get_wingsegments():
            root, tip = g.get_airfoils()
            segs.append({"name": g.name, "side": g.get_side(), "n": g.get_num_sections(), "span": g.get_span(),
                         "chords": list(g.get_chord()), "mount": g.get_mounting_angle(), "washout": g.get_washout(),
                         "dihedral": g.get_dihedral(), "sweep": g.get_sweep(), "left": g.get_position("left_tip"),
                         "right": g.get_position("right_tip"), "root": section(root), "tip": section(tip),
                         "cspan": list(g.get_control_surface_span()), "cchord": list(g.get_control_surface_chord()),
                         "mix": list(g.get_control_mix()), "sealed": bool(g.is_control_surface_sealed())})
        for p in ap.get_props():
            afs = p.get_airfoils()
            props.append({"name": p.name, "pos": list(p.get_position()), "orient": list(p.get_orientation()),
                          "nodes": p.get_number_of_nodes(), "diameter": p.get_diameter(), "hub": p.get_hub_diameter(),
                          "blades": p.get_num_of_blades(), "rot": p.get_rot_dir(),
                          "airfoils": [section(afs[k]) for k in afs]})
        return {"sections": ap.get_num_sections(), "wings": segs, "props": props, "cg": np.copy(ap.get_cg_location()),
                "position": list(ap.get_position("")), "lat": ap.get_lat_ref(), "long": ap.get_long_ref()}


# --------------------------------------------------------------------- states
def num_or(v):
    if isinstance(v, str):
        return v
    return q(v)


def state_dict(rec):
    if rec is None:
        return None
    if isinstance(rec, str) or rec == [] or rec == {}:
        return {}
    import numpy as np
    out = {}
    for k, v in rec.items():
        if k == "local_state":
            out[k] = np.array([[q(e) for e in row] for row in v], dtype=float)
        elif isinstance(v, dict):
            out[k] = {kk: num_or(vv) for kk, vv in v.items()}
        else:
            out[k] = num_or(v)
    return out


def read_stl(path, faces=False):
    with open(path, "rb") as f:
        data = f.read()
    if not faces:
        return {"count": struct.unpack("<I", data[80:84])[0], "size": len(data) - 84,
                "digest": hashlib.sha256(data[84:]).hexdigest()}
    n = struct.unpack("<I", data[80:84])[0]
    tris = []
    for k in range(n):
        vals = struct.unpack("<12f", data[84 + 50 * k:84 + 50 * k + 48])
        tris.append([[real(v) for v in vals[3 * j:3 * j + 3]] for j in (1, 2, 3)])
    return {"count": n, "size": len(data) - 84, "faces": tris}


def read_table(path):
    """Rows of a distributions file by heading; numbers as reals."""
    with open(path) as f:
        text = f.read()
    out = {"sections": [], "text": len(text)}
    if path.endswith(".json"):
        obj = json.loads(text)
        out["keys"] = sorted(obj)
        text = obj["data"].replace("newline", "\n")
    cur = None
    for line in text.split("\n"):
        s = line.strip()
        if s.startswith("#"):
            s = s[1:].strip()
            if not s:
                continue
            if s.endswith("Distributions"):
                cur = {"title": s, "columns": [], "names": [], "rows": []}
                out["sections"].append(cur)
            elif cur is not None:
                cur["columns"] = s.split()
        elif s and cur is not None:
            parts = line.split()
            cut = len(parts) - (len(cur["columns"]) - 1)
            cur["names"].append(" ".join(parts[:cut]))
            cur["rows"].append([real(float(v)) for v in parts[cut:]])
        elif s:
            out["stray"] = True
    return out


# ------------------------------------------------------------------- execution
class Run:
    def __init__(self, scenario, dirname):
        self.sc = scenario
        self.dir = dirname
        self.models = {}
        self.events = []
        self.held = {}
        self.count = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def go(self):
        global HELD
        HELD = self.sc["planes"][0].get("held", "list") if self.sc["planes"] else "list"
        calls = self.sc["calls"]
        apart = {}
        k = 0
        while k < len(calls):        # groups of calls put to a process of their own, in which nothing has happened yet
            if calls[k].get("apart"):
                end = k
                while end < len(calls) and calls[end].get("apart") == calls[k]["apart"]:
                    end += 1
                for n, ev in enumerate(self.elsewhere(k, calls[k:end])):
                    apart[k + n] = ev
                k = end
            else:
                k += 1
        for k, call in enumerate(calls):
            self.events.append(apart[k] if k in apart else self.one(k + 1, call))
        return {"id": self.sc["id"], "kind": self.sc.get("kind", ""), "planes": self.sc["planes"],
                "events": self.events}

    def elsewhere(self, first, calls):
        out, into = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(out)
                d = tempfile.mkdtemp(prefix="apart_", dir=self.dir)
                r = Run(self.sc, d)
                evs = [r.one(first + n + 1, c) for n, c in enumerate(calls)]
                with os.fdopen(into, "w") as f:
                    json.dump(evs, f)
                code = 0
            finally:
                os._exit(code)
        os.close(into)
        with os.fdopen(out) as f:
            text = f.read()
        _pid, status = os.waitpid(pid, 0)
        if status:
            raise RuntimeError("a process apart ended with %d" % status)
        return json.loads(text)

    def one(self, k, call):
        op = call["op"]
        ev = {"op": op, "call": {kk: vv for kk, vv in call.items() if kk != "op"}}
        before = set(os.listdir(self.dir))
        args = {}
        for name in ("aero", "ctl", "prop"):
            args[name] = state_dict(call.get(name))
        if call.get("shared"):   # the same state dictionaries as an earlier call
            for name, obj in self.held[call["shared"]]["args"].items():
                args[name] = obj
        given = {n: v for n, v in args.items() if v}
        ev["args"] = enc(given)
        ev["before"] = show(args)
        fname = None
        if call.get("file"):
            fname = self.path("out%d.%s" % (k if call["file"] == "new" else 0, call.get("ext", "json")))
            if call.get("prefill"):
                with open(fname, "w") as f:
                    f.write("# stale content\n" * 3000)
        pos_held = {"args": args, "res": None, "call": call}
        self.held[k] = pos_held
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, limit(), 1.0)
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res, extra = self.run(op, k, call, args, fname)
            signal.setitimer(signal.ITIMER_PROF, 0)
            ev["out"] = "ok"
            ev["res"] = enc(res)
            ev.update(extra)
            pos_held["res"] = res
        except CallTimeout:
            ev["out"] = "timeout"
            with TIMEOUTS.get_lock():
                TIMEOUTS.value += 1
        except MemoryError:
            signal.setitimer(signal.ITIMER_PROF, 0)
            ev["out"] = "exc:MemoryError"
        except Exception as e:       # noqa: BLE001 - recorded, judged by the specification
            signal.setitimer(signal.ITIMER_PROF, 0)
            ev["out"] = "exc:" + type(e).__name__
            ev["msg"] = str(e)[:200]
            if os.environ.get("DRIVER_DEBUG"):
                import traceback
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        ev["after"] = show(args)
        ev["newfiles"] = sorted(n for n in set(os.listdir(self.dir)) - before if not n.startswith(("m_", "apart_")))
        if fname and os.path.exists(fname):
            ev["file"] = self.read_file(fname, op)
        if call.get("m") in self.models:
            ev["given"] = show(self.models[call["m"]]["built"].given)
        if pos_held["res"] is not None and op not in ("recheck", "scribble", "stl"):
            ev["shown"] = show(pos_held["res"])
        return ev

    def read_file(self, fname, op):
        try:
            if op == "dist":
                return read_table(fname)
            if op == "stl":
                return {}
            with open(fname) as f:
                return {"json": enc(json.load(f))}
        except Exception as e:       # noqa: BLE001
            return {"unreadable": type(e).__name__}

    def model(self, call):
        m = self.models[call["m"]]
        return m

    def run(self, op, k, call, args, fname):
        import machup
        import machup.MU as MU
        import numpy as np
        aero, ctl, prop = args["aero"], args["ctl"], args["prop"]
        if op == "new":
            desc = self.sc["planes"][call.get("plane", 1) - 1]
            how = call.get("how", "code")
            m = {}
            built = None
            if how == "missing":
                MU.MachUp(self.path("no_such_file.json"))
                return {}, {}
            if how == "same":     # another model of the airplane object of model `of'
                built = self.models[call["of"]]["built"]
                mu = MU.MachUp(inputAirplane=built.plane)
            elif how == "built":  # a model of the airplane built step by step
                built = self.models[call["built"]]["built"]
                mu = MU.MachUp(inputAirplane=built.plane)
            else:
                global HELD
                usual, HELD = HELD, desc.get("held", "list")
                try:
                    built = Built(desc, how, self.path("m_%d" % k))
                finally:
                    HELD = usual
                if call.get("bare"):
                    mu = None
                    if built.plane is None:
                        built.plane = machup.Airplane(inputfile=built.path)
                elif how == "file" and not call.get("via_plane"):
                    mu = MU.MachUp(built.path)
                else:
                    mu = MU.MachUp(inputAirplane=built.plane)
            m = {"built": built, "mu": mu, "ll": {}}
            self.models[call["m"]] = m
            res = {}
            plane = mu.myairplane if mu else built.plane
            if mu and plane.get_wingsegments():
                res = {"area": float(mu.Sw), "lat": float(mu.lat_ref), "long": float(mu.long_ref)}
            res["cg"] = np.copy(plane.get_cg_location())
            res["units"] = plane.get_units()
            res["sections"] = plane.get_num_sections()
            m["plane"] = plane
            return res, {}
        if op == "recheck":
            of = call["of"]
            h = self.held[of]
            return {}, {"shown_now": show(h["res"])}
        if op == "scribble":
            scribble(self.held[call["of"]]["res"])
            return {}, {}
        if op == "drop":
            self.models.pop(call["m"], None)
            return {}, {}
        if op == "airplane":
            self.models[call["m"]] = {"built": Growing(call, self.path("m_%d" % k)), "mu": None, "ll": {}}
            return {}, {}
        m = self.model(call)
        if op == "step":
            m["built"].step(call, self.path("m_%d" % k))
            return {}, {}
        if op == "look":
            return m["built"].look(), {}
        if op == "spoil":              # the caller goes on to use its own objects for something else
            scribble(m["built"].given)
            m["built"].given = []
            return {}, {}
        mu, plane = m["mu"], m["plane"]
        if op == "positions":
            out = []
            for seg in plane.get_wingsegments():
                out.append({"name": seg.name, "left": seg.get_position("left_tip"), "right": seg.get_position("right_tip"),
                            "n": seg.get_num_sections(), "span": seg.get_span(), "side": seg.get_side()})
            return out, {}
        if op == "badpos":
            seg = plane.get_wingsegments()[0]
            return seg.get_position(call["what"]), {}
        if op == "grid":
            g = machup.LLGrid(plane, call["cosine"]) if "cosine" in call else machup.LLGrid(plane)
            r1, r2 = g.get_corner_point_pos()
            c1, c2 = g.get_chord_lengths()
            cma, cml0, cmd = g.get_moment_slopes()
            dl = g.get_left_drag_coeff()
            dr = g.get_right_drag_coeff()
            ma, me, mr, mf = g.get_control_mix()
            return {"name": list(g.get_wing_names()), "s": g.get_cp_spacing(), "r": g.get_control_point_pos(), "r1": r1,
                    "r2": r2, "c": g.get_chord_length(), "c1": c1, "c2": c2, "dS": g.get_section_areas(),
                    "twist": g.get_twist(), "dihedral": g.get_dihedral(), "sweep": g.get_sweep(),
                    "ua": g.get_unit_axial_vectors(), "un": g.get_unit_normal_vectors(),
                    "us": g.get_unit_spanwise_vectors(), "ic2": g.get_integral_chord2(),
                    "CL_alpha": g.get_lift_slopes(), "alpha_L0": g.get_zero_lift_alpha(), "CL_max": g.get_max_lifts(),
                    "Cm_alpha": cma, "Cm_L0": cml0, "cmd": cmd, "eff": g.get_flap_effectiveness(),
                    "L": {"CL_alpha": g.get_left_lift_slopes(), "alpha_L0": g.get_left_zero_lift_alpha(),
                          "Cm_alpha": g.get_left_moment_slopes(), "Cm_L0": g.get_left_zero_lift_moments(),
                          "CD0": dl[0], "CD0_L": dl[1], "CD0_L2": dl[2]},
                    "R": {"CL_alpha": g.get_right_lift_slopes(), "alpha_L0": g.get_right_zero_lift_alpha(),
                          "Cm_alpha": g.get_right_moment_slopes(), "Cm_L0": g.get_right_zero_lift_moments(),
                          "CD0": dr[0], "CD0_L": dr[1], "CD0_L2": dr[2]},
                    "aileron": ma, "elevator": me, "rudder": mr, "flap": mf,
                    "area": float(g.get_reference_area()), "cg": np.copy(g.get_cg_location())}, {}
        if op == "llsolve":
            key = call.get("cosine", True)
            if key not in m["ll"] or call.get("fresh"):
                m["ll"][key] = machup.LLModel(plane) if "cosine" not in call else machup.LLModel(plane, key)
            kw = {}
            if aero is not None:
                kw["aero_state"] = aero
            if ctl is not None:
                kw["control_state"] = ctl
            return m["ll"][key].solve(call.get("stype", "linear"), **kw), {}
        if op == "propsolve":
            key = "props"
            if key not in m or call.get("fresh"):
                if plane.get_wingsegments() and not call.get("nowings"):
                    pts = machup.LLGrid(plane).get_control_point_pos()
                elif "points" in call:
                    pts = np.array([[q(e) for e in row] for row in call["points"]], dtype=float)
                else:
                    pts = None
                m[key] = machup.PropsSolver(plane, pts)
            r, v = m[key].solve(aero, prop)
            return {"total": dict(r["total"]), "field": v if v is not None else "None"}, {}
        kw = {}
        if aero is not None:
            kw["aero_state"] = aero
        if ctl is not None:
            kw["control_state"] = ctl
        if prop is not None:
            kw["prop_state"] = prop
        if fname:
            kw["filename"] = fname
        if "error" in call:
            kw["error"] = q(call["error"])
        if op == "solve":
            return mu.solve(**kw), {}
        if op == "dist":
            wd, pd = mu.distributions(**kw)
            return {"wing": wd, "prop": pd}, {}
        if op == "derivs":
            return mu.derivatives(**kw), {}
        if op == "stab":
            return mu.stability_derivatives(**kw), {}
        if op == "ctrl":
            return mu.control_derivatives(**kw), {}
        if op == "damp":
            return mu.damping_derivatives(**kw), {}
        if op == "ac":
            return mu.find_aero_center(**kw), {}
        if op == "stall_onset":
            return mu.stall_onset(**kw), {}
        if op == "stall_speed":
            return mu.stall_airspeed(q(call["weight"]), **kw), {}
        if op == "target_lift":
            return mu.target_lift(q(call["L"]), **kw), {}
        if op == "pitch_trim":
            if "M" in call:
                return mu.pitch_trim(q(call["L"]), q(call["M"]), **kw), {}
            return mu.pitch_trim(q(call["L"]), **kw), {}
        if op == "stl":
            here = os.getcwd()
            os.chdir(self.dir)
            try:
                if fname:
                    mu.create_stl(filename=fname)
                else:
                    mu.create_stl()
                    fname = self.path("plane.stl")
            finally:
                os.chdir(here)
            return {}, {"stl": read_stl(fname, bool(call.get("faces")))}
        if op == "sweep":
            rows = []
            a = dict(aero)
            for n in range(call["n"]):
                a["alpha"] = q(call["from"]) + n * q(call["step"]) if "decimals" not in call else \
                    round(q(call["from"]) + n * q(call["step"]), call["decimals"])
                kw["aero_state"] = a
                r = mu.solve(**kw)
                row = [r["FX"], r["FZ"], r["MY"], r["FL"]]
                if call.get("cl"):
                    wd, _p = mu.distributions(**kw)
                    row = [wd["section_CL"].tolist(), r["FL"]]
                rows.append(row)
            return rows, {}
        if op == "sweep_to":          # the angles up to the one that an earlier call returned
            h = self.held[call["of"]]
            src = h["call"]
            a = state_dict(src.get("aero")) or {"V_mag": 10, "rho": 0.0023769}
            r = h["res"]
            top = r["alpha"] if isinstance(r, dict) and "alpha" in r else q(call["to"])
            if isinstance(r, dict) and "airspeed" in r:
                a["V_mag"] = r["airspeed"]
            rows = []
            for n in range(int(round(top * 10)) + 1):
                a["alpha"] = round(n * 0.1, 1)
                wd, _p = mu.distributions(a, ctl, prop)
                rows.append(wd["section_CL"].tolist())
            lift = mu.solve(a, ctl, prop)["FL"]
            return {"rows": rows, "top": a["alpha"], "FL": lift, "name": list(wd["name"])}, {}
        if op == "solve_pert":        # one input moved by the amount that derivatives use
            a = dict(aero) if aero else {"V_mag": 10, "rho": 0.0023769}
            c = dict(ctl) if ctl else {}
            var, sign = call["var"], call["sign"]
            V = a["V_mag"]
            if var in ("alpha", "beta"):
                a[var] = a.get(var, 0) + sign * 0.5
            elif var in ("roll_rate", "yaw_rate"):
                a[var] = a.get(var, 0) + sign * 0.005 * 2 * V / mu.lat_ref
            elif var == "pitch_rate":
                a[var] = a.get(var, 0) + sign * 0.005 * 2 * V / mu.long_ref
            else:
                c[var] = c.get(var, 0) + sign * 0.25
            used = {"aero": a}
            if c:
                used["ctl"] = c
            if prop:
                used["prop"] = prop
            return mu.solve(a, c, prop), {"used": enc(used)}
        if op == "solve_at":
            h = self.held[call["of"]]
            src = h["call"]
            a = state_dict(src.get("aero")) or {"V_mag": 10, "rho": 0.0023769}
            c = state_dict(src.get("ctl")) or {}
            p = state_dict(src.get("prop"))
            r = h["res"]
            if r is None:
                return "None", {}
            if "alpha" in r:
                a["alpha"] = r["alpha"] + q(call.get("dalpha", [0, 1]))
            if "elevator" in r:
                c["elevator"] = r["elevator"]
            if "airspeed" in r and not call.get("same_speed"):
                a["V_mag"] = r["airspeed"]
            used = {"aero": a}
            if c:
                used["ctl"] = c
            if p:
                used["prop"] = p
            if call.get("cl"):
                wd, _p = mu.distributions(a, c, p)
                tot = mu.solve(a, c, p)
                return {"cl": wd["section_CL"], "FL": tot["FL"]}, {"used": enc(used)}
            return mu.solve(a, c, p), {"used": enc(used)}
        raise KeyError(op)


def scribble(x):
    import numpy as np
    if isinstance(x, dict):
        for k in list(x):
            v = x[k]
            if isinstance(v, (dict, list, np.ndarray)):
                scribble(v)
            else:
                x[k] = -12345.678
        x["scribble"] = 1.
    elif isinstance(x, list):
        for k, v in enumerate(x):
            if isinstance(v, (dict, list, np.ndarray)):
                scribble(v)
            else:
                x[k] = -12345.678
    elif isinstance(x, np.ndarray):
        try:
            if x.dtype == object:
                x[...] = "scribble"
            else:
                x[...] = -12345.678
        except ValueError:
            pass
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


TIMEOUTS = multiprocessing.Value("i", 0)
DEADLINE = time.time() + float(os.environ.get("DRIVER_DEADLINE", "400"))
MAX_TIMEOUTS = 6      # enough to be told; the rest of the scenarios are left out then


def do(line):
    sc = json.loads(line)
    if TIMEOUTS.value >= MAX_TIMEOUTS or time.time() > DEADLINE:
        return json.dumps({"id": sc["id"], "left_out": True})
    d = tempfile.mkdtemp(prefix="mu_")
    try:
        return json.dumps(Run(sc, d).go(), separators=(",", ":"))
    except Exception as e:           # the driver itself failed: not a verdict about the code
        import traceback
        return json.dumps({"id": sc["id"], "driver_error": traceback.format_exc()[-1500:]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    src, dst = sys.argv[1], sys.argv[2]
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    with open(src) as f:
        lines = [l for l in f if l.strip()]
    with open(dst, "w") as out:
        if workers <= 1:
            for l in lines:
                out.write(do(l) + "\n")
        else:
            import numpy, machup, machup.MU        # noqa: F401 - every scenario starts from here, in a process of its own
            with multiprocessing.get_context("fork").Pool(workers, maxtasksperchild=1) as pool:
                for r in pool.imap(do, lines, chunksize=1):
                    out.write(r + "\n")


if __name__ == "__main__":
    main()
