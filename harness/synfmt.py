"""
Synthetic file formats for the dispatch properties (C15, C16).

A synthetic file is the text "SYN <name> <version>\n" followed by a JSON list
of patch ids; a format claims exactly the files of its own name and version.
The formats differ in how they want to be handed the file, which methods they
implement and how badly they behave on files which are not theirs.
"""
from __future__ import annotations

import json
import os
import random
import shutil
from pathlib import Path

import h5py
import numpy as np

import dascore as dc
from dascore.io import FiberIO
from dascore.io.core import IOResourceManager  # noqa: F401
from dascore.utils.hdf5 import H5Reader, PyTablesReader
from dascore.utils.io import BinaryReader, BinaryWriter

from . import iolab as io

T0 = np.datetime64("2020-01-01T00:00:00", "ns")


def patch_of(i):
    t = T0 + np.timedelta64(10 * i, "s") + np.arange(3) * np.timedelta64(1, "s")
    return dc.Patch(data=np.full((3, 2), float(i)), dims=("time", "distance"),
                    coords={"time": t, "distance": np.array([0.0, 1.0])}, attrs={"tag": f"p{i}"})


def ids_of(patches):
    return [int(p.attrs.tag[1:]) if p.attrs.tag[1:].isdigit() and (np.asarray(p.data) == float(p.attrs.tag[1:])).all() else -1
            for p in patches]


def ids_of_attrs(attrs):
    return [int(a.tag[1:]) if a.tag[1:].isdigit() else -1 for a in attrs]


def _text(resource):
    """The header and body of a file in whatever form it was handed over."""
    if isinstance(resource, str | os.PathLike):
        with open(resource, "rb") as fh:
            raw = fh.read()
    elif hasattr(resource, "read") and not isinstance(resource, h5py.File):
        raw = resource.read()
    else:
        raise OSError("not text")
    head, _, body = raw.partition(b"\n")
    return head.decode("ascii"), body.decode("ascii")


class ReadError(OSError):
    pass


def make_format(name, version, ext=(), handle=None, scan=True, write=True, trick="", kind="file"):
    """Define, and thereby register, a format."""
    want = f"SYN {name} {version}"

    def get_format(self, resource, **kwargs):
        if trick == "raise":
            raise RuntimeError("get_format raises")
        if kind == "directory":
            p = Path(resource) / "syn.marker"
            return (name, version) if p.exists() and p.read_text() == want else False
        if trick == "none":
            return None
        head, _ = _text(resource)
        return (name, version) if head == want else False

    def _ids(resource):
        if kind == "directory":
            out = []
            for p in sorted(Path(resource).glob("part*")):
                out += json.loads(_text(p)[1])
            return out
        head, body = _text(resource)
        if head != want:
            raise ReadError("not my file")
        if "corrupt" in body:
            raise {"o": OSError, "v": ValueError, "t": TypeError}[body[0]]("corrupt")
        return json.loads(body)

    def read(self, resource, **kwargs):
        return dc.spool([patch_of(i) for i in _ids(resource)])

    def scan_(self, resource, **kwargs):
        path = str(resource if isinstance(resource, os.PathLike | str) else resource.name)
        return [patch_of(i).attrs.update(path=path, file_format=name, file_version=version) for i in _ids(resource)]

    def write_(self, spool, resource, **kwargs):
        raw = (want + "\n" + json.dumps(ids_of(list(spool)))).encode()
        if hasattr(resource, "write"):
            resource.write(raw)
        else:
            Path(resource).write_bytes(raw)

    types = {"bin": (BinaryReader, BinaryWriter), "path": (Path, Path), "str": (str, str), "h5": (H5Reader, Path),
             "tab": (PyTablesReader, Path), None: (None, None)}[handle]
    if types[0] is not None:
        for f in (get_format, read, scan_):
            f.__annotations__["resource"] = types[0]
        write_.__annotations__["resource"] = types[1]
    for f in (get_format, read, scan_, write_):
        for k in list(f.__annotations__):
            if isinstance(f.__annotations__[k], str):
                del f.__annotations__[k]
    get_format.__name__, read.__name__, scan_.__name__, write_.__name__ = "get_format", "read", "scan", "write"
    body = {"name": name, "version": version, "preferred_extensions": tuple(ext), "input_type": kind,
            "get_format": get_format, "read": read}
    if scan:
        body["scan"] = scan_
    if write:
        body["write"] = write_
    return type(f"Syn{name}{version}", (FiberIO,), body)


def syn_file(path, name, version, ids, bad=""):
    Path(path).write_text(f"SYN {name} {version}\n" + (f"{bad}corrupt" if bad else json.dumps(ids)))


def real_file(path, kind, ids, rng):
    """Files of the real formats and files which belong to none."""
    path = Path(path)
    if kind in ("DASDAE", "PICKLE"):
        dc.write(dc.spool([patch_of(i) for i in ids]), path, kind)
    elif kind == "text":
        path.write_text("hello world\n" * rng.randint(0, 4))
    elif kind == "noise":
        path.write_bytes(bytes(rng.randrange(256) for _ in range(rng.choice([1, 50, 4000]))))
    elif kind == "empty":
        path.write_bytes(b"")
    elif kind == "h5":
        with h5py.File(path, "w") as h:
            h.attrs["x"] = 1
            h["data"] = np.arange(4)
    elif kind == "trunc":
        tmp = path.parent / ("tmp_" + path.name)
        dc.write(patch_of(ids[0]), tmp, rng.choice(["DASDAE", "PICKLE"]))
        raw = tmp.read_bytes()
        path.write_bytes(raw[: rng.randint(1, len(raw) - 200)])
        tmp.unlink()
    elif kind == "dir":
        path.mkdir()
    else:
        raise ValueError(kind)


def isolated(func, *args):
    """Run func in a forked child (registering formats is global) and return its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = {"ok": func(*args)}
            except Exception:
                import traceback
                out = {"crash": traceback.format_exc()[-3000:]}
            with os.fdopen(w, "w") as fh:
                json.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh:
        raw = fh.read()
    os.waitpid(pid, 0)
    out = json.loads(raw) if raw else {"crash": "child died"}
    if "crash" in out:
        raise RuntimeError(out["crash"])
    return out["ok"]


EXTS = ["sya", "syb", "h5", "pkl", "txt", "segy", "hdf5", ""]


class Lab:
    def __init__(self, rng, d, tag):
        self.rng, self.d, self.tag = rng, Path(d) / "t", tag
        self.d.mkdir()
        self.ev = []
        self.formats = []      # registered synthetic formats
        self.files = {}        # name -> description
        self.n = 0
        self.next_id = 1

    def event(self, o, func, **kw):
        e = {"o": o, "err": "", "msg": "", "fmt": "", "ver": "", "ids": [], "file": {"k": "none"}, "parent": "", "leak": [], **kw}
        try:
            e.update(func() or {})
        except Exception as exc:
            e["err"], e["msg"] = type(exc).__name__, str(exc)[:120]
            e["leak"] = io.open_files(self.d)  # while the frames of the failing call are alive
        e["leak"] = e["leak"] or io.open_files(self.d)
        self.ev.append(e)
        return e

    def register(self, rng=None):
        rng = rng or self.rng
        names = [f"{x}{self.tag}" for x in ("SYNA", "SYNB", "SYNC", "DASDAEX", "SYN")]
        name = rng.choice(names)
        have = [f["ver"] for f in self.formats if f["n"] == name]
        left = [v for v in "123" if v not in have]
        if not left:
            return
        kind = "directory" if rng.random() < 0.2 else "file"
        if have:
            kind = next(f["kind"] for f in self.formats if f["n"] == name)
        f = {"n": name, "ver": rng.choice(left), "kind": kind,
             "ext": rng.sample(EXTS[:4], rng.randint(0, 2)), "handle": rng.choice(["bin", "path", "str", None, "bin"]),
             "scan": int(rng.random() < 0.7), "write": int(rng.random() < 0.8), "trick": ""}
        if kind == "directory":
            f["handle"], f["scan"], f["write"] = rng.choice(["path", "str", None]), 1, 0
        elif rng.random() < 0.15:
            f["trick"] = rng.choice(["raise", "none"])
            f["handle"] = rng.choice(["bin", "h5", "tab", "path"])
        self.formats.append(f)

        def go():
            make_format(f["n"], f["ver"], f["ext"], f["handle"], bool(f["scan"]), bool(f["write"]), f["trick"], f["kind"])
        rec = {"n": f["n"].upper(), "ver": f["ver"], "write": f["write"], "blind": int(f["trick"] != ""), "kind": f["kind"]}
        self.event({"op": "register", "f": "", "gf": "", "gv": "", "sub": []}, go, file=rec)

    def new_name(self, sub=""):
        self.n += 1
        e = self.rng.choice(EXTS)
        return os.path.join(sub, f"f{self.n}" + (f".{e}" if e else ""))

    def make(self, sub=""):
        """Create one file (or directory)."""
        rng = self.rng
        name = self.new_name(sub)
        path = self.d / name
        ids = list(range(self.next_id, self.next_id + rng.choice([1, 1, 2])))
        self.next_id += len(ids)
        syn = [f for f in self.formats if f["kind"] == "file"]
        dirs = [f for f in self.formats if f["kind"] == "directory"]
        r = rng.random()
        rec = {"k": "data", "n": "", "ver": "", "ids": ids, "bad": 0}
        if r < 0.5 and (syn or rng.random() < 0.2):
            # sometimes of a version or format which does not exist (yet)
            f = rng.choice(syn) if syn and rng.random() < 0.8 else {"n": f"SYNA{self.tag}", "ver": rng.choice("123")}
            bad = rng.choice("ovt") if rng.random() < 0.15 else ""
            syn_file(path, f["n"], f["ver"], ids, bad)
            rec.update(n=f["n"].upper(), ver=f["ver"], bad=int(bool(bad)))
        elif r < 0.62 and dirs and not sub:
            f = rng.choice(dirs)
            path.mkdir()
            (path / "syn.marker").write_text(f"SYN {f['n']} {f['ver']}")
            if rng.random() < 0.5:  # the parts look like files of their own
                g = rng.choice(syn) if syn else f
                syn_file(path / "part0", g["n"], g["ver"], ids)
            else:
                syn_file(path / "part0", f["n"], f["ver"], ids)
            rec.update(k="ddir", n=f["n"].upper(), ver=f["ver"])
        elif r < 0.8:
            kind = rng.choice(["DASDAE", "PICKLE"])
            real_file(path, kind, ids, rng)
            rec.update(n=kind, ver="1" if kind == "DASDAE" else "")
        elif r < 0.9 and not sub:
            path.mkdir()
            self.files[name] = {"k": "dir"}
            self.event({"op": "make", "f": name, "gf": "", "gv": "", "sub": []}, lambda: None, parent=sub, file={"k": "dir", "n": "", "ver": "", "ids": [], "bad": 0})
            for _ in range(rng.randint(1, 3)):
                self.make(name)
            return name
        else:
            kind = rng.choice(["text", "noise", "empty", "h5", "trunc"])
            real_file(path, kind, ids, rng)
            rec.update(k="junk")
        self.files[name] = rec
        self.event({"op": "make", "f": name, "gf": "", "gv": "", "sub": []}, lambda: None, parent=sub, file=rec)
        return name

    def hints(self, name):
        rng = self.rng
        rec = self.files.get(name, {"k": "none"})
        r = rng.random()
        if r < 0.6:
            return "", ""
        if r < 0.75 and rec.get("n"):
            return rec["n"], (rec["ver"] if rng.random() < 0.5 else "")
        if r < 0.8:
            return "", "1"
        if r < 0.85:
            return "NOSUCH", rng.choice(["", "1"])
        f = rng.choice(self.formats)["n"] if self.formats and rng.random() < 0.7 else rng.choice(["DASDAE", "PICKLE"])
        return f, rng.choice(["", "", "9"])

    def arg(self, name):
        p = self.d / name
        return self.rng.choice([p, str(p)])

    def _kw(self, gf, gv):
        kw = {}
        if gf:
            kw["file_format"] = gf if self.rng.random() < 0.6 else gf.lower()
        if gv:
            kw["file_version"] = gv
        return kw

    def act(self):
        rng = self.rng
        op = rng.choices(["format", "read", "scan", "write", "spool", "missing"], [3, 3, 3, 1.5, 1, 0.4])[0]
        names = [n for n in self.files]
        if op == "missing":
            o = {"op": rng.choice(["format", "read", "spool"]), "f": "nowhere.h5", "gf": "", "gv": "", "sub": []}
            fn = {"format": dc.get_format, "read": dc.read, "spool": dc.spool}[o["op"]]
            return self.event(o, lambda: fn(self.d / "nowhere.h5") and None)
        if op == "write":
            f = rng.choice(self.formats)["n"] if self.formats and rng.random() < 0.8 else rng.choice(["NOSUCH", "DASDAE", "PICKLE"])
            vers = sorted({g["ver"] for g in self.formats if g["n"] == f}) or ["1" if f == "DASDAE" else ""]
            gv = rng.choice(vers + ["9"]) if rng.random() < 0.5 else ""
            i = self.next_id
            self.next_id += 1
            name = self.new_name()
            o = {"op": "write", "f": name, "gf": f.upper(), "gv": gv, "sub": []}

            def go():
                dc.write(patch_of(i), self.d / name, f if rng.random() < 0.5 else f.lower(), **({"file_version": gv} if gv else {}))
            e = self.event(o, go, file={"k": "data", "n": "", "ver": "", "ids": [i], "bad": 0})
            if not e["err"]:
                self.files[name] = {"k": "data", "n": f.upper(), "ver": gv or max(vers), "ids": [i], "bad": 0}
            return e
        if not names:
            return None
        name = rng.choice(names)
        if op == "format":
            gf, gv = self.hints(name)
            o = {"op": "format", "f": name, "gf": gf, "gv": gv, "sub": []}

            def go():
                out = dc.get_format(self.arg(name), **self._kw(gf, gv))
                return {"fmt": str(out[0]).upper(), "ver": str(out[1])}
            return self.event(o, go)
        if op == "read":
            gf, gv = self.hints(name)
            o = {"op": "read", "f": name, "gf": gf, "gv": gv, "sub": []}
            return self.event(o, lambda: {"ids": ids_of(list(dc.read(self.arg(name), **self._kw(gf, gv))))})
        if op == "spool":
            if self.files[name]["k"] not in ("data", "junk"):
                return None
            o = {"op": "spool", "f": name, "gf": "", "gv": "", "sub": []}
            return self.event(o, lambda: {"ids": ids_of(list(dc.spool(self.arg(name))))})
        # scan one path, several, or everything
        if rng.random() < 0.4:
            sub, arg = [name], self.arg(name)
        elif rng.random() < 0.5:
            sub = [x for x in rng.sample(names, rng.randint(1, len(names))) if os.sep not in x] or [name]
            arg = [self.arg(x) for x in sub]
        else:
            sub, arg = [x for x in names if os.sep not in x], self.arg("")
        o = {"op": "scan", "f": "", "gf": "", "gv": "", "sub": sub}
        return self.event(o, lambda: {"ids": ids_of_attrs(dc.scan(arg, progress=None))})
