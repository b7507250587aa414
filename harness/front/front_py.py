"""Runs histories of the Python decoder: stdin one JSON history per line, stdout one JSON result per line."""
import contextlib, hashlib, io, json, os, sys
REPO = os.environ["FRONT_REPO"]
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pystub"))
sys.path.insert(0, os.path.join(REPO, "cloudini_py"))
import numpy as np
import wasmtime
from cloudini_decoder import CloudiniDecoder

TYPES = {"i1": 1, "u1": 2, "i2": 3, "u2": 4, "i4": 5, "u4": 6, "f4": 7, "f8": 8, "i8": 9, "u8": 10}


def sha(b):
    return hashlib.sha256(b).hexdigest()[:16]


def shape(a):
    """what the array is: rows, bytes of a row, fields, and a digest per field"""
    if a.dtype.names is None:
        return {"rows": a.shape[0] if a.ndim else 0, "step": a.shape[1] if a.ndim > 1 else a.dtype.itemsize, "fields": [], "digs": [], "all": sha(a.tobytes())}
    f = [[n.encode("utf-8", "surrogateescape").hex(), a.dtype.fields[n][1], TYPES.get(a.dtype.fields[n][0].str[1:], 0) if a.dtype.fields[n][0].str[0] in "<|=" and a.dtype.fields[n][0].shape == () else 0] for n in a.dtype.names]
    return {"rows": len(a) if a.ndim == 1 else -1, "step": a.dtype.itemsize, "fields": f, "digs": [sha(np.ascontiguousarray(a[n]).tobytes()) for n in a.dtype.names], "all": ""}


def text(v):
    return "-" if v is None else "f%s" % np.float32(v).tobytes().hex() if isinstance(v, float) else str(v)


def header(h):
    out = {k: text(h.get(k)) for k in ("version", "width", "height", "point_step", "encoding_opt", "compression_opt")}
    out["fields"] = [[str(f.get("name")).encode("utf-8", "surrogateescape").hex(), f.get("offset"), str(f.get("type")), text(float(f["resolution"]) if f.get("resolution") is not None else None)] for f in h.get("fields", [])]
    return out


wasm = os.environ["FRONT_WASM"]
for line in sys.stdin:
    plan = json.loads(line)
    ev = wasmtime.EVENTS
    ev.clear()
    wasmtime.CFG.update(named=plan["named"], trap=plan["trap"], fail=0, msg=b"")
    kept = []
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            dec = CloudiniDecoder(wasm)
        except Exception as e:
            print(json.dumps({"new": repr(e)}), file=sys.__stdout__, flush=True)
            continue
        ev.append({"k": "ready"})
        for st in plan["steps"]:
            msg = open(st["file"], "rb").read()
            wasmtime.CFG.update(msg=msg, fail=st.get("fail", 0))
            ev.append({"k": "begin", "step": st["id"]})
            r = {"k": "end", "ok": 0, "shape": None, "hdr": None}
            try:
                if st["api"] == "decode":
                    a, h = dec.decode_message(msg, *([st["verbose"]] if "verbose" in st else []))
                    r.update(ok=1, shape=shape(a), hdr=header(h))
                    kept.append((a, r["shape"]))
                else:
                    h = dec.get_header_info(msg)
                    if h:
                        r.update(ok=1, hdr=header(h))
            except Exception as e:
                r["ex"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            wasmtime.CFG["fail"] = 0
            ev.append(r)
        later = [shape(a) == s for a, s in kept]
    print(json.dumps({"ev": ev, "later": int(all(later))}), flush=True)
