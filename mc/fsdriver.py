"""Runs actions in forked children under the file-system fault shim.

Started with LD_PRELOAD=fsfault.so; serves JSON requests, one per line, on a
local socket; every connection gets its own process.
"""
import ctypes
import json
import os
import select
import signal
import socket
import sys
import time

COUNT, CRASH, TORN, ERROR_ONCE, ERROR_FROM, PAUSE = 1, 2, 3, 4, 5, 6
LIMIT_S = 60


def act(a):
    import numpy as np
    from rigid_body_motion.ros import RosbagReader
    import xarray as xr

    def dump(ds):
        ds = ds.load()
        out = {"time": np.asarray(ds["time"].values).astype("datetime64[ns]").astype(
            "int64").tolist()}
        for v in ds.data_vars:
            out[v] = ds[v].values.astype(float).tolist()
        ds.close()
        return out

    if a["do"] == "nc":
        return dump(xr.open_dataset(a["path"]))
    with RosbagReader(a["bag"]) as r:
        if a["do"] == "cached":
            return dump(r.load_dataset(a["topic"], cache=True))
        if a["do"] == "direct":
            return dump(r.load_dataset(a["topic"]))
        if a["do"] == "export":
            r.export(a["topic"], *([a["out"]] if a.get("out") is not None else []))
            return "exported"
    raise ValueError(a["do"])


def child(lib, req, actions, w, fds):
    """Run the actions, the first one armed, and report their results."""
    try:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        import _ros

        _ros.reset()
        res = []
        if req.get("cwd"):
            os.chdir(req["cwd"])
        for i, a in enumerate(actions):
            if i == 0 and req["mode"]:
                lib.fsfault_arm(req["dir"].encode(), req["mode"], req["n"], *fds)
            try:
                res.append({"ok": act(a)})
            except Exception as e:
                res.append({"raised": f"{type(e).__name__}: {e}"[:300]})
            finally:
                if i == 0 and req["mode"]:
                    lib.fsfault_disarm()
        out = {"results": res, "count": lib.fsfault_count(),
               "journal": lib.fsfault_journal().decode().split()}
        data = json.dumps(out).encode()
        while data:
            data = data[os.write(w, data):]
        os._exit(0)
    except BaseException:
        import traceback

        traceback.print_exc()
        os._exit(99)


def launch(lib, req, actions, fds=(-1, -1)):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(lib, req, actions, w, fds)
    os.close(w)
    return pid, r


def collect(pid, r):
    buf = b""
    end = time.time() + LIMIT_S
    while True:
        if not select.select([r], [], [], max(end - time.time(), 0))[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"exit": "hang", "results": []}
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    out = json.loads(buf) if buf else {"results": []}
    out["exit"] = os.WEXITSTATUS(st) if os.WIFEXITED(st) else f"signal {os.WTERMSIG(st)}"
    return out


def main():
    sys.path[:0] = sys.argv[1].split(os.pathsep)
    import warnings

    warnings.simplefilter("ignore")
    import netCDF4  # noqa
    import rosbag  # noqa
    import rigid_body_motion.ros.io  # noqa
    import pandas  # noqa
    import xarray as xr

    xr.Dataset({"a": ("x", [1.0])}).copy()
    lib = ctypes.CDLL(None)
    lib.fsfault_journal.restype = ctypes.c_char_p
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sys.argv[2])
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        # ends with the check, which holds the other end of stdin
        ready = select.select([srv, sys.stdin], [], [])[0]
        if sys.stdin in ready:
            return
        conn = srv.accept()[0]
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            srv.close()
            os.close(0)
            os.open(os.devnull, os.O_RDONLY)
            try:
                serve(lib, conn)
            except OSError:
                pass
            os._exit(0)
        conn.close()


def serve(lib, conn):
    f = conn.makefile("rw")
    for line in f:
        req = json.loads(line)
        if req["mode"] == PAUSE:
            pr, pw = os.pipe()
            gr, gw = os.pipe()
            pid, r = launch(lib, req, req["actions"], (pw, gr))
            os.close(pw)
            os.close(gr)
            if os.read(pr, 1) == b"p":
                other = collect(*launch(lib, dict(req, mode=0), req["other"]))
                os.write(gw, b"g")
            else:
                other = None
            out = collect(pid, r)
            out["other"] = other
            os.close(pr)
            os.close(gw)
        else:
            out = collect(*launch(lib, req, req["actions"]))
        f.write(json.dumps(out) + "\n")
        f.flush()


if __name__ == "__main__":
    main()
