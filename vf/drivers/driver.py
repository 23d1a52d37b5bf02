# Executes JSON commands from standard input using the nscang module.
import gc, json, os, sys

sys.path.insert(0, os.environ["NSCANG_PATH"])
import nscang                                                       # noqa

obj, files = {}, []


def val(v):
    if isinstance(v, dict):
        b = bytes.fromhex(v["h"])
        return b if v.get("b") else b.decode("utf-8", "surrogateescape")
    return v


for l in sys.stdin.buffer:
    c = json.loads(l)
    op, i = c["op"], c.get("id")
    a = [val(x) for x in c.get("a", [])]
    k = {x: val(y) for x, y in c.get("k", {}).items()}
    r = dict(r="ok")
    try:
        if op == "new":
            obj[i] = nscang.NSCAngNotifyer(*a, **k)
        elif op == "bare":
            obj[i] = nscang.NSCAngNotifyer.__new__(nscang.NSCAngNotifyer)
        elif op == "init":
            obj[i].__init__(*a, **k)
        elif op == "del":
            obj.pop(i, None)
            gc.collect()
        elif op == "get":
            x = getattr(obj[i], a[0])
            r["v"] = x if not isinstance(x, str) else {"h": x.encode("utf-8", "surrogateescape").hex()}
        elif op == "files":
            files += [open("/dev/null") for _ in range(a[0])]
        elif op == "churn":         # reuse freed memory
            x = ["%d" % n * 20 for n in range(1000)]
            del x
            gc.collect()
        elif op == "host_result":
            obj[i].host_result(*a, **k)
        elif op == "svc_result":
            obj[i].svc_result(*a, **k)
    except BaseException as e:
        r = dict(r="err", m=(type(e).__name__ + ": " + str(e)).encode("utf-8", "surrogateescape").hex())
    sys.stdout.write(json.dumps(r) + "\n")
    sys.stdout.flush()
    if op == "exit":
        break
obj.clear()
gc.collect()
