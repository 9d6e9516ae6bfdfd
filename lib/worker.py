"""Worker process: runs the cases of one job of one check against the real library."""
import hashlib, importlib, json, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "checks")]
import numpy as np
import core as vc


def lib_exception(e, cfg):
    """Did this exception come out of NNTile (rather than from the harness)?"""
    pk = os.path.join(cfg["dir"], "pypkg")
    fr = traceback.extract_tb(e.__traceback__)
    inlib = [f for f in fr if f.filename.startswith(pk)]
    if inlib:
        return "%s:%s" % (os.path.basename(inlib[-1].filename), inlib[-1].name)
    if type(e) in (RuntimeError, OverflowError) and type(e).__module__ == "builtins" and not any("site-packages" in f.filename for f in fr):
        # raised by the extension module itself
        return "core"
    if isinstance(e, (MemoryError, OSError, ImportError, vc.HarnessError)) or "memory" in str(e):
        return None
    # no case fails on a correct library: what it returned could not be used (missing result, other shape, other attribute)
    own = [f for f in fr if f.filename.startswith(os.path.dirname(HERE))]
    return "unusable-result:%s" % (own[-1].name if own else "?")


def main():
    cfg = json.loads(sys.argv[1])
    mod = importlib.import_module(cfg["pid"].lower())
    out = open(cfg["out"], "ab", buffering=0)
    put = lambda **k: out.write((json.dumps(k) + "\n").encode())
    job = cfg["job"]
    ctx = mod.setup(job, cfg)
    pnum = int(cfg["pid"][1:])
    gnum = int(hashlib.sha1((job.get("flavour", "plain") + job.get("group", "")).encode()).hexdigest()[:6], 16)
    core = getattr(ctx, "core", None)
    nviol = 0
    rng_range = range(cfg["start"], job["n"]) if cfg["only"] is None else [cfg["only"]]
    for i in rng_range:
        put(k="S", i=i)
        rng = np.random.default_rng([cfg["seed"], pnum, gnum, job["shard"], i])
        rec = dict(k="R", i=i)
        try:
            info = mod.case(ctx, rng, i) or {}
            rec.update(n=info.get("n", 1), count=info.get("count", {}))
            if info.get("keys"):
                rec["keys"] = [hashlib.sha1(str(x).encode()).hexdigest()[:12] for x in info["keys"]]
            if info.get("sample") and i < 40:
                rec["sample"] = str(info["sample"])[:600]
            if info.get("viol"):
                rec["viol"] = [dict(key=v.key, msg=v.msg[:3000], data=v.data or None) for v in info["viol"]]
        except vc.Violation as v:
            rec.update(n=1, viol=[dict(key=v.key, msg=v.msg[:3000], data=json.loads(json.dumps(v.data, default=str)) or None)])
        except vc.Inconclusive as e:
            rec.update(inc=str(e)[:300])
        except Exception as e:
            tb = traceback.format_exc()
            w = lib_exception(e, cfg)
            what = getattr(ctx, "what", "")
            if w and not getattr(mod, "NO_LIB_EXC", False):
                key = "%s%s:exception:%s" % (what and what + ":", w, type(e).__name__)
                rec.update(n=1, viol=[dict(key=key, msg="an accepted call failed or returned something unusable: " + tb[-2500:])])
            else:
                rec.update(harness=tb[-2500:])
            if hasattr(mod, "recover"):
                mod.recover(ctx)
        nviol += len(rec.get("viol", []))
        put(**rec)
        if nviol > 40:
            break
    fin = dict(k="E")
    if hasattr(mod, "finish"):
        fin.update(mod.finish(ctx) or {})
    if core is not None:
        fin["stats"] = dict(core.stats(), **fin.get("stats", {}))
        fin["codelets"] = sorted(core.codelets())
    put(**fin)
    out.close()
    sys.stdout.flush()
    if core is not None and job.get("clean_exit", False):
        core.stop()
    # process teardown is a property of its own (P19); other checks leave at once
    os._exit(0)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
