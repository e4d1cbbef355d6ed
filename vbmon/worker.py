import importlib
import json
import os
import sys
import time


def watch_lines(root):
    """Lines of the library this process executes (each is reported once)."""
    seen = set()
    mon = sys.monitoring

    def line(code, no):
        if code.co_filename.startswith(root):
            seen.add((code.co_filename[len(root):], no))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "vbmon")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return seen


def main():
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    first, step, total, soft = int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7]), float(sys.argv[8])
    known = json.loads(sys.argv[9])
    t0 = time.monotonic()
    f = open(out, "a", buffering=1)
    try:
        from vbmon import ctx
        lines = watch_lines(os.path.join(os.environ.get("VB_REPO", "/repo"), "VolterraBasis") + os.sep)
        import VolterraBasis
        import VolterraBasis.basis
        import VolterraBasis.fkernel as fk

        repo = os.environ.get("VB_REPO", "/repo")
        assert VolterraBasis.__file__.startswith(repo + os.sep), VolterraBasis.__file__
        assert fk.__file__ == os.environ["VB_FKERNEL_SO"], fk.__file__
        mod = importlib.import_module("vbmon.props." + prop.lower())
    except BaseException:
        import traceback

        f.write(json.dumps({"fatal": traceback.format_exc()[-3000:]}) + "\n")
        sys.exit(3)
    for idx in range(first, total, step):
        if time.monotonic() - t0 > soft:
            f.write(json.dumps({"soft_stop": idx}) + "\n")
            break
        f.write(json.dumps({"start": idx}) + "\n")
        t = time.monotonic()
        res = ctx.run_case(mod, prop, idx, seed, tier, known)
        res["t"] = time.monotonic() - t
        f.write(json.dumps({"end": idx, "res": res}) + "\n")
    f.write(json.dumps({"lines": sorted(lines)}) + "\n")
    f.write(json.dumps({"done": first}) + "\n")
    f.close()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
