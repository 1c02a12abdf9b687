"""The Fibonacci example and its command line."""
import contextlib, io, logging, random, re, runpy, sys
from hcommon import attempt, emit, guard
from ellalgo import skeleton


def val(n, ev):
    ok, v = attempt(skeleton.fib, n)
    return dict(ev=ev, n=n, err="" if ok else str(v), int=ok and isinstance(v, int), v=str(v) if ok and isinstance(v, int) else "nan")


def cli(args, n, how):
    buf = io.StringIO()
    err = ""
    for h in list(logging.root.handlers):
        logging.root.removeHandler(h)
    old = sys.argv
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()), guard(5.0):
            if how == "run":
                sys.argv = ["fibonacci"] + args
                skeleton.run()
            elif how == "module":       # python -m ellalgo.skeleton
                sys.argv = ["skeleton"] + args
                runpy.run_module("ellalgo.skeleton", run_name="__main__")
            else:
                skeleton.main(args)
    except BaseException as e:
        err = type(e).__name__
    finally:
        sys.argv = old
    text = "\n".join(s for s in buf.getvalue().splitlines() if not re.match(r"^\[\d\d\d\d-", s))
    return dict(ev="cli", n=n, err=err, nums=re.findall(r"(?<![\w.])\d+(?![\w.-])", text))


def go(seed, top):
    rnd = random.Random(seed)
    out = [[val(n, "fib") for n in range(1, top + 1)]]
    rest = [val(n, "bad") for n in (0, -1, -2, -7)]
    rest += [val(n, "far") for n in (rnd.randint(500, 1500), 2000)]
    for flags in ([], ["-v"], ["-vv"], ["--verbose"], ["--very-verbose"]):
        for how in ("main", "run", "module"):
            n = rnd.randint(1, 200)
            a = [str(n)] + flags if rnd.random() < 0.5 else flags + [str(n)]
            rest.append(cli(a, n, how))
    for n in (1, 2, 3, 90, 100, rnd.randint(200, 600), rnd.randint(600, 1000), 1500):
        rest.append(cli([str(n)], n, "main"))
    for a in (["x"], [], ["3.5"], ["0"], ["--", "-3"]):
        e = cli(a, 1, "main")
        rest.append(dict(ev="badcli", n=1, err=e["err"]))
    out.append(rest)
    return out


if __name__ == "__main__":
    emit(go(int(sys.argv[3]), int(sys.argv[4])))
