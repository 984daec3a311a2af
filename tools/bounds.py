"""Writes BOUNDS.md: every harness with its bounds and parameters, and what the last run took."""
import glob, importlib, json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run


def main():
    out = ["# Bounds of every harness", "", "Generated by `tools/bounds.py`; `quick` and `thorough` are the parameters of each configuration that is explored completely.", ""]
    for f in sorted(glob.glob(os.path.join(HERE, "props", "c[0-9]*.py"))):
        pid = os.path.basename(f)[:-3].upper()
        pidfd = os.popen(f"cd {HERE} && /opt/venv/bin/python tools/bounds.py {pid}").read()
        out.append(pidfd)
    with open(os.path.join(HERE, "BOUNDS.md"), "w") as f:
        f.write("\n".join(out))


def one(pid):
    mod, reg = run.load(pid, "plain")
    print(f"## {pid}: {mod.__doc__.strip().splitlines()[0]}\n")
    for h in reg:
        print(f"- **{h.name}**: {' '.join(h.bounds.split())}.  quick: `{h.params('quick')}`; thorough: `{h.params('thorough')}`; must reach: {', '.join(h.covers)}")
    for a in getattr(mod, "ASSUMPTIONS", ()):
        print(f"- assumption: {a}")


if len(sys.argv) > 1:
    one(sys.argv[1])
    sys.stdout.flush()
    os._exit(0)
main()
