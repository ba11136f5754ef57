"""Generate, confirm and (optionally) check seeded bugs.

usage: gen.py [--keep] [--only SUBSTR ...] make     confirm each bug and write /verif/seeded/<id>
       gen.py [--only ...] check [--tier quick]     run the property's check against each seeded bug
"""
import sys
sys.dont_write_bytecode = True
import json, os, shutil, subprocess, textwrap, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"
PY = "/opt/venv/bin/python"
BASE = "148652b"
# The existing tests notice these already: not kept in /verif/seeded
NOTICED_BY_TESTS = {
    "c01-plugin-from-client",
    "c02-optimistic-any-plugin",
    "c03-251-columns",
    "c03-execute-eof",
    "c04-exact-multiple",
    "c04-header-split",
    "c04-read-exact-multiple",
    "c05-bitmap-size",
    "c05-infer-date-order",
    "c06-float-fixed",
    "c06-unsigned-flag",
    "c07-resync",
    "c08-middleware-class-level",
    "c08-parse-cache",
    "c09-kill-id-31-bit",
    "c14-falsy-values",
    "c17-eight-attributes",
    "c17-no-params-no-attrs",
    "c17-uint3-shift",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch(name):
    d = f"/tmp/seedwt/{name}"
    os.makedirs("/tmp/seedwt", exist_ok=True)
    if os.path.exists(d):
        shutil.rmtree(d)
    sh(["cp", "-a", REPO, d])
    return d


def write_demo(bug, d):
    shutil.copy(os.path.join(HERE, "mini.py"), d)
    body = textwrap.dedent(bug.demo).strip("\n")
    code = '"""' + bug.id + ': ' + bug.needs + '"""\nimport os, sys\n'
    code += "sys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
    code += "from mini import *\nfrom mini import _auth, _results, _types\n\n"
    code += textwrap.dedent(bug.prelude)
    code += "\n\nasync def main():\n" + textwrap.indent(body, "    ") + "\n\n\nrun(main)\n"
    open(os.path.join(d, "demo.py"), "w").write(code)
    p = os.path.join(d, "demo.sh")
    open(p, "w").write('#!/bin/bash\n# exit 0: the property holds, nonzero: it is broken\n'
                       'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                       'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
                       'exec timeout 200 "$PY" "$(dirname "$0")/demo.py"\n')
    os.chmod(p, 0o755)
    json.dump({"property": bug.prop, "needs": bug.needs, "what_it_breaks": bug.breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def added_lines(path):
    """line numbers of HEAD's version that were added by our own commits"""
    out = sh(["git", "-C", REPO, "blame", "-s", "HEAD", "--", path]).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if not l.lstrip("^").startswith(BASE)}


def check_lines(diff):
    path, new, orig, n = None, 0, 0, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
            added = added_lines(path)
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and path and not l.startswith("---"):
            if n in added:
                new += 1
            else:
                orig += 1
            n += 1
        elif l.startswith(" "):
            n += 1
    return orig, new


def make(bug):
    d = scratch(bug.id)
    try:
        for f, old, new in bug.edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{bug.id}: EDIT does not apply ({s.count(old)} matches) in {f}: {old[:80]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", d, "diff"]).stdout
        orig, new = check_lines(diff)
        out = os.path.join(SEEDED, bug.id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        write_demo(bug, out)
        tmp = f"/tmp/seedwt/demo-{bug.id}"
        if os.path.exists(tmp):
            shutil.rmtree(tmp)
        shutil.copytree(out, tmp)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(tmp, f))
        clean = sh(["bash", tmp + "/demo.sh"], cwd=REPO)
        bad = sh(["bash", tmp + "/demo.sh"], cwd=d)
        shutil.rmtree(tmp)
        msgs = []
        if clean.returncode:
            msgs.append("CLEAN DEMO FAILS: " + clean.stdout[-700:])
        if not bad.returncode:
            msgs.append("PATCHED DEMO PASSES")
        if not orig:
            msgs.append("NO ORIGINAL LINE CHANGED")
        last = (bad.stdout.strip().splitlines() or [""])[-1][:100]
        return (bug, d, msgs, f"orig={orig} new={new} patched: {last}")
    except Exception as e:
        return f"{bug.id}: {e!r}"


def main():
    args = sys.argv[1:]
    only = []
    while args and args[0].startswith("--only"):
        only.append(args[1])
        args = args[2:]
    from specs import BUGS
    bugs = [b for b in BUGS if b.id not in NOTICED_BY_TESTS and (not only or any(o in b.id for o in only))]
    assert len({b.id for b in BUGS}) == len(BUGS)
    if args[0] == "make":
        results = []
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(make, bugs):
                if isinstance(r, str):
                    print(r, flush=True)
                    continue
                bug, d, msgs, info = r
                print(bug.id, info, "|", " ".join(msgs), flush=True)
                results.append(r)
    elif args[0] == "tests":
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else json.load(open("/opt/vp/BASELINE.json")))
        for bug in bugs:
            patch = os.path.join(SEEDED, bug.id, "patch.diff")
            if not os.path.exists(patch):
                print(bug.id, "no patch"); continue
            assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip()
            r = sh(["git", "-C", REPO, "apply", patch])
            if r.returncode:
                print(bug.id, "does not apply"); continue
            try:
                r = sh(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"])
                print(bug.id, r.stdout.strip().splitlines()[-1], flush=True)
            finally:
                sh(["git", "-C", REPO, "checkout", "--", "."])
    elif args[0] == "check":
        tier = args[2] if len(args) > 2 else "quick"
        prop = None
        for bug in bugs:
            patch = os.path.join(SEEDED, bug.id, "patch.diff")
            if not os.path.exists(patch):
                continue
            d = scratch("chk-" + bug.id)
            sh(["git", "-C", d, "apply", patch])
            import time
            t = time.time()
            cid = bug.prop.lower()
            try:
                r = subprocess.run(["./check", cid, "--tier", tier], cwd=VERIF, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1000)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print(bug.id, "rc", r.returncode, f"{time.time()-t:.0f}s", "CAUGHT" if r.returncode == 1 and v else "MISSED", (v or r.stdout.strip().splitlines()[-1:] or [""])[0][:160], flush=True)
            except subprocess.TimeoutExpired:
                print(bug.id, "TIMEOUT", flush=True)
            shutil.rmtree(d)


main()
