"""The litmus suite: small programs whose outcomes under the virtual runtime (all of them, explored) must be exactly
those the language and library documentation allow, and include all that the native runtime shows."""
import json, os, shutil, subprocess, tempfile
from verif import VERIF, ENV, Failed, sh


def run(quiet=False):
    d = tempfile.mkdtemp(prefix="vlitmus-")
    try:
        mc, lit = os.path.join(VERIF, "mc"), os.path.join(VERIF, "litmus")
        src, gen = os.path.join(d, "src"), os.path.join(d, "gen")
        os.makedirs(gen)
        sh(["go", "build", "-o", os.path.join(d, "instr"), "./cmd/instr"], mc)
        sh(["go", "build", "-o", os.path.join(d, "native"), "./native"], lit)
        os.makedirs(src)
        shutil.copytree(os.path.join(lit, "prog"), os.path.join(src, "prog"))
        shutil.copy(os.path.join(lit, "go.mod"), src)
        sh([os.path.join(d, "instr"), "-src", src, "-out", gen, "verif.local/litmus/...=mem=."], src)
        shutil.copytree(os.path.join(lit, "mc"), os.path.join(gen, "zzmc"))
        open(os.path.join(gen, "go.mod"), "w").write("module verif.local/litmus\n\ngo 1.21\n\nrequire verif.local/mc v0.0.0\nreplace verif.local/mc => %s\n" % mc)
        sh(["go", "build", "-o", os.path.join(d, "mc"), "./zzmc"], gen)
        scratch = dict(ENV, TMPDIR=d)
        nat = json.loads(subprocess.run([os.path.join(d, "native")], cwd=d, env=scratch, capture_output=True, text=True, timeout=300, check=True).stdout)
        res = json.loads(subprocess.run([os.path.join(d, "mc")], cwd=d, env=scratch, capture_output=True, text=True, timeout=600, check=True).stdout)
    except (subprocess.SubprocessError, ValueError) as e:
        raise Failed("litmus: %s %s" % (e, getattr(e, "stderr", "") or ""))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = []
    ex = st = 0
    for n in sorted(set(nat) | set(res)):
        if n not in nat or n not in res:
            bad.append("%s: not run on both sides" % n)
            continue
        r = res[n]
        got = {o[:-1] if o.endswith(";") else o for o in r["Outcomes"]}
        ex, st = ex + r["Executions"], st + r["States"]
        if r["Error"]:
            bad.append("%s: %s" % (n, r["Error"]))
        elif not r["Exhaustive"]:
            bad.append("%s: not exhaustive" % n)
        elif r["Want"] is None and len(got) != 1:
            bad.append("%s: several outcomes: %s" % (n, sorted(got)))
        elif r["Want"] is not None and got != set(r["Want"]):
            bad.append("%s: model allows %s, documentation %s" % (n, sorted(got), sorted(r["Want"])))
        else:
            extra = set(nat[n]) - got - set(r["Late"] or [])
            if extra:
                bad.append("%s: the native runtime shows %s, the model only %s" % (n, sorted(extra), sorted(got)))
    return bad, {"programs": len(res), "executions": ex, "native_runs": sum(sum(v.values()) for v in nat.values())}


def main():
    bad, n = run()
    for b in bad:
        print("litmus: " + b)
    print("litmus: %d programs, %d model executions, %d native runs, %d differences" % (n["programs"], n["executions"], n["native_runs"], len(bad)))
    return 1 if bad else 0
