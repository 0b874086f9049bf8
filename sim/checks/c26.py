"""The shell wrappers load-env.sh and gen-config.sh: real bash, simulated tools that fail, are killed or signal the shell."""
import os
import shutil
import signal
import subprocess

from .. import access as A
from .. import target
from ..base import Check
from ..world import Violation, REAL
from .c13 import delta

SRC = ["@/src", "@/src", "../src", "../src/", ".", "@/cwd/../src", "@/src/sub-dir.d"]
NOSRC = ["@/src/CMakeLists.txt", "@/nosuch", "src", "@/src/fifo"]
CMAKE_ARGS = ["-DX={n} -DY=b", "-DX={n}", "", "-DX={n} \\\n    -DY=b \\\n    -DZ=c", "-DX={n} -DY=", "-GNinja -DX:STRING={n}"]
BASH = shutil.which("bash", path="/usr/local/bin:/usr/bin:/bin")
ENVBIN = shutil.which("env", path="/usr/bin:/bin")
TOOLS = ["cat", "dirname", "basename", "expr", "mktemp", "readlink", "realpath", "sed", "grep", "tr", "head", "tail", "mkdir", "id", "whoami",
         "env", "date", "touch", "mv", "cp", "ls", "tty", "seq", "sort", "uname", "true", "false", "test", "printf", "awk", "wc", "cut",
         "ln", "stat", "tee", "xargs", "find", "chmod", "echo", "pwd", "sleep0", "rmdir"]
NOBODY = 65534
USERVARS = ["PATH_TO_SRC", "ENV_FILE", "CI_MODE", "PYTHONPATH", "MODULEPATH", "CC", "MPICC", "BUILD_NAME", "ENV_NAME", "LOAD_ENV_ARGS", "RET", "SCRIPT_DIR",
            "CMAKE_ARGS", "SIMOTHER", "RET_GC", "CMAKE_ARGS_FILE", "env", "build_name", "args", "i", "f"]
# the caller's own shell variables, not exported: a file, a path or a number
SHELLVARS = ["env_file", "load_matching_env_loc", "ret", "ret_gc", "path_to_src", "cmake_args_file", "ci_mode", "script_dir", "cmake_args", "status",
             "load_env_call_args", "python_too_old", "gen_config_py_call_args", "env_file_rc", "kind", "name", "file", "build", "src"]
VOLATILE = {"_", "SHLVL", "OLDPWD", "PWD"}
APP = {}

PY = '''#!%(bash)s
S=%(root)s
case "$1" in
  -c) printf '%%s\\n' "$(<$S/ver)"; exit 0;;
  --version|-V) echo "Python 3.x"; exit 0;;
esac
cmargs=$(<$S/cmargs)
n=$(<$S/n); printf '%%s' $((n+1)) > $S/n
printf 'TOOL'  >> $S/log; printf '\\t%%s' "$@" >> $S/log; printf '\\n' >> $S/log
kind=gen; loc=; save=; frag=
while [ $# -gt 0 ]; do
  case "$1" in
    */load_env.py) kind=load;;
    --help) exit 0;;
    --load-matching-env-location) loc=$2; shift;;
    --load-matching-env-location=*) loc=${1#*=};;
    --save-load-env-args) kind=save; save=$2; shift;;
    --save-load-env-args=*) kind=save; save=${1#*=};;
    --cmake-fragment|--cmake-fragment=*) frag=1;;
  esac
  shift
done
publish() {
  case $kind in
    load)
      f=$S/u/load_matching_env_$(<$S/cur)_$n.sh
      [ "$1" = ok ] && printf '%%s\\n' "printf 'SOURCED\\t$n\\t%%s\\n' \\$\\$ >> $S/log" "export SIMV=v$n" "export LOADED_ENV_NAME=env$n" > $f
      [ "$1" != none ] && [ -n "$loc" ] && printf '%%s' "$f" > "$loc";;
    save) printf '%%s' "$(<$S/leargs)" > "$save";;
    gen) if [ -z "$frag" ]; then printf '%%s' "${cmargs//'{n}'/$n}" > $S/u/bash_cmake_args_$n; printf '%%s' "$S/u/bash_cmake_args_$n" > $S/u/.bash_cmake_args_loc; fi;;
  esac
}
r=$S/run.$(<$S/cur).$n
if [ -f $r ]; then . $r; else publish ok; exit 0; fi
'''

RM = '''#!%(bash)s
S=%(root)s
opts=()
[ -f $S/rmfail ] && exit 1
for a in "$@"; do
  case "$a" in
    -*) opts+=("$a"); continue;;
    /*) p=$a;;
    *) p=$PWD/$a;;
  esac
  case "$p" in
    *..*) printf 'ESCAPE\\t%%s\\n' "$p" >> $S/log;;
    $S/cwd/*|$S/u/*|$S/home/*) /bin/rm "${opts[@]}" -- "$a";;
    *) printf 'ESCAPE\\t%%s\\n' "$p" >> $S/log;;
  esac
done
'''

WHICH = '''#!%(bash)s
while [ "${1#-}" != "$1" ]; do shift; done
IFS=:
for d in $PATH; do [ -x "$d/$1" ] && { echo "$d/$1"; exit 0; }; done
exit 1
'''

HELPER = '''gen_config_helper() { printf 'HELPER\\t%%s\\n' $$ >> %(root)s/log; }
declare -x -f gen_config_helper
'''


def demote():
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGQUIT):
        signal.signal(s, signal.SIG_DFL)
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        pass


def app():
    """The wrappers of the working tree: {name in the installation: bytes}."""
    if not APP:
        for pre, d in (("", "wip/genconfig"), ("LoadEnv/", "wip/loadenv")):
            d = os.path.join(target.REPO, d)
            for n in sorted(os.listdir(d)):
                p = os.path.join(d, n)
                if n.endswith(".sh") and os.path.isfile(p):
                    with REAL["open"](p, "rb") as f:
                        APP[pre + n] = f.read()
    return APP


def gen_tool(rng, kind, p_fail):
    o = {"rc": 0, "sig": "", "to": "", "pub": "ok"}
    if rng.random() < p_fail:
        q = rng.random()
        if q < 0.45:
            o["rc"] = rng.choice([1, 2, 3, 77, 255])
        elif q < 0.6:
            o["sig"] = rng.choice(["KILL", "TERM", "SEGV"])
        elif q < 0.85:
            o["to"] = rng.choice(["INT", "TERM", "HUP", "KILL"])
            o["rc"] = rng.choice([0, 0, 1, 130])
        elif kind == "load":
            o["pub"] = rng.choice(["missing", "none"])
        else:
            o["rc"] = 1
        if o["rc"] or o["sig"] or o["to"]:
            o["pub"] = rng.choice(["ok", "no", "no"])
    return o


class C26(Check):
    id = "C26"
    quick_n = 2000
    thorough_n = 60000
    quick_wall = 110.0
    cpu_limit = 60.0
    rule = "session in which a tool failed, was killed, published nothing or a wrong location, or the shell was signalled or killed"
    real = ["wip/loadenv/load-env.sh, wip/genconfig/gen-config.sh in real bash (single threaded, random numbers seeded)"]
    stub = ["python3 (load_env.py, gen_config.py), cmake, sleep, which", "rm (contained in the scratch directory)", "/tmp/$USER"]

    def gen(self, rng, tier):
        runs = []
        for _ in range(rng.choice([1, 2, 2, 3] if tier == "quick" else [1, 2, 3, 4, 6])):
            p_fail = rng.choice([0.0, 0.5, 0.5, 0.9])
            r = {"tool": rng.choice(["load", "load", "gen"]), "ci": rng.random() < 0.6, "py": rng.choice(["ok"] * 14 + ["old", "missing"]),
                 "inter": rng.random() < 0.05}
            words = [rng.choice(["gnu", "intel_opt", "--force", "-o", "my.sh", "--rc"]) for _ in range(rng.randrange(0, 3))] + [rng.choice(["build_a", "build_b", "build_c", "ci", "ci-mode_x", "cinder_gcc", "a-ci-b", "no-ci_mode"])]
            if r["ci"]:
                words.insert(rng.randrange(len(words) + 1), "--ci-mode")
            if r["tool"] == "load":
                r["args"] = [] if rng.random() < 0.04 else words
                r["out"] = [gen_tool(rng, "load", p_fail)]
            else:
                q = rng.random()
                if q < 0.05:
                    r["args"] = []
                elif q < 0.1:
                    r["args"] = words + ["--help"]
                elif q < 0.2:
                    r["args"] = words
                elif q < 0.45:
                    r["args"] = ["--cmake-fragment", "frag.cmake"] + words
                else:
                    r["args"] = words + [rng.choice(SRC * 4 + NOSRC)]
                k = rng.randrange(3)
                r["out"] = [gen_tool(rng, t, p_fail if i == k else 0.1) for i, t in enumerate(["gen", "save", "load"])]
                r["cmake"] = rng.choice([0, 0, 1])
                r["cmargs"] = rng.choice(CMAKE_ARGS[:1] * 3 + CMAKE_ARGS)
            runs.append(r)
        if len(runs) > 1 and rng.random() < 0.35:
            # a run that dies or fails after it has published, before one that publishes nothing or a location without script
            k = rng.randrange(len(runs) - 1)
            o = runs[k]["out"][-1]
            o.update(rc=rng.choice([0, 1]), sig="", to=rng.choice(["KILL", "KILL", "TERM", "INT", ""]), pub="ok")
            runs[k + 1]["out"][-1].update(rc=0, sig="", to="", pub=rng.choice(["none", "missing"]))
        if len(runs) > 1 and rng.random() < 0.12:
            # a configuration that dies half-way, before one that only writes a fragment
            k = rng.randrange(len(runs) - 1)
            runs[k].update(tool="gen", args=["build_a", "@/src"], py="ok", inter=False, cmargs="-DOLD=1",
                           out=[gen_tool(rng, "gen", 0), dict(gen_tool(rng, "save", 0), to=rng.choice(["KILL", "KILL", "TERM", "HUP"])), gen_tool(rng, "load", 0)])
            runs[k + 1].update(tool="gen", args=["--cmake-fragment", "frag.cmake", "build_b"], py="ok", inter=False, cmargs="-DNEW=1",
                               out=[gen_tool(rng, t, 0.1) for t in ("gen", "save", "load")])
        return {"runs": runs, "helper": rng.random() < 0.3, "rmfail": rng.random() < 0.06, "seed": rng.randrange(30000),
                "files": rng.sample(["cwd/rc", "cwd/sh", "cwd/notes", "u/rc", "u/keep", "u/kerc", "cwd/notrc", "home/src", "cwd/env.sh", "home/rc", "cwd/.hidden", "u/my.sh", "cwd/.load_env_args",
                                     "cwd/my.sh", "cwd/frag.cmake", "u/.profile", "u/.other", "u/load_matching_env_x.sh", "u/other.rc", "u/a/deep.sh", "u/.load_env",
                                     "cwd/load_matching_env.sh", "home/.bashrc", "cwd/a b.sh", "u/bash_cmake_args", "cwd/bash_cmake_args_1", "src/CMakeLists.txt",
                                     "u/.ci_mode_notes", "u/.ci_mode.bak", "u/.load_matching_env_loc.bak", "u/.load_matching_env_loc2", "u/.load_env_args.old",
                                     "u/.bash_cmake_args_loc.old", "cwd/.load_matching_env_loc", "cwd/.load_matching_env_loc.x", "cwd/.bash_cmake_args_loc",
                                     "home/.load_env_args", "cwd/.ci_mode", "src/load-env.rc", "src/a.sh"],
                                    rng.randrange(2, 10)),
                "debris": rng.sample(["u/.ci_mode", "u/.load_matching_env_loc", "u/.load_env_args", "u/.bash_cmake_args_loc"],
                                     rng.randrange(1, 4) if rng.random() < 0.15 else 0),
                "shell": {v: rng.choice(["@/cwd/notes", "@/home/rc", "@/src", "@/u/keep", "1", "0", "True", "77"])
                          for v in (rng.sample(SHELLVARS, rng.randrange(1, 9)) if rng.random() < 0.4 else [])},
                "vars": {v: rng.choice(["1", "", "a b", "True", "/x:/y"]) for v in rng.sample(USERVARS, rng.randrange(0, 5))}}

    def environ(self, case, w):
        return None

    # -------------------------------------------------------------- model of one run
    def model(self, r):
        """What the run must do: tool kinds in order, sourced ('', here, sub), status (0, 1 or None), died, helper."""
        out = iter(r["out"])
        m = {"tools": [], "sourced": "", "status": 1, "died": False, "helper": False}
        args = r["args"]

        def tool(kind):
            """True if the run goes on after this tool."""
            m["tools"].append(kind)
            o = next(out, {"rc": 0, "sig": "", "to": "", "pub": "ok"})
            m["last"] = o
            if o["to"] == "KILL":
                m["died"] = True
            return not (o["rc"] or o["sig"] or o["to"])

        def load():
            if not tool("load"):
                return
            if m["last"]["pub"] == "ok":
                m.update(sourced="here" if r["ci"] else "sub", status=0, helper=True)
            elif m["last"]["pub"] == "none":
                m["status"] = None

        if r["tool"] == "load":
            if r["inter"] or r["py"] != "ok":
                return m
            if not args:
                m["tools"].append("help")
                m["status"] = None
                return m
            load()
            return m
        if r["py"] != "ok":
            return m
        if not args or "--help" in args:
            m["tools"].append("help")
            m["status"] = None
            return m
        if args[-1] not in SRC and "--cmake-fragment" not in args:
            return m
        if tool("gen") and tool("save"):
            if not r["inter"]:
                load()
        return m

    # -------------------------------------------------------------- execution
    def install(self, case, w):
        sub = {"bash": BASH, "root": w.root}
        with w:
            for d in ("bin", "bin2", "cwd", "u", "home", "src/sub-dir.d", "app"):
                os.makedirs(w.path(d), exist_ok=True)
            for t in TOOLS:
                p = shutil.which(t, path="/usr/bin:/bin")
                if p:
                    for b in ("bin", "bin2"):
                        os.symlink(p, w.path(f"{b}/{t}"))
        for n, b in app().items():
            w.put("app/" + n, b)
        for b in ("bin", "bin2"):
            w.put(b + "/rm", RM % sub)
            w.put(b + "/which", WHICH % sub)
            w.put(b + "/sleep", f"#!{BASH}\n")
            w.put(b + "/cmake", f"#!{BASH}\nprintf 'CMAKE' >> {w.root}/log; printf '\\t%s' \"$@\" >> {w.root}/log; printf '\\n' >> {w.root}/log\n"
                  f"exit $(<{w.root}/cmakerc)\n")
        w.put("bin/python3", PY % sub)
        for n in case["files"]:
            w.put(n, "content of " + n + "\n")
        for n in case["debris"]:        # of an older run: the wrappers may remove or reuse them
            w.put(n, w.path("u/stale") if "loc" in n else "stale")
        w.put("log", "")
        w.put("n", "0")
        if case["rmfail"]:
            w.put("rmfail", "")
            w.count("fault.rm.EACCES")
        with w:
            os.chmod(w.root, 0o755)
            for b in ("bin", "bin2"):
                for t in ("rm", "which", "sleep", "cmake", "python3"):
                    if os.path.exists(w.path(f"{b}/{t}")):
                        os.chmod(w.path(f"{b}/{t}"), 0o755)
            try:
                os.chown(w.root, NOBODY, NOBODY)
                for d in ("cwd", "u", "home", "src"):
                    os.chown(w.path(d), NOBODY, NOBODY)
                for n in ["log", "n"] + case["files"] + case["debris"]:
                    os.chown(w.path(n), NOBODY, NOBODY)
            except OSError:
                pass

    def session(self, case, w, first, k):
        """One shell that performs the runs from `first` on. Returns its exit status."""
        lines = [f"cd {w.path('cwd')}", f"RANDOM={case['seed'] + k}", f"printf 'SHELL\\t%s\\n' $$ >> {w.root}/log"]
        for i in range(first, len(case["runs"])):
            r = case["runs"][i]
            args = [a.replace("@", w.root) for a in r["args"]]
            script = "app/LoadEnv/load-env.sh" if r["tool"] == "load" else "app/gen-config.sh"
            lines += [f"printf {i} > {w.root}/cur",
                      f"printf 0 > {w.root}/n",
                      f"printf %s {'False' if r['py'] != 'old' else 'True'} > {w.root}/ver",
                      f"printf %s {r.get('cmake', 0)} > {w.root}/cmakerc",
                      f"cp {w.root}/cmargs.{i} {w.root}/cmargs",
                      f"printf %s '{'--ci-mode ' if r['ci'] else ''}build_x' > {w.root}/leargs",
                      f"PATH={w.path('bin2' if r['py'] == 'missing' else 'bin')}; hash -r",
                      HELPER % {"root": w.root} if case["helper"] and r["tool"] == "load" else "unset -f gen_config_helper",
                      "export LOAD_ENV_INTERACTIVE_MODE=True" if r["inter"] else "unset LOAD_ENV_INTERACTIVE_MODE",
                      *(f"{v}={x.replace('@', w.root)}" for v, x in case["shell"].items()),
                      f"printf 'BEGIN\\t{i}\\n' >> {w.root}/log",
                      f"{ENVBIN} -0 > {w.root}/before.{i}",
                      f"source {w.path(script)} " + " ".join(args),
                      "st=$?",
                      f"{ENVBIN} -0 > {w.root}/after.{i}",
                      f"{{ trap -p; declare -F; }} > {w.root}/shell.{i}",
                      f"printf 'END\\t%s\\t%s\\n' $st \"$PWD\" >> {w.root}/log",
                      f"(shopt -s nullglob dotglob globstar; cd {w.root}; printf '%s\\n' cwd/** u/** home/** src/**) > {w.root}/ls.{i}"]
        lines.append("exit 0")
        w.put("driver.sh", "\n".join(lines) + "\n")
        env = {"PATH": w.path("bin"), "HOME": w.path("home"), "USER": os.path.relpath(w.path("u"), "/tmp"), "KEEP": "untouched", "LC_ALL": "C.UTF-8",
               "TMPDIR": w.path("u"), "PWD": w.path("cwd"), **case["vars"]}
        with w:
            pr = REAL["Popen"]([BASH, "--norc", "--noprofile", w.path("driver.sh")], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, cwd=w.path("cwd"), preexec_fn=demote, start_new_session=True)
            try:
                out, _ = pr.communicate()
            finally:
                if pr.returncode is None:
                    os.killpg(pr.pid, signal.SIGKILL)
                    pr.wait()
        return pr.returncode, out

    def run(self, case, w):
        if os.path.relpath(w.path("u"), "/tmp").startswith(".."):
            raise RuntimeError("harness: the scratch directory is not below /tmp")
        self.install(case, w)
        for i, r in enumerate(case["runs"]):
            for j in range(3):
                o = r["out"][j] if j < len(r["out"]) else {"rc": 0, "sig": "", "to": "", "pub": "ok"}
                w.put(f"run.{i}.{j}", (f"publish {o['pub']}\n" if o["pub"] != "no" else "") + (f"kill -{o['to']} $PPID\n" if o["to"] else "")
                      + (f"kill -{o['sig']} $$\n" if o["sig"] else "") + f"exit {o['rc']}\n")
            w.put(f"cmargs.{i}", r.get("cmargs", ""))
        with w:
            for n in os.listdir(w.root):
                if n.startswith(("run.", "cmargs.")):
                    os.chmod(w.path(n), 0o644)
        user = {n: w.get(n) for n in case["files"]}
        first, k, self.old = 0, 0, {os.path.dirname(n) for n in case["files"]} | set(case["debris"])
        while first < len(case["runs"]):
            w.put("log", "")
            rc, out = self.session(case, w, first, k)
            k += 1
            first = self.judge(case, w, first, rc, user, out)

    # -------------------------------------------------------------- judgement
    def env_of(self, w, name):
        b = w.get(name)
        if b is None:
            return None
        e = dict(x.split("=", 1) for x in os.fsdecode(b).split("\0") if "=" in x)
        return {a: v for a, v in e.items() if a not in VOLATILE}

    def judge(self, case, w, first, rc, user, out):
        """Judges the runs of one shell; returns the index of the first run it did not get to."""
        shell, cur, runs = None, None, {}
        for l in os.fsdecode(w.get("log")).split("\n"):
            f = l.split("\t")
            if f[0] == "SHELL":
                shell = f[1]
            elif f[0] == "BEGIN":
                cur = runs[int(f[1])] = {"tools": [], "sourced": [], "helper": [], "cmake": [], "end": None}
            elif f[0] == "TOOL":
                cur["tools"].append(f[1:])
            elif f[0] == "SOURCED":
                cur["sourced"].append((f[1], "here" if f[2] == shell else "sub"))
            elif f[0] == "HELPER":
                cur["helper"].append("here" if f[1] == shell else "sub")
            elif f[0] == "CMAKE":
                cur["cmake"].append(f[1:])
            elif f[0] == "END":
                cur["end"] = (int(f[1]), f[2])
            elif f[0] == "ESCAPE":
                raise Violation("foreign-file", f"{self.what(case['runs'][max(runs)])} tries to remove {f[1]}".replace(w.root, "@"))
        for i in range(first, len(case["runs"])):
            r = case["runs"][i]
            if i not in runs:
                raise Violation("shell-ended", f"the shell ended with {rc} before run {i}: {out[-300:]!r}".replace(w.root, "@"))
            g, m = runs[i], self.model(r)
            w.steps += 8
            for o in r["out"][:len(m["tools"])]:
                for key in ("rc", "sig", "to"):
                    if o[key]:
                        w.count(f"fault.tool.{key}" + ("" if key == "rc" else "." + o[key]))
                if o["pub"] in ("missing", "none"):
                    w.count("fault.tool.published_" + o["pub"])
            w.note("run", i, r["tool"], tuple(r["args"]), g["end"] and g["end"][0], [t[2:3] and os.path.basename(t[2]) for t in g["tools"]], g["sourced"], g["helper"], len(g["cmake"]))
            over = g["end"] is None
            self.compare(case, w, i, r, g, m, rc, user)
            if over:
                w.count("fault.shell.ended")
                return i + 1
        return len(case["runs"])

    def what(self, r):
        return (f"{'load-env.sh' if r['tool'] == 'load' else 'gen-config.sh'} {' '.join(r['args'])} (python {r['py']}, inside an environment "
                f"{r['inter']}, tools {[{k: v for k, v in o.items() if v} for o in r['out']]})")

    def compare(self, case, w, i, r, g, m, rc, user):
        what = self.what(r)

        def bad(kind, text):
            raise Violation(kind, f"{what}: {text}".replace(w.root, "@"))

        kinds = []
        for t in g["tools"]:
            name = next((x for x in t if x.endswith(".py")), "")
            k = "help" if "--help" in t else "load" if name.endswith("load_env.py") else "save" if any(
                x.startswith("--save-load-env-args") for x in t) else "gen"
            kinds.append(k)
            if not os.path.realpath(name).startswith(w.path("app") + os.sep):
                bad("wrong-tool", f"ran {t}")
        died = g["end"] is None
        status = rc if died else g["end"][0]
        if not died or not m["died"]:
            if kinds != m["tools"]:
                bad("tools", f"ran {kinds}; expected {m['tools']}")
            for t, k in zip(g["tools"], kinds):
                want = r["args"] if r["tool"] == "load" else r["args"][:-1] if r["args"][-1:] and r["args"][-1] in SRC else r["args"]
                if k == "load" and r["tool"] == "gen":
                    want = (["--ci-mode"] if r["ci"] else []) + ["build_x"]
                rest = [x for x in t[next(n for n, x in enumerate(t) if x.endswith(".py")) + 1:]]
                it = iter(rest)
                if k != "help" and not all(x in it for x in want):
                    bad("arguments", f"{k} tool was given {rest}")
                if k == "load" and not any(x.startswith("--load-matching-env-location") for x in rest):
                    bad("arguments", f"{k} tool was given {rest}")
        if m["died"]:
            if g["sourced"] or g["helper"] or g["cmake"]:
                bad("loaded-after-failure", f"sourced {g['sourced']}, cmake {g['cmake']}")
        else:
            where = m["sourced"]
            n = str(len(m["tools"]) - 1)
            if g["sourced"] != ([(n, where)] if where else []):
                bad("sourced" if where else "loaded-after-failure", f"sourced {g['sourced']}; expected {[(n, where)] if where else []}")
            if r["tool"] == "load":
                want = [where] if where and case["helper"] else []
                if g["helper"] != want:
                    bad("helper", f"the helper ran {g['helper']}; expected {want}")
                if g["cmake"]:
                    bad("cmake", f"cmake {g['cmake']}")
            else:
                src = [a.replace("@", w.root) for a in r["args"][-1:] if a in SRC]
                want = [[x for x in r["cmargs"].replace("{n}", "0").split() if x != "\\"] + src] if where and src else []
                for c in g["cmake"]:        # line continuations of the printed form may arrive as words
                    c[:] = [x for x in c if x != "\\"]
                if g["cmake"] != want:
                    bad("cmake", f"cmake ran as {g['cmake']}; expected {want}")
                if g["helper"]:
                    bad("helper", f"the caller's helper ran {g['helper']}")
            if m["status"] == 0 and status != 0:
                bad("spurious-failure", f"returned {status}")
            if m["status"] == 1 and status == 0:
                bad("failure-hidden", "returned 0")
            if died:
                bad("shell-ended", f"the shell ended with {status}")
            else:
                a, b = self.env_of(w, f"before.{i}"), self.env_of(w, f"after.{i}")
                for e in (a, b):
                    for v in case["shell"]:
                        e.pop(v, None)
                    if case["helper"] and r["tool"] == "gen":
                        e.pop("BASH_FUNC_gen_config_helper%%", None)
                want = dict(a, SIMV="v" + n, LOADED_ENV_NAME="env" + n) if where == "here" else a
                if b != want:
                    bad("environment", f"changed {delta(a, b)}; expected {delta(a, want)}")
                rest = [l for l in os.fsdecode(w.get(f"shell.{i}")).splitlines() if not l.endswith(" gen_config_helper") or r["tool"] == "gen" or not case["helper"]]
                if rest:
                    bad("shell-changed", f"left {rest} in the shell")
                if g["end"][1] != w.path("cwd"):
                    bad("directory", f"left the shell in {g['end'][1]}")
        now = {n: c for n, c in w.tree().items() if n.split("/")[0] in ("cwd", "u", "home", "src")}
        for n, c in user.items():
            if now.get(n) != c:
                bad("foreign-file", f"the user's file {n} is {'gone' if n not in now else 'changed'}")
        if not died and not case["rmfail"]:
            seen = {n for n in os.fsdecode(w.get(f"ls.{i}")).split("\n") if n and not n.endswith("/")}
            left = sorted(n for n in seen if n not in user and n != "src/sub-dir.d" and n not in self.old and not n.startswith("u/bash_cmake_args_")
                          and not (n.startswith("u/load_matching_env_") and n.endswith(".sh") and not m["sourced"]))
            if left:
                bad("left-behind", f"left {left}")
            self.old |= seen
        self.old |= set(now)


CHECK = C26()
