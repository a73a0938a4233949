"""Builds the real program from /repo's working tree for replays and for the bounded stand-ins."""
import glob
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from . import front

HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = ["-Wl,--wrap=random_init"]


class Native:
    """scratch directory with object files and binaries of the current tree"""

    def __init__(self, seed=1, tier="quick"):
        self.repo = front.REPO
        self.seed, self.tier = seed, tier
        self.dir = tempfile.mkdtemp(prefix="ecv_nat_")
        self.rng = random.Random(seed)
        self.built = {}
        self.cases = 0
        self.fails = []       # (key, text)
        self.notes = []
        self.samples = []
        self.deadline = time.time() + 300

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------ building
    def objects(self, asan=False):
        key = ("obj", asan)
        if key in self.built:
            return self.built[key]
        d = os.path.join(self.dir, "asan" if asan else "plain")
        os.makedirs(d, exist_ok=True)
        srcs = front.sources(self.repo) + [self.repo + "/lib/parson/parson.c", os.path.join(HERE, "harness", "wrap.c")]
        fl = ["-w", "-g", "-D_GNU_SOURCE", "-DNDEBUG", '-DGIT_COMMIT="x"', "-I" + self.repo + "/src", "-I" + self.repo + "/lib", "-Dmain=ecgen_main"]
        fl += ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"] if asan else ["-O2"]

        def one(s):
            o = os.path.join(d, s.strip("/").replace("/", "_") + ".o")
            r = subprocess.run(["gcc"] + fl + ["-c", s, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise front.BuildError("%s: %s" % (s, r.stderr[-1500:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        self.built[key] = objs
        return objs

    def harness(self, csrc, asan=True):
        """executable from a C harness linked with the real code"""
        objs = self.objects(asan)
        weak = re.findall(r"WEAKEN: ([\w ]+)", open(csrc).read())
        if weak:
            # functions the harness replaces to observe their arguments
            no = []
            for o in objs:
                w = o[:-2] + "_" + os.path.basename(csrc)[:-2] + ".o"
                subprocess.run(["objcopy"] + ["--weaken-symbol=" + x for x in weak[0].split()] + [o, w], check=True)
                no.append(w)
            objs = no
        exe = os.path.join(self.dir, os.path.basename(csrc)[:-2] + ("_asan" if asan else ""))
        cmd = ["gcc", "-w", "-g", "-D_GNU_SOURCE", "-DNDEBUG", "-I" + self.repo + "/src", "-I" + self.repo + "/lib", "-I" + os.path.join(HERE, "harness"),
               "-O1"] + (["-fsanitize=address"] if asan else []) + [csrc] + objs + WRAP + ["-o", exe, "-lrt", "-lpari", "-lpthread", "-lm"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise front.BuildError(r.stderr[-2000:])
        return exe

    def ecgen(self, asan=False):
        key = ("cli", asan)
        if key not in self.built:
            m = os.path.join(self.dir, "m.c")
            open(m, "w").write("int ecgen_main(int,char**);int main(int c,char**v){return ecgen_main(c,v);}\n")
            objs = self.objects(asan)
            exe = os.path.join(self.dir, "ecgen" + ("_asan" if asan else ""))
            r = subprocess.run(["gcc", "-w", m] + (["-fsanitize=address"] if asan else []) + objs + WRAP + ["-o", exe, "-lrt", "-lpari", "-lpthread", "-lm"],
                               capture_output=True, text=True)
            if r.returncode:
                raise front.BuildError(r.stderr[-2000:])
            self.built[key] = exe
        return self.built[key]

    # ------------------------------------------------------------ running
    def run(self, cmd, timeout=30, stdin="", seed=None, env=None):
        """returns (rc or None on timeout, stdout, stderr)"""
        e = dict(os.environ)
        e["ECV_SEED"] = str(self.seed if seed is None else seed)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1"
        e.update(env or {})
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir, env=e,
                                 start_new_session=True, text=True, errors="replace")
        except OSError as x:
            return None, "", str(x)
        try:
            out, err = p.communicate(stdin, timeout=timeout)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            return None, out, err

    def cli(self, args, timeout=30, stdin="", seed=None, asan=False, memory="200M"):
        """runs the real ecgen; returns (rc, stdout, stderr)"""
        a = list(args)
        if not any(x.startswith("--memory") or x == "-m" for x in a):
            a.append("--memory=" + memory)
        return self.run([self.ecgen(asan)] + a, timeout, stdin, seed)

    def gp(self, script, timeout=60):
        rc, out, err = self.run(["gp", "-q", "-f", "--default", "parisize=200M"], timeout, script)
        return rc, out, err

    def fail(self, key, text):
        self.fails.append((key, text))

    def case(self, sample=None):
        self.cases += 1
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def left(self):
        return self.deadline - time.time()

    def c_harness(self, name, timeout=60, asan=True, args=()):
        """runs harness/<name>.c: lines 'FAIL key: text', 'CASES n', 'SAMPLE text'"""
        exe = self.harness(os.path.join(HERE, "harness", name + ".c"), asan)
        rc, out, err = self.run([exe, str(self.seed), "1" if self.tier == "thorough" else "0"] + list(args), timeout)
        done = False
        last = ""
        for l in out.splitlines():
            if l.startswith("FAIL "):
                k, _, t = l[5:].partition(":")
                self.fail(k.strip(), t.strip())
            elif l.startswith("CASES "):
                self.cases += int(l[6:])
            elif l.startswith("SAMPLE "):
                if len(self.samples) < 6:
                    self.samples.append(l[7:])
            elif l.startswith("AT "):
                last = l[3:]
            elif l == "DONE":
                done = True
        if rc is None:
            self.notes.append("%s: stopped after %ds (%s)" % (name, timeout, last))
            self.timed_out = True
        elif not done:
            self.fail("crash", "%s ended with status %s at %s: %s" % (name, rc, last, err[-1500:]))
        return rc
