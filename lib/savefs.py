"""Saves under strace: what they do to the file system, and what is left of it
when they are killed at, or disturbed in, any of their system calls (C07)."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess

from core import CheckError, NCPU, Violation, goenv

CALLS = ("openat,open,creat,write,pwrite64,writev,ftruncate,truncate,fallocate,fsync,fdatasync,close,rename,renameat,"
         "renameat2,link,linkat,unlink,unlinkat,symlink,symlinkat,mmap,newfstatat,lstat,copy_file_range,sendfile")
# Calls that are made to fail, and how.
FAULTS = {"openat": ["EMFILE", "EACCES"], "open": ["EMFILE"], "creat": ["ENOSPC"], "write": ["ENOSPC", "EIO"],
          "pwrite64": ["ENOSPC"], "writev": ["ENOSPC"], "ftruncate": ["EIO"], "fallocate": ["ENOSPC"], "fsync": ["EIO"],
          "fdatasync": ["EIO"], "close": ["EIO"], "rename": ["EACCES"], "renameat": ["EACCES", "ENOSPC"],
          "renameat2": ["EACCES"], "linkat": ["EACCES"], "link": ["EACCES"]}
MUST = {"write", "pwrite64", "writev", "ftruncate", "fallocate", "fsync", "fdatasync", "rename", "renameat", "renameat2"}
KILLS = set(FAULTS) | {"unlink", "unlinkat", "mmap", "truncate", "copy_file_range", "sendfile"}
LINE = re.compile(r"^(\d+\.\d+) (\w+)\((.*)\)\s+= (-?\d+|\?|0x[0-9a-f]+)(<[^>]*>)?(.*)$")


class Call:
    def __init__(self, ts, tid, name, args, ret, retpath, tail, nth):
        self.ts, self.tid, self.name, self.args, self.ret, self.retpath, self.tail, self.nth = \
            ts, tid, name, args, ret, retpath, tail, nth

    def __repr__(self):
        return "%s(%s) = %s%s" % (self.name, self.args[:200], self.ret, self.tail)


def parse(prefix, withmark=False):
    """The calls between the marks, in order; the numbers are per thread and name."""
    calls = []
    d, base = os.path.split(prefix)
    for f in os.listdir(d):
        if not f.startswith(base + "."):
            continue
        tid, count = f[len(base) + 1:], {}
        for l in open(os.path.join(d, f), errors="replace"):
            m = LINE.match(l.rstrip("\n"))
            if not m:
                m2 = re.match(r"^(\d+\.\d+) (\w+)\((.*)$", l.rstrip("\n"))
                if not m2:
                    continue
                ts, name, args, ret, rp, tail = m2.group(1), m2.group(2), m2.group(3), "?", "", ""
            else:
                ts, name, args, ret, rp, tail = m.groups()
            count[name] = count.get(name, 0) + 1
            calls.append(Call(float(ts), tid, name, args, ret, (rp or "")[1:-1], tail, count[name]))
    calls.sort(key=lambda c: c.ts)
    a = [i for i, c in enumerate(calls) if "/vh-mark-begin" in c.args]
    b = [i for i, c in enumerate(calls) if "/vh-mark-end" in c.args]
    if not a:
        return (None, False, None) if withmark else (None, False)
    res = calls[a[0] + 1:b[0] if b else len(calls)], bool(b)
    return res + (calls[a[0]],) if withmark else res


def strings(args):
    return re.findall(r'"((?:[^"\\]|\\.)*)"', args)


def ops(calls, d):
    """The calls as steps of SaveFSTrace."""
    def rel(p):
        return p[len(d) + 1:] if p.startswith(d + "/") else None

    def fdpath(a):
        m = re.match(r"(\d+)<([^>]*)>", a.strip())
        return (int(m.group(1)), rel(re.sub(r" \(deleted\)$", "", m.group(2)))) if m else (None, None)

    res = []
    opened = set()
    for c in calls:
        if c.ret in ("?",) or c.ret.startswith("-"):
            continue
        a = c.args.split(",")
        n = c.name
        if n in ("openat", "open", "creat"):
            p = rel(strings(c.args)[0])
            if p is None:
                continue
            fd = int(c.ret)
            flags = c.args.rsplit('"', 1)[1]
            res.append({"op": "open", "p": p, "trunc": "O_TRUNC" in flags or n == "creat", "fd": fd})
            opened.add(fd)
        elif n in ("write", "pwrite64", "writev", "ftruncate", "fallocate"):
            fd, p = fdpath(a[0])
            if p is None or fd not in opened:
                continue
            if n == "ftruncate":
                res.append({"op": "trunc", "fd": fd, "p": "", "n": int(a[1])})
            elif n != "fallocate":
                res.append({"op": "write", "fd": fd, "p": "", "n": int(c.ret)})
        elif n in ("copy_file_range", "sendfile"):
            fd, p = fdpath(a[2] if n == "copy_file_range" else a[0])
            if p is not None and fd in opened:
                res.append({"op": "write", "fd": fd, "p": "", "n": int(c.ret)})
        elif n == "mmap":
            if "MAP_SHARED" in c.args and "PROT_WRITE" in c.args:
                m = re.search(r", (\d+)<([^>]*)>,", c.args)
                if m and rel(m.group(2)) is not None and int(m.group(1)) in opened:
                    res.append({"op": "write", "fd": int(m.group(1)), "p": "", "n": 0})
        elif n == "truncate":
            p = rel(strings(c.args)[0])
            if p is not None:
                res.append({"op": "trunc", "fd": -1, "p": p, "n": int(a[-1])})
        elif n in ("rename", "renameat", "renameat2", "link", "linkat"):
            ss = strings(c.args)
            p, t = rel(ss[0]), rel(ss[1])
            if t is None:
                # It leaves the folder
                if p is not None and n.startswith("rename"):
                    res.append({"op": "unlink", "p": p})
                continue
            if p is None:
                # It was written elsewhere; the end tells whether it is complete.
                p = ss[0]
                size = os.path.getsize(os.path.join(d, t)) if os.path.exists(os.path.join(d, t)) else 0
                res.append({"op": "open", "p": p, "trunc": True, "fd": 1 << 20})
                res.append({"op": "write", "fd": 1 << 20, "p": "", "n": size})
            res.append({"op": "rename" if n.startswith("rename") else "link", "p": p, "to": t})
        elif n in ("unlink", "unlinkat"):
            p = rel(strings(c.args)[0])
            if p is not None:
                res.append({"op": "unlink", "p": p})
    return res


def content(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


class Scene:
    def __init__(self, c, i, scene):
        self.c, self.i, self.scene = c, i, json.dumps(scene)
        self.n = 0
        self.lines = []
        self.kills = self.faults = self.missed = 0

    def run(self, inject=None):
        """One traced save in a new directory: (dir, prefix of the logs, rc)."""
        self.n += 1
        d = self.c.mkdir("sv", "s%d-%d" % (self.i, self.n))
        pre = d + ".st"
        cmd = ["strace", "-ff", "-ttt", "-y", "-o", pre, "-e", "trace=" + CALLS, "-e", "signal=none"]
        if inject:
            cmd += ["-e", "inject=" + inject]
        cmd += [self.c.harness(), "savekid", self.scene, d]
        try:
            r = subprocess.run(cmd, env=goenv(GODEBUG="asyncpreemptoff=1"), capture_output=True, text=True, timeout=120)
            return d, pre, r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            return d, pre, "timeout", ""

    def clean(self, d, pre):
        shutil.rmtree(d, ignore_errors=True)
        b = os.path.dirname(pre)
        for f in os.listdir(b):
            if f.startswith(os.path.basename(pre) + "."):
                os.unlink(os.path.join(b, f))

    def all(self):
        put = self.lines.append
        put({"op": "cfg", "case": self.i, "scene": json.loads(self.scene)})
        d, pre, rc, err = self.run()
        calls, ended, mark = parse(pre, True)
        if rc != 0 or not calls or not ended or not os.path.exists(d + "/result"):
            if "panic" in err or "fatal error" in err or "SIG" in err:
                put({"op": "died", "how": err[-500:]})
                return self
            raise CheckError("a traced save did not come to its end (rc %s): %s" % (rc, err[-2000:]))
        res = json.load(open(d + "/result"))
        new = content(d + "/target")
        names = (["target"] if res["old"] != "absent" else []) + (["other"] if os.path.exists(d + "/other") else [])
        put({"op": "begin", "names": names, "want": len(new or b"")})
        self.lines += ops(calls, d)
        put({"op": "end", "out": res["out"], "target": res["target"], "new": res["againhash"], "search": res["search"],
             "again": res["again"], "stray": res["stray"], "msg": res["msg"]})
        newhash = res["againhash"]
        first = calls
        self.clean(d, pre)
        # The same again: the content has to be the same for what follows.
        d, pre, rc, err = self.run()
        same = content(d + "/target") == new
        self.clean(d, pre)
        old = self.old(mark)
        renamed = [i for i, c in enumerate(first) if c.name.startswith(("rename", "link"))]
        last = renamed[-1] if renamed else len(first)
        # Of many calls with the same name: the first and last, and some between.
        rnd = random.Random("%s %s" % (self.c.seed, self.i))
        by = {}
        for c in first:
            by.setdefault(c.name, []).append(c)
        picked = set()
        for cs in by.values():
            picked |= set(map(id, cs[:2] + cs[-2:] + rnd.sample(cs, min(3, len(cs)))))
        for i, c in enumerate(first):
            if id(c) not in picked:
                continue
            if c.name in KILLS:
                self.kill(c, old, new, same)
            if c.name in FAULTS and i <= last:
                for e in FAULTS[c.name]:
                    self.fault(c, e, newhash, same, res["old"])
        return self

    def old(self, mark):
        """The target before the save: as left by a save killed at the first mark."""
        d, pre, rc, err = self.run("%s:signal=KILL:when=%d" % (mark.name, mark.nth))
        b = content(d + "/target")
        calls, ended = parse(pre)
        self.clean(d, pre)
        if rc in (0, "timeout") or ended or calls is None:
            raise CheckError("strace does not kill at the mark (rc %s): %s" % (rc, err[-500:]))
        return b

    def kill(self, c, old, new, same):
        d, pre, rc, err = self.run("%s:signal=KILL:when=%d" % (c.name, c.nth))
        calls, ended = parse(pre)
        if rc in (0, "timeout") or calls is None or ended:
            self.missed += 1
            self.clean(d, pre)
            return
        self.kills += 1
        b = content(d + "/target")

        def label(b):
            if b == old:
                return "old"
            if b is not None and (b == new or not same and len(b) == len(new)):
                return "new"
            return "absent" if b is None else "broken"
        r = subprocess.run([self.c.harness(), "savelater", self.scene, d], env=goenv(), capture_output=True, text=True,
                           timeout=120)
        self.lines.append({"op": "killed", "at": repr(c).replace(d, ""), "target": label(b), "old": "old", "new": "new",
                           "later": r.returncode == 0, "why": (r.stdout + r.stderr)[-300:]})
        self.clean(d, pre)

    def fault(self, c, e, newhash, same, oldhash):
        single = c.name in ("openat", "open", "creat")
        when = str(c.nth) if single else "%d..%d" % (c.nth, c.nth + 3)
        d, pre, rc, err = self.run("%s:error=%s:when=%s" % (c.name, e, when))
        calls, ended = parse(pre)
        hit = calls and any("INJECTED" in x.tail for x in calls)
        if not hit:
            self.missed += 1
            self.clean(d, pre)
            return
        self.faults += 1
        if not os.path.exists(d + "/result"):
            self.lines.append({"op": "died", "how": "%s at %r: rc %s %s" % (e, c, rc, err[-500:])})
        else:
            r = json.load(open(d + "/result"))
            new = newhash if same else r["againhash"]
            self.lines.append({"op": "fault", "sys": c.name, "how": e, "at": repr(c).replace(d, ""), "out": r["out"],
                               "msg": r["msg"], "target": r["target"], "old": r["old"] if r["out"] != "ok" else oldhash,
                               "new": new, "stray": r["stray"], "mustfail": c.name in MUST, "search": r["search"],
                               "again": r["again"], "againhash": r["againhash"], "why": r["why"] + r["why2"]})
        self.clean(d, pre)


def run(c, n):
    f = c.path("in", "scenes")
    r = subprocess.run([c.harness(), "scenes", "-seed", str(c.seed), "-lo", "0", "-hi", str(n), "-out", f,
                        "-mark", c.path("in", "m")], env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise CheckError(r.stderr)
    scenes = [json.loads(l) for l in open(f)]
    kills = faults = missed = events = 0
    bad = None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        def one(i):
            s = Scene(c, i, scenes[i]).all()
            t = c.path("tr", "save-%d.ndjson" % i)
            with open(t, "w") as fh:
                for l in s.lines:
                    fh.write(json.dumps(l) + "\n")
            rej = c.validate("SaveFSTrace", t, "save")
            return s, (c.rejection("savefs", [], "SaveFSTrace", t, rej, "save", False) if rej else None)
        for fu in [ex.submit(one, i) for i in range(n)]:
            s, v = fu.result()
            kills, faults, missed = kills + s.kills, faults + s.faults, missed + s.missed
            events += len(s.lines)
            if s.i == 0:
                c.sample({"save": s.lines[:14]})
            if v and not bad:
                bad = v
    if bad:
        raise Violation("; ".join(bad["why"]), c.save_replay(bad))
    if kills < 4 * n or faults < 2 * n:
        raise CheckError("only %d kills and %d faults came through in %d saves (%d missed)" % (kills, faults, n, missed))
    c.traces += n
    c.events += events
    c.cov["saves"] = {"scenes": n, "kills": kills, "injected_failures": faults, "missed": missed}
    c.log("saves: %d scenes, %d kills, %d failures, %d missed" % (n, kills, faults, missed))
