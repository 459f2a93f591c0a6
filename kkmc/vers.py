"""Model of git histories and the version scheme, and real scratch repositories built from them.

A history is a list of ops applied to a repository with one commit on 'main':
  C commit   T version-tag HEAD (next name of the list; lightweight or annotated)   N other tag on HEAD
  B create/switch branch   M merge the other branch   D detach at the first parent   G go back to main
Dirty kinds decorate the final state: '' clean, E edit, S edit+stage, R delete, A stage a new file, H mode change,
V edit _version.py, O untracked file (not dirty), Y touch (not dirty), I ignored-content rewrite with same bytes (not dirty)
"""
import contextlib
import datetime
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types

REPO = os.environ.get("KKMC_REPO", "/repo")
SHM = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK | os.X_OK) else None
VFILE = "src/kalmankit/_version.py"
TAGSETS = {
    "plain": ["v1.0", "v1.1", "v2.0", "v2.1"],
    "desc": ["v9.0", "v2.0", "v1.0", "v0.5"],
    "pre": ["v1.0rc1", "v1.0a2.dev3", "v1.0.post1", "v2.0.dev0"],
    "local": ["v1.0+local.1", "v1.1+abc", "v2.0+1", "v3+x.y"],
    "odd": ["v1!2.0", "v2024.10.01", "v0", "v10.20.30.40"],
    "dash": ["v1.0-1", "v1.0-rc2", "v2.0-post3", "v3.0-dev1"],
    "trap": ["v1.0-2-gdeadbee", "v1.0-dirty", "v2-release", "v3.x"],
}
PEP = {"plain", "desc", "pre", "local", "odd", "dash"}
OTHER = ["release-1", "vnext", "1.0", "V9.9", "v", "v-1", "av8.1", "pre/v7.0"]
DIRTY = {"": False, "E": True, "S": True, "R": True, "A": True, "H": True, "V": True, "O": False, "Y": False, "I": False}
OPS = "CTNBMDG"


class Model:
    """Abstract repository."""

    def __init__(self, tagset="plain", lw=0, other=0):
        self.par = [()]
        self.tags = {}      # commit -> (name, order)
        self.other = {}     # commit -> list of names
        self.br = {"main": 0}
        self.head = "main"  # branch name or None
        self.at = 0
        self.tagset, self.lw, self.oi = tagset, lw, other
        self.ntag = 0
        self.nother = 0

    def copy(self):
        m = Model.__new__(Model)
        m.__dict__ = {k: (v.copy() if isinstance(v, (dict, list)) else v) for k, v in self.__dict__.items()}
        m.other = {k: list(v) for k, v in self.other.items()}
        return m

    def anc(self, c):
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.par[x]
        return seen

    def legal(self, op):
        if op == "C":
            return len(self.par) < 9
        if op == "T":
            return self.at not in self.tags and self.ntag < len(TAGSETS[self.tagset])
        if op == "N":
            return self.nother < 2
        if op == "B":
            return self.head is not None and (len(self.br) == 1 or True)
        if op == "M":
            if self.head is None or len(self.br) < 2:
                return False
            o = self.br["dev" if self.head == "main" else "main"]
            return o not in self.anc(self.at) and self.at not in self.anc(o)
        if op == "D":
            return len(self.par[self.at]) > 0
        return self.head is None

    def apply(self, op):
        m = self.copy()
        if op == "C":
            m.par.append((m.at,))
            m.at = len(m.par) - 1
            if m.head:
                m.br[m.head] = m.at
        elif op == "T":
            m.tags[m.at] = TAGSETS[m.tagset][m.ntag]
            m.ntag += 1
        elif op == "N":
            m.other.setdefault(m.at, []).append(OTHER[(m.oi + m.nother) % len(OTHER)])
            m.nother += 1
        elif op == "B":
            if len(m.br) == 1:
                m.br["dev"] = m.at
                m.head = "dev"
            else:
                m.head = "dev" if m.head == "main" else "main"
                m.at = m.br[m.head]
        elif op == "M":
            o = m.br["dev" if m.head == "main" else "main"]
            m.par.append((m.at, o))
            m.at = len(m.par) - 1
            m.br[m.head] = m.at
        elif op == "D":
            m.at = m.par[m.at][0]
            m.head = None
        else:
            m.head = "main"
            m.at = m.br["main"]
        return m

    def key(self):
        return (tuple(self.par), tuple(sorted(self.tags.items())), tuple(sorted((k, tuple(v)) for k, v in self.other.items())), tuple(sorted(self.br.items())), self.head, self.at)

    def nearest(self):
        """Acceptable (tag name without prefix, distance) answers; empty when no version tag is reachable."""
        up = self.anc(self.at)
        best = {}
        for c, name in self.tags.items():
            if c in up:
                best.setdefault(len(up - self.anc(c)), []).append(name[1:])
        if not best:
            return [], len(up)
        d = min(best)
        return [(n, d) for n in best[d]], len(up)


def histories(depth, ops=OPS, tagset="plain", lw=0, other=0):
    """BFS over abstract repository states; yields (shortest op list, model)."""
    start = Model(tagset, lw, other)
    seen = {start.key()}
    level = [([], start)]
    yield [], start
    for _ in range(depth):
        nxt = []
        for seq, m in level:
            for op in ops:
                if m.legal(op):
                    n = m.apply(op)
                    k = n.key()
                    if k not in seen:
                        seen.add(k)
                        nxt.append((seq + [op], n))
                        yield seq + [op], n
        level = nxt


# ------------------------------------------------------------------ real repositories

def clean_env(home):
    for k in list(os.environ):
        if k.startswith("GIT_"):
            del os.environ[k]
    os.environ.update(HOME=home, GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL=os.devnull, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@x", GIT_COMMITTER_NAME="c",
                      GIT_COMMITTER_EMAIL="c@x", LC_ALL="C", GIT_CEILING_DIRECTORIES=home)


def git(cwd, *args, date=None, ok=True):
    env = None
    if date is not None:
        d = f"{date} +0530"
        # written earlier and in another time zone than committed, as after a rebase
        env = {**os.environ, "GIT_AUTHOR_DATE": f"{date - 7777} -0200", "GIT_COMMITTER_DATE": d}
    r = subprocess.run(["git", *args], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if ok and r.returncode:
        raise RuntimeError(f"git {args}: {r.stderr.decode()}")
    return r.stdout.decode()


T0 = 1700000000


def datestr(i):
    d = datetime.datetime.fromtimestamp(T0 + 60 * i, datetime.timezone(datetime.timedelta(hours=5, minutes=30)))
    return d.strftime("%Y-%m-%dT%H:%M:%S+0530")


class World:
    """Scratch directory holding a base repository, an unrelated repository, and per-case copies."""

    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="kkmc-ver-", dir=SHM))
        self.owner = os.getpid()
        self.env0 = dict(os.environ)
        self.cwd0 = os.getcwd()
        clean_env(self.dir)
        self.base = os.path.join(self.dir, "base")
        os.makedirs(os.path.join(self.base, "src", "kalmankit"))
        for f in sorted(os.listdir(os.path.join(REPO, "src", "kalmankit"))):
            if f.endswith(".py"):
                shutil.copy(os.path.join(REPO, "src", "kalmankit", f), os.path.join(self.base, "src", "kalmankit", f))
        for f in ("pyproject.toml", "setup.py", "versioneer.py", ".gitattributes", "MANIFEST.in", "README.md", "LICENSE"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copy(p, os.path.join(self.base, f))
        with open(os.path.join(self.base, "data.txt"), "w") as f:
            f.write("0\n")
        with open(os.path.join(self.base, ".gitignore"), "w") as f:
            f.write("__pycache__/\nbuild/\n*.egg-info/\ndist/\n")
        git(self.base, "init", "-q", "-b", "main", "--template=")
        git(self.base, "add", "-A")
        git(self.base, "commit", "-q", "-m", "base", date=T0)
        self.other = os.path.join(self.dir, "elsewhere")
        os.makedirs(self.other)
        git(self.other, "init", "-q", "-b", "main")
        git(self.other, "commit", "-q", "--allow-empty", "-m", "x", date=T0 - 999)
        git(self.other, "tag", "v77.7")
        self.n = 0

    def close(self):
        os.chdir(self.cwd0)
        os.environ.clear()
        os.environ.update(self.env0)
        if self.owner == os.getpid():
            shutil.rmtree(self.dir, ignore_errors=True)

    def build(self, seq, m0, dirty):
        """Apply ops to a fresh copy of the base; returns (path, model, {commit index: sha})."""
        self.n += 1
        d = os.path.join(self.dir, f"w{self.n}", "tree")
        shutil.copytree(self.base, d, symlinks=True)
        m = m0.copy()
        sha = {0: git(d, "rev-parse", "HEAD").strip()}
        for i, op in enumerate(seq):
            t = T0 + 60 * len(m.par)
            prev = m
            m = m.apply(op)
            if op == "C":
                with open(os.path.join(d, f"f{len(m.par)}.txt"), "w") as f:
                    f.write(f"{i}\n")
                git(d, "add", "-A")
                git(d, "commit", "-q", "-m", f"c{i}", date=t)
                sha[m.at] = git(d, "rev-parse", "HEAD").strip()
            elif op == "T":
                name = m.tags[m.at]
                if (m.ntag + m.lw) % 2:
                    git(d, "tag", "-a", "-m", "tag", name, date=t)
                else:
                    git(d, "tag", name)
            elif op == "N":
                name = m.other[m.at][-1]
                if m.nother % 2:
                    git(d, "tag", "-a", "-m", "tag", name, date=t)
                else:
                    git(d, "tag", name)
            elif op == "B":
                git(d, "checkout", "-q", *(["-b", "dev"] if len(prev.br) == 1 else [m.head]))
            elif op == "M":
                git(d, "merge", "-q", "--no-ff", "-m", f"m{i}", "dev" if m.head == "main" else "main", date=t)
                sha[m.at] = git(d, "rev-parse", "HEAD").strip()
            elif op == "D":
                git(d, "checkout", "-q", "--detach", sha[m.at])
            else:
                git(d, "checkout", "-q", "main")
        self.dirty(d, dirty)
        return d, m, sha

    def special(self, variant, tags, before, after, dirty):
        """A linear history of before commits, the given tags ("name" or "name*" if annotated), after commits.
        Returns (path, environment for the query, patterns, fields)."""
        self.n += 1
        d = os.path.join(self.dir, f"w{self.n}", "my tr\u00ee - dirty (1)" if variant == "path" else "tree")
        shutil.copytree(self.base, d, symlinks=True)
        tz = {"west": "-0800", "utc": "+0000", "east": "+1345"}.get(variant, "+0530")
        if variant == "sha256":
            shutil.rmtree(os.path.join(d, ".git"))
            git(d, "init", "-q", "-b", "main", "--template=", "--object-format=sha256")
            git(d, "add", "-A")
            git(d, "commit", "-q", "-m", "base", date=T0)
        t = T0

        def chain(n):
            nonlocal t
            s = ""
            for i in range(n):
                t += 60
                s += f"commit refs/heads/main\nauthor a <a@x> {t - 5000} -0200\ncommitter c <c@x> {t} {tz}\ndata 1\nm\n"
                s += "from refs/heads/main^0\n\n" if i == 0 else "\n"
            if n:
                subprocess.run(["git", "fast-import", "--quiet"], cwd=d, input=s.encode(), check=True)
        chain(before)
        for name in tags:
            if name.endswith("*"):
                git(d, "tag", "-a", "-m", "tag v55.5", name[:-1], date=t)
            else:
                git(d, "tag", name)
        chain(after)
        git(d, "update-index", "-q", "--refresh")
        if variant == "branch":
            git(d, "branch", "master", "HEAD")
            git(d, "checkout", "-q", "-b", "v9.9")
        elif variant == "detached":
            git(d, "checkout", "-q", "--detach")
        elif variant == "packed":
            git(d, "gc", "-q")
        elif variant == "gitfile":
            git(d, "init", "-q", "--separate-git-dir", os.path.join(os.path.dirname(d), "store.git"))
        elif variant in ("clone", "mirror", "shallow"):
            src = os.path.join(os.path.dirname(d), "origin")
            os.rename(d, src)
            if variant == "shallow":
                git(os.path.dirname(d), "clone", "-q", "--depth", "3", "file://" + src, d)
                if after > 2:      # the tags are beyond the cut
                    tags = []
                before, after = (min(before + after + 1, 3) - 1, 0) if not tags else (before, after)
            else:
                git(os.path.dirname(d), "clone", "-q", *(["--shared", "-o", "upstream"] if variant == "mirror" else []), src, d)
        elif variant == "submodule":
            src, sup = os.path.join(os.path.dirname(d), "origin"), os.path.join(os.path.dirname(d), "super")
            os.rename(d, src)
            git(os.path.dirname(d), "init", "-q", "-b", "main", sup)
            git(sup, "-c", "protocol.file.allow=always", "submodule", "--quiet", "add", src, "part")
            git(sup, "commit", "-q", "-m", "with a part", date=T0 - 50)
            git(sup, "tag", "v66.6")
            d = os.path.join(sup, "part")
        elif variant == "stash":
            with open(os.path.join(d, "data.txt"), "w") as f:
                f.write("put aside\n")
            git(d, "stash", "-q")
            git(d, "notes", "add", "-m", "v44.4", "HEAD")
        elif variant == "crowd":
            for i in range(40):
                git(d, "branch", f"v{i}.x", "HEAD")
                git(d, "tag", f"build-{i}", "HEAD")
        elif variant == "unmerged":      # newer version tags on branches that are not part of the history
            for i, name in enumerate(("v5.0", "v0.1")):
                git(d, "checkout", "-q", "--orphan" if i else "-b", f"side{i}")
                git(d, "commit", "-q", "--allow-empty", "-m", "side", date=t + 600)
                git(d, "tag", name)
            git(d, "checkout", "-q", "main")
        env = {}
        if variant == "config":
            p = os.path.join(os.path.dirname(d), "gitconfig")
            with open(p, "w") as f:
                f.write("[core]\nabbrev=12\npager=false\nquotePath=false\n[color]\nui=always\n[log]\ndate=relative\ndecorate=full\n[format]\npretty=oneline\n"
                        "[tag]\nsort=-version:refname\n[status]\nshort=true\n[pager]\nbranch=true\n[column]\nui=always\n[branch]\nsort=-committerdate\n")
            env["GIT_CONFIG_GLOBAL"] = p
        elif variant == "abbrev40":
            git(d, "config", "core.abbrev", "40")
        elif variant == "abbrev10":
            git(d, "config", "core.abbrev", "10")
        self.dirty(d, dirty)
        full = git(d, "rev-parse", "HEAD").strip()
        isdirty = DIRTY[dirty]
        tail = r"\.dirty" if isdirty else ""
        vt = [x.rstrip("*")[1:] for x in tags if re.match(r"v\d", x)]
        if not vt:
            pats = [f"0\\+untagged\\.{before + after + 1}\\.g(?P<hex>[0-9a-f]{{7,64}}){tail}"]
        elif after == 0 and not isdirty:
            pats = [re.escape(x) for x in vt]
        else:
            pats = [re.escape(x + ("." if "+" in x else "+")) + f"{after}\\.g(?P<hex>[0-9a-f]{{7,64}}){tail}" for x in vt]
        off = datetime.timezone(datetime.timedelta(minutes=(1 if tz[0] == "+" else -1) * (60 * int(tz[1:3]) + int(tz[3:]))))
        if t == T0:
            tz, off = "+0530", datetime.timezone(datetime.timedelta(minutes=330))
        date = datetime.datetime.fromtimestamp(t, off).strftime("%Y-%m-%dT%H:%M:%S") + tz
        return d, env, pats, dict(full=full, dirty=isdirty, error=None, date=date)

    def dirty(self, d, kind):
        f = os.path.join(d, "data.txt")
        if kind in ("E", "S"):
            with open(f, "w") as o:
                o.write("1\n")
            if kind == "S":
                git(d, "add", "data.txt")
        elif kind == "R":
            os.remove(f)
        elif kind == "A":
            with open(os.path.join(d, "new.txt"), "w") as o:
                o.write("n\n")
            git(d, "add", "new.txt")
        elif kind == "H":
            os.chmod(f, 0o755)
        elif kind == "V":
            with open(os.path.join(d, VFILE), "a") as o:
                o.write("\n# local change\n")
        elif kind == "O":
            with open(os.path.join(d, "untracked.txt"), "w") as o:
                o.write("u\n")
        elif kind == "Y":
            os.utime(f, (T0, T0))
        elif kind == "I":
            with open(f) as o:
                s = o.read()
            with open(f, "w") as o:
                o.write(s)

    def drop(self, d):
        shutil.rmtree(os.path.join(self.dir, f"w{self.n}"), ignore_errors=True)

    def archive(self, d, dest, what="HEAD"):
        os.makedirs(dest)
        p = subprocess.Popen(["git", "archive", what], cwd=d, stdout=subprocess.PIPE)
        subprocess.check_call(["tar", "x", "-C", dest], stdin=p.stdout)
        if p.wait():
            raise RuntimeError("git archive failed")
        return dest


_codes = {}


def _compile(path):
    with open(path, "rb") as f:
        src = f.read()
    c = _codes.get((path.rsplit("/", 1)[1], src))
    if c is None:
        if len(_codes) > 200:
            _codes.clear()
        c = _codes[(path.rsplit("/", 1)[1], src)] = compile(src, path, "exec")
    return c


def load(path, name):
    """Execute a file as a fresh module with the right __file__."""
    m = types.ModuleType(name)
    m.__file__ = path
    exec(_compile(path), m.__dict__)
    return m


@contextlib.contextmanager
def at(cwd, **env):
    old, oldenv = os.getcwd(), {k: os.environ.get(k) for k in env}
    os.chdir(cwd)
    for k, v in env.items():
        os.environ[k] = v
    try:
        yield
    finally:
        os.chdir(old)
        for k, v in oldenv.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


@contextlib.contextmanager
def quiet_fd():
    """Silence git's stderr (inherited by the code under test)."""
    sys.stderr.flush()
    keep = os.dup(2)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 2)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.close(nul)


def runtime(root, cwd, **env):
    """What the package's own version module reports when loaded from the tree at root."""
    with at(cwd, **env), quiet_fd():
        return load(os.path.join(root, VFILE), "kalmankit._version").get_versions()


def buildtime(root, **env):
    with at(root, **env), quiet_fd():
        return load(os.path.join(root, "versioneer.py"), "versioneer_x").get_versions()


def imported(root, cwd, **env):
    """kalmankit.__version__ after importing the package from root."""
    saved = {k: v for k, v in sys.modules.items() if k == "kalmankit" or k.startswith("kalmankit.")}
    for k in saved:
        del sys.modules[k]
    src = os.path.join(root, "src")
    sys.path.insert(0, src)
    try:
        with at(cwd, **env), quiet_fd():
            import importlib
            importlib.invalidate_caches()
            k = importlib.import_module("kalmankit")
        if not os.path.realpath(k.__file__).startswith(os.path.realpath(src)):
            raise RuntimeError(f"imported {k.__file__}")
        return k.__version__, k
    finally:
        sys.path.remove(src)
        for k in [k for k in sys.modules if k == "kalmankit" or k.startswith("kalmankit.")]:
            del sys.modules[k]
        sys.modules.update(saved)


VARIANTS = ["plain", "path", "west", "utc", "east", "sha256", "branch", "detached", "packed", "config", "abbrev40", "abbrev10",
            "gitfile", "clone", "mirror", "shallow", "submodule", "stash", "crowd", "unmerged"]


def specials(tier):
    """(variant, tags, before, after, dirty)"""
    for v in VARIANTS:
        for tags in ([], ["v1.0"], ["v1.0*"]):
            for before, after in ((0, 0), (0, 1), (1, 0), (2, 12)):
                for dirty in ("", "E"):
                    yield v, tags, before, after, dirty
    ks = [8, 9, 10, 11, 12, 19, 20, 99, 100, 101, 128, 256, 999, 1000, 1001] + ([] if tier == "quick" else [5000, 9999, 10000, 10001])
    for k in ks:
        for tags, before, after in (([], k, 0), (["v1.0"], 0, k), (["v1.0*"], 3, k), (["v1.0"], k, 0), (["v2.0+x"], k, 1), (["vnext"], k, 2)):
            for dirty in ("", "E"):
                yield "plain", tags, before, after, dirty
    for tags in (["v1.0", "v1.1"], ["v1.1", "v1.0*"], ["v1.0*", "v1.1*"], ["v1.0", "w2", "v1.0.1"], ["v2.0rc1*", "v2.0"], ["v1.0", "vx*"], ["vx*", "v1.0"], ["v3*", "release"]):
        for before, after in ((0, 0), (0, 2), (3, 0), (1, 10)):
            for dirty in ("", "S"):
                yield "plain", tags, before, after, dirty
    for name in ("v1", "v1.0.0.0.0", "v20240102", "v1.0b1", "v1.0.dev12", "v1.0+a.b.c", "v1.0.post3+x", "v0.0", "v1.0-3-gabcdef0", "v1-2", "v1.0_rc1", "v1.0RC1", "v1.0.gabc", "v1.0.dirty", "v9-dirty", "v1/2", "v1@x", "v1%d", "v1 ".strip() + "#"):
        for after in (0, 1, 10):
            for dirty in ("", "E"):
                yield "plain", [name], 1, after, dirty


FIELDS = {"version", "full-revisionid", "dirty", "error", "date"}


def expect_checkout(m, sha, dirty):
    """Regular expression(s) for the version, plus the exact companion fields."""
    full = sha[m.at]
    near, total = m.nearest()
    isdirty = DIRTY[dirty]
    tail = r"\.dirty" if isdirty else ""
    pats = []
    hexp = "(?P<hex>[0-9a-f]{7,40})"
    if near:
        for name, d in near:
            if d == 0 and not isdirty:
                pats.append(re.escape(name))
            else:
                pats.append(re.escape(name) + re.escape("." if "+" in name else "+") + f"{d}\\.g{hexp}{tail}")
    else:
        pats.append(f"0\\+untagged\\.{total}\\.g{hexp}{tail}")
    return pats, dict(full=full, dirty=isdirty, error=None, date=datestr(m.at))


def check_fields(got, pats, f, what, V):
    if not isinstance(got, dict) or set(got) != FIELDS:
        raise V(f"{what}: fields {sorted(got) if isinstance(got, dict) else got!r}")
    for p in pats:
        mo = re.fullmatch(p, got["version"])
        if mo and ("hex" not in (mo.groupdict() or {}) or f["full"].startswith(mo.group("hex"))):
            break
    else:
        raise V(f"{what}: version {got['version']!r}, expected {' or '.join(pats)} of {f['full']}")
    for k, name in (("full", "full-revisionid"), ("dirty", "dirty"), ("date", "date")):
        if got[name] != f[k]:
            raise V(f"{what}: {name} is {got[name]!r}, expected {f[k]!r}")
    if f["error"] is None:
        if got["error"] is not None:
            raise V(f"{what}: error is {got['error']!r}")
    elif not got["error"]:
        raise V(f"{what}: no error is reported")
