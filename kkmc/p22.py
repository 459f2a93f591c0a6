"""P22: build-time (versioneer.py), run-time (_version.py) and freshly generated (template) version code explored side by
side over all small repository states, archives, directory names, decoration lists and rendering inputs."""
import itertools
import os
import shutil
import subprocess
import sys

from . import vers
from .kal import Violation

LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {"quick": "every repository state of <=4 operations x a rotating dirty kind, its archive and its stamped copies in 4 places; all tag spellings; 200 history-free trees; 821 decoration lists; 8 rendering styles (+default, empty, unknown) x 4032 piece combinations; real setup.py build_py (again after changes, and from the source distribution)/sdist/version for 10 states",
          "thorough": "<=5 operations with all dirty kinds up to 3; 5861 decoration lists; setup.py for 60 states"}
ASSUMPTIONS = ["version strings handed to the stamping function are those the tooling computes (PEP 440 tags)"]

W = None
STYLES = ["pep440", "pep440-branch", "pep440-pre", "pep440-post", "pep440-post-branch", "pep440-old", "git-describe", "git-describe-long", "default", "", None, "nonsense"]


def world():
    global W
    if W is None or W.owner != os.getpid():
        W = vers.World()
    return W


def cleanup():
    global W
    if W is not None and W.owner == os.getpid():
        W.close()
    W = None


def cases(tier):
    from . import p21
    q = tier == "quick"
    ks = list(vers.DIRTY)
    i = 0
    for seq, m in vers.histories(4 if q else 5):
        i += 1
        yield ["h", "plain", 0, i % 8, "".join(seq), ks[i % 10]]
        if i % 10:
            yield ["h", "plain", 1, (i + 3) % 8, "".join(seq), ""]
    for seq, m in vers.histories(1 if q else 3, tagset="desc", lw=1):
        for k in ks:
            yield ["h", "desc", 1, 1, "".join(seq), k]
    for ts in vers.TAGSETS:
        for seq, m in vers.histories(3 if q else 4, ops="CTB", tagset=ts):
            if m.ntag:
                yield ["h", ts, 0, 2, "".join(seq), "E" if len(seq) % 2 else ""]
                yield ["h", ts, 0, 2, "".join(seq), "" if len(seq) % 2 else "S"]
    for c in p21.cases(tier):
        if c[0] in "pk":
            yield c
    names = ["HEAD -> v2-next", "HEAD -> main", "v3", "tag: v1.0", "2.0", "origin/v4.x", "tag:v5", "tag: ", "HEAD -> tag: v6", "stabilization"]
    for refs in itertools.chain.from_iterable(itertools.permutations(names, r) for r in range(1, 3 if q else 4)):
        yield ["k", list(refs)]
    for i, x in enumerate(vers.specials(tier)):
        if not q or x[0] != "plain" or i % 4 == 0:
            yield ["s", *x]
    for s in STYLES:
        yield ["r", s]
    i = 0
    for seq, m in vers.histories(3 if q else 4, ops="CTD"):
        if m.ntag or len(seq) < 2:
            i += 1
            if i <= (10 if q else 60):
                yield ["setup", "".join(seq), "E" if i % 3 == 2 else ""]


def run_case(desc, st):
    {"h": hist, "p": parent, "k": keywords, "r": render, "s": special, "setup": setup}[desc[0]](desc, st)


def same(a, b, what):
    if a != b:
        raise Violation(f"{what}: {a!r} at build time but {b!r} at run time")


_tmpl = {}


def template(root, w):
    """The version module the tooling would generate now, executed as if it were the tree's."""
    with vers.at(root), vers.quiet_fd():
        v = vers.load(os.path.join(root, "versioneer.py"), "versioneer_x")
        cfg = v.get_config_from_root(root)
    src = v.LONG_VERSION_PY[cfg.VCS] % dict(DOLLAR="$", STYLE=cfg.style, TAG_PREFIX=cfg.tag_prefix, PARENTDIR_PREFIX=cfg.parentdir_prefix,
                                            VERSIONFILE_SOURCE=cfg.versionfile_source)
    path = os.path.join(root, vers.VFILE)
    with vers.at(root):
        kw = v.git_get_keywords(path)
    for k, fmt in (("refnames", "%d"), ("full", "%H"), ("date", "%ci")):
        if k in kw:
            src = src.replace(f"$Format:{fmt}$", kw[k])
    c = _tmpl.get(src)
    if c is None:
        c = _tmpl[src] = compile(src, path, "exec")
    import types
    m = types.ModuleType("kalmankit._version")
    m.__file__ = path
    exec(c, m.__dict__)
    return m


def agree(w, root, what, cwd, st, **env):
    b = vers.buildtime(root, **env)
    r = vers.runtime(root, cwd, **env)
    same(b, r, what)
    with vers.at(cwd, **env), vers.quiet_fd():
        g = template(root, w).get_versions()
    same(g, r, what + " (freshly generated version file)")
    st.traces += 3
    return b


def stamped(w, root, versions, what, st, where=("kalmankit-44.4/x", "plain")):
    """Copies of the tree stamped by the tooling report exactly the stamped version wherever they are."""
    top = os.path.join(w.dir, f"s{w.n}")
    try:
        for i, pl in enumerate(list(where) + ["other"]):
            dest = os.path.join(w.other if pl == "other" else top, *pl.split("/"), "t")
            shutil.copytree(root, dest, ignore=shutil.ignore_patterns(".git"))
            try:
                vf = os.path.join(dest, vers.VFILE)
                with vers.at(dest), vers.quiet_fd():
                    vers.load(os.path.join(root, "versioneer.py"), "versioneer_x").write_to_version_file(vf, dict(versions))
                r = vers.runtime(dest, w.other)
                if r != versions:
                    raise Violation(f"{what}: stamped with {versions!r}, the copy reports {r!r}")
                b = vers.buildtime(dest)
                if b != versions:
                    raise Violation(f"{what}: stamped with {versions!r}, rebuilding the copy computes {b!r}")
                if i == 0:
                    v, _ = vers.imported(dest, w.other)
                    if v != versions["version"]:
                        raise Violation(f"{what}: stamped with {versions['version']!r}, the imported copy is {v!r}")
                st.traces += 2
            finally:
                shutil.rmtree(dest, ignore_errors=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def hist(desc, st):
    _, ts, lw, other, seq, dirty = desc
    w = world()
    d, m, sha = w.build(list(seq), vers.Model(ts, lw, other), dirty)
    try:
        what = f"checkout after {seq or 'nothing'} ({ts} tags){' dirty ' + dirty if dirty else ''}"
        n = sum(map(ord, "".join(map(str, desc))))
        env = dict(GIT_DIR=os.path.join(w.other, ".git")) if n % 3 == 0 else {}
        v = agree(w, d, what, w.other, st, **env)
        st.states.add((m.key(), ts, dirty))
        st.outcomes.add(v["version"])
        st.transitions += len(seq)
        if n % 2 == 0 or ts != "plain":
            stamped(w, d, v, what, st)
        if dirty == "":
            a = w.archive(d, os.path.join(os.path.dirname(d), "kalmankit-55.5"))
            va = agree(w, a, "archive of " + what, w.other, st)
            if n % 2 == 0:
                stamped(w, a, va, "archive of " + what, st, where=("kalmankit-44.4/x",))
    finally:
        w.drop(d)


def special(desc, st):
    _, variant, tags, before, after, dirty = desc
    w = world()
    d, env, pats, f = w.special(variant, tags, before, after, dirty)
    try:
        what = f"{variant}: {before} commits, tags {tags}, {after} commits{' dirty ' + dirty if dirty else ''}"
        v = agree(w, d, what, w.other, st, **env)
        if variant == "plain" and (before + after) % 2:
            stamped(w, d, v, what, st, where=("plain",))
        st.states.add((variant, tuple(tags), before, after, dirty))
        st.outcomes.add(v["version"])
        st.transitions += before + after + len(tags)
        if dirty == "" and after == 0:
            a = w.archive(d, os.path.join(os.path.dirname(d), "kalmankit-55.5"))
            agree(w, a, "archive of " + what, w.other, st, **env)
    finally:
        w.drop(d)


def parent(desc, st):
    _, name, up, how = desc
    w = world()
    w.n += 1
    top = os.path.join(w.dir, f"w{w.n}")
    root = os.path.join(top, *([name] + [f"d{i}" for i in range(up)]))
    shutil.copytree(w.base, root, ignore=shutil.ignore_patterns(".git"))
    try:
        via, env = root, {}
        if how == "nogit":
            env["PATH"] = os.path.join(top, "empty")
        elif how == "symlink":
            via = os.path.join(top, "kalmankit-99.9")
            os.symlink(root, via)
        elif how == "empty-repo":
            vers.git(root, "init", "-q", "-b", "main", "--template=")
        what = f"tree without usable history, {name} {up} levels up ({how})"
        v = agree(w, via, what, w.other, st, **env)
        if how == "plain":
            stamped(w, root, v, what, st, where=("plain",))
        st.states.add(("p", name, up, how))
        st.outcomes.add(v["version"])
        st.transitions += 1
    finally:
        shutil.rmtree(top, ignore_errors=True)


def mods():
    w = world()
    if "three" not in w.__dict__:
        with vers.at(w.base), vers.quiet_fd():
            w.three = (vers.load(os.path.join(w.base, "versioneer.py"), "versioneer_x"), vers.load(os.path.join(w.base, vers.VFILE), "kalmankit._version"), template(w.base, w))
    return w.three


def outcome(fn):
    try:
        return ("value", fn())
    except Exception as e:
        return ("raises", type(e).__name__)


def keywords(desc, st):
    _, refs = desc
    vs, rt, tm = mods()
    full = "0123456789abcdef0123456789abcdef01234567"
    for fmt in (" (%s)", "(%s)", "%s"):
        for date in ("2024-02-03 04:05:06 -0330", "gpg: Signature made\n2024-02-03 04:05:06 +0000", None):
            kw = dict(refnames=fmt % ", ".join(refs) if refs else "", full=full, date=date)
            if date is None:
                del kw["date"]
            for prefix in ("v", "", "kalmankit-"):
                out = [outcome(lambda: m.git_versions_from_keywords(dict(kw), prefix, False)) for m in (vs, rt, tm)]
                same(out[0], out[1], f"archive keywords {kw!r} with prefix {prefix!r}")
                same(out[2], out[1], f"archive keywords {kw!r} with prefix {prefix!r} (template)")
                st.traces += 3
    st.states.add(("k", tuple(refs)))
    st.outcomes.add(str(out[1]))
    st.transitions += 1


def oracle(p, style):
    """The documented formats, rewritten."""
    t, d, h, dirty, br = p["closest-tag"], p["distance"], p["short"], p["dirty"], p["branch"]
    dev = ".dev0" if br != "master" else ""
    dd = ".dirty" if dirty else ""
    exact = bool(t) and not d and not dirty
    if style == "pep440":
        return t if exact else f"{t}{'.' if '+' in t else '+'}{d}.g{h}{dd}" if t else f"0+untagged.{d}.g{h}{dd}"
    if style == "pep440-branch":
        return t if exact else f"{t}{dev}{'.' if '+' in t else '+'}{d}.g{h}{dd}" if t else f"0{dev}+untagged.{d}.g{h}{dd}"
    if style == "pep440-pre":
        if not t:
            return f"0.post0.dev{d}"
        if not d:
            return t
        if ".post" in t:
            base, n = t.split(".post")
            return f"{base}.post{int(n or 0) + 1}.dev{d}"
        return f"{t}.post0.dev{d}"
    if style == "pep440-post":
        return t if exact else f"{t}.post{d}{'.dev0' if dirty else ''}{'.' if '+' in t else '+'}g{h}" if t else f"0.post{d}{'.dev0' if dirty else ''}+g{h}"
    if style == "pep440-post-branch":
        return t if exact else f"{t}.post{d}{dev}{'.' if '+' in t else '+'}g{h}{dd}" if t else f"0.post{d}{dev}+g{h}{dd}"
    if style == "pep440-old":
        return t if exact else f"{t or 0}.post{d}{'.dev0' if dirty else ''}"
    tail = "-dirty" if dirty else ""
    if style == "git-describe":
        return (t + (f"-{d}-g{h}" if d else "") if t else h) + tail
    return (f"{t}-{d}-g{h}" if t else h) + tail


def render(desc, st):
    style = desc[1]
    vs, rt, tm = mods()
    full = "0123456789abcdef0123456789abcdef01234567"
    for tag, dist, dirty, branch, short, err, date in itertools.product(
            [None, "1.0", "1.0+x", "1.0.post1", "1.0.post", "2.0rc1", "1!3.0+a.1"], [0, 1, 12, 345], [False, True], ["main", "master", "dev", None],
            ["0123456", "0123456789", full], [None, "", "boom"], ["2024-01-01T00:00:00+0000", None]):
        p = {"closest-tag": tag, "distance": dist, "dirty": dirty, "branch": branch, "short": short, "long": full, "error": err, "date": date}
        if date is None:
            del p["date"]
        out = [outcome(lambda: m.render(dict(p), style)) for m in (vs, rt, tm)]
        what = f"style {style!r} of {p!r}"
        same(out[0], out[1], what)
        same(out[2], out[1], what + " (template)")
        if style in STYLES[:8] + ["default", "", None]:
            if err:
                exp = ("value", {"version": "unknown", "full-revisionid": full, "dirty": None, "error": err, "date": None})
            else:
                s = style if style not in ("default", "", None) else "pep440"
                exp = ("value", {"version": oracle(p, s), "full-revisionid": full, "dirty": dirty, "error": None, "date": date})
            if out[1] != exp:
                raise Violation(f"{what}: {out[1]!r}, documented as {exp!r}")
        elif not err and out[1][0] != "raises":
            raise Violation(f"unknown style {style!r} is rendered as {out[1]!r}")
        st.traces += 3
        st.transitions += 1
        st.states.add((style, tag, dist, dirty, branch, short, err, date))
        st.outcomes.add(str(out[1]))


def setup(desc, st):
    """The real build commands: built and packaged copies carry the version of the source state."""
    _, seq, dirty = desc
    w = world()
    d, m, sha = w.build(list(seq), vers.Model(), dirty)
    try:
        what = f"setup.py after {seq or 'nothing'} {dirty}"
        v = agree(w, d, what, w.other, st)
        env = {**os.environ, "PYTHONPATH": "", "PYTHONDONTWRITEBYTECODE": "1"}

        def run(*args, cwd=d):
            r = subprocess.run([sys.executable, "setup.py", *args], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise Violation(f"{what}: setup.py {args} failed: {r.stdout.decode()[-600:]}")
            return r.stdout.decode()
        out = run("version")
        if f"Version: {v['version']}\n" not in out:
            raise Violation(f"{what}: setup.py version prints {out!r}, expected {v['version']!r}")
        blib = os.path.join(w.dir, f"b{w.n}")
        run("build_py", "--build-lib", blib)
        dest = os.path.join(w.other, "built", "src")
        shutil.rmtree(os.path.dirname(dest), ignore_errors=True)
        shutil.copytree(blib, dest)
        vv, _ = vers.imported(os.path.dirname(dest), w.other)
        r = vers.runtime(os.path.dirname(dest), w.other)
        if r != v or vv != v["version"]:
            raise Violation(f"{what}: the built package reports {r!r} ({vv}), the tooling computed {v!r}")
        shutil.rmtree(os.path.dirname(dest), ignore_errors=True)
        if len(seq) == 1:       # building again, into the same directory, after the source state has changed
            with open(os.path.join(d, "data.txt"), "a") as f:
                f.write("changed\n")
            for i in range(2):
                if i:
                    vers.git(d, "commit", "-q", "-a", "-m", "changed", date=vers.T0 + 7777)
                    vers.git(d, "tag", "v3.3")
                v2 = vers.buildtime(d)
                run("build_py", "--build-lib", blib)
                shutil.copytree(blib, dest)
                r = vers.runtime(os.path.dirname(dest), w.other)
                shutil.rmtree(os.path.dirname(dest), ignore_errors=True)
                if r != v2 or v2 == v and (i or dirty == ""):
                    raise Violation(f"{what}: after a change and another build into the same directory the built package reports {r!r}, the tooling computed {v2!r} (before: {v!r})")
                st.traces += 1
        shutil.rmtree(blib, ignore_errors=True)
        if len(seq) != 1:
            sd = os.path.join(w.dir, f"sd{w.n}")
            run("sdist", "--formats=tar", "-d", sd)
            tar = [f for f in os.listdir(sd) if f.endswith(".tar")]
            if len(tar) != 1:
                raise Violation(f"{what}: sdist made {tar}")
            subprocess.check_call(["tar", "xf", tar[0]], cwd=sd)
            root = [os.path.join(sd, f) for f in os.listdir(sd) if os.path.isdir(os.path.join(sd, f))][0]
            rs = vers.runtime(root, w.other)
            bs = vers.buildtime(root)
            if rs != v or bs != v:
                raise Violation(f"{what}: the source distribution reports {rs!r} at run time, {bs!r} at build time, the tooling computed {v!r}")
            if f"Version: {v['version']}\n" not in run("version", cwd=root):
                raise Violation(f"{what}: setup.py version in the source distribution, expected {v['version']!r}")
            run("build_py", "--build-lib", blib, cwd=root)
            shutil.copytree(blib, dest)
            r = vers.runtime(os.path.dirname(dest), w.other)
            shutil.rmtree(os.path.dirname(dest), ignore_errors=True)
            shutil.rmtree(blib, ignore_errors=True)
            if r != v:
                raise Violation(f"{what}: the package built from the source distribution reports {r!r}, the tooling computed {v!r}")
            shutil.rmtree(sd, ignore_errors=True)
            st.traces += 1
        st.traces += 2
        st.states.add(("setup", seq, dirty))
        st.transitions += len(seq)
    finally:
        w.drop(d)
