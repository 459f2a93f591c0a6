"""P21: breadth-first search of repository states; the version reported from the real scratch repository of each state
is compared with the model of the version scheme."""
import atexit
import os
import shutil
import itertools

from packaging.version import InvalidVersion, Version

from . import vers
from .kal import Violation

LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {"quick": "every repository state reachable in <=5 operations of {commit, version tag, other tag, branch, merge, detach, return} (4 ops with annotated/lightweight swapped), each clean or dirty in a rotating way; every dirty kind and every tag spelling on every state within 2-3 operations; checkout, linked worktree, archive and history-free copies of each; every sequence of up to 3 archive decorations",
          "thorough": "<=6 operations; all 10 dirty kinds on every state within 4; archives of every state"}
ASSUMPTIONS = ["git 2.43 as installed; at most one version tag per commit; ties between equally distant tags accept either"]

W = None


def world():
    global W
    if W is None or W.owner != os.getpid():
        W = vers.World()
    return W


def cases(tier):
    q = tier == "quick"
    ks = list(vers.DIRTY)
    seen_kinds = 0
    for seq, m in vers.histories(5 if q else 6):
        seen_kinds += 1
        yield ["h", "plain", 0, 0, "".join(seq), ""]
        yield ["h", "plain", 0, 0, "".join(seq), ks[1 + seen_kinds % 9]]
    for seq, m in vers.histories(4 if q else 5, lw=1):
        if m.ntag:
            yield ["h", "plain", 1, 3, "".join(seq), ks[len(seq) % 2]]
    for seq, m in vers.histories(2 if q else 4, other=1):
        for k in ks:
            yield ["h", "desc", 0, 1, "".join(seq), k]
    for ts in vers.TAGSETS:
        for lw in (0, 1):
            for seq, m in vers.histories(4 if q else 5, ops="CTB", tagset=ts, lw=lw):
                if m.ntag:
                    yield ["h", ts, lw, 2, "".join(seq), "E" if len(seq) % 2 else ""]
                    yield ["h", ts, lw, 2, "".join(seq), "" if len(seq) % 2 else "S"]
    for seq, m in vers.histories(6 if q else 8, ops="CTBM"):
        s = "".join(seq)
        if "M" in s and m.ntag and len(s) > 5:
            yield ["h", "plain", 0, 0, s, ""]
            if not q or len(s) < 6:
                yield ["h", "desc", 1, 0, s, "E"]
    for o in range(len(vers.OTHER)):
        for seq in ("N", "NN", "NC", "TN", "NT", "TCN", "TNC", "CNT"):
            yield ["h", "plain", 0, o, seq, ""]
    for name in ["kalmankit-1.2.3", "kalmankit-0.5rc1", "kalmankit-10.0+loc", "other", "kalmankit", "xkalmankit-2.0", "Kalmankit-2.0", "kalmankit_2.0"]:
        for up in range(5):
            for how in ("plain", "nogit", "symlink", "empty-repo", "stamp-free"):
                yield ["p", name, up, how]
    for tags in itertools.chain.from_iterable(itertools.permutations(["tag: v1.0", "tag: v2.0", "HEAD -> main", "tag: 3.0", "tag: vnext", "origin/main", "HEAD", "tag: v2.0rc1", "tag: v-1", "v9.9-branch"], r) for r in range(0, 4 if q else 5)):
        yield ["k", list(tags)]
    for x in vers.specials(tier):
        yield ["s", *x]
    yield ["u"]
    yield ["archive-of-branch", "main"]
    yield ["archive-of-branch", "dev"]
    yield ["archive-of-branch", "v2-maintenance"]


def pep(version, what):
    try:
        v = Version(version)
    except InvalidVersion:
        raise Violation(f"{what}: {version!r} is not a PEP 440 version")
    return v


def run_case(desc, st):
    {"h": hist, "p": parent, "k": keywords, "u": unique, "s": special, "archive-of-branch": branch_archive}[desc[0]](desc, st)


def cleanup():
    global W
    if W is not None and W.owner == os.getpid():
        W.close()
    W = None


def hist(desc, st):
    _, ts, lw, other, seq, dirty = desc
    w = world()
    m0 = vers.Model(ts, lw, other)
    d, m, sha = w.build(list(seq), m0, dirty)
    try:
        what = f"checkout after {seq or 'nothing'} ({ts} tags){' dirty ' + dirty if dirty else ''}"
        pats, f = vers.expect_checkout(m, sha, dirty)
        got = vers.runtime(d, w.other)
        vers.check_fields(got, pats, f, what, Violation)
        if ts in vers.PEP:
            pep(got["version"], what)
        st.traces += 1
        st.states.add((m.key(), ts, dirty))
        st.outcomes.add(got["version"])
        st.transitions += len(seq)
        n = sum(map(ord, "".join(map(str, desc))))
        if n % 3 == 0:
            # a GIT_DIR meant for somebody else
            g2 = vers.runtime(d, w.other, GIT_DIR=os.path.join(w.other, ".git"))
            vers.check_fields(g2, pats, f, what + ", GIT_DIR set", Violation)
            st.traces += 1
        if n % 3 == 1:
            v, _ = vers.imported(d, w.other)
            if v != got["version"]:
                raise Violation(f"{what}: kalmankit.__version__ is {v!r} but the version module reports {got['version']!r}")
            st.traces += 1
        if n % 3 == 2:
            g2 = vers.runtime(d, os.path.join(d, "src"))
            vers.check_fields(g2, pats, f, what + ", run from a subdirectory", Violation)
            link = os.path.join(os.path.dirname(d), "kalmankit-66.6")
            os.symlink(d, link)
            vers.check_fields(vers.runtime(link, w.dir), pats, f, what + ", through a symbolic link", Violation)
            st.traces += 2
        if dirty == "" and (len(seq) <= 3 or n % 4 == 0):
            a = w.archive(d, os.path.join(os.path.dirname(d), "kalmankit-55.5"))
            archive_view(w, a, m, sha, ts, f"archive of {what}", st)
            wt = os.path.join(os.path.dirname(d), "linked")
            vers.git(d, "worktree", "add", "--detach", wt, sha[m.at])
            vers.check_fields(vers.runtime(wt, w.other), pats, f, "linked worktree of " + what, Violation)
            st.traces += 1
    finally:
        w.drop(d)


def special(desc, st):
    _, variant, tags, before, after, dirty = desc
    w = world()
    d, env, pats, f = w.special(variant, tags, before, after, dirty)
    try:
        what = f"{variant}: {before} commits, tags {tags}, {after} commits{' dirty ' + dirty if dirty else ''}"
        got = vers.runtime(d, w.other, **env)
        vers.check_fields(got, pats, f, what, Violation)
        v, _ = vers.imported(d, d, **env)
        if v != got["version"]:
            raise Violation(f"{what}: kalmankit.__version__ is {v!r} but the version module reports {got['version']!r}")
        st.traces += 2
        st.transitions += before + after + len(tags)
        if dirty == "" and variant != "plain" and len(tags) < 2:
            a = w.archive(d, os.path.join(os.path.dirname(d), "kalmankit-55.5"))
            got = vers.runtime(a, w.other, **env)
            what = "archive of " + what
            if tags and after == 0:
                vers.check_fields(got, pats, f, what, Violation)
            else:
                vers.check_fields(got, [r"0\+unknown"], dict(full=f["full"], dirty=False, error=True, date=None), what, Violation)
            st.traces += 1
        st.states.add((variant, tuple(tags), before, after, dirty))
        st.outcomes.add(got["version"])
    finally:
        w.drop(d)


def archive_view(w, a, m, sha, ts, what, st):
    got = vers.runtime(a, w.other)
    full = sha[m.at]
    if m.at in m.tags:
        vers.check_fields(got, [vers.re.escape(m.tags[m.at][1:])], dict(full=full, dirty=False, error=None, date=vers.datestr(m.at)), what, Violation)
        if ts in vers.PEP:
            pep(got["version"], what)
    else:
        vers.check_fields(got, [r"0\+unknown"], dict(full=full, dirty=False, error=True, date=None), what, Violation)
    v, _ = vers.imported(a, w.other)
    if v != got["version"]:
        raise Violation(f"{what}: kalmankit.__version__ is {v!r} but the version module reports {got['version']!r}")
    st.traces += 2


def parent(desc, st):
    """Trees without history below a directory called name, up levels above the root (0: the root itself)."""
    _, name, up, how = desc
    w = world()
    w.n += 1
    top = os.path.join(w.dir, f"w{w.n}")
    parts = [name] + [f"d{i}" for i in range(up)]
    root = os.path.join(top, *parts)
    shutil.copytree(w.base, root, ignore=shutil.ignore_patterns(".git"))
    try:
        via = root
        env = {}
        if how == "nogit":
            env["PATH"] = os.path.join(top, "empty")
            vers.git(root, "init", "-q", "-b", "main")
            vers.git(root, "add", "-A")
            vers.git(root, "commit", "-q", "-m", "x", date=vers.T0)
            vers.git(root, "tag", "v8.8")
        elif how == "symlink":
            via = os.path.join(top, "kalmankit-99.9")
            os.symlink(root, via)
        elif how == "empty-repo":
            vers.git(root, "init", "-q", "-b", "main")
        elif how == "stamp-free":
            os.makedirs(os.path.join(root, "kalmankit-3.3"))
        got = vers.runtime(via, w.other, **env)
        what = f"tree without usable history in {'/'.join(parts)} ({how})"
        if up <= 2 and name.startswith("kalmankit-"):
            vers.check_fields(got, [vers.re.escape(name[len("kalmankit-"):])], dict(full=None, dirty=False, error=None, date=None), what, Violation)
        else:
            vers.check_fields(got, [r"0\+unknown"], dict(full=None, dirty=None, error=True, date=None), what, Violation)
        pep(got["version"], what)
        v, _ = vers.imported(via, w.other, **env)
        if v != got["version"]:
            raise Violation(f"{what}: kalmankit.__version__ is {v!r}")
        st.traces += 2
        st.states.add(("p", name, up, how))
        st.outcomes.add(got["version"])
        st.transitions += 1
    finally:
        shutil.rmtree(top, ignore_errors=True)


def keywords(desc, st):
    """An archive with the given decoration list."""
    _, refs = desc
    w = world()
    mod = w.__dict__.get("vmod")
    if mod is None:
        mod = w.vmod = vers.load(os.path.join(w.base, vers.VFILE), "kalmankit._version")
    full = "0123456789abcdef0123456789abcdef01234567"
    for fmt in (" (%s)", "(%s)", " (%s)\n"):
        kw = dict(refnames=fmt % ", ".join(refs) if refs else "", full=full, date="2024-02-03 04:05:06 -0330")
        got = mod.git_versions_from_keywords(dict(kw), "v", False)
        tags = [r[5:] for r in refs if r.startswith("tag: ")]
        vt = [t[1:] for t in tags if t[0] == "v" and t[1:2].isdigit()]
        what = f"archive decorated {kw['refnames']!r}"
        if tags or not any(r.startswith("v9") for r in refs):
            if vt:
                vers.check_fields(got, [vers.re.escape(t) for t in vt], dict(full=full, dirty=False, error=None, date="2024-02-03T04:05:06-0330"), what, Violation)
                if "2.0" in vt and "2.0rc1" in vt and got["version"] == "2.0rc1":
                    raise Violation(f"{what}: a release candidate is preferred to the release")
            else:
                vers.check_fields(got, [r"0\+unknown"], dict(full=full, dirty=False, error=True, date=None), what, Violation)
        st.traces += 1
    st.states.add(("k", tuple(refs)))
    st.transitions += 1


def unique(desc, st):
    """Over all small histories sharing one repository, no two source states report one version."""
    w = world()
    seen = {}
    for seq in ("", "C", "CC", "T", "TC", "TCC", "TCTC", "CTC", "CCT", "BC", "TBC", "CBCT", "TCBCMC", "TCD", "CCD"):
        for dirty in ("", "E"):
            d, m, sha = w.build(list(seq), vers.Model(), dirty)
            got = vers.runtime(d, w.other)
            me = (sha[m.at], bool(dirty), m.tags.get(m.at))
            k = got["version"]
            if k in seen and seen[k] != me and not (dirty == "" and m.at in m.tags):
                raise Violation(f"{me} and {seen[k]} both report {k!r}")
            seen.setdefault(k, me)
            w.drop(d)
            st.traces += 1
            st.transitions += len(seq)
            st.states.add(("u", seq, dirty))


def branch_archive(desc, st):
    """git archive of an untagged branch while another branch is checked out."""
    _, name = desc
    w = world()
    d, m, sha = w.build(["C"], vers.Model(), "")
    try:
        if name != "main":
            vers.git(d, "checkout", "-q", "-b", name)
            with open(os.path.join(d, "g.txt"), "w") as f:
                f.write("x")
            vers.git(d, "add", "-A")
            vers.git(d, "commit", "-q", "-m", "y", date=vers.T0 + 600)
            full = vers.git(d, "rev-parse", "HEAD").strip()
            vers.git(d, "checkout", "-q", "main")
        else:
            full = sha[1]
            vers.git(d, "checkout", "-q", "-b", "dev2", "HEAD~1")
        a = w.archive(d, os.path.join(os.path.dirname(d), "arch"), name)
        got = vers.runtime(a, w.other)
        vers.check_fields(got, [r"0\+unknown"], dict(full=full, dirty=False, error=True, date=None), f"archive of the untagged branch {name}", Violation)
        st.traces += 1
        st.states.add(("b", name))
    finally:
        w.drop(d)


