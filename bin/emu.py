"""Makes a module of the library's files for another operating system which
builds and runs here: system calls go to stand-ins kept in go/emu."""
import os, re, shutil, subprocess

# What the stand-in for kqueue systems provides instead of package syscall.
KQ = r"(?:Kqueue|Kevent_t|Kevent|SetKevent|Timespec|Pipe2?|Open|Close|Write|Read|CloseOnExec|SetNonblock|EVFILT_\w+|EV_\w+|NOTE_\w+|O_NONBLOCK|O_RDONLY|O_CLOEXEC)"

PLATFORMS = {
    # kind: GOOS, CGO_ENABLED, tags, (symbols of package syscall, stand-in package), files replaced
    "kq": dict(goos="freebsd", cgo="0", only=r"kqueue", syms=KQ, sim="kqsim", harness=("all_", "trg_", "trgtree_", "trgrace_", "kq_")),
    "fen": dict(goos="solaris", cgo="1", only=None, syms=None, sim="fensim", harness=("all_", "trg_", "trgtree_", "fen_")),
    "win": dict(goos="windows", cgo="0", only=r"_readdcw", syms=r"\w+", sim="rdsim", harness=("all_", "rdcw_", "rdrace_")),
    "fse": dict(goos="darwin", cgo="1", only=None, syms=None, sim="fsesim", flat=True, harness=("all_", "fse_", "fserace_")),
}


def files(repo, goos, cgo, env):
    env = dict(env, GOOS=goos, GOARCH="amd64", CGO_ENABLED=cgo)
    r = subprocess.run(["go", "list", "-e", "-f", "{{range .GoFiles}}{{.}}\n{{end}}--\n{{range .CgoFiles}}{{.}}\n{{end}}", "."], cwd=repo, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise RuntimeError(r.stderr)
    a, b = r.stdout.split("--\n")
    return a.split(), b.split()


def make(kind, repo, verif, dst, env):
    pf = PLATFORMS[kind]
    gofiles, cgofiles = files(repo, pf["goos"], pf["cgo"], env)
    os.makedirs(dst)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(repo, f), dst)
    with open(os.path.join(dst, "go.mod"), "a") as f:
        f.write("\n")
    for f in gofiles + cgofiles:
        s = open(os.path.join(repo, f)).read()
        s = re.sub(r"^//go:build.*$|^// \+build.*$", "//", s, flags=re.M)
        if pf["syms"] and re.search(r'^(?:import\s+|\s+)"syscall"', s, re.M) and re.search(r"\bsyscall\." + pf["syms"] + r"\b", s) and (re.search(pf["only"], f) or re.search(r"\bKevent", s)):
            s = re.sub(r"\bsyscall\.(" + pf["syms"] + r")\b", pf["sim"] + r".\1", s)
            s = re.sub(r"^package notify\b", 'package notify; import "github.com/rjeczalik/notify/%s"' % pf["sim"], s, count=1, flags=re.M)
            s += "\nvar _ = syscall.EINTR\n"
        s = re.sub(r"^#cgo LDFLAGS:.*$", "", s, flags=re.M)
        # Positions are reported as in the repository.
        s = "//line %s/%s:1\n" % (repo, f) + s
        name = re.sub(r"_(darwin|freebsd|solaris|illumos|windows|unix|amd64)\.go$", r"_\1x.go", f)
        open(os.path.join(dst, name), "w").write(s)
    emu = os.path.join(verif, "go", "emu")
    for f in sorted(os.listdir(emu)):
        src = os.path.join(emu, f)
        if os.path.isdir(src):
            if f == pf["sim"]:
                # A package of its own, or C files which become part of the library's.
                shutil.copytree(src, dst if pf.get("flat") else os.path.join(dst, f), dirs_exist_ok=True)
        elif f.startswith(pf["harness"]):
            shutil.copy(src, os.path.join(dst, f[:-4]))
    shutil.copytree(os.path.join(verif, "go", "obs"), os.path.join(dst, "verifobs"))
    if pf.get("flat"):
        return dict(CGO_ENABLED="1", CGO_CFLAGS="-O1 -I" + os.path.join(dst, "include"))
    return {}
