"""C29: the library as an installed package and as a subproject, in generated configurations."""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import time

from driver import JOBS, REPO, HarnessError, sh

# each setting with its plain value first; shrinking goes back to it
DOMAIN = {
    "use": ["find_package", "add_subdirectory"],
    "generator": ["Ninja", "Unix Makefiles"],
    "compiler": ["g++", "clang++"],
    "prefix": ["prefix", "a b/pre fix", "deep/er/prefix-1.0+x"],
    "staged": [False, True],          # DESTDIR
    "moved": [False, True],           # the installed tree is moved before use
    "version": ["", "1", "1.0", "1.0.0", "1.0.0 EXACT", "0.9", "1.1", "2", "1.0.1", "1.1 EXACT"],
    "standard": ["", "14", "17", "20", "23"],
    "extensions": ["", "OFF", "ON"],
    "build_type": ["", "Debug", "Release", "MinSizeRel"],
    "shape": ["executable", "through a static library", "through an interface library", "object library", "two libraries"],
    "excluded": [False, True],        # add_subdirectory(... EXCLUDE_FROM_ALL)
    "depth": [1, 2, 3],               # of the subproject
    "tests_off": [False, True],       # IEME_BUILD_TESTS=OFF given explicitly
    "destinations": ["", "CMAKE_INSTALL_INCLUDEDIR=inc", "CMAKE_INSTALL_DATAROOTDIR=data", "CMAKE_INSTALL_LIBDIR=lib64"],
    "layout": ["prefix path", "Ieme_DIR", "Ieme_ROOT"],
    "headers": [["ieme.hpp"]],
}

CODE = r"""
#include <cstdio>
%(includes)s
%(functions)s
int main()
{
  ieme::fraction<long> const f = ieme::fraction<long>(1, 2) + ieme::fraction<long>(-%(n)d, %(d)d);
  if (f.numerator() * 2 * %(d)d != f.denominator() * (%(d)d - 2 * %(n)d))
    return 1;
  if (%(calls)s 0)
    return 2;
  std::puts("works");
  return 0;
}
"""

USES = {
    "ieme.hpp": "ieme::to_double(ieme::reduce(ieme::fraction<int>(6, 8))) != 0.75 ||",
    "fraction_math.hpp": "ieme::floor(ieme::fraction<int>(-7, 2)) != -4 ||",
    "mixed_number.hpp": "ieme::mixed_number<int>(ieme::fraction<int>(7, 2)).whole() != 3 ||",
    "floating_point.hpp": "ieme::to_fraction<int>(0.375).den() != 8 ||",
    "chrono.hpp": "ieme::chrono::minutes(std::chrono::hours(1)).count() != 60 ||",
    "hash.hpp": "ieme::hash(ieme::fraction<int>(1, 2)) != ieme::hash(ieme::fraction<int>(2, 4)) ||",
    "limits.hpp": "ieme::limits<ieme::fraction<int>>::undefined().den() != 0 ||",
    "fraction_literals.hpp": "ieme::literals::operator\"\"_dec(\"1.5\").num() != 3 ||",
}


def public_headers():
    d = os.path.join(REPO, "include", "ieme")
    return sorted(f for f in os.listdir(d) if f.endswith(".hpp"))


def generate(rng, headers):
    cfg = {}
    for k, dom in DOMAIN.items():
        cfg[k] = dom[0] if rng.random() < .45 else rng.choice(dom)
    cfg["use"] = rng.choice(DOMAIN["use"])
    if rng.random() < .85:
        cfg["destinations"] = ""
    hs = [h for h in headers if h in USES]
    if "DATAROOTDIR" in cfg["destinations"]:  # not where CMake looks by itself
        cfg["layout"] = "Ieme_DIR"
    cfg["headers"] = rng.sample(hs, rng.randint(1, min(4, len(hs))))
    return cfg


def plain(headers):
    return {k: dom[0] for k, dom in DOMAIN.items()}


def text(cfg):
    skip = ({"version", "prefix", "staged", "moved", "destinations", "layout"} if cfg["use"] == "add_subdirectory"
            else {"excluded", "depth"})
    return ", ".join("%s=%s" % (k, "+".join(v) if isinstance(v, list) else v) for k, v in cfg.items()
                     if k == "use" or k not in skip and v != DOMAIN[k][0])


class Problem(Exception):
    pass


class Broken(Exception):
    """Not the library's fault."""


ENV_KEEP = ("PATH", "LANG", "LC_ALL", "TMPDIR")


def env(home, **more):
    return dict({k: v for k, v in os.environ.items() if k in ENV_KEEP}, HOME=home, **more)


def command(cmd, what, home, ok=True, **more):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, env=env(home, **more))
    except subprocess.TimeoutExpired:
        raise Broken("timeout: " + what)
    log = r.stdout.decode(errors="replace")
    if ok and r.returncode:
        raise Problem(what + " fails:\n" + log[-3000:])
    return r.returncode, log


def version_of_project():
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\s*\(\s*Ieme[^)]*?VERSION\s+([\d.]+)", t, re.S)
    return tuple(int(x) for x in m.group(1).split(".")) if m else (1, 0, 0)


def accepts(request, have):
    """Same major version, not newer than what is there."""
    if not request:
        return True
    want = tuple(int(x) for x in request.split()[0].split("."))
    full = want + (0,) * (3 - len(want))
    if "EXACT" in request:
        return full == have
    return full[0] == have[0] and full <= have


def copy_of_repo(check):
    """The tree as a user has it, with the test framework's place filled by an empty project."""
    dst = os.path.join(check.build, "source")
    shutil.copytree(REPO, dst, symlinks=True,
                    ignore=lambda d, names: [n for n in names if n in (".git", "_build", "build")
                                             or os.path.isfile(os.path.join(d, n, "CMakeCache.txt"))])
    d = os.path.join(dst, "external", "Catch2")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "CMakeLists.txt"), "w") as f:
        f.write("# no test framework\n")
    return dst


def attempt(check, name, source, cfg):
    """None, or what goes wrong."""
    work = os.path.join(check.build, name)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return attempt_in(work, source, cfg)
    except Problem as e:
        problem = str(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if cfg["compiler"] == "clang++" and "error:" in problem \
            and not attempt(check, name, source, dict(cfg, compiler="g++")):
        return None  # refused by the second compiler only: its limits, not a broken package
    return problem


def attempt_in(work, source, cfg):
    sub = cfg["use"] == "add_subdirectory"
    compiler = "-DCMAKE_CXX_COMPILER=" + cfg["compiler"]
    gen = ["-G", cfg["generator"], compiler]
    app = os.path.join(work, "app")
    os.makedirs(app)
    pre = []
    expect = True
    if sub:
        where = "/".join(["third party", "libs", "ieme"][-cfg["depth"]:])
        os.makedirs(os.path.join(app, os.path.dirname(where)), exist_ok=True)
        os.symlink(source, os.path.join(app, where))
        parts = where.split("/")
        for i in range(1, len(parts)):
            with open(os.path.join(app, "/".join(parts[:i]), "CMakeLists.txt"), "w") as f:
                f.write('add_subdirectory("%s")\n' % parts[i])
        lines = ['add_subdirectory("%s"%s)' % (parts[0], " EXCLUDE_FROM_ALL" if cfg["excluded"] else "")]
        if cfg["tests_off"]:
            pre.append("-DIEME_BUILD_TESTS=OFF")
    else:
        prefix = os.path.join(work, cfg["prefix"])
        build = os.path.join(work, "build")
        extra = ["-DIEME_BUILD_TESTS=OFF"]
        if cfg["destinations"]:
            extra.append("-D" + cfg["destinations"])
        command(["cmake", "-S", source, "-B", build, "-DCMAKE_INSTALL_PREFIX=" + prefix] + gen + extra, "configuring the library", work)
        command(["cmake", "--build", build], "building the library", work)
        if cfg["staged"]:
            stage = os.path.join(work, "stage")
            command(["cmake", "--install", build], "installing the library", work, DESTDIR=stage)
            if os.path.exists(prefix):
                raise Problem("a staged installation writes to its prefix")
            prefix = stage + prefix
        else:
            command(["cmake", "--install", build], "installing the library", work)
        shutil.rmtree(build)  # nothing may be needed from here
        if cfg["moved"]:
            to = os.path.join(work, "moved here")
            shutil.move(prefix, to)
            prefix = to
        have = {os.path.relpath(os.path.join(r, f), os.path.join(source, "include"))
                for r, _, fs in os.walk(os.path.join(source, "include", "ieme")) for f in fs}
        got = set()
        for r, _, fs in os.walk(prefix):
            got |= {os.path.join(r, f) for f in fs}
        for h in have:
            if not any(g.endswith("/" + h) for g in got):
                raise Problem("%s is not installed" % h)
        lines = ["find_package(Ieme %s CONFIG REQUIRED)" % cfg["version"]]
        expect = accepts(cfg["version"], version_of_project())
        if cfg["layout"] == "Ieme_DIR":
            conf = [os.path.dirname(g) for g in got if g.endswith("/IemeConfig.cmake")]
            if not conf:
                raise Problem("no package configuration is installed")
            pre.append("-DIeme_DIR=" + conf[0])
        elif cfg["layout"] == "Ieme_ROOT":
            pre.append("-DIeme_ROOT=" + prefix)
        else:
            pre.append("-DCMAKE_PREFIX_PATH=" + prefix)
    if cfg["standard"]:
        pre.append("-DCMAKE_CXX_STANDARD=" + cfg["standard"])
    if cfg["extensions"]:
        pre.append("-DCMAKE_CXX_EXTENSIONS=" + cfg["extensions"])
    if cfg["build_type"]:
        pre.append("-DCMAKE_BUILD_TYPE=" + cfg["build_type"])
    includes = "#include <ieme/fraction.hpp>\n" + "".join("#include <ieme/%s>\n" % h for h in cfg["headers"])
    calls = " ".join(USES[h] for h in cfg["headers"] if h in USES)
    shape = cfg["shape"]
    parts = {"main.cpp": (includes, "", calls)}
    lib = []
    if shape == "executable":
        target = ["add_executable(app main.cpp)", "target_link_libraries(app Ieme::Ieme)"]
    elif shape == "object library":
        target = ["add_library(part OBJECT part.cpp)", "target_link_libraries(part PUBLIC Ieme::Ieme)",
                  "add_executable(app main.cpp)", "target_link_libraries(app PRIVATE part)"]
        lib = ["part"]
    elif shape == "through an interface library":
        target = ["add_library(middle INTERFACE)", "target_link_libraries(middle INTERFACE Ieme::Ieme)",
                  "add_executable(app main.cpp)", "target_link_libraries(app PRIVATE middle)"]
    else:
        lib = ["part", "other"] if shape == "two libraries" else ["part"]
        target = []
        for l in lib:
            target += ["add_library(%s STATIC %s.cpp)" % (l, l), "target_link_libraries(%s PUBLIC Ieme::Ieme)" % l]
        target += ["add_executable(app main.cpp)", "target_link_libraries(app PRIVATE %s)" % " ".join(lib)]
    for l in lib:
        with open(os.path.join(app, l + ".cpp"), "w") as f:
            f.write(includes + "long %s_value() { return (ieme::fraction<long>(1, 2) * ieme::fraction<long>(4)).num() %s 0 ? 1 : 0; }\n"
                    % (l, "|| " + calls if calls else "||"))
    n, d = 3, 5
    with open(os.path.join(app, "main.cpp"), "w") as f:
        f.write(CODE % {"includes": includes, "functions": "".join("long %s_value();\n" % l for l in lib),
                        "calls": calls + " " + "".join("%s_value() != 1 ||" % l for l in lib), "n": n, "d": d})
    checks = []
    if sub:
        checks = ["foreach (t FractionTest OpsTest HashTest)", "  if (TARGET ${t})",
                  '    message(FATAL_ERROR "the tests of the library are built in")', "  endif()", "endforeach()"]
    with open(os.path.join(app, "CMakeLists.txt"), "w") as f:
        f.write("\n".join(["cmake_minimum_required(VERSION 3.12)", "project(App CXX)"] + lines + checks + target) + "\n")
    build = os.path.join(work, "app build")
    rc, log = command(["cmake", "-S", app, "-B", build, "-DCMAKE_FIND_USE_PACKAGE_REGISTRY=OFF"] + gen + pre,
                      "configuring a program that uses the library", work, ok=expect)
    if not expect:
        if rc == 0:
            raise Problem("version %s is accepted" % cfg["version"])
        return None
    command(["cmake", "--build", build], "building a program that uses the library", work)
    rc, log = command([os.path.join(build, "app")], "the program", work, ok=False)
    if rc or "works" not in log:
        raise Problem("the program gives wrong results")
    return None


def toolchain_works(check):
    """A project without the library configures, builds and runs."""
    work = os.path.join(check.build, "sane")
    os.makedirs(work, exist_ok=True)
    with open(work + "/CMakeLists.txt", "w") as f:
        f.write("cmake_minimum_required(VERSION 3.12)\nproject(P CXX)\nadd_executable(p p.cpp)\n")
    with open(work + "/p.cpp", "w") as f:
        f.write("int main() {}\n")
    for g in DOMAIN["generator"]:
        for c in DOMAIN["compiler"]:
            b = work + "/b-" + g[0] + c
            if sh(["cmake", "-S", work, "-B", b, "-G", g, "-DCMAKE_CXX_COMPILER=" + c]).returncode \
                    or sh(["cmake", "--build", b]).returncode:
                return False
    return True


def key(problem):
    m = re.search(r"(?m)^.*(?:error:|CMake Error).*(?:\n.*\n.*)?", problem)
    return re.sub(r"/\S+", "", problem.splitlines()[0] + " " + (m.group(0) if m else ""))[:120]


def shrink(check, source, cfg, problem, headers):
    t0 = time.time()
    base = plain(headers)
    progress = True
    while progress and time.time() - t0 < 90:
        progress = False
        cands = []
        for k in cfg:
            if k != "use" and cfg[k] != base[k] and k in text(cfg):
                c = dict(cfg, **{k: base[k]})
                if "DATAROOTDIR" in c["destinations"]:
                    c["layout"] = "Ieme_DIR"
                cands.append(c)
        if cfg["use"] != "find_package":
            cands.append(dict(base, use="add_subdirectory"))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda ic: attempt(check, "shr%d" % ic[0], source, ic[1]), enumerate(cands)))
        for c, p in zip(cands, res):
            if p and c != cfg:
                cfg, problem, progress = c, p, True
                break
    return cfg, problem


def run(check):
    headers = public_headers()
    source = copy_of_repo(check)
    rng = random.Random("C29-%d" % check.seed)
    n = check.cfg["configurations"][0 if check.tier == "quick" else 1]
    jobs, seen = [], set()
    for use in DOMAIN["use"]:
        jobs.append(dict(plain(headers), use=use))
    for d in DOMAIN["destinations"][1:]:
        jobs.append(dict(plain(headers), destinations=d, layout="Ieme_DIR"))
    for _ in range(n):
        jobs.append(generate(rng, headers))
    deadline = time.time() + (400 if check.tier == "quick" else 7000)

    def one(ij):
        if time.time() > deadline:
            return "skipped"
        return attempt(check, "c%d" % ij[0], source, ij[1])

    try:
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, enumerate(jobs)))
    except Broken as e:
        raise HarnessError(str(e))
    done = [(c, p) for c, p in zip(jobs, res) if p != "skipped"]
    bad = sorted(((c, p) for c, p in done if p), key=lambda x: len(text(x[0])))
    if bad and not toolchain_works(check):
        raise HarnessError("the build tools do not work: " + bad[0][1][:1000])
    tried, reported = set(), set()
    for c, p in bad:
        if not attempt(check, "again", source, c):
            continue
        known = next((d for d in DOMAIN["destinations"][1:] if c["destinations"] == d), "")
        k = key(p) + known
        if k in tried or len(tried) > 5:
            continue
        tried.add(k)
        c, p = shrink(check, source, c, p, headers)
        t = text(c)
        if t in reported:
            continue
        reported.add(t)
        check.violation("package", "property=%s\ntier=%s\nmode=program\n# [%s]\n---\n%s\n"
                        % (check.pid, check.tier, t, json.dumps(c)), "%s: %s" % (t, p.replace("\n", " ")[:200]))
    texts = {text(c) for c, _ in done}
    check.coverage.update(
        evaluations=len(done), distinct_nontrivial=len([t for t in texts if "," in t]),
        rule="generated configurations of installing the library and using it from another project (prefixes, "
             "staging, moving, version requests, language standards, compilers, generators, library shapes) or of "
             "using it as a subproject; the program is configured, built and run; non-trivial: at least one setting "
             "differs from the plain one",
        samples=rng.sample(sorted(texts), min(12, len(texts))), headers=headers,
        labels={u: sum(c["use"] == u for c, _ in done) for u in DOMAIN["use"]})


def replay(check, text_):
    cfg = json.loads(text_.split("\n---\n", 1)[1])
    source = copy_of_repo(check)
    p = attempt(check, "replay", source, cfg)
    print(p or "holds")
    shutil.rmtree(check.build, ignore_errors=True)
    return 1 if p else 0
