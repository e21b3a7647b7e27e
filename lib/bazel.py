"""Just enough of Bazel to load the repository's .bzl files, instantiate their rules and carry out their actions."""
import os
import shlex
import subprocess

MAIN = "_main"


class Fail(Exception):
    """fail() was called, or Bazel itself would refuse."""


class Root:
    def __init__(self, path):
        self.path = path


class File:
    """pkg/name of a repository; generated files live below bazel-out."""

    def __init__(self, short, generated=False, repo=""):
        inside = "external/%s/%s" % (repo, short) if repo else short
        self.root = Root("bazel-out/k8/bin" if generated else "")
        self.path = (self.root.path + "/" if generated else "") + inside
        self.short_path = "../%s/%s" % (repo, short) if repo else short
        self.runfile = "%s/%s" % (repo or MAIN, short)
        self.basename = short.rsplit("/", 1)[-1]
        self.extension = self.basename.rsplit(".", 1)[1] if "." in self.basename else ""
        self.dirname = os.path.dirname(self.path)
        self.is_source = not generated
        self.owner = Label("//%s:%s" % (os.path.dirname(short), self.basename))

    def __repr__(self):
        return "<%s>" % self.path


class Label(str):
    @property
    def name(self):
        return self.split(":")[-1].split("/")[-1]

    @property
    def package(self):
        return self.split("//")[-1].split(":")[0]


class Attr:
    """attr.kind(...) -> (kind, its arguments)."""

    def __getattr__(self, kind):
        return lambda default=None, **kw: (kind, default, kw)


class Depset:
    def __init__(self, direct=(), transitive=(), **kw):
        self.items = list(direct) + [x for t in transitive for x in t.to_list()]

    def to_list(self):
        return list(dict.fromkeys(self.items))


class Struct:
    def __init__(self, **kw):
        self.__dict__.update(kw)


BuildSettingInfo = object()


class Args:
    """ctx.actions.args()"""

    def __init__(self):
        self.items = []

    def add(self, a, v=None, format="%s"):
        if v is not None:
            self.items.append(a)
        self.items.append(format.replace("%s", text(a if v is None else v)))
        return self

    def add_all(self, a, v=None, before_each=None, format_each="%s", **kw):
        if v is not None:
            self.items.append(a)
        for x in (a if v is None else v).to_list() if isinstance(a if v is None else v, Depset) else (a if v is None else v):
            if before_each:
                self.items.append(before_each)
            self.items.append(format_each.replace("%s", text(x)))
        return self

    def add_joined(self, vs, join_with=",", **kw):
        self.items.append(join_with.join(map(text, vs)))
        return self

    def use_param_file(self, *a, **kw):
        return self

    set_param_file_format = use_param_file


def text(x):
    return x.path if isinstance(x, File) else str(x)


def flat(arguments):
    return [text(y) for x in arguments for y in (x.items if isinstance(x, Args) else [x])]


ZERO = {"string": "", "int": 0, "bool": False, "string_list": [], "label_list": [], "output_list": [], "label": None,
        "label_keyed_string_dict": {}, "string_dict": {}, "output": None, "int_list": []}


class Target:
    def __init__(self, f, setting=None):
        self.files = Depset([f])
        self.label = f.owner if f else None
        self._setting = setting

    def __getitem__(self, k):
        if k is BuildSettingInfo:
            return Struct(value=self._setting)
        raise Fail("no such provider")


class Rule:
    def __init__(self, world, implementation, attrs=None, **kw):
        self.world, self.implementation, self.attrs, self.kw = world, implementation, attrs or {}, kw

    def __call__(self, name, **given):
        w = self.world
        common = ("visibility", "tags", "testonly", "size", "timeout", "deprecation", "features", "target_compatible_with", "data_", "flaky", "local", "shard_count")
        attr, files, file, executable = Struct(), Struct(), Struct(), Struct()
        outputs = Struct()
        for k in given:
            if k not in self.attrs and k not in common and not (self.kw.get("test") and k == "args"):
                raise Fail("rule has no attribute %s" % k)
        for k, (kind, default, opts) in self.attrs.items():
            if k in given and k.startswith("_"):
                raise Fail("private attribute " + k)
            if opts.get("mandatory") and k not in given:
                raise Fail("missing attribute " + k)
            v = given[k] if k in given else default
            if v is None:
                v = ZERO.get(kind)
            want = {"string": str, "bool": (bool, int), "int": int, "string_list": list, "string_dict": dict}.get(kind)
            if want and not isinstance(v, want) or kind == "int" and isinstance(v, bool):
                raise Fail("attribute %s: %r is no %s" % (k, v, kind))
            if opts.get("values") and v not in opts["values"]:
                raise Fail("attribute %s: %r not one of %r" % (k, v, opts["values"]))
            if kind == "label":
                if v is not None:
                    f, setting = w.label(v)
                    setattr(file, k, f)
                    setattr(files, k, [f])
                    setattr(attr, k, Target(f, setting))
                    if opts.get("executable"):
                        setattr(executable, k, f)
                else:
                    setattr(attr, k, None)
                    setattr(file, k, None)
            elif kind == "label_list":
                fs = [w.label(x)[0] for x in v]
                for f in fs:
                    a = opts.get("allow_files")
                    if isinstance(a, list) and not any(f.basename.endswith(e) for e in a):
                        raise Fail("%s does not allow %r" % (k, f))
                setattr(files, k, fs)
                setattr(attr, k, [Target(f) for f in fs])
            elif kind == "label_keyed_string_dict":
                t = {Target(w.label(x)[0]): y for x, y in v.items()}
                setattr(attr, k, t)
                setattr(files, k, [f for x in t for f in x.files.to_list()])
            elif kind == "output_list":
                fs = [w.declare(x) for x in v]
                setattr(outputs, k, fs)
                setattr(attr, k, [f.owner for f in fs])
            elif kind == "output":
                setattr(outputs, k, w.declare(v))
                setattr(attr, k, v)
            else:
                setattr(attr, k, v)
        attr.name = name
        attr.tags = given.get("tags", [])
        ctx = Struct(attr=attr, files=files, file=file, executable=executable, outputs=outputs, actions=w,
                     label=Struct(name=name, package=w.package, workspace_name="", workspace_root=""), workspace_name=MAIN,
                     build_file_path=(w.package + "/" if w.package else "") + "BUILD.bazel",
                     bin_dir=Root("bazel-out/k8/bin"), genfiles_dir=Root("bazel-out/k8/bin"),
                     runfiles=lambda files=(), transitive_files=None, **kw: Struct(files=Depset(list(files) + (transitive_files.to_list() if transitive_files else [])), merge=lambda o: o),
                     expand_location=lambda s, *a: s)
        r = self.implementation(ctx)
        if name in w.targets:
            raise Fail("target %s twice" % name)
        w.targets[name] = r if isinstance(r, list) else [r]


class World:
    """A workspace below `root`: the files, the targets, and the actions carried out in the order they were declared."""

    def __init__(self, repo, root, package="pkg", settings=None):
        self.repo, self.root, self.package = repo, root, package
        self.settings = settings or {}
        self.tools, self.files, self.targets, self.actions, self.tests = {}, {}, {}, [], {}
        self.loaded = {}
        os.makedirs(root, exist_ok=True)

    # -- loading
    def load(self, rel):
        if rel in self.loaded:
            return self.loaded[rel]
        env = self.env()
        path = os.path.join(self.repo, rel)

        def load(label, *names, **alias):
            src = {}
            if label.startswith("//"):
                src = self.load(label[2:].replace(":", "/"))
            elif label.startswith(":"):
                src = self.load(os.path.join(os.path.dirname(rel), label[1:]))
            for n in names:
                if n in src:
                    env[n] = src[n]
            for a, n in alias.items():
                if n in src:
                    env[a] = src[n]
        env["load"] = load
        text = open(path).read().replace(".elems()", "")
        exec(compile(text, path, "exec"), env)
        self.loaded[rel] = env
        return env

    def env(self):
        def fail(*a, **k):
            raise Fail(" ".join(map(str, a)))

        def select(d):
            return d["//conditions:default"]

        def type_(x):
            return {str: "string", int: "int", bool: "bool", list: "list", dict: "dict", File: "File", Label: "Label"}.get(type(x), type(x).__name__)
        shell = Struct(quote=lambda s: "'" + s.replace("'", "'\\''") + "'", array_literal=lambda a: "(" + " ".join("'" + s.replace("'", "'\\''") + "'" for s in a) + ")")
        paths = Struct(basename=os.path.basename, dirname=os.path.dirname, join=os.path.join, split_extension=os.path.splitext, replace_extension=lambda p, e: os.path.splitext(p)[0] + e,
                       is_absolute=os.path.isabs, normalize=os.path.normpath, relativize=os.path.relpath)
        dicts = Struct(add=lambda *ds, **kw: {k: v for d in (*ds, kw) for k, v in d.items()})
        native = Struct(test_suite=self.test_suite, genrule=self.genrule, package_name=lambda: self.package, module_version=lambda: "1.2.3", repository_name=lambda: "@")
        return {"fail": fail, "select": select, "type": type_, "shell": shell, "dicts": dicts, "paths": paths, "native": native, "attr": Attr(), "Label": Label,
                "depset": Depset, "struct": Struct, "rule": lambda implementation=None, **kw: Rule(self, implementation, **kw),
                "DefaultInfo": lambda **kw: Struct(**kw), "BuildSettingInfo": BuildSettingInfo, "write_file": self.write_file, "print": lambda *a: None}

    # -- files
    def label(self, x):
        if isinstance(x, File):
            return x, None
        if x in self.settings:
            return None, self.settings[x]
        if x in self.tools:
            return self.tools[x], None
        name = x[1:] if x.startswith(":") else x.split(":")[-1] if x.startswith("//%s:" % self.package) else x
        full = (self.package + "/" if self.package else "") + name
        if full in self.files:
            return self.files[full], None
        if x in self.files:
            return self.files[x], None
        raise Fail("no such target %r" % x)

    def source(self, short, text, repo=""):
        f = File(short, False, repo)
        self.put(f, text)
        self.files[("@%s//" % repo if repo else "") + short] = f
        return f

    def generated(self, short, text, repo=""):
        f = File(short, True, repo)
        self.put(f, text)
        self.files[("@%s//" % repo if repo else "") + short] = f
        return f

    def put(self, f, text):
        p = os.path.join(self.root, f.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as o:
            o.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))

    def read(self, f):
        with open(os.path.join(self.root, f.path), "rb") as i:
            return i.read().decode("utf-8", "surrogateescape")

    def tool(self, label, path, short):
        f = File(short, True)
        p = os.path.join(self.root, f.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.lexists(p):
            os.symlink(path, p)
        self.tools[label] = f
        return f

    def declare(self, name):
        name = name[1:] if name.startswith(":") else name.split(":")[-1] if name.startswith("//") else name
        full = (self.package + "/" if self.package else "") + name
        if full in self.files:
            raise Fail("%s is there already" % full)
        f = File(full, True)
        self.files[full] = f
        return f

    # -- actions
    def declare_file(self, name, sibling=None):
        return File((self.package + "/" if self.package else "") + name, True)

    def write(self, output, content, is_executable=False, **kw):
        self.put(output, content)
        if is_executable:
            os.chmod(os.path.join(self.root, output.path), 0o755)

    args = staticmethod(Args)

    def symlink(self, output, target_file, **kw):
        with open(os.path.join(self.root, target_file.path), "rb") as i:
            self.put(output, i.read())

    def expand_template(self, template, output, substitutions, **kw):
        t = self.read(template)
        for k, v in substitutions.items():
            t = t.replace(k, v)
        self.put(output, t)

    def _arrange(self, outputs):
        for o in outputs:
            os.makedirs(os.path.join(self.root, o.dirname), exist_ok=True)

    def _result(self, r, outputs, what):
        missing = [o.path for o in outputs if not os.path.exists(os.path.join(self.root, o.path))]
        if r.returncode or missing:
            raise Fail("action failed (%r, missing %r): %s %s" % (r.returncode, missing, what, r.stderr[-300:]))

    def run(self, executable, arguments, outputs, inputs=(), **kw):
        self._arrange(outputs)
        argv = [os.path.join(self.root, executable.path)] + flat(arguments)
        self._result(subprocess.run(argv, cwd=self.root, capture_output=True, timeout=120, env=self.path_env()), outputs, argv)

    def run_shell(self, command, outputs, inputs=(), arguments=(), **kw):
        self._arrange(outputs)
        r = subprocess.run(["/bin/bash", "-c", command, ""] + flat(arguments), cwd=self.root, capture_output=True, timeout=120, env=self.path_env())
        self._result(r, outputs, command[:200])

    def path_env(self):
        return {"PATH": getattr(self, "PATH", "/usr/bin:/bin"), "LC_ALL": "C", **getattr(self, "ENV", {})}

    def write_file(self, name, out, content=(), newline="auto", **kw):
        self.write(self.declare(out), "\n".join(content))

    def genrule(self, name, cmd, outs, srcs=(), tools=(), **kw):
        fs = [self.declare(o) for o in outs]
        self._arrange(fs)
        c = cmd.replace("$@", fs[0].path).replace("$(OUTS)", fs[0].path)
        import re

        def loc(m):
            f = self.label(m.group(1))[0]
            return f.path
        c = re.sub(r"\$\((?:execpath|location|rootpath) ([^)]*)\)", loc, c).replace("$$", "$")
        r = subprocess.run(["/bin/bash", "-c", "set -euo pipefail\n" + c], cwd=self.root, capture_output=True, timeout=120, env=self.path_env())
        self._result(r, fs, c)

    def test_suite(self, name, tests=None, **kw):
        self.tests[name] = tests

    # -- tests
    def run_test(self, name, mode="dir", extra=(), cwd=None):
        """Runs the test with its runfiles: `mode` is how the test finds them. -> (exit code, stdout, stderr)"""
        info = self.targets[name][0]
        top = os.path.join(self.root, "rf", name)
        entries = {}
        for f in info.runfiles.files.to_list():
            entries[f.runfile] = os.path.join(self.root, f.path)
        entries.update(extra)
        srcdir = top + ".runfiles"
        for e, p in entries.items():
            if mode != "manifest" or e.startswith(MAIN + "/") and e.endswith("-test.sh") or e.split("/", 1)[1] in [t.short_path for t in self.tools.values()]:
                d = os.path.join(srcdir, e)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                if not os.path.lexists(d):
                    os.symlink(p, d)
        os.makedirs(os.path.join(srcdir, MAIN), exist_ok=True)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TEST_WORKSPACE": MAIN, "TEST_SRCDIR": srcdir}
        if mode == "dir":
            env["RUNFILES_DIR"] = srcdir
        elif mode == "manifest":
            env["RUNFILES_MANIFEST_FILE"] = srcdir + ".manifest"
            env["RUNFILES_MANIFEST_ONLY"] = "1"
            env["RUNFILES_DIR"] = srcdir
        if mode in ("manifest",):
            with open(srcdir + ".manifest", "w") as o:
                o.write("".join("%s %s\n" % x for x in sorted(entries.items())))
        r = subprocess.run([os.path.join(self.root, info.executable.path)], cwd=os.path.join(srcdir, MAIN), capture_output=True, timeout=120, env=env)
        return r.returncode, r.stdout, r.stderr

