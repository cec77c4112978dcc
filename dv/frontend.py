"""Front end: the real sources of /repo -> clang's typed AST -> Python nodes.

Nothing is transcribed by hand: on every run clang parses the current text of
the translation units under lib/ and the JSON AST it prints is what the VC
generator executes.
"""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = ["clang++", "-std=gnu++17", "-I" + REPO + "/include",
         "-fsyntax-only", "-Wno-everything"]
OPENMP = ["-D_OPENMP=201511", "-I" + os.path.join(os.path.dirname(
    os.path.dirname(os.path.abspath(__file__))), "replay", "openmp")]
SP_TUS = ["image", "indexing", "indexing_checks", "disparity_graph",
          "lowest_penalties", "constraint_graph", "labeling_finder", "pgm_io"]


ENUM_TYPES = set()       # names of enumeration types


class FrontendError(Exception):
    pass


def scan(path, out, flags=()):
    """the declarations of this translation unit that stand in the repository:
    [file the text of the declaration continues in, line, its lines]"""
    p = subprocess.Popen(CLANG + list(flags) + ["-Xclang", "-ast-dump=json", path],
                         stdout=subprocess.PIPE)
    repo = (REPO + "/").encode()
    cur, line, included = b"", b"0", False
    buf, keep, start = [], False, (b"", b"0")
    inblock = decided = False
    for l in p.stdout:
        if l.startswith(b"    {") and not inblock:
            inblock, decided, keep, buf = True, False, False, []
            start = (cur, line)
        s = l.strip()
        if s.startswith(b'"file":'):
            if not included:
                cur = s.split(b'"')[3]
        elif s.startswith(b'"line":'):
            if not included:
                line = s[7:].strip(b' ,')
        included = s.startswith(b'"includedFrom":')
        if not inblock:
            continue
        if not decided and (l.startswith(b'      "range":') or
                            l.startswith(b"    }")):
            decided = True
            keep = cur.startswith(repo) or not cur.startswith(b"/")
        if keep or not decided:
            buf.append(l)
        if l.startswith(b"    }"):
            inblock = False
            if keep:
                out.write(json.dumps([start[0].decode(), int(start[1]), len(
                    buf)]).encode() + b"\n")
                buf[-1] = b"    }\n"
                out.writelines(buf)
    return p.wait()


def dump(path, openmp=False):
    p = subprocess.run([sys.executable, os.path.abspath(__file__), "scan",
                        path] + (["openmp"] if openmp else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=300, env=dict(os.environ, VERIF_REPO=REPO))
    if p.returncode != 0:
        raise FrontendError("clang: " + p.stderr.decode()[-2000:])
    ls = p.stdout.decode("utf-8", "replace").split("\n")
    out, i = [], 0
    while i < len(ls) and ls[i]:
        f, line, n = json.loads(ls[i])
        out.append((f, line, json.loads("\n".join(ls[i + 1:i + 1 + n]))))
        i += 1 + n
    return out


class TU:
    def __init__(self, name, path, openmp=False):
        self.name, self.path = name, path
        self.byid = {}
        self.roots = []
        for f, line, r in dump(path, openmp):
            self.roots.append(r)
            self._index(r, f, line)

    def _index(self, n, f, line):
        """index declarations by id; give every node `_line`, `_tu`."""
        curfile = [f]
        curline = [line]

        def loc(d):
            if not isinstance(d, dict):
                return
            for k in ("spellingLoc", "expansionLoc"):
                if k in d:
                    loc(d[k])
            if "file" in d:
                curfile[0] = d["file"]
            if "line" in d:
                curline[0] = d["line"]

        def walk(n, scope, parent):
            if not isinstance(n, dict) or not n:
                return
            if "loc" in n:
                loc(n["loc"])
            r = n.get("range")
            if r:
                loc(r.get("begin"))
                n["_line"] = curline[0]
                n["_file"] = curfile[0]
                loc(r.get("end"))
            else:
                n["_line"] = curline[0]
                n["_file"] = curfile[0]
            n["_tu"] = self
            k = n.get("kind", "")
            if k.endswith("Decl") and "id" in n:
                old = self.byid.get(n["id"])
                if old is None or len(json_keys(old)) < len(json_keys(n)):
                    self.byid[n["id"]] = n
                n["_scope"] = scope
                n["_parent"] = parent
            sc = scope
            if k in ("NamespaceDecl", "CXXRecordDecl") and n.get("name"):
                sc = scope + [n["name"]]
            for c in n.get("inner", []) or []:
                walk(c, sc, n)
        walk(n, [], None)


def json_keys(n):
    return n.get("inner", []) or []


def has_body(fd):
    return any(c.get("kind") in ("CompoundStmt", "CXXTryStmt")
               for c in fd.get("inner", []) or [])


FUNC_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
              "CXXDestructorDecl", "CXXConversionDecl")


class Program:
    def __init__(self, tus=SP_TUS, extra=(), openmp=False):
        # openmp: the text the build with OpenMP compiles; its pragmas are
        # dropped (iterations of a work-sharing loop run one after another)
        self.openmp = openmp
        self.tus = {}
        paths = {}
        for t in tus:
            p = os.path.join(REPO, "lib", t + ".cpp")
            if os.path.exists(p):
                paths[t] = p
        # sources added by a refactoring
        libdir = os.path.join(REPO, "lib")
        for f in sorted(os.listdir(libdir)):
            if f.endswith(".cpp"):
                n = f[:-4]
                if n not in paths and n not in ("main", "compile_cl", "gpu_csp"):
                    paths[n] = os.path.join(libdir, f)
        if "main" in extra:
            paths["main"] = os.path.join(libdir, "main.cpp")
        sys.setrecursionlimit(20000)

        def one(it):
            n, p = it
            return n, TU(n, p, openmp)
        with ThreadPoolExecutor(8) as ex:
            for n, tu in ex.map(one, paths.items()):
                self.tus[n] = tu
        self.reindex()

    def reindex(self):
        self.funcs = {}      # mangled -> definition node
        self.byname = {}     # qualified-ish name -> [definition]
        self.records = {}    # record name -> {"fields": [(name,type)], "node":..}
        self.enums = {}
        for tu in self.tus.values():
            for d in tu.byid.values():
                k = d.get("kind")
                if k in FUNC_KINDS and has_body(d) and d.get("mangledName"):
                    self.funcs.setdefault(d["mangledName"], d)
                elif k == "CXXRecordDecl" and d.get("completeDefinition") \
                        and d.get("name"):
                    fl = [c for c in json_keys(d) if c.get("kind") == "FieldDecl"]
                    if fl and d["name"] not in self.records:
                        self.records[d["name"]] = dict(
                            fields=[(c["name"], qt(c)) for c in fl],
                            decls=fl, node=d)
                elif k == "EnumDecl":
                    if d.get("name"):
                        ENUM_TYPES.add(d["name"])
                    v = 0
                    for c in json_keys(d):
                        if c.get("kind") == "EnumConstantDecl":
                            for e in json_keys(c):
                                if "value" in e:
                                    v = int(e["value"])
                            self.enums[(tu.name, c["id"])] = v
                            v += 1
        for m, d in self.funcs.items():
            self.byname.setdefault(func_name(d), []).append(d)

    def find_func(self, tu, rd):
        """definition for a referencedDecl dict"""
        d = tu.byid.get(rd["id"])
        if d is not None:
            m = d.get("mangledName")
            if m and m in self.funcs:
                return self.funcs[m]
            if has_body(d):
                return d
        return None


def qt(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


def func_name(d):
    sc = [s for s in d.get("_scope", []) if s]
    par = d.get("_parent")
    nm = d.get("name", "?")
    mn = d.get("mangledName", "")
    # out-of-line methods: the scope comes from the mangled name
    m = re.match(r"_ZN[KV]*(.*)", mn)
    if m:
        parts, s = [], m.group(1)
        while s and s[0].isdigit():
            k = re.match(r"\d+", s).group(0)
            s = s[len(k):]
            parts.append(s[:int(k)])
            s = s[int(k):]
        if parts:
            if d["kind"] == "CXXConstructorDecl":
                return "::".join(parts + [parts[-1]])
            if parts[-1] != nm:
                parts.append(nm)
            return "::".join(parts)
    return nm


if __name__ == "__main__" and sys.argv[1:2] == ["scan"]:
    sys.exit(scan(sys.argv[2], sys.stdout.buffer, OPENMP if "openmp" in
                  sys.argv[3:] else ()))
elif __name__ == "__main__":
    import time
    t = time.time()
    p = Program(extra=("main",))
    print(time.time() - t)
    for k, v in sorted(p.byname.items()):
        print(k, [x.get("mangledName") for x in v])
    for k, v in p.records.items():
        print(k, v["fields"])
