"""When a function body of the tree under analysis does not type-check, the rest
of the crate can still be analysed: the body is cut out of a scratch copy and
every obligation that needs it is reported as not analysed. Items other than
function bodies are never cut."""
import json, os, re, shutil, subprocess

MARK = "vf_not_analysed"
STUB = "{ extern \"Rust\" { fn %s() -> !; } unsafe { %s() } }" % (MARK, MARK)


def blank(src):
    """src (bytes) with comments, strings and char literals overwritten by spaces, same length."""
    out = bytearray(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, min(b, n)):
            if out[k] not in (10,):
                out[k] = 32
    while i < n:
        c = src[i:i + 1]
        if src.startswith(b"//", i):
            j = src.find(b"\n", i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif src.startswith(b"/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith(b"/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith(b"*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif c in (b"r", b"b") and re.match(rb'b?r(#*)"', src[i:i + 40]) and not (i and (src[i - 1:i].isalnum() or src[i - 1:i] == b"_")):
            m = re.match(rb'b?r(#*)"', src[i:i + 40])
            j = src.find(b'"' + m.group(1), i + m.end())
            j = n if j < 0 else j + 1 + len(m.group(1))
            wipe(i, j)
            i = j
        elif c == b'"':
            j = i + 1
            while j < n and src[j:j + 1] != b'"':
                j += 2 if src[j:j + 1] == b"\\" else 1
            wipe(i, j + 1)
            i = j + 1
        elif c == b"'":
            m = re.match(rb"'(\\[^u]|\\u\{[0-9a-fA-F_]+\}|\\x..|[^\\'\n][\x80-\xbf]*)'", src[i:i + 14])
            if m:
                wipe(i, i + m.end())
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return bytes(out)


def bodies(src):
    """[(fn keyword offset, body start, body end, is_const)] of every function in src (bytes)."""
    b = blank(src)
    res = []
    for m in re.finditer(rb"\bfn\s+[\w$]+", b):
        i, d = m.end(), 0
        while i < len(b):
            c = b[i:i + 1]
            if c in b"([":
                d += 1
            elif c in b")]":
                d -= 1
            elif c == b";" and d == 0:
                i = -1
                break
            elif c == b"{" and d == 0:
                break
            i += 1
        if i < 0 or i >= len(b):
            continue
        j, d = i, 0
        while j < len(b):
            if b[j:j + 1] == b"{":
                d += 1
            elif b[j:j + 1] == b"}":
                d -= 1
                if d == 0:
                    break
            j += 1
        pre = b[max(0, m.start() - 60):m.start()]
        res.append((m.start(), i, j + 1, bool(re.search(rb"\bconst\s+(unsafe\s+)?$", pre))))
    return res


class Tree:
    """A scratch copy of the sources in which uncheckable bodies are cut."""

    def __init__(self, repo, work):
        self.repo, self.root = repo, os.path.join(work, "src")
        self.cut = []
        os.makedirs(self.root)
        for f in os.listdir(repo):
            if f.endswith(".md"):
                shutil.copy(os.path.join(repo, f), self.root)
        for d in ("crates", "src"):
            shutil.copytree(os.path.join(repo, d), os.path.join(self.root, d), ignore=shutil.ignore_patterns("target", "tests", "benches"))

    def repair(self, stderr):
        """Cuts the bodies named by the JSON diagnostics. False when some error is outside any body."""
        todo = {}
        for l in stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") != "error" or not d.get("spans"):
                continue
            hit = False
            for s in d["spans"]:
                if not s["is_primary"]:
                    continue
                while s:
                    f = os.path.realpath(s["file_name"]) if os.path.exists(s["file_name"]) else ""
                    if f.startswith(os.path.realpath(self.root) + os.sep):
                        fs = [x for x in bodies(open(f, "rb").read()) if x[1] < s["byte_start"] and s["byte_end"] <= x[2]]
                        if fs:
                            x = max(fs, key=lambda x: x[1])
                            todo.setdefault(f, {})[x[1]] = (x, d["message"])
                            hit = True
                            break
                    s = (s.get("expansion") or {}).get("span")
            if not hit:
                return False
        if not todo:
            return False
        for f, xs in todo.items():
            src = open(f, "rb").read()
            last = len(src) + 1
            for st in sorted(xs, reverse=True):
                (k, a, e, const), msg = xs[st]
                if e > last:
                    continue
                name = re.match(rb"fn\s+([\w$]+)", src[k:k + 200]).group(1).decode()
                line = src.count(b"\n", 0, k) + 1
                if src[a:e] in (STUB.encode(), b"{ loop {} }"):
                    return False
                pad = b"\n" * src.count(b"\n", a, e)
                src = src[:a] + (b"{ loop {} }" if const else STUB.encode()) + pad + src[e:]
                last = a
                self.cut.append("%s:%d fn %s: %s" % (os.path.relpath(f, self.root), line, name, msg))
            open(f, "wb").write(src)
        return True
