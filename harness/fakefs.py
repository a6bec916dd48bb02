"""Files that exist only in memory, in place of open and os of a module."""


class File:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.closed, self.write_mode = fs, name, False, "w" in mode or "a" in mode
        if self.write_mode:
            if name.rsplit("/", 1)[0] not in fs.dirs:
                raise IOError("no such directory: " + name)
            fs.files[name] = fs.files.get(name, "") if "a" in mode else ""
            self.lines = []
        else:
            if name not in fs.files:
                raise IOError("no such file: " + name)
            self.lines = fs.files[name].splitlines(True)
        self.at = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.at >= len(self.lines):
            raise StopIteration
        self.at += 1
        return self.lines[self.at - 1]
    next = __next__

    def readline(self):
        for line in self:
            return line
        return ""

    def readlines(self):
        return list(self)

    def read(self):
        return "".join(self)

    def write(self, text):
        assert not self.closed
        self.fs.files[self.name] = self.fs.files[self.name] + text
        return None

    def close(self):
        self.closed = True
        self.fs.closed.append(self.name)

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Path:
    def __init__(self, fs):
        self.fs = fs

    def _there(self, p):
        p = norm(p)
        return p in self.fs.files or p in self.fs.dirs

    def exists(self, p):
        return self._there(p)

    def isfile(self, p):
        return norm(p) in self.fs.files

    def getsize(self, p):
        return self.fs.stat(p).st_size

    def isdir(self, p):
        return norm(p) in self.fs.dirs

    def join(self, *a):
        return "/".join(x.rstrip("/") if i < len(a) - 1 else x for i, x in enumerate(a))


def norm(p):
    while "//" in p:
        p = p.replace("//", "/")
    return p.rstrip("/") if len(p) > 1 else p


class Stat:
    def __init__(self, size):
        self.st_size = size


class FS:
    """stands for the os module as well"""

    def __init__(self, files=(), dirs=()):
        self.files = {norm(k): v for k, v in dict(files).items()}
        self.dirs = set(dirs)
        self.closed, self.ran, self.made = [], [], []
        self.path = Path(self)
        self.sep = "/"
        self.environ = {"SCRATCH": "/scratch"}

    def open(self, name, mode="r", *a, **k):
        return File(self, norm(name), mode)

    def mkdir(self, p, *a):
        p = norm(p)
        if p in self.dirs or p in self.files:
            raise OSError("exists: " + p)
        self.dirs.add(p)
        self.made.append(p)

    def makedirs(self, p, *a, **k):
        p = norm(p)
        parts = p.split("/")
        new = False
        for i in range(1, len(parts) + 1):
            q = "/".join(parts[:i])
            if q and q not in self.dirs:
                self.dirs.add(q)
                self.made.append(q)
                new = True
        if not new and not k.get("exist_ok"):
            raise OSError("exists: " + p)

    def stat(self, p):
        p = norm(p)
        if p not in self.files:
            raise OSError("no such file: " + p)
        return Stat(len(self.files[p]))

    def system(self, command):
        self.ran.append(command)
        return 0


class Config:
    """stands for the module ConfigParser"""

    def __init__(self, values):
        self.values = values

    def ConfigParser(self, *a, **k):
        return self

    def read(self, name):
        return [name]

    def get(self, section, key):
        return self.values[section, key]

    def has_option(self, section, key):
        return (section, key) in self.values


class Args:
    """stands for the module argparse: the arguments are given, those left out take their default"""

    def __init__(self, **given):
        self.given = given

    def ArgumentParser(self, *a, **k):
        return self

    def add_argument(self, name, *a, **k):
        key = name.lstrip("-")
        if not hasattr(self, key):
            setattr(self, key, self.given.get(key, k.get("default")))

    def parse_args(self, *a):
        return self
