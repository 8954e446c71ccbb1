"""Runs a module of the repository, which is Python 2 code, as Python 2 would:
str is the byte string (here: a str of characters 0-255), files hold such
strings, and so do the compressed files, struct and the byte literals."""
import ast
import builtins
import bz2
import gzip
import io
import os
import struct
import sys
import types
import warnings


def enc(s):
    return s if isinstance(s, (bytes, bytearray)) else s.encode("latin-1")


def dec(b):
    return b.decode("latin-1")


class File(object):
    """A Python 2 file object over a binary file."""

    def __init__(self, raw):
        self.raw = raw

    def read(self, *size):
        return dec(self.raw.read(*size))

    def readline(self, *size):
        return dec(self.raw.readline(*size))

    def readlines(self, *size):
        return [dec(l) for l in self.raw.readlines(*size)]

    def write(self, s):
        self.raw.write(enc(s))

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def __iter__(self):
        return self

    def __next__(self):
        return dec(next(self.raw))

    next = __next__

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        self.raw.close()

    def flush(self):
        self.raw.flush()

    def seek(self, *args):
        return self.raw.seek(*args)

    def tell(self):
        return self.raw.tell()

    def fileno(self):
        return self.raw.fileno()

    @property
    def closed(self):
        return self.raw.closed

    @property
    def name(self):
        return self.raw.name

    @property
    def mode(self):
        return self.raw.mode


def binary(mode):
    return mode.replace("U", "").replace("b", "").replace("t", "") + "b"


def open_(filename, mode="r", *args, **kwargs):
    return File(builtins.open(filename, binary(mode)))


def bz2_open(filename, mode="r", *args, **kwargs):
    return File(bz2.BZ2File(filename, binary(mode)))


def gzip_open(filename=None, mode="rb", compresslevel=9, fileobj=None, mtime=0, **kwargs):
    if isinstance(fileobj, File):
        fileobj = fileobj.raw
    return File(gzip.GzipFile(filename, binary(mode or "rb"), compresslevel, fileobj, mtime=0))


class Struct(object):
    def __init__(self, fmt):
        self.s = struct.Struct(fmt)
        self.size, self.format = self.s.size, fmt

    def pack(self, *args):
        return dec(self.s.pack(*args))

    def unpack(self, s):
        return self.s.unpack(enc(s))

    def unpack_from(self, s, offset=0):
        return self.s.unpack_from(enc(s), offset)


def module(name, **members):
    m = types.ModuleType(name)
    m.__dict__.update(members)
    return m


SHIMS = {
    "bz2": module("bz2", BZ2File=bz2_open, open=bz2_open),
    "gzip": module("gzip", GzipFile=gzip_open, open=gzip_open),
    "struct": module("struct", error=struct.error, calcsize=struct.calcsize, Struct=Struct,
                     pack=lambda fmt, *a: dec(struct.pack(fmt, *a)), unpack=lambda fmt, s: struct.unpack(fmt, enc(s)),
                     unpack_from=lambda fmt, s, offset=0: struct.unpack_from(fmt, enc(s), offset)),
    "io": module("io", open=open_, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2, BufferedReader=lambda f, *a: f, BufferedWriter=lambda f, *a: f,
                 BytesIO=lambda s="": File(io.BytesIO(enc(s)))),
}


class Bytes2Str(ast.NodeTransformer):
    def visit_Constant(self, node):
        if isinstance(node.value, bytes):
            return ast.copy_location(ast.Constant(dec(node.value)), node)
        return node


class Python2(object):
    def __init__(self, repo):
        self.repo, self.modules, self.tool = repo, {}, None
        b = dict(vars(builtins))
        b.update(__import__=self.import_, open=open_, file=open_, bytes=str, str=str, unicode=str, basestring=str, long=int, xrange=range,
                 unichr=chr, reduce=None)
        self.builtins = b

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name.split(".")[0] == "distributions":
            got = self.load(name)
            for f in fromlist or ():
                if not hasattr(got, f) and self.path(name + "." + f):
                    setattr(got, f, self.load(name + "." + f))
            return got if fromlist else self.load("distributions")
        package = (globals or {}).get("__package2__")   # implicit relative imports
        if package and level <= 1 and self.path(package + "." + name):
            got = self.load(package + "." + name)
            return got if fromlist else self.load(package + "." + name.split(".")[0])
        if level and package:
            got = self.load(package)
            for f in fromlist or ():
                if not hasattr(got, f):
                    setattr(got, f, self.load(package + "." + f))
            return got
        if name in SHIMS:
            return SHIMS[name]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def path(self, name):
        base = os.path.join(self.repo, *name.split("."))
        return next((p for p in (base + ".py", base + "/__init__.py") if os.path.exists(p)), None)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        m = self.modules[name] = types.ModuleType(name)
        if "." in name:
            parent, child = name.rsplit(".", 1)
            setattr(self.load(parent), child, m)
        path = self.path(name)
        if name == "distributions" or path is None:
            return m
        if self.tool is None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                from lib2to3.refactor import RefactoringTool, get_fixers_from_package
                self.tool = RefactoringTool([f for f in get_fixers_from_package("lib2to3.fixes") if not f.endswith("fix_import")])
        text = builtins.open(path, encoding="utf-8").read()
        tree = Bytes2Str().visit(ast.parse(str(self.tool.refactor_string(text + "\n", path)), path))
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        m.__dict__["__package2__"] = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]
        exec(compile(ast.fix_missing_locations(tree), path, "exec"), m.__dict__)
        return m
