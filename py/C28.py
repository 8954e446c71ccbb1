"""Stream files: every list of records up to a length, every format, every byte
position at which the file may end, every point at which the writer may stop."""
import itertools
import os
import shutil
import tempfile

import harness
from harness import R, QUICK, job
from py2 import Python2

REPO = os.environ.get("DIST_REPO", "/repo")
ALL_BYTES = "".join(map(chr, range(256)))
JSON_RECORDS = [0, "", "],", {"a": [1, "\n"]}, [], None, -1.5e-7, "\u00e9\u2028\"\\", [[]], True]
JSON_LARGE = ["x" * 70000, list(range(3000)), {"k%d" % i: ["]", {"a": "\n]\n"}] for i in range(200)}]
PROTO_RECORDS = ["", "\0", "\1\0\0\0", "\xff\xff\xff\xff", "\n", "ab", "[\n", "\0\0\0\0\0"]
PROTO_LARGE = [ALL_BYTES, "x" * 255, "y" * 256, "z" * 257, "\0" * 65535, "\1" * 65536, ALL_BYTES * 1000]
SUFFIXES = {"plain": "", "gz": ".gz", "bz2": ".bz2"}


class Streams(object):
    """The module under test, with all files in one scratch folder."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="streams-", dir=os.environ.get("VERIF_WORK"))
        os.chdir(self.dir)
        self.m = Python2(REPO).load("distributions.io.stream")

    def costream(self, records, filename):
        co = self.m.json_costream_dump(filename)
        next(co)
        for r in records:
            co.send(r)
        co.close()

    def dumper(self, fmt):
        return {"json": self.m.json_stream_dump, "costream": self.costream, "protobuf": self.m.protobuf_stream_dump}[fmt]

    def loader(self, fmt):
        return self.m.protobuf_stream_load if fmt == "protobuf" else self.m.json_stream_load

    def read(self, fmt, filename, limit):
        """The records read, and how reading ended: 'end', 'error: ...' or 'endless'."""
        got = []
        try:
            it = self.loader(fmt)(filename)
        except Exception as e:
            return got, "error: %r" % e
        end = "endless"
        try:
            for _ in range(limit + 2):
                got.append(next(it))
        except StopIteration:
            end = "end"
        except Exception as e:
            end = "error: %r" % e
        # Asking again after the end may fail, but gives no further record.
        if end != "endless":
            try:
                more = next(it)
                end = "further record %r after %s" % (more, end)
            except Exception:
                pass
        try:
            it.close()
        except Exception:
            pass
        return got, end


def show(x):
    s = repr(x)
    return s if len(s) < 300 else s[:140] + "..(%d).." % len(s) + s[-60:]


def same(a, b):
    """Equal, and of equal types throughout (True is not 1, and 1 is not 1.0)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def leading(got, records):
    return len(got) <= len(records) and all(map(same, got, records))


def cuts_of(size, marks):
    """All positions of a small file; of a large one those around the marks, and every 97th."""
    if size <= 2000:
        return range(size)
    near = {c for m in marks for c in range(m - 12, m + 13)} | set(range(0, 300)) | set(range(size - 300, size)) | set(range(0, size, 97 if QUICK else 7))
    return sorted(c for c in near if 0 <= c < size)


def one(s, fmt, kind, records, cut=True):
    name = "f.stream" + SUFFIXES[kind]
    s.dumper(fmt)(iter(records), name)
    R.traces += 1
    got, end = s.read(fmt, name, len(records))
    R.check(end == "end" and len(got) == len(records) and leading(got, records), "roundtrip",
            lambda: "%s/%s: wrote %s, read %s, %s" % (fmt, kind, show(records), show(got), end))
    if fmt != "protobuf":
        whole = s.m.json_load(name)
        R.check(same(whole, list(records)), "json-load", lambda: "%s/%s: wrote %s, json_load gives %s" % (fmt, kind, show(records), show(whole)))
    if not cut:
        return
    data = open(name, "rb").read()
    marks = []
    if kind == "plain" and fmt == "protobuf":
        for r in records:
            marks += [(marks or [0])[-1] + 4, (marks or [0])[-1] + 4 + len(r)]
    with open(name, "r+b") as f:
        for c in reversed(cuts_of(len(data), marks)):
            f.truncate(c)
            got, end = s.read(fmt, name, len(records))
            R.states += 1
            R.transitions += len(got)
            R.check(leading(got, records) and (end == "end" or end.startswith("error")), "cut",
                    lambda: "%s/%s: wrote %s, the file cut from %d bytes to %d; read %s, %s" % (fmt, kind, show(records), len(data), c, show(got), end))
            R.bump("sched_cut_%s" % ("end" if end == "end" else "error" if end.startswith("error") else "other"))
    os.remove(name)


def lists(fmt, kind, part, parts):
    s = Streams()
    alphabet = PROTO_RECORDS if fmt == "protobuf" else JSON_RECORDS
    depth = 3 if QUICK else 4
    every = [l for n in range(depth + 1) for l in itertools.product(alphabet, repeat=n)]
    for records in every[part::parts]:
        one(s, fmt, kind, list(records))
    R.sample("%s/%s: %d lists of up to %d records over %s, cut at every byte" % (fmt, kind, len(every[part::parts]), depth, show(alphabet)))


def large(fmt, kind):
    s = Streams()
    big = PROTO_LARGE if fmt == "protobuf" else JSON_LARGE
    small = PROTO_RECORDS[0:3] if fmt == "protobuf" else JSON_RECORDS[0:3]
    for b in big:
        one(s, fmt, kind, [b])
        for a in small:
            one(s, fmt, kind, [a, b, a], cut=not QUICK)
    one(s, fmt, kind, (small * 400)[:1000])
    if fmt == "protobuf":
        for n in range(0, 600 if QUICK else 5000):   # every record length, each framed by a short record
            one(s, fmt, kind, [chr(n % 256) * n, "e"], cut=False)
        for c in range(256):
            one(s, fmt, kind, [chr(c), chr(c) * 3], cut=kind == "plain")
    else:
        for c in list(range(0x300)) + [0x2028, 0x2029, 0xfeff, 0xffff, 0x1f600]:
            one(s, fmt, kind, [chr(c), {chr(c): chr(c) + "\n"}], cut=False)
    # several dumps to one file: each replaces the one before
    for a in (big[0], small[1]):
        for b in small:
            name = "again" + SUFFIXES[kind]
            s.dumper(fmt)([a, a, b], name)
            s.dumper(fmt)([b], name)
            got, end = s.read(fmt, name, 1)
            R.check(end == "end" and same(got, [b]), "overwrite", lambda: "%s/%s: %s over %s gives %s, %s" % (fmt, kind, show([b]), show([a, a, b]), show(got), end))
    # into folders that are there, and that are not
    for folder in ("a", "a/b", "a/b", "c/d/e", s.dir + "/abs"):
        name = os.path.join(folder, "f" + SUFFIXES[kind])
        s.dumper(fmt)(small, name)
        got, end = s.read(fmt, name, len(small))
        R.check(end == "end" and same(got, list(small)), "folder", lambda: "%s/%s: %s written to %s reads as %s, %s" % (fmt, kind, show(small), name, show(got), end))
    R.states += 1


class Stop(Exception):
    pass


def writers(fmt, kind):
    """The source of records, or the writing program, stops after any number of records."""
    s = Streams()
    alphabet = PROTO_RECORDS[:4] if fmt == "protobuf" else JSON_RECORDS[:5]
    name = "w.stream" + SUFFIXES[kind]
    for n in range(4 if QUICK else 5):
        for records in itertools.product(alphabet, repeat=n):
            for stop in range(n + 1):
                if fmt == "costream":
                    endings = ["close", "throw", "forget"]
                else:
                    endings = ["raise"]
                for ending in endings:
                    given = list(records[:stop])
                    if fmt == "costream":
                        co = s.m.json_costream_dump(name)
                        next(co)
                        for r in given:
                            co.send(r)
                        if ending == "close":
                            co.close()
                        elif ending == "throw":
                            try:
                                co.throw(Stop())
                            except Stop:
                                pass
                        del co
                    else:
                        def source():
                            for r in given:
                                yield r
                            raise Stop()
                        try:
                            s.dumper(fmt)(source(), name)
                            R.check(False, "swallowed", "%s/%s: an error of the record source was swallowed" % (fmt, kind))
                        except Stop:
                            pass
                    got, end = s.read(fmt, name, len(given))
                    R.states += 1
                    R.transitions += len(given)
                    R.check(leading(got, given) and (end == "end" or end.startswith("error")), "writer-stop",
                            lambda: "%s/%s: writer stopped (%s) after %s; read %s, %s" % (fmt, kind, ending, show(given), show(got), end))
                    if ending in ("close", "forget") and fmt == "costream":
                        R.check(end == "end" and same(got, given), "costream-close", lambda: "%s/%s: %s closed (%s) reads as %s, %s" % (fmt, kind, show(given), ending, show(got), end))
    R.traces += R.states


def protobuf_fd():
    """Writing and reading record by record on an open file, with the reader following
    the writer: after each step the reader sees what was written so far."""
    s = Streams()
    for n in range(4 if QUICK else 5):
        for records in itertools.product(PROTO_RECORDS, repeat=n):
            w = open("fd", "wb")
            import py2
            wf = py2.File(w)
            for r in records:
                s.m.protobuf_stream_write(r, wf)
            wf.close()
            rf = py2.open_("fd", "rb")
            got = [s.m.protobuf_stream_read(rf) for _ in records]
            try:
                more, end = s.m.protobuf_stream_read(rf), "no end"
            except StopIteration:
                end = "end"
            rf.close()
            R.states += 1
            R.transitions += len(records)
            R.check(same(got, list(records)) and end == "end", "fd", lambda: "wrote %s, read %s, %s" % (show(records), show(got), end))
            R.check(os.path.getsize("fd") == sum(4 + len(r) for r in records), "fd-size", lambda: "%s takes %d bytes" % (show(records), os.path.getsize("fd")))
    R.traces += R.states


def documents(kind):
    """json_dump and json_load of whole documents."""
    s = Streams()
    name = "d.json" + SUFFIXES[kind]
    values = JSON_RECORDS + JSON_LARGE
    for depth in range(3):
        for items in itertools.product(JSON_RECORDS[:6], repeat=depth):
            values = values + [list(items), {"k%d" % i: v for i, v in enumerate(items)}]
    for v in values:
        for kwargs in ({}, {"indent": 2}, {"sort_keys": True}, {"separators": (",", ":")}):
            s.m.json_dump(v, name, **kwargs)
            got = s.m.json_load(name)
            R.states += 1
            R.check(same(got, v), "document", lambda: "json_dump(%s, %s) to %s loads as %s" % (show(v), kwargs, name, show(got)))
    R.traces += R.states
    R.transitions += R.states


PARTS = 2 if QUICK else 8
for fmt in ("json", "costream", "protobuf"):
    for kind in SUFFIXES:
        for p in range(PARTS):
            job("lists/%s/%s/%d" % (fmt, kind, p), lists, fmt, kind, p, PARTS)
        job("large/%s/%s" % (fmt, kind), large, fmt, kind)
        job("writers/%s/%s" % (fmt, kind), writers, fmt, kind)
job("fd", protobuf_fd)
for kind in SUFFIXES:
    job("documents/%s" % kind, documents, kind)

if __name__ == "__main__":
    harness.main()
