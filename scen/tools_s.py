"""Scenarios for frame extraction, the server and the command line (T01, T02, T03, N03)."""
import posixpath
import types

from . import sched
from .screen_s import gen_stubs

CELLS = (0, 1, 119, 120, 127, 128, 255, 256, 1023, 1024, 4000, 8063, 8184, 8191)


class World:
    """The outside world of the frame grabber: files, the converter and the input video.

    A failing external operation can be chosen by its number."""

    def __init__(self, h):
        self.h = h
        self.files = {}      # path -> content key
        self.dirs = set()
        self.video = []      # tags of the frames of the input video
        self.rate = "30/1"
        self.calls = []      # (mode, palette argument, frame tag)
        self.ops = 0
        self.fail_at = None
        self.fail_how = 0
        self.failed = False
        self.inputs = []
        self.conversions = []

    # -- external operations

    def op(self, what):
        k = self.ops
        self.ops += 1
        if self.fail_at is not None and k == self.fail_at:
            self.failed = True
            raise [OSError, ValueError, RuntimeError][self.fail_how]("injected: %s" % what)

    def blob(self, key, shape):
        """Contents of a converted file."""
        n = sum(ord(c) * (i + 3) for i, c in enumerate(key))
        if len(shape) == 1:
            cells, base = [(c,) for c in CELLS], lambda i: (i[0] * 7 + (i[0] >> 5) + n) & 0xff
        else:
            cells, base = [(c >> 8, c & 255) for c in CELLS], lambda i: (
                (i[0] * 256 + i[1]) * 7 + ((i[0] * 256 + i[1]) >> 5) + n) & 0xff
        a = self.h.u8_array("z", shape, [], base)
        for c in cells:
            flat = c[0] if len(shape) == 1 else c[0] * 256 + c[1]
            self.h.put(a, c, self.h.u8("%s_%d" % (key, flat)))
        return a

    # -- the file system

    def norm(self, p):
        return posixpath.normpath(str(p))

    def exists(self, p):
        p = self.norm(p)
        return p in self.files or p in self.dirs

    def stat(self, p, *a, **k):
        self.op("stat")
        if not self.exists(p):
            raise FileNotFoundError(2, "No such file or directory", str(p))
        f = self.files.get(self.norm(p))
        return types.SimpleNamespace(st_size=8192 if f and f[0] == "bin" else 1000, st_mtime=0, st_mode=0o100644)

    def remove(self, p, *a, **k):
        self.op("remove")
        p = self.norm(p)
        if p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        del self.files[p]

    def rename(self, a, b, *r, **k):
        self.op("rename")
        a, b = self.norm(a), self.norm(b)
        if a not in self.files:
            raise FileNotFoundError(2, "No such file or directory", a)
        self.files[b] = self.files.pop(a)

    def makedirs(self, p, *a, exist_ok=False, **k):
        self.op("makedirs")
        p = self.norm(p)
        if p in self.dirs and not exist_ok:
            raise FileExistsError(17, "File exists", p)
        while p and p not in ("/", "."):
            self.dirs.add(p)
            p = posixpath.dirname(p)

    def convert(self, cmd, *a, **k):
        self.op("convert")
        cmd = [str(c) for c in cmd]
        ok = posixpath.basename(cmd[0]) == "bmp2dhr"
        src = self.norm(cmd[1])
        if not ok:
            raise FileNotFoundError(2, "No such file or directory", cmd[0])
        img = self.files.get(src)
        if img is None or img[0] != "img":
            return 1
        mode = cmd[2].lower()
        pal = [c for c in cmd[3:] if c[:1] in "Pp" and c[1:].isdigit()]
        pal = pal[-1].upper() if pal else "P5"
        base = src.rsplit(".", 1)[0]
        self.conversions.append((img[1], mode, pal))
        key = "%s_%s_%s" % (img[1], mode, pal)
        if self.broken(img[1]):
            return 1
        if mode == "hgr":
            self.files[base + "C.BIN"] = ("bin", key + "_main")
        elif mode == "dhgr" and any(c.upper() == "A" for c in cmd[3:]):
            self.files[base + ".BIN"] = ("bin", key + "_main")
            self.files[base + ".AUX"] = ("bin", key + "_aux")
        else:
            self.files[base + "C.BIN"] = ("bin", key + "_both")
        return 0

    def broken(self, tag):
        return False

    def fromfile(self, p, dtype=float, *a, **k):
        self.op("fromfile")
        kind = getattr(dtype, "name", None) or getattr(dtype, "__name__", None) or str(dtype)
        p = self.norm(p)
        f = self.files.get(p)
        if f is None:
            raise FileNotFoundError(2, "No such file or directory", p)
        if f[0] == "short":
            return self.blob("short", (100,))
        assert f[0] == "bin"
        if kind not in ("uint8", "u1", "B", "ubyte", "|u1"):
            # something else than bytes
            return self.blob(f[1], (8192,)).astype(self.h.np.int8) if kind in ("int8", "i1", "b", "byte", "|i1") else \
                self.h.array([0.0] * 1024, "float64")
        return self.blob(f[1], (8192,))

    # -- stand-in modules

    def os(self):
        path = types.SimpleNamespace(
            **{n: getattr(posixpath, n) for n in ("join", "splitext", "basename", "dirname", "split", "normpath", "isabs",
                                                  "abspath", "sep", "expanduser")},
            exists=self.exists, isfile=lambda p: self.norm(p) in self.files, isdir=lambda p: self.norm(p) in self.dirs,
            getsize=lambda p: self.stat(p).st_size)
        return self.h.module(
            "os", path=path, sep="/", stat=self.stat, remove=self.remove, unlink=self.remove, rename=self.rename,
            replace=self.rename, makedirs=self.makedirs, mkdir=lambda p, *a, **k: self.makedirs(p), cpu_count=lambda: 2,
            fspath=str, getcwd=lambda: "/work", access=lambda p, *a: self.exists(p), R_OK=4, F_OK=0, environ={},
            listdir=lambda p: [posixpath.basename(f) for f in self.files if posixpath.dirname(f) == self.norm(p)])

    def subprocess(self):
        class CalledProcessError(Exception):
            def __init__(self, returncode, cmd, *a, **k):
                Exception.__init__(self, "returned %d" % returncode)
                self.returncode, self.cmd = returncode, cmd

        def run(cmd, *a, check=False, **k):
            r = self.convert(cmd)
            if check and r:
                raise CalledProcessError(r, cmd)
            return types.SimpleNamespace(returncode=r, stdout=b"", stderr=b"")

        def check_call(cmd, *a, **k):
            run(cmd, check=True)
            return 0
        return self.h.module("subprocess", call=lambda cmd, *a, **k: self.convert(cmd), run=run, check_call=check_call,
                             check_output=lambda cmd, *a, **k: (check_call(cmd), b"")[1],
                             CalledProcessError=CalledProcessError, SubprocessError=CalledProcessError,
                             DEVNULL=-3, PIPE=-1, STDOUT=-2)

    def image(self):
        w = self

        class Image:
            def __init__(self, tag, size):
                self.tag, self.size = tag, size

            def resize(self, size, resample=None, *a, **k):
                w.op("resize")
                size = tuple(size)
                return Image(self.tag if size == (280, 192) else self.tag + "_%dx%d" % size, size)

            def save(self, path, *a, **k):
                w.op("save")
                d = posixpath.dirname(w.norm(path))
                if d not in ("", ".", "/") and d not in w.dirs and d not in [
                        posixpath.dirname(w.norm(i)) for i in w.inputs]:
                    raise FileNotFoundError(2, "No such file or directory", str(path))
                w.files[w.norm(path)] = ("img", self.tag)

            def copy(self):
                return Image(self.tag, self.size)

            def convert(self, *a, **k):
                return self

        def fromarray(arr, *a, **k):
            w.op("fromarray")
            return Image(arr[1], (640, 480))
        m = self.h.module("PIL.Image", Image=Image, fromarray=fromarray, LANCZOS=1, BICUBIC=3, BILINEAR=2, NEAREST=0,
                          Resampling=types.SimpleNamespace(LANCZOS=1, BICUBIC=3, BILINEAR=2, NEAREST=0))
        return self.h.module("PIL", Image=m), m

    def skvideo(self):
        w = self

        class FFmpegReader:
            def __init__(self, filename, *a, **k):
                w.inputs.append(str(filename))
                self.frames = list(w.video)

            def nextFrame(self):
                for t in self.frames:
                    w.op("read")
                    yield ("frame", t)
                w.op("read")

            def close(self):
                pass
        io = self.h.module("skvideo.io", FFmpegReader=FFmpegReader,
                           ffprobe=lambda f: {"video": {"@r_frame_rate": self.rate}})
        return self.h.module("skvideo", io=io), io

    def pathlib(self):
        w = self
        import pathlib

        class Path(pathlib.PurePosixPath):
            def exists(self):
                return w.exists(self)
            is_file = exists

            def stat(self):
                return w.stat(self)

            def unlink(self, *a, **k):
                w.remove(self)

            def mkdir(self, *a, **k):
                w.makedirs(self, exist_ok=True)
        return self.h.module("pathlib", Path=Path, PurePath=pathlib.PurePosixPath, PosixPath=Path)

    def stubs(self, s):
        pil, img = self.image()
        sk, io = self.skvideo()
        h = self.h
        return {"os": self.os(), "subprocess": self.subprocess(), "threading": s.threading(h.module),
                "queue": s.queue(h.module), "time": s.time(h.module), "pathlib": self.pathlib(),
                "PIL": pil, "PIL.Image": img, "skvideo": sk, "skvideo.io": io,
                "colormath": gen_stubs()["colormath"], "colormath.color_objects": gen_stubs()["colormath.color_objects"]}


def grabber(h, w, s):
    """The module under test with its outside world."""
    h.world(stubs=w.stubs(s), fresh=True)
    fg = h.load("frame_grabber")
    h.patch(fg.np, "fromfile", w.fromfile)
    return fg, h.load("palette"), h.load("video_mode")


def deliver(h, w, fg, make, limit=100):
    """Iterate over frames(); returns (frames, how it ended)."""
    got = []
    h.threads(True)
    try:
        g = make()
        for f in g.frames():
            got.append(f)
            if len(got) > limit:
                return got, "endless"
        end = "end"
    except sched.Deadlock:
        end = "hang"
    except Exception as e:
        end = "error %s: %s" % (type(e).__name__, e)
    finally:
        w.sched.finish()
        h.threads(False)
    return got, end


def check_frames(h, w, got, tags, dhgr, pal, label):
    """The frames are the conversions of the tagged input frames (or of any of several)."""
    mode = "dhgr" if dhgr else "hgr"
    for i, (f, ts) in enumerate(zip(got, tags)):
        oks = []
        for t in ts:
            key = "%s_%s_P%d" % (t, mode, pal)
            ok = h.arr_eq(f[0].page_offset, w.blob(key + "_main", (32, 256)))
            if dhgr:
                ok = h.and_(ok, f[1] is not None and h.arr_eq(f[1].page_offset, w.blob(key + "_aux", (32, 256))))
            oks.append(ok)
        h.claim("%sframe %d is the conversion of its input frame" % (label, i), h.any(oks))


def schedule(h, w, nbits=0, bits=None):
    """Start a run with the given (or any) schedule."""
    if bits is None:
        bits = [h.fork(h.bool("switch%d" % i)) for i in range(nbits)]
    w.sched.__dict__.update(sched.Sched(bits).__dict__)


def tags(video, n):
    return ["%s%d" % (video, i) for i in range(n)]


def t01_order(h, dhgr, pal, n, bits, name="films/movie.mp4"):
    """Frames of a video without cached files, under any schedule."""
    w = World(h)
    w.video = tags("v", n)
    w.sched = sched.Sched()
    fg, pm, vm = grabber(h, w, w.sched)
    schedule(h, w, bits)
    mode = vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR
    got, end = deliver(h, w, fg, lambda: fg.FileFrameGrabber(name, mode=mode, palette=pm.Palette[pal]), n + 3)
    h.claim("iteration ends", end == "end")
    h.claim("number of frames", len(got) == n)
    check_frames(h, w, got, [[t] for t in w.video], dhgr, pm.Palette[pal].value, "")
    h.claim("the input is the given file", all(x == name for x in w.inputs) and len(w.inputs) > 0)
    h.cover("reached")


def t01_cached(h, dhgr, pal, n, name="films/movie.mp4"):
    """A second run after some of the files of the first have vanished."""
    w = World(h)
    w.video = tags("v", n)
    w.sched = sched.Sched()
    fg, pm, vm = grabber(h, w, w.sched)
    gone = [h.fork(h.bool("gone%d" % i)) for i in range(n * (2 if dhgr else 1))]
    bit = h.fork(h.bool("switch"))
    mode = vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR

    def make():
        return fg.FileFrameGrabber(name, mode=mode, palette=pm.Palette[pal])
    got, end = deliver(h, w, fg, make)
    h.claim("first run ends", end == "end" and len(got) == n)
    bins = sorted(f for f in w.files if w.files[f][0] == "bin")
    h.claim("converted files are kept", len(bins) == len(gone))
    if len(bins) != len(gone):
        return
    lost = set()
    for f, g in zip(bins, gone):
        if g:
            lost.add(w.files[f][1].split("_")[0])
            del w.files[f]
    w.conversions = []
    schedule(h, w, bits=[bit] * 4)
    got, end = deliver(h, w, fg, make)
    h.claim("second run ends", end == "end" and len(got) == n)
    check_frames(h, w, got, [[t] for t in w.video], dhgr, pm.Palette[pal].value, "second run: ")
    h.claim("only missing conversions are made again", sorted(t for t, _, _ in w.conversions) == sorted(lost))
    h.cover("some files vanished", len(lost) > 0)


def t01_history(h, first, second, n, n1):
    """A run for one (name, mode, palette) after a run for another."""
    w = World(h)
    w.sched = sched.Sched()
    fg, pm, vm = grabber(h, w, w.sched)
    out = []
    for k, (name, mode, pal, count, v) in enumerate([tuple(first) + (n1, "a"), tuple(second) + (n, "b")]):
        w.video = tags(v, count)
        schedule(h, w)
        m = vm.VideoMode[mode]
        got, end = deliver(h, w, fg, lambda: fg.FileFrameGrabber(name, mode=m, palette=pm.Palette[pal]))
        h.claim("run %d ends" % k, end == "end" and len(got) == count)
        check_frames(h, w, got, [[t] for t in w.video], mode == "DHGR", pm.Palette[pal].value, "run %d: " % k)
    h.cover("reached")


NAMES = ["movie.mp4", "films/movie.mp4", "films/movie.part1.mp4", "films/movie.part2.mp4", "/tmp/a b/movie.mov",
         "clip", "movie", "films.d/movie", "films.d/clip", "movie.tar.gz.mp4"]


def t01_configs(tier):
    out = []
    for d in (False, True):
        for pal in ("NTSC", "IIGS"):
            for n in (0, 1, 2, 3) if tier != "thorough" else (0, 1, 2, 3, 4):
                out.append(("tools_s", "t01_order", {"dhgr": d, "pal": pal, "n": n, "bits": 5 if tier != "thorough" else 10}))
        out.append(("tools_s", "t01_order", {"dhgr": d, "pal": "NTSC", "n": 14, "bits": 3}))
        out.append(("tools_s", "t01_cached", {"dhgr": d, "pal": "NTSC", "n": 2 if d and tier != "thorough" else 3}))
    modes = [(m, p) for m in ("HGR", "DHGR") for p in ("NTSC", "IIGS")]
    pairs = []
    # same name, another mode or palette; same mode and palette, another name
    for a in modes:
        for b in modes:
            if a != b:
                pairs.append((("films/movie.mp4",) + a, ("films/movie.mp4",) + b))
    for i, x in enumerate(NAMES):
        for y in NAMES:
            if x != y and stem(x) != stem(y):
                k = (i + len(y)) % 4
                pairs.append(((x,) + modes[k], (y,) + modes[k]))
    return out + [("tools_s", "t01_history", {"first": list(a), "second": list(b), "n": 2, "n1": 3}) for a, b in pairs]


def stem(n):
    return posixpath.splitext(n)[0]


# ------------------------------------------------------------------ N03

def n03(h, dhgr, n, bits, how, cached=False):
    """One external operation fails (or none, if there are fewer)."""
    w = World(h)
    w.video = tags("v", n)
    w.sched = sched.Sched()
    fg, pm, vm = grabber(h, w, w.sched)
    k = h.forkint(h.int("fail", 0, n - 1 if how in ("converter", "short") else 12 + 8 * n))
    mode = vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR

    def make():
        return fg.FileFrameGrabber("films/movie.mp4", mode=mode, palette=pm.Palette.NTSC)
    if cached:
        deliver(h, w, fg, make)
        w.ops = 0
    schedule(h, w, bits)
    if how == "converter":
        # the converter itself fails on frame k and leaves no files
        bad = w.video[k]

        def broken(t):
            if t == bad:
                w.failed = True
            return t == bad
        w.broken = broken
    elif how == "short":
        bad = w.video[k]
        real = w.fromfile

        def fromfile(p, *a, **kw):
            f = w.files.get(w.norm(p))
            if f is not None and f[1].split("_")[0] == bad:
                w.failed = True
                return w.blob("short", (100,))
            return real(p, *a, **kw)
        h.patch(fg.np, "fromfile", fromfile)
    else:
        w.fail_at, w.fail_how = k, how
    got, end = deliver(h, w, fg, make, n + 3)
    h.claim("transcoding does not wait for ever", end != "hang")
    if w.failed:
        h.claim("a failure ends in an error", end.startswith("error"))
    else:
        h.claim("without a failure every frame arrives", end == "end" and len(got) == n)
    h.claim("no more frames than the video has", len(got) <= n)
    check_frames(h, w, got, [[t] for t in w.video], dhgr, pm.Palette.NTSC.value, "")
    h.cover("a failure", w.failed)
    h.cover("no failure", not w.failed or how in ("converter", "short"))


def n03_stop(h, dhgr, n, k, bits, how):
    """The consumer takes k frames and stops; the program then ends."""
    w = World(h)
    w.video = tags("v", n)
    w.sched = sched.Sched()
    fg, pm, vm = grabber(h, w, w.sched)
    mode = vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR
    schedule(h, w, bits)
    got, end = [], "end"
    h.threads(True)
    try:
        g = fg.FileFrameGrabber("films/movie.mp4", mode=mode, palette=pm.Palette.NTSC).frames()
        for _ in range(k):
            got.append(next(g))
        if how == "close":
            g.close()
        w.sched.leave()
    except sched.Deadlock:
        end = "hang"
    finally:
        w.sched.finish()
        h.threads(False)
    h.claim("the program ends although frames are left", end == "end")
    check_frames(h, w, got, [[t] for t in w.video], dhgr, pm.Palette.NTSC.value, "")
    h.cover("reached")


def n03_configs(tier):
    out = [("tools_s", "n03_stop", {"dhgr": d, "n": n, "k": k, "bits": 3, "how": how}) for d, n, k, how in (
        (False, 14, 1, "close"), (True, 14, 2, "close"), (True, 25, 3, "keep"), (False, 2, 1, "keep"), (True, 3, 3, "close"))]
    deep = tier == "thorough"
    b = 6 if deep else 3
    for d in (False, True):
        for n, how in ([(n, k) for n in range(4) for k in range(3)] if deep else [(1, 0), (3, 0), (2, 1), (2, 2)]):
            out.append(("tools_s", "n03", {"dhgr": d, "n": n, "bits": b, "how": how}))
        for n in (1, 2, 3) if deep else (1, 3):
            for how in ("converter", "short"):
                out.append(("tools_s", "n03", {"dhgr": d, "n": n, "bits": b, "how": how}))
        out.append(("tools_s", "n03", {"dhgr": d, "n": 2, "bits": b, "how": 0, "cached": True}))
        out.append(("tools_s", "n03", {"dhgr": d, "n": 12, "bits": 1, "how": 0}))
    return out


# ------------------------------------------------------------------ T02

class File:
    """A file opened for reading; positions and sizes are concrete, contents may be symbolic."""

    def __init__(self, h, data, text=False):
        self.h, self.data, self.pos, self.closed = h, data, 0, False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        n = len(self.data) if n is None or int(n) < 0 else int(n)
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return self.h.bytes(r)

    read1 = read

    def readinto(self, buf):
        d = self.data[self.pos:self.pos + len(buf)]
        for i, b in enumerate(d):
            buf[i] = b
        self.pos += len(d)
        return len(d)

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else len(self.data) + p
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True

    def __iter__(self):
        # lines end at newlines; contents without a symbolic newline only
        raise self.h.unsupported("lines of a binary file")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Sock:
    """A client's connection.  send() may take fewer bytes than given (the schedule decides)."""

    def __init__(self, h, name, breaks=None):
        self.h, self.name, self.got, self.open, self.n, self.breaks = h, name, [], True, 0, breaks
        self.partial = 0

    def _chunk(self, b):
        if not self.open:
            raise OSError(9, "Bad file descriptor")
        b = [b[i] for i in range(len(b))]
        if self.breaks is not None and len(self.got) + len(b) > self.breaks:
            self.got += b[:self.breaks - len(self.got)]
            self.open = False
            raise ConnectionResetError(104, "Connection reset by peer")
        return b

    def sendall(self, b, flags=0):
        self.got += self._chunk(b)

    def send(self, b, flags=0):
        b = self._chunk(b)
        if len(b) > 1:
            k = self.h.forkint(self.h.int("%s_send%d" % (self.name, self.n), 1, min(len(b), 3)))
            self.n += 1
            # 3 stands for everything
            b = b if k == 3 else b[:k]
        self.got += b
        return len(b)

    def sendfile(self, f, offset=0, count=None):
        f.seek(offset)
        b = f.read() if count is None else f.read(count)
        self.sendall(b)
        return len(b)

    def makefile(self, *a, **k):
        return types.SimpleNamespace(write=lambda b: (self.sendall(b), len(b))[1], flush=lambda: None, close=lambda: None)

    def recv(self, n, *a):
        return b""

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        self.open = False

    def close(self):
        self.open = False

    def fileno(self):
        return 3


def socketserver(h, clients, log):
    class BaseRequestHandler:
        def __init__(self, request, client_address, server):
            self.request, self.client_address, self.server = request, client_address, server
            self.setup()
            try:
                self.handle()
            finally:
                self.finish()

        def setup(self):
            pass

        def handle(self):
            pass

        def finish(self):
            pass

    class StreamRequestHandler(BaseRequestHandler):
        def setup(self):
            self.connection = self.request
            self.wfile = self.request.makefile("wb")
            self.rfile = types.SimpleNamespace(read=lambda *a: b"", readline=lambda *a: b"")

    class TCPServer:
        allow_reuse_address = False
        address_family = 2
        socket_type = 1
        request_queue_size = 5

        def __init__(self, server_address, RequestHandlerClass, bind_and_activate=True):
            self.server_address, self.RequestHandlerClass = server_address, RequestHandlerClass
            self.bound = self.active = False
            self.socket = types.SimpleNamespace(setsockopt=lambda *a: None)
            log["servers"].append(self)
            self.left = list(clients)
            if bind_and_activate:
                self.server_bind()
                self.server_activate()

        def server_bind(self):
            if self.bound:
                raise OSError(22, "already bound")
            self.bound = True
            log["reuse"] = bool(self.allow_reuse_address)

        def server_activate(self):
            self.active = True

        def handle_request(self):
            if not (self.bound and self.active):
                raise OSError(22, "not listening")
            if not self.left:
                raise KeyboardInterrupt()
            c = self.left.pop(0)
            try:
                self.process_request(c, ("10.0.0.%d" % len(self.left), 1))
            except Exception as e:
                log["errors"].append(e)
                self.shutdown_request(c)

        def process_request(self, request, client_address):
            self.finish_request(request, client_address)
            self.shutdown_request(request)

        def finish_request(self, request, client_address):
            self.RequestHandlerClass(request, client_address, self)

        def shutdown_request(self, request):
            request.shutdown(1)
            request.close()

        def serve_forever(self, poll_interval=0.5):
            while self.left:
                self.handle_request()

        def server_close(self):
            pass

        def shutdown(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.server_close()

    class ThreadingMixIn:
        daemon_threads = False

    class ThreadingTCPServer(ThreadingMixIn, TCPServer):
        pass
    return h.module("socketserver", BaseRequestHandler=BaseRequestHandler, StreamRequestHandler=StreamRequestHandler,
                    TCPServer=TCPServer, ThreadingMixIn=ThreadingMixIn, ThreadingTCPServer=ThreadingTCPServer)


def t02(h, size, cells, clients, breaks=None):
    """The bytes each of several clients receives; the first may go away after `breaks` bytes."""
    sym = {}
    for c in range(size) if cells is None else cells:
        sym[c] = h.u8("file%d" % c)
    data = [sym[i] if i in sym else (i * 11 + (i >> 8) * 3) & 0xff for i in range(size)]
    socks = [Sock(h, "c%d" % i, breaks if i == 0 else None) for i in range(clients)]
    log = {"servers": [], "errors": []}
    opened = []

    def fake_open(path, mode="r", *a, **k):
        opened.append((str(path), mode))
        if str(path) != "films/movie.a2m":
            raise FileNotFoundError(2, "No such file or directory", str(path))
        if "b" not in mode or any(c in mode for c in "wax+"):
            raise ValueError("not opened for binary reading: %r" % mode)
        return File(h, data)
    path = types.SimpleNamespace(getsize=lambda p: size, exists=lambda p: True, basename=posixpath.basename,
                                 join=posixpath.join)
    osm = h.module("os", path=path, stat=lambda p: types.SimpleNamespace(st_size=size), fspath=str, environ={})
    h.world(dirs=("server",), fresh=True, builtin_overrides={"open": fake_open},
            stubs={"socketserver": socketserver(h, socks, log), "os": osm, "colormath": gen_stubs()["colormath"]})
    srv = h.load("server")
    args = srv.parser.parse_args(["films/movie.a2m", "--port", "1977"])
    try:
        srv.main(args)
    except KeyboardInterrupt:
        pass
    except OSError as e:
        h.claim("the server runs (%s)" % e, False)
    for i, s in enumerate(socks):
        want = data if s.breaks is None else data[:min(s.breaks, size)]
        if s.breaks is not None and s.breaks < size:
            h.claim("client %d gets nothing but the file's first bytes" % i, h.and_(len(s.got) <= len(want), h.all(
                [h.eq(a, b) for a, b in zip(s.got, want)])))
            continue
        h.claim("client %d gets as many bytes as the file has" % i, len(s.got) == size)
        h.claim("client %d gets exactly the file's bytes" % i, h.all([h.eq(a, b) for a, b in zip(s.got, want)]))
    h.claim("the server listens on the given port", len(log["servers"]) > 0 and all(
        h.concrete(x.server_address[1]) == 1977 for x in log["servers"]))
    h.claim("the server can be started again at once", log.get("reuse") is True)
    h.cover("reached")


def t02_configs(tier):
    out = [("tools_s", "t02", {"size": n, "cells": None, "clients": 2}) for n in (range(7) if tier != "thorough" else range(17))]
    for n in (255, 256, 1000, 1024, 4095, 4096, 4097, 8192, 10000) + ((65535, 65536, 65537, 140000) if tier == "thorough" else (65537,)):
        cells = [c for c in (0, 1, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, n // 2, n - 2, n - 1) if 0 <= c < n]
        out.append(("tools_s", "t02", {"size": n, "cells": sorted(set(cells)), "clients": 3 if n < 5000 else 2}))
    for b in (0, 3, 500):
        out.append(("tools_s", "t02", {"size": 5000, "cells": [0, 2, 3, 4, 499, 500, 4999], "clients": 2, "breaks": b}))
    return out


# ------------------------------------------------------------------ T03

class Out:
    def __init__(self, h, path, mode):
        self.h, self.path, self.mode, self.b, self.closed = h, path, mode, [], False

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.b += [b[i] for i in range(len(b))]
        return len(b)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def t03(h, name, output, mode, pal, n, numbers):
    """One run of the entry point."""
    data = [h.u8("b%d" % i) for i in range(n)]
    made, outs = [], []

    class Movie:
        def __init__(self, filename, every_n_video_frames=1, audio_bitrate=14700, audio_normalization=None,
                     max_bytes_out=None, video_mode=None, palette=None):
            self.__dict__.update(locals())
            self.frame_grabber = types.SimpleNamespace(input_frame_rate=30.0)
            self.done = False
            made.append(self)

        def encode(self):
            return ("opcodes", self)

        def emit_stream(self, ops):
            assert ops == ("opcodes", self)
            for b in data:
                yield h.py(b)
            self.done = True

        def done(self):
            return iter(())

    def fake_open(path, m="r", *a, **k):
        o = Out(h, str(path), m)
        outs.append(o)
        return o
    osm = h.module("os", path=types.SimpleNamespace(**{x: getattr(posixpath, x) for x in (
        "splitext", "join", "basename", "dirname", "split", "normpath", "abspath", "exists")}), fspath=str, environ={})
    stubs = {"movie": {"Movie": Movie}, "os": osm, "colormath": gen_stubs()["colormath"],
             "colormath.color_objects": gen_stubs()["colormath.color_objects"]}
    h.world(stubs=stubs, fresh=True, builtin_overrides={"open": fake_open})
    mm = h.load("main")
    vm, pm = h.load("video_mode"), h.load("palette")
    argv = [name] + (["--video_mode", mode] if mode else []) + (["--palette", pal] if pal else [])
    mode, pal = mode or "DHGR", pal or "NTSC"
    if output:
        argv += ["--output", output]
    if numbers:
        argv += ["--max_output_mb", "12.5", "--audio_normalization", "0.25", "--audio_bitrate", "22500",
                 "--every_n_video_frames", "3"]
    args = mm.parser.parse_args(argv)
    vals = {"every_n_video_frames": 2, "audio_bitrate": 14700, "audio_normalization": None, "max_output_mb": 0}
    if numbers:
        vals = {"every_n_video_frames": 3, "audio_bitrate": 22500, "audio_normalization": 0.25, "max_output_mb": 12.5}
    for k, v in vals.items():
        h.claim("option %s" % k, getattr(args, k) == v)
    if numbers:
        # any values instead of those of the command line
        vals = {"every_n_video_frames": h.int("n", 1, 1000), "audio_bitrate": h.int("rate", 1, 10 ** 6),
                "audio_normalization": h.f64("norm"), "max_output_mb": h.int("mb", 0, 2 ** 20) / 8.0}
        h.assume(h.eq(vals["audio_normalization"], vals["audio_normalization"]))
        for k, v in vals.items():
            setattr(args, k, v)
    mm.main(args)
    h.claim("one movie is made", len(made) == 1)
    if len(made) != 1:
        return
    m = made[0]
    h.claim("input name", m.filename == name)
    for k in ("every_n_video_frames", "audio_bitrate"):
        h.claim("%s reaches the encoder" % k, h.eq(getattr(m, k), vals[k]))
    if numbers:
        h.claim("normalization reaches the encoder", m.audio_normalization is not None and h.eq(
            m.audio_normalization, vals["audio_normalization"]))
        h.claim("size limit in bytes", m.max_bytes_out is not None and h.eq(
            m.max_bytes_out, h.int("mb", 0, 2 ** 20) * 131072))
    else:
        h.claim("no normalization", m.audio_normalization is None)
        h.claim("no size limit", not m.max_bytes_out)
    h.claim("mode", m.video_mode is vm.VideoMode[mode])
    h.claim("palette", m.palette is pm.Palette[pal])
    want = output or posixpath.splitext(name)[0] + ".a2m"
    files = [o for o in outs if any(c in o.mode for c in "wax+")]
    h.claim("one file is written", len(files) == 1 and files[0].mode in ("wb", "bw", "wb+", "w+b"))
    if len(files) != 1:
        return
    o = files[0]
    h.claim("output name", posixpath.normpath(o.path) == posixpath.normpath(want))
    h.claim("output is closed", o.closed)
    h.claim("length of the output", len(o.b) == n)
    h.claim("output bytes", h.all([h.eq(a, b) for a, b in zip(o.b, data)]))
    h.claim("the stream is read to its end", m.done is True)
    h.cover("reached")


def t03_configs(tier):
    out = []
    for mode in ("HGR", "DHGR"):
        for pal in ("NTSC", "IIGS", "UNKNOWN"):
            for num in (False, True):
                out.append(("tools_s", "t03", {"name": "films/movie.mp4", "output": None, "mode": mode, "pal": pal, "n": 9,
                                               "numbers": num}))
    for name in NAMES + ["a.b/c.d/e.f.g", "x.a2m", "films/movie.a2m.mp4", ".hidden", "films/.hidden", "./movie"]:
        out.append(("tools_s", "t03", {"name": name, "output": None, "mode": "DHGR", "pal": "NTSC", "n": 2, "numbers": False}))
    for d, pal in ((None, None), (None, "IIGS"), ("HGR", None)):
        out.append(("tools_s", "t03", {"name": "films/movie.mp4", "output": None, "mode": d, "pal": pal, "n": 3, "numbers": False}))
    for o in ("out.a2m", "x", "dir/y.bin"):
        out.append(("tools_s", "t03", {"name": "movie.mp4", "output": o, "mode": "HGR", "pal": "IIGS", "n": 3, "numbers": True}))
    for n in (0, 1) + ((5000,) if tier != "thorough" else (5000, 140000)):
        out.append(("tools_s", "t03", {"name": "movie.mp4", "output": None, "mode": "HGR", "pal": "IIGS", "n": n,
                                       "numbers": False}))
    return out
