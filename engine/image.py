"""Loads the memory image of a driver built from /repo and disassembles on demand."""
import subprocess, struct, os, bisect, re, tempfile

class Server:
    def __init__(self, exe, args=()):
        self.p = subprocess.Popen([exe, *map(str, args)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1)
    def cmd(self, line):
        self.p.stdin.write(line + "\n"); self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r: raise RuntimeError("driver died")
        return r.rstrip("\n")
    def table(self):
        self.p.stdin.write("table\n"); self.p.stdin.flush()
        ents, syms = {}, {}
        while True:
            l = self.p.stdout.readline().split()
            if not l: raise RuntimeError("driver died")
            if l[0] == 'ok': return ents, syms
            if l[0] == 'E': ents[l[1]] = int(l[2], 16)
            else: syms[l[1]] = (int(l[2], 16), int(l[3]))
    def write(self, addr, data): self.cmd("w %x %s" % (addr, bytes(data).hex()))
    def read(self, addr, n): return bytes.fromhex(self.cmd("r %x %d" % (addr, n)))
    def call(self, fn, *args):
        return self.cmd("c %x " % fn + " ".join("%x" % a for a in args))
    def close(self):
        try: self.p.kill(); self.p.wait()
        except Exception: pass

class Image:
    def __init__(self, exe, args=(), keep_server=True):
        self.exe, self.args = exe, args
        self.srv = Server(exe, args)
        self.entries, self.syms = self.srv.table()
        fd, path = tempfile.mkstemp(prefix="img"); os.close(fd)
        assert self.srv.cmd("dump " + path) == "ok"
        self.regions = []
        with open(path, "rb") as f: data = f.read()
        os.unlink(path)
        o = 0
        while o < len(data):
            b, n = struct.unpack_from("<QQ", data, o); o += 16
            self.regions.append((b, data[o:o+n])); o += n
        self.regions.sort(key=lambda r: r[0])
        self.starts = [r[0] for r in self.regions]
        self.code = {}          # addr -> (len, mnem, ops)
        self.symname = {}       # addr -> symbol
        self.byname = {}
        self._loadsyms()
        self._text()
    def region(self, a):
        i = bisect.bisect_right(self.starts, a) - 1
        if i < 0: return None
        b, d = self.regions[i]
        return (b, d) if a < b + len(d) else None
    def bytes(self, a, n):
        r = self.region(a)
        if r is None or a + n > r[0] + len(r[1]): return None
        return r[1][a-r[0]:a-r[0]+n]
    def u64(self, a):
        b = self.bytes(a, 8)
        return None if b is None else int.from_bytes(b, "little")
    def _loadsyms(self):
        for l in subprocess.run(["nm", self.exe], capture_output=True, text=True).stdout.splitlines():
            p = l.split()
            if len(p) == 3:
                self.byname[p[2]] = int(p[0], 16)
                if p[1] in "tTwWiuV": self.symname[int(p[0], 16)] = p[2]
    def _parse(self, out):
        for l in out.splitlines():
            m = re.match(r"\s*([0-9a-f]+):\t(\S.*?)\s*(?:#.*)?$", l)
            if m:
                a = int(m.group(1), 16); txt = m.group(2)
                yield a, txt
            else:
                m = re.match(r"([0-9a-f]+) <(.+)>:$", l)
                if m: self.symname.setdefault(int(m.group(1), 16), m.group(2))
    def _add(self, items):
        items = list(items)
        for i, (a, t) in enumerate(items):
            nxt = items[i+1][0] if i + 1 < len(items) else None
            if nxt is not None: self.code.setdefault(a, (nxt, t))
    def _text(self):
        out = subprocess.run(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", "-z", self.exe],
                             capture_output=True, text=True).stdout
        self._add(self._parse(out))
        # the parser drops the last instruction's length; harmless
    def fetch(self, a):
        c = self.code.get(a)
        if c is None:
            self._disas_raw(a); c = self.code.get(a)
        return c
    def _disas_raw(self, a, n=4096):
        r = self.region(a)
        if r is None: raise RuntimeError("fetch outside image %x" % a)
        blob = r[1][a-r[0]:a-r[0]+n]
        fd, path = tempfile.mkstemp(prefix="raw"); os.write(fd, blob); os.close(fd)
        out = subprocess.run(["objdump", "-D", "-b", "binary", "-m", "i386:x86-64", "-M", "intel", "-z",
                              "--no-show-raw-insn", "--adjust-vma=0x%x" % a, path], capture_output=True, text=True).stdout
        os.unlink(path)
        items = list(self._parse(out))
        self._add([x for x in items if x[0] < a + len(blob) - 16])   # the tail may be cut mid-instruction
