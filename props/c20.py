"""C20 -- the frame buffer turns without losing, copying or mixing frames."""
from pyvc.api import contract

M = "tracking_frame_buf."


class Slot:
    """A frame, seen from the buffer: who it is, and what was read into it."""

    def read(self, corres, linkage, prio, targets, num):
        B = Slot.B
        B.reads.append((self.id, corres, linkage, prio, targets, num))
        self.data = B.tag
        return B.ok

    def write(self, corres, linkage, prio, targets, num):
        B = Slot.B
        B.writes.append((self.id, corres, linkage, prio, targets, num))
        return B.ok


def _buf(B, base="FrameBuf"):
    F = B.mod("tracking_frame_buf")
    Slot.B = B
    B.reads, B.writes, B.ok, B.tag = [], [], B.bool("ok"), B.int("tag")
    n = B.int("buf_len", 1, None)
    v = B.seq("slots", {"__cls__": Slot, "id": "i", "data": "i"}, "list", n=n)
    cls = getattr(F, base)
    fb = cls.__new__(cls)
    fb.buf, fb.buf_len, fb.num_cams = B.ring(v, n), n, B.int("num_cams", 1, 4)
    fb.size, fb.head = B.int("size", 0, None), B.int("head", 0, None)
    B.req(B.all_([fb.size <= n, fb.head < n]))
    fb.corres_file_base, fb.linkage_file_base, fb.prio_file_base = "corres", "linkage", "prio"
    fb.target_file_base = ["t0", "t1", "t2", "t3"]
    s0 = v.copy()
    B.req(B.forall(0, n, lambda i: B.forall(0, i, lambda j: s0[i].id != s0[j].id)))
    return fb, s0, n


def _turned(B, fb, s0, n, k):
    b = fb.buf
    B.ens("the same length", B.length(b) == n)
    B.ens_forall("every slot has the frame of the slot next to it, the last one that of the first", 0, n, lambda j: B.all_(
        [getattr(b[j], a) == getattr(s0[B.ite(j + k >= n, j + k - n, B.ite(j + k < 0, j + k + n, j + k))], a) for a in ("id", "data")]))
    B.ens("no frame in two slots", B.forall(0, n, lambda i: B.forall(0, i, lambda j: b[i].id != b[j].id)))


@contract("C20", [M + "FrameBufBase.fb_next"], conc=False)
def advancing_turns_the_buffer_by_one(B):
    fb, s0, n = _buf(B)
    B.call(M + "FrameBufBase.fb_next", fb)
    _turned(B, fb, s0, n, 1)
    B.ens("nothing read or written", not B.reads and not B.writes)


@contract("C20", [M + "FrameBufBase.fb_prev"], conc=False)
def going_back_turns_the_buffer_the_other_way(B):
    fb, s0, n = _buf(B)
    B.call(M + "FrameBufBase.fb_prev", fb)
    _turned(B, fb, s0, n, -1)
    B.ens("nothing read or written", not B.reads and not B.writes)


def _only(B, fb, s0, n, slot):
    B.ens("the same length", B.length(fb.buf) == n)
    B.ens_forall("frames stay in their slots", 0, n, lambda j: fb.buf[j].id == s0[j].id)
    B.ens_forall("only the slot addressed is filled", 0, n, lambda j: fb.buf[j].data == (
        s0[j].data if slot is None else B.ite(j == slot, B.tag, s0[j].data)))


@contract("C20", [M + "FrameBuf.read_frame_at_end"], conc=False)
def reading_fills_the_last_slot_only(B):
    fb, s0, n = _buf(B)
    num, links = B.int("num"), B.case(B.bool("links"))
    if B.choice("call", [0, 1]):
        if B.case(B.ok):
            B.call(M + "FrameBuf.read_frame_at_end", fb, num, links)
        else:
            B.raises(OSError, lambda: B.call(M + "FrameBuf.read_frame_at_end", fb, num, links))
    else:
        r = B.call(M + "FrameBuf.disk_read_frame_at_end", fb, num, links)
        B.ens("success is reported", r == B.ok)
    _only(B, fb, s0, n, n - 1)
    B.ens("one read", len(B.reads) == 1 and not B.writes)
    i, c, l, p, t, k = B.reads[0]
    B.ens("of the frame asked for, into the last slot", B.all_([i == s0[n - 1].id, k == num]))
    B.ens("from the files of the buffer", (c, l, p) == (("corres", "linkage", "prio") if links else ("corres", "", "")) and t == fb.target_file_base)


@contract("C20", [M + "FrameBuf.write_frame_from_start"], conc=False)
def writing_takes_the_first_slot(B):
    fb, s0, n = _buf(B)
    num = B.int("num")
    r = B.call(M + "FrameBuf.write_frame_from_start", fb, num)
    B.ens("success is reported", r == B.ok)
    _only(B, fb, s0, n, None)
    B.ens("one write", len(B.writes) == 1 and not B.reads)
    i, c, l, p, t, k = B.writes[0]
    B.ens("of the first slot, under the number given", B.all_([i == s0[0].id, k == num]))
    B.ens("to the files of the buffer", (c, l, p) == ("corres", "linkage", "prio") and t == fb.target_file_base)


@contract("C20", [M + "FrameBufBase.push", M + "FrameBufBase.pop"], conc=False)
def pushing_and_popping_keep_the_queue(B):
    """The queue is the size slots from head on."""
    fb, s0, n = _buf(B, "FrameBufBase")
    h, s = fb.head, fb.size
    wrap = lambda i: B.ite(i >= n, i - n, i)
    if B.choice("op", ["push", "pop"]) == "push":
        x = Slot()
        x.id, x.data = B.int("new"), B.int("newdata")
        y = (x.id, x.data)
        B.call(M + "FrameBufBase.push", fb, x)
        room = s < n
        B.ens("head stays", fb.head == h)
        B.ens("one more, if there is room", fb.size == B.ite(room, s + 1, s))
        B.ens_forall("the new one comes last", 0, n, lambda j: fb.buf[j].id == B.ite(B.all_([room, j == wrap(h + s)]), y[0], s0[j].id))
        B.ens_forall("as it is", 0, n, lambda j: fb.buf[j].data == B.ite(B.all_([room, j == wrap(h + s)]), y[1], s0[j].data))
    else:
        r = B.call(M + "FrameBufBase.pop", fb)
        if B.case(s > 0):
            B.ens("the oldest comes out", r.id == s0[h].id)
            B.ens("the queue starts after it", B.all_([fb.size == s - 1, fb.head == wrap(h + 1)]))
        else:
            B.ens("nothing comes out of an empty queue", r is None)
            B.ens("still empty", B.all_([fb.size == 0, fb.head == h]))
        B.ens_forall("slots stay", 0, n, lambda j: B.all_([fb.buf[j].id == s0[j].id, fb.buf[j].data == s0[j].data]))
    B.ens("a queue in the buffer", B.all_([fb.size >= 0, fb.size <= n, fb.head >= 0, fb.head < n]))


# ---------------------------------------------------------------- the frame read
def _frame_files(B):
    F = "tracking_frame_buf."

    def paths(corres, linkage, prio, num):
        B.ens("the files and the number asked for", B.all_([(corres, linkage, prio) == ("corres", "linkage", "prio"), num == B.num]))
        return B.new[0], B.new[1]

    def targs(base, num):
        B.ens("the frame's number", num == B.num)
        B.ens("each camera's files", base in B.bases)
        return B.tnew[B.bases.index(base)]
    return {F + "read_path_frame": B.spec(F + "read_path_frame", paths), F + "read_targets": B.spec(F + "read_targets", targs)}


@contract("C20", [M + "Frame.read"], contracts=_frame_files, conc=False)
def a_frame_is_filled_with_what_was_read(B):
    from .c14 import _frame
    nc = B.choice("num_cams", [1, 2, 3, 4])
    m = [B.int(f"m{c}", 0, None) for c in range(nc)]
    n0, L0 = B.int("n0", 0, None), B.int("L0", 0, None)
    B.req(n0 <= L0)
    f = _frame(B, nc, n0, L0, m, "0")
    n1 = B.int("n1", 0, None)
    g = _frame(B, nc, n1, n1, [B.int(f"k{c}", 0, None) for c in range(nc)], "1")
    B.num, B.bases = B.int("num"), [f"cam{c}" for c in range(nc)]
    B.new, B.tnew = (g.correspond, g.path_info), g.targets
    r = B.call(M + "Frame.read", f, "corres", "linkage", "prio", B.bases, B.num)
    B.ens("read", r)
    B.ens("the particles read", B.all_([f.num_parts == n1, f.correspond is g.correspond, f.path_info is g.path_info]))
    for c in range(nc):
        B.ens(f"camera {c}: the detections read", B.all_([f.targets[c] is g.targets[c], f.num_targets[c] == B.length(g.targets[c])]))


# ---------------------------------------------------------------- the buffer made
@contract("C20", [M + "FrameBuf.__init__", M + "FrameBufBase.__init__", M + "Frame.__init__"], cases=40,
          bounded="buffers of 1 to 8 frames, 1 to 4 cameras, up to 3 targets")
def a_new_buffer_has_its_own_frames(B):
    F = B.mod("tracking_frame_buf")
    n, nc, mt = B.choice("buf_len", list(range(1, 9))), B.choice("num_cams", [1, 2, 4]), B.choice("max_targets", [0, 1, 3])
    fb = F.FrameBuf(n, nc, mt, "a", "b", "c", [f"t{c}" for c in range(nc)])
    fs = [fb.buf[i] for i in range(n)]
    B.ens("as many frames as asked for", len(fb.buf) == n and all(isinstance(f, F.Frame) for f in fs))
    B.ens("no frame twice", len({id(f) for f in fs}) == n)
    own = [id(x) for f in fs for x in [f.path_info, f.correspond, f.targets, f.num_targets] + [f.targets[c] for c in range(nc)]]
    B.ens("nothing shared", len(set(own)) == len(own))
    for f in fs:
        B.ens("its cameras", f.num_cams == nc and len(f.num_targets) == nc and f.num_parts == 0)
    B.ens("nothing in them", all(c == -1 for f in fs for j in range(mt) for c in f.correspond[j].p) and all(
        f.correspond[j].nr == 0 and f.path_info[j].prev_frame == -1 and f.path_info[j].next_frame == -2 for f in fs for j in range(mt)))
    B.ens("room for the detections asked for", all(len(f.path_info) == mt and len(f.correspond) == mt and f.max_targets == mt and
                                                   all(len(t) == mt for t in f.targets) for f in fs))
    B.ens("a full queue, from its first frame", fb.size == n and fb.head == 0 and fb.buf_len == n and fb.num_cams == nc)
    q = F.FrameBufBase(fb.buf, n, nc)
    B.ens("a bare queue starts empty", q.size == 0 and q.head == 0 and q.buf_len == n and q.num_cams == nc and q.buf is fb.buf)
    B.ens("file names", (fb.corres_file_base, fb.linkage_file_base, fb.prio_file_base, fb.target_file_base) ==
          ("a", "b", "c", [f"t{c}" for c in range(nc)]))


# ---------------------------------------------------------------- histories on real files
@contract("C20", [M + "FrameBuf.read_frame_at_end", M + "FrameBuf.write_frame_from_start", M + "FrameBufBase.fb_next", M + "FrameBufBase.fb_prev"],
          sym=False, cases=25, jit=False)
def histories_run(B):
    import os
    import tempfile
    F, np = B.mod("tracking_frame_buf"), B.np
    n, nc = B.int("buf_len", 1, 6), B.choice("num_cams", [1, 2, 4])
    rnd = np.random.RandomState(B.int("seed", 0, 10 ** 6))
    with tempfile.TemporaryDirectory() as d:
        bases = [os.path.join(d, f"cam{c}.%d") for c in range(nc)]
        names = [os.path.join(d, k) for k in ("corres", "linkage", "prio")]
        disk = {}
        for t in range(1, 8):
            k = rnd.randint(1, 5)
            f = F.Frame(nc, 1)
            f.path_info = [F.Pathinfo(x=rnd.randint(-900, 900, 3) / 8.0, prev_frame=int(rnd.randint(-1, 9)), next_frame=int(rnd.randint(-2, 9)),
                                      prio=int(rnd.randint(0, 5))) for _ in range(k)]
            f.correspond = np.recarray(k, dtype=F.Corres_dtype)
            f.correspond.nr, f.correspond.p = np.arange(k) + 1, rnd.randint(-1, 9, (k, 4))
            f.num_parts = k
            for c in range(nc):
                m = rnd.randint(1, 5)
                f.targets[c] = [F.Target(pnr=i, x=t + rnd.randint(0, 99) / 8.0, y=float(i), n=1, nx=2, ny=3, sumg=4, tnr=-1) for i in range(m)]
                f.num_targets[c] = m
            B.ens("written", f.write(*names, bases, t))
            disk[t] = f
        fb = F.FrameBuf(n, nc, 2, *names, bases)
        slots = [[id(f), None, False] for f in fb.buf]
        keep = list(fb.buf)
        for step in range(14):
            op = rnd.randint(0, 5)
            if op == 0:
                fb.fb_next()
                slots = slots[1:] + slots[:1]
            elif op == 1:
                fb.fb_prev()
                slots = slots[-1:] + slots[:-1]
            elif op == 4 and slots[0][1] is not None and slots[0][2]:
                t = int(rnd.randint(1, 8))
                fb.write_frame_from_start(t)
                disk[t] = B.snap(fb.buf[0])
                for s in slots:
                    s[2] = s[2] and (s is slots[0] or s[1] != t)
            else:
                t, links = int(rnd.randint(1, 8)), bool(rnd.randint(0, 2))
                fb.read_frame_at_end(t, links)
                slots[-1] = [slots[-1][0], B.snap(disk[t]), links]
            B.ens("frames in their slots", [id(f) for f in fb.buf] == [s[0] for s in slots], f"after step {step}")
            for f, (_, w, links) in zip(fb.buf, slots):
                if w is None:
                    continue
                B.ens("what was read stays", f.num_parts == w.num_parts == len(f.path_info), f"after step {step}")
                for a, b in zip(f.path_info, w.path_info):
                    B.ens("particles", np.allclose(a.x, b.x, atol=6e-4) and (not links or (a.prev_frame, a.next_frame, a.prio) == (
                        b.prev_frame, b.next_frame, b.prio)), f"after step {step}")
                B.ens("correspondences", (f.correspond.p[:f.num_parts] == w.correspond.p[:f.num_parts]).all(), f"after step {step}")
                for c in range(nc):
                    B.ens("detections", f.targets[c] == w.targets[c] and f.num_targets[c] == len(w.targets[c]), f"after step {step}")
        try:
            fb.read_frame_at_end(99, False)
            B.ens("a missing frame is reported", False)
        except OSError:
            pass


# ---------------------------------------------------------------- how a run begins and ends
def _track_contracts(B):
    def read(self, frame_num, read_links=False):
        B.ens("the run's buffer", self is B.run.fb)
        B.ens("the links of an earlier run are not read", not read_links)
        B.held[id(self.buf[-1])] = frame_num

    def write(self, frame_num):
        B.ens("the run's buffer", self is B.run.fb)
        B.written.append((frame_num, self.buf[0]))
        return True
    return {M + "FrameBuf.read_frame_at_end": B.spec(M + "FrameBuf.read_frame_at_end", read),
            M + "FrameBuf.write_frame_from_start": B.spec(M + "FrameBuf.write_frame_from_start", write)}


def _a_run(B):
    F, P = B.mod("tracking_frame_buf"), B.mod("parameters")
    first, last = B.int("first"), B.int("last")
    B.req(last > first)
    B.held, B.written = {}, []
    fb = F.FrameBuf(4, 1, 1, "a", "b", "c", ["t"])
    B.run = type("Run", (), dict(fb=fb, seq_par=P.SequencePar(img_base_name=["t"], first=first, last=last), npart=B.int("npart", 0, None), nlinks=B.int("nlinks", 0, None)))()
    return fb, first, last


@contract("C20", ["track.track_forward_start"], contracts=_track_contracts, conc=False)
def a_forward_run_begins_with_its_first_frames(B):
    fb, first, last = _a_run(B)
    frames = list(fb.buf)
    B.call("track.track_forward_start", B.run)
    now = [fb.buf[i] for i in range(4)]
    B.ens("the same four frames", len(now) == 4 and {id(f) for f in now} == {id(f) for f in frames})
    B.ens("nothing is before the first frame", id(now[0]) not in B.held and now[0].num_parts == 0)
    for i in range(3):
        B.ens(f"slot {i + 1}: frame {i} of the run", B.all_([id(now[i + 1]) in B.held, B.held.get(id(now[i + 1]), 0) == first + i]))
    B.ens("nothing written", B.written == [])


@contract("C20", ["track.trackcorr_c_finish"], contracts=_track_contracts, conc=False)
def a_forward_run_ends_with_writing_the_next_frame(B):
    fb, first, last = _a_run(B)
    frames, step, run = list(fb.buf), B.int("step"), B.run
    n, k = run.npart, run.nlinks
    B.call("track.trackcorr_c_finish", run, step)
    B.ens("advanced once", all(fb.buf[i] is frames[(i + 1) % 4] for i in range(4)))
    B.ens("one frame written", len(B.written) == 1)
    B.ens("the one now first, under the number given", B.all_([B.written[0][0] == step, B.written[0][1] is frames[1]]))
    B.ens("counts kept", B.all_([run.npart == n, run.nlinks == k]))
