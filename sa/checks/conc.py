"""The worker threads of several_files: what C01 and C02 share."""
from checklib import *

ROOT = "dump_syms::dumper::several_files"
CHANNEL_SEND = ("Sender::send", "SyncSender::send", "Sender::try_send", "Sender::send_timeout")
CHANNEL_RECV = ("Receiver::recv", "Receiver::recv_timeout", "Receiver::try_recv")


def drops(it):
    """The stages of an iterator which may leave elements out."""
    return [k for i in layers(it) for k, _ in i.a[2] if k in ("filter", "filter_map", "take", "skip", "step_by", "take_while", "skip_while", "map_while", "flat_map", "flatten")]


def is_files(it):
    """An iteration over the files given, or over their indices."""
    s = layers(it)[-1].a[0]
    if s.k == "agg" and s.a[0].endswith("ops::range::Range") and s.a[3][0].k == "int" and s.a[3][0].a[0] == 0 and is_call(s.a[3][1], "len"):
        s = cargs(s.a[3][1])[0]
    return s.k == "arg" and s.a[0] == ROOT and s.a[1] != "config"


class Worker(CRule):
    """Automaton of a thread, as a tuple of (name, value) pairs."""
    opaque = READERS + (DISPLAY,)

    def initial(self):
        return ()

    def get(self, st, n, d=None):
        for k, v in st.a:
            if k == n:
                return v
        return d

    def set(self, st, **kw):
        d = dict(st.a)
        for k, v in kw.items():
            if v is None or v is False:
                d.pop(k, None)
            else:
                d[k] = v
        st.a = tuple(sorted(d.items(), key=lambda x: x[0]))

    def is_job_none(self, t):
        return t.k == "agg" and t.a[1] == "None" and t.a[0] == models.OPT
