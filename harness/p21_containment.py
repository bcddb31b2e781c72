"""P21: TFTP servers stay in their root directory."""

import os.path
from pathlib import Path

from harness.p19_tftp import connection, got
import runtimepy.net.udp.tftp.endpoint as tftp_endpoint
from sx.registry import case

ASSUMPTIONS = ["addresses are their own host names",
               "files are opened through their path objects (recorded, never opened)"]


class RecPath(type(Path())):
    """A path whose files are opened on paper only."""

    opened = None

    def open(self, mode="r", *args, **kwargs):
        RecPath.opened.append((str(self), mode))
        raise PermissionError("recorded")

    def is_file(self, *args, **kwargs):
        RecPath.opened.append((str(self), "?"))
        return True


def recorded(sx, name):
    """Where a request for a name looks."""
    RecPath.opened = []
    real = tftp_endpoint.Path
    tftp_endpoint.Path = RecPath
    try:
        conn = connection()
        conn.set_root(RecPath("/srv/top/root"))
        kind = sx.pick("kind", ["rrq", "wrq"])
        conn2 = connection()
        getattr(conn2, "send_" + kind)(name)
        sx.check(got(conn, conn2._transport.sent[0][0]), "keeps going")
    finally:
        tftp_endpoint.Path = real
    want = os.path.normpath(os.path.join("/srv/top/root", sx.concrete(name)))
    inside = want == "/srv/top/root" or want.startswith("/srv/top/root/")
    for path, _ in RecPath.opened:
        path = os.path.normpath(path)
        sx.check(path == "/srv/top/root" or path.startswith("/srv/top/root/"),
                 "nothing outside of the root is touched")
        sx.check(path == want, "that file")
    if inside:
        sx.check(len(RecPath.opened), "a file of the root is looked at")
    sx.check([x[0][:4] for x in conn._transport.sent] == [b"\x00\x05\x00\x02"],
             "an access violation is reported")


@case("P21", [{"n": 5}], thorough=[{"n": 7}], budget=100,
      bounds="every name of up to 5 (thorough 7) characters of '/.a', to be read or "
      "written")
def names(sx, n):
    """No name leads a server outside of its root directory."""
    recorded(sx, sx.str("name", sx.size("n", 0, n), alphabet="/.a"))


@case("P21", [{"n": 3}], thorough=[{"n": 4}], budget=100,
      bounds="every name of 3 (thorough 4) of 7 components (siblings, parents and "
      "the absolute root included), to be read or written")
def components(sx, n):
    """Also with siblings whose names start like the root's."""
    parts = [sx.pick("part%d" % i, ["..", ".", "root", "root2", "f", "", "TOP"])
             for i in range(n)]
    recorded(sx, "/".join("/srv/top/root" if p == "TOP" else p for p in parts))
