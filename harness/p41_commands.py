"""P41: what commands run with the arguments they're given."""

import argparse
import io
import os
from pathlib import Path
import socket
import sys
import types

from harness import p32_config as p32
from harness.p23_connections import loop_run
from runtimepy import app as app_module
from runtimepy import entry as entry_module
from runtimepy.commands import all as commands_module
from runtimepy.commands import arbiter, common, mtu, server, task, tftp, tui
from sx.registry import case

ASSUMPTIONS = ["argparse parses arguments as it's documented to",
               "JSON text carries numbers, strings, lists and maps unchanged",
               "configurations are combined as they are by vcorelib"]


def parse(add, *argv):
    """Parse arguments of a command."""
    parser = argparse.ArgumentParser()
    command = add(parser)
    return command, parser.parse_args([str(x) for x in argv])


class WebsocketLink(p32.Factory):
    """A factory for websockets, by its name."""


p32.MODULE.WebsocketLink = WebsocketLink


def run_config(module, command, args):
    """Run a command, and return the configuration it runs with."""
    seen = []
    old = common.ARBITER, module.arbiter_cmd

    class Stub:
        def encode(self, path, data):
            seen.append((str(path), data))

    def run(given):
        assert given is args
        seen.append(list(given.configs))
        return 7

    common.ARBITER, module.arbiter_cmd = Stub(), run
    try:
        result = command(args)
    finally:
        common.ARBITER, module.arbiter_cmd = old
    (path, data), configs = seen
    return result, path, data, configs


@case("P41", budget=60, bounds="every port (0 to 65535) given or found (for websockets, the two ends of the range), 2 kinds of factories, "
      "TCP or UDP, with or without a loopback, another host, files for SSL or another "
      "configuration")
def servers(sx):
    """A server listens where asked, and a client connects to it if asked."""
    server.print = lambda *_: None
    websocket, udp = sx.pick("kind", [(False, False), (False, True), (True, False)])
    loopback = sx.pick("loopback", [False, True])
    extra = sx.pick("extra", [[], ["--host", "h"], ["--certfile", "c", "--keyfile", "k"],
                              ["--cafile", "a"], ["--cadata", "d"], ["--capath", "p"]])
    configs = sx.pick("configs", [[], ["x.yaml"]])
    factory = "WebsocketLink" if websocket else "other_link"
    port = sx.int("port", 0, 65535)
    found = sx.pick("number", [1, 65535]) if websocket else sx.int("found", 1, 65535)
    command, args = parse(server.add_server_cmd, *extra, *(["-u"] if udp else []),
                          *(["-l"] if loopback else []), "-p", 5, factory, *configs)
    sx.check(args.port == 5, "the port is an argument")
    args.port = port
    wanted = list(configs)
    result, path, data, given = run_config(server, command, args)
    sx.check(result == 7, "its result is that of the application")
    sx.check(given == wanted + [path], "other configurations are loaded too")
    sx.check(not os.path.exists(path), "and nothing is left")
    sx.check(data["includes"] == [common.FACTORIES] + wanted, "with the known factories")
    data = {k: v for k, v in data.items() if k != "includes"}
    data["factories"] = [{"name": "m.OtherLink"}, {"name": "m.WebsocketLink"}]
    for item in data["ports"]:
        item.setdefault("host", "localhost")
    for client in data["clients"]:
        client.setdefault("defer", False)
    with p32.Given([found]) as world:
        loaded, _, error = p32.load(data)
    sx.check(error is None, "the configuration is accepted")
    # The port is the one that could be bound: the one asked for, or a free one.
    real = found
    sx.check(len(world.asked) == 1 and world.asked[0][0].port == port, "the port asked for")
    for _, kind in world.asked:
        sx.check((kind == socket.SOCK_DGRAM) == udp, "of the right kind")
    made = loaded._conn_factories[factory]
    ssl = {"--certfile": {"certfile": "c", "keyfile": "k"},
           "--cafile": {"cafile": "a"}, "--cadata": {"cadata": "d"},
           "--capath": {"capath": "p"}}.get(extra[0] if extra else "", {})
    host = "h" if "--host" in extra else "0.0.0.0"
    clients = {}
    for x in data["clients"]:
        clients[x["name"]] = x
    sx.check(len(clients) == int(udp) + int(loopback), "as many as asked for")
    if udp:
        sx.check(not made.servers, "datagrams have no server")
        name, cargs, kwargs = made.clients[0]
        sx.check(cargs == () and kwargs["local_addr"][0] == "0.0.0.0"
                 and kwargs["local_addr"][1] == real, "but are received there")
        sx.check(all(kwargs[k] == v for k, v in ssl.items()), "with other arguments")
    else:
        sx.check(len(made.servers) == 1, "one server")
        _, _, sargs, kwargs = made.servers[0]
        sx.check(sargs == () and kwargs["port"] == real and kwargs["host"] == host
                 and {k: v for k, v in kwargs.items() if k not in ("port", "host")} == ssl,
                 "that listens where asked")
    if loopback:
        client = [x for x in data["clients"] if x["name"].endswith("_client")]
        sx.check(len(client) == 1 and client[0]["defer"], "connects once that's started")
        # It isn't awaited yet, so ask for it.
        asked = client[0]
        again = {"ports": data["ports"], "factories": data["factories"],
                 "clients": [{**asked, "defer": False}]}
        with p32.Given([found]):
            loaded, _, error = p32.load(again)
        sx.check(error is None, "accepted")
        made = loaded._conn_factories[factory]
        name, cargs, kwargs = made.clients[0]
        if websocket:
            want = "ws%s://localhost:" % ("s" if ssl else "")
            sx.check(len(cargs) == 1 and cargs[0] == want + str(real), "by URI")
        elif udp:
            sx.check(kwargs["remote_addr"][0] == "localhost"
                     and kwargs["remote_addr"][1] == real, "by address")
        else:
            sx.check(kwargs["host"] == "localhost" and kwargs["port"] == real, "by port")
    sx.reach("ran")


@case("P41", bounds="7 rates, as a name of a task factory and another configuration or not")
def tasks(sx):
    """A task runs at the rate asked for."""
    rate = sx.pick("rate", [None, 0.5, 3.0, 4.0, 10.0, 1000.0, 3000.0])
    configs = sx.pick("configs", [[], ["x.yaml"]])
    command, args = parse(task.add_task_cmd, *([] if rate is None else ["-r", rate]),
                          "tick_task", *configs)
    result, path, data, given = run_config(task, command, args)
    sx.check(result == 7 and given == configs + [path], "like other applications")
    sx.check(data["includes"] == [common.FACTORIES], "with the known factories")
    data = {k: v for k, v in data.items() if k != "includes"}
    data["factories"] = [{"name": "m.TickTask"}]
    data["tasks"][0].setdefault("average_depth", 10)
    with p32.Given():
        loaded, before, error = p32.load(data)
    sx.check(error is None, "the configuration is accepted")
    new = [x for x in loaded.task_manager.tasks if x.name not in before]
    sx.check(len(new) == 1 and new[0].name == "tick_task", "one task")
    sx.check(abs(new[0].period_s.value * (rate or 10.0) - 1.0) < 1e-6, "at its rate")


@case("P41", budget=60, bounds="every combination of flags, every result, with and without a "
      "window, and configurations that can't be loaded")
def applications(sx):
    """An application runs with its configurations, as its flags say."""
    code = sx.int("code", -255, 255)
    flags = {"-i": sx.pick("init", [False, True]), "-w": sx.pick("wait", [False, True]),
             "--no-poller": sx.pick("poller", [False, True])}
    curses = sx.pick("curses", [False, True])
    fails = sx.pick("fails", [False, True])
    command, args = parse(arbiter.add_arbiter_cmd, *[k for k, v in flags.items() if v],
                          "a.yaml", "b")
    if curses:
        args.curses = True
    log = []

    class Stub:
        def __init__(self, stop_sig=None, window=None, metrics_poller_task=True):
            log.append(("made", stop_sig, window, metrics_poller_task))

        async def load_configs(self, paths, wait_for_stop=False):
            log.append(("load", list(paths), wait_for_stop))
            if fails:
                raise AssertionError("no such file")

        async def app(self):
            log.append(("run",))
            return code

    def run(stop_sig, coro, **kwargs):
        log.append(("stop", stop_sig, stop_sig.is_set()))
        return loop_run(coro)

    def wrapper(func, *given):
        func("window", *given)

    old = arbiter.ConnectionArbiter, arbiter._run_handle_stop, common._curses
    arbiter.ConnectionArbiter, arbiter._run_handle_stop = Stub, run
    common._curses = types.SimpleNamespace(wrapper=wrapper)
    try:
        result = command(args)
        sx.check(not fails, "failing isn't hidden")
        sx.check(result == code, "its result is that of the application")
    except AssertionError:
        sx.check(fails, "it only fails if a configuration can't be loaded")
    finally:
        arbiter.ConnectionArbiter, arbiter._run_handle_stop, common._curses = old
    kinds = [x[0] for x in log]
    sx.check(kinds == ["stop", "made", "load"] + ([] if fails else ["run"]), "once, in order")
    sx.check(log[0][2] == flags["-i"], "it's only initialised if asked")
    sx.check(log[1][1] is log[0][1], "and stops when asked to")
    sx.check(log[1][2] == ("window" if curses else None), "in the window if there is one")
    sx.check(log[1][3] == (not flags["--no-poller"]), "with metrics unless not wanted")
    sx.check(log[2][1] == ["a.yaml", "b"] and log[2][2] == flags["-w"], "as configured")


@case("P41", bounds="every port, 4 settings, both operations, with or without another name, "
      "and every result")
def transfers(sx):
    """A file is transferred as asked, and the exit code tells if that worked."""
    operation = sx.pick("operation", ["read", "write"])
    theirs = sx.pick("theirs", [None, "name"])
    options = sx.pick("options", [[], ["-m", "netascii"], ["-t", "2.5", "-r", "0.5"],
                                  ["-t", "0.5", "-r", "2.5"]])
    result = sx.pick("result", [True, False])
    command, args = parse(tftp.add_tftp_cmd, *options, operation, "10.0.0.1", "d/our.bin",
                          *([theirs] if theirs else []))
    sx.check(args.port == 69, "the port of the protocol")
    port = sx.int("port", 1, 65535)
    args.port = port
    log = []

    def stub(kind):
        async def call(addr, ours, name, mode=None, timeout_s=None, reemit_period_s=None,
                       process_kwargs=None):
            log.append((kind, addr, ours, name, mode, timeout_s, reemit_period_s,
                        process_kwargs))
            return result
        return call

    old = tftp.tftp_read, tftp.tftp_write, tftp.run_handle_stop
    tftp.tftp_read, tftp.tftp_write = stub("read"), stub("write")
    signals = []

    def run(stop_sig, coro, **kwargs):
        signals.append(stop_sig)
        return loop_run(coro)

    tftp.run_handle_stop = run
    try:
        code = command(args)
    finally:
        tftp.tftp_read, tftp.tftp_write, tftp.run_handle_stop = old
    sx.check((code == 0) == result and not isinstance(code, bool), "zero if it worked")
    sx.check(len(log) == 1, "once")
    kind, addr, ours, name, mode, timeout, period, kwargs = log[0]
    sx.check(kind == operation, "the right way")
    sx.check(addr[0] == "10.0.0.1" and addr[1] == port, "with the right host")
    sx.check(ours == Path("d/our.bin") and name == (theirs or "d/our.bin"), "the right files")
    sx.check(mode == ("netascii" if "-m" in options else "octet"), "the right mode")
    sx.check((timeout, period) == (
        (float(options[1]), float(options[3])) if "-t" in options else (1.0, 0.2)),
             "and the right times")
    sx.check(kwargs["stop_sig"] is signals[0], "until it's stopped")


@case("P41", bounds="every size and port, 2 kinds of sockets, hosts of 2 to 4 parts")
def probes(sx):
    """Paths are probed as asked."""
    tcp = sx.pick("tcp", [False, True])
    count = sx.size("parts", 0, 2)
    parts = ["1", "2"][:count]
    command, args = parse(mtu.add_mtu_cmd, *(["-t"] if tcp else []), "host", "80", *parts)
    size, fallback = sx.int("size", 0, 65535), sx.int("fallback", 0, 65535)
    args.probe_size, args.fallback = size, fallback
    log = []
    old = mtu.discover_mtu
    mtu.discover_mtu = lambda *a, **k: log.append((a, k))
    try:
        sx.check(command(args) == 0, "that's all")
    finally:
        mtu.discover_mtu = old
    sx.check(len(log) == 1, "once")
    where, kwargs = log[0]
    sx.check(where == ("host", 80) + tuple(int(x) for x in parts), "where asked")
    sx.check(kwargs["probe_size"] == size and kwargs["fallback"] == fallback
             and kwargs["kind"] == (socket.SOCK_STREAM if tcp else socket.SOCK_DGRAM),
             "how asked")


@case("P41", bounds="4 rates and every number of iterations")
def interface(sx):
    """The terminal interface runs as often and as long as asked."""
    rate = sx.pick("rate", [None, 0.5, 2.0, 100.0])
    command, args = parse(tui.add_tui_cmd, *([] if rate is None else ["-r", rate]))
    sx.check(args.iterations == 0, "without end unless asked")
    args.iterations = count = sx.int("count", 0, 2 ** 31)
    log = []

    class Stub:
        def __init__(self, name, period, env, max_iterations=0):
            log.append(("made", period, max_iterations))

        async def run(self, window, stop_sig=None):
            log.append(("run", window, stop_sig))

    def run(stop_sig, coro, eloop=None, **kwargs):
        log.append(("stop", stop_sig))
        eloop.close()
        return loop_run(coro)

    old = tui._TuiTask, tui._run_handle_stop, common._curses
    tui._TuiTask, tui._run_handle_stop = Stub, run
    common._curses = types.SimpleNamespace(
        wrapper=lambda func, *given: func("window", *given))
    try:
        sx.check(command(args) == 0, "and then ends")
    finally:
        tui._TuiTask, tui._run_handle_stop, common._curses = old
    sx.check([x[0] for x in log] == ["made", "stop", "run"], "once")
    sx.check(log[0][1] == 1 / (rate or 60.0) and log[0][2] == count, "as asked")
    sx.check(log[2][1] == "window" and log[2][2] is log[1][1], "in the window, until stopped")


@case("P41", bounds="every exit code of each command, and arguments that aren't understood")
def program(sx):
    """The program's exit code is that of the command."""
    names = [name for name, _, _ in commands_module.commands()]
    sx.check(sorted(names) == sorted(set(names)) and {"arbiter", "server", "task", "tftp",
                                                     "mtu"} <= set(names), "all of them")
    code = sx.int("code", -255, 255)
    which = sx.pick("which", ["arbiter", "server", "task", "tftp", "mtu", "bad", "none"])
    rest = {"arbiter": ["x"], "server": ["f"], "task": ["f"], "tftp": ["read", "h", "f"],
            "mtu": ["h"]}.get(which, [])
    seen = []

    def found():
        def stub(register, name):
            def add(parser):
                register(parser)

                def run(args):
                    seen.append((name, args.dir))
                    return code

                return run

            return add

        return [(name, text, stub(register, name))
                for name, text, register in commands_module.commands()]

    old, here = app_module.commands, Path.cwd()
    app_module.commands = found
    entry_module.init_logging = lambda *args, **kwargs: None
    old_stderr, sys.stderr = sys.stderr, io.StringIO()
    try:
        result = entry_module.main(
            ["runtimepy", "-C", "/", *([] if which == "none" else [which]), *rest])
    finally:
        app_module.commands, sys.stderr = old, old_stderr
    sx.check(Path.cwd() == here, "where it was")
    if which in ("bad", "none"):
        sx.check(result != 0 and not seen, "nothing is run")
    else:
        sx.check(result == code, "the result of the command")
        sx.check(seen == [(which, Path("/"))], "which is run once, where asked")
