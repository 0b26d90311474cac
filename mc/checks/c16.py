"""See DESIGN.md, C16."""

import json
import os
import resource
import shutil
import signal

from .. import cli, impl, records as r, spaces
from ..core import Violation
from ..generic import DOC, LEAVES
from .c10 import pack, parse

ID = "C16"
LEVEL = "fault_enumeration"
RULE = "one evaluation per interruption; distinct_nontrivial counts distinct (direction, formatting, document, limit, effect) combinations"
BOUND = (
    "every byte of the output at which writing can stop, for three documents, both directions, indented and minified JSON, "
    "with and without a previous output, the stop being an error or the death of the process; plus a full device; "
    "thorough: every property kind and record base"
)
ASSUMPTIONS = [
    "stops are injected with the file size limit (the operating system refuses or kills at that byte)",
    "data handed to the operating system survives; power loss reordering is not modelled",
]
TECHNIQUE = "exhaustive fault enumeration (all crash points of the output write) on the implementation"


def documents(tier):
    yield "small", spaces.one("p", LEAVES["Int"])
    yield "struct", spaces.one("p", LEAVES["Struct"])
    yield "group", r.world(r.groups(("EPalGroupType::Neutral", None)))
    if tier == "thorough":
        for k, p in LEAVES.items():
            yield k, spaces.one(k, p)
        for fam, lab, d in r.record_bases(False):
            yield f"{fam} {lab}", d
    else:
        yield "all kinds", r.compact_all_kinds()


def units(tier):
    for lab, d in documents(tier):
        for to, minify in ((True, False), (True, True), (False, False)):
            n = 0x10000 if lab == "all kinds" else 9000 if to else 3000
            # large outputs pass through the buffers in several writes; quick covers block edges there
            step = 1 if lab != "all kinds" or not to else 61 if minify else 307
            lims = list(range(0, n, step))
            if step > 1:
                lims = sorted(set(lims) | {x + e for x in range(0, n, 4096) for e in (-1, 0, 1) if x + e >= 0})
            for i in range(0, len(lims), 64):
                yield f"{lab} {'to JSON' if to else 'to save'}{' minified' if minify else ''} {lims[i]}", ("limit", d, to, minify, lims[i : i + 64])
        yield f"{lab} full device", ("full", d)


def child(f, limit=None, kill=False):
    """Run f in a child with a file size limit; its exit status (negative: killed)."""
    pid = os.fork()
    if pid == 0:
        st = 70
        try:
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            st = f()
        except BaseException:
            st = 71
        finally:
            os._exit(st & 0xFF if st else 0)
    _, s = os.waitpid(pid, 0)
    return -os.WTERMSIG(s) if os.WIFSIGNALED(s) else os.WEXITSTATUS(s)


def scene(cx, content, previous):
    root = os.path.join(cx.scratch, "root")
    if os.path.exists(root):
        shutil.rmtree(root)
    os.mkdir(root)
    impl.put(os.path.join(root, "in"), content)
    if previous:
        impl.put(os.path.join(root, "out"), b"previous output " * 10)
    return root


def is_complete(to, data, d, b):
    if to:
        try:
            return impl.jeq(json.loads(data.decode("utf8")), DOC.js(d)) is None
        except ValueError:
            return False
    try:
        return parse(data)[0] == b
    except Violation:
        return False


def run(payload, cx):
    kind, d = payload[:2]
    b = DOC.enc(d)
    js = json.dumps(DOC.js(d)).encode()
    sav = pack(b, 0x31)
    if kind == "full":
        for to in (True, False):
            for minify in (False, True):
                root = scene(cx, sav if to else js, False)
                args = ["in", "-o", "/dev/full", "--force", "--to-json" if to else "--from-json"] + (["--minify-json"] if minify else [])
                st = child(lambda: cli.convert(args, root)[0])
                cx.state(("full", to, minify, hash(b)))
                cx.trace()
                if st == 0:
                    raise Violation("reports success although the device is full", arguments=args)
                if impl.get(os.path.join(root, "in")) != (sav if to else js):
                    raise Violation("the input is changed")
                cx.outcome("failed")
        return
    _, _, to, minify, lims = payload
    src = sav if to else js
    args = ["in", "-o", "out", "--force", "--to-json" if to else "--from-json"] + (["--minify-json"] if minify else [])
    root = scene(cx, src, False)
    if child(lambda: cli.convert(args, root)[0]) != 0:
        raise Violation("the undisturbed conversion fails")
    whole = len(impl.get(os.path.join(root, "out")))
    for lim in lims:
        if lim > whole + 64:
            break
        for kill in (False, True):
            for previous in (False, True) if lim % 8 == 0 else (False,):
                interrupted(cx, d, b, src, args, to, lim, kill, previous, whole)
    cx.sample({"to_json": to, "limits": f"{lims[0]}..{lims[-1]}", "size": whole})


def interrupted(cx, d, b, src, args, to, lim, kill, previous, whole):
    root = scene(cx, src, previous)
    st = child(lambda: cli.convert(args, root)[0], lim, kill)
    cx.trace()
    after = cli.snapshot(root)
    detail = dict(to_json=to, limit=lim, killed=kill, status=st, size=whole)
    if after.get("in") != src:
        raise Violation("the input is changed", **detail)
    out = after.get("out")
    full = out is not None and is_complete(to, out, d, b)
    cx.state((to, lim, kill, previous, whole, st, None if out is None else len(out)))
    if st == 0:
        if not full:
            raise Violation("reports success without the complete output", written=None if out is None else len(out), **detail)
        cx.outcome("complete")
        return
    cx.outcome("killed" if st < 0 else "failed")
    for name in after:
        if name == "in" or full and name == "out" or previous and after[name] == b"previous output " * 10:
            continue
        before = cli.snapshot(root)
        back = ["--from-json" if to else "--to-json"]
        st2, _, _ = cli.convert([name, "-o", "reverse", "--force", *back], root)
        ch = cli.changed(before, cli.snapshot(root))
        if st2 == 0 or ch:
            raise Violation("a partial output is accepted by the reverse conversion", file=name, partial=after[name][-200:].hex(), length=len(after[name]), changed=ch, **detail)
