"""The logger thread: a ledger of what it keeps, writes and forgets per message taken."""
from spec import *
from interp import *

THREAD = "logger::LOG_SENDER::{closure#0}"
MSG = "logger::LogMessage"
EVAL = "logger::LazyMessage::eval"


def tail(n):
    return n.split("::")[-1]


def content(e):
    """what a write writes: the pieces joined by nothing, or a text kept whole"""
    x = e.res
    data = [a for a in x.a[1:] if isinstance(a, T)] if x is not None and x.op == "call" else []
    if not data:
        return None
    y = data[-1]
    while y.op in ("ref", "deref") and isinstance(y.a[0], T) and y.op != "ref":
        y = y.a[0]
    if y.op == "call" and tail(y.a[0]) in ("join", "concat"):
        if tail(y.a[0]) == "join" and not (isinstance(y.a[2], T) and show(y.a[2]) in ("''", "&const('')")):
            return None
        return y.a[1]
    return y


def T14(ck, q, t, meta):
    """One turn of the logger thread's loop, per kind of message: the kept pieces become the kept pieces followed by
    the message's own text, or nothing, and nothing only where exactly those pieces, joined by nothing, were
    written to the open file on the same path; where they stay they were not written. Other messages leave them.
    The loop ends for a closed channel or the closing message only, which ends it always, and then what is kept is
    written and the file flushed. A new file is opened to append, the old one flushed first. The channel is
    unbounded, the guard always finalizes, and finalizing sends the closing message and then waits."""
    ps = [p for p in t.by_path if p.startswith(THREAD + "::{closure")]
    rs = [(p, run(t, p)) for p in ps if p.count("{closure") == 2]
    rs = [(p, r) for p, r in rs if any(e.kind == "call" and tail(e.name) in ("recv", "iter", "into_iter") and "crossbeam_channel" in e.name for e in r.events)]
    if not ck.ob("thread", len(rs) == 1, "the logger thread is not found", THREAD):
        return
    p, r = rs[0]
    ck.fn(p)
    recv = [e for e in r.events if e.kind == "call" and tail(e.name) == "recv" and e.res is not None]
    each = [c for c in r.loops if c.src is not None and not contains(c.src, lambda z: z.op == "mu") and c.more]
    if not ck.ob("thread:takes", len(r.loops) >= 1 and (len(recv) == 1 or not recv and len(each) == 1), "messages are not taken in one place", p):
        return
    got, msg = (is_v(recv[0].res, 0), V(recv[0].res, 0)) if recv else (each[0].more, at(each[0].src, 0))
    names = [v["name"] for v in t.adt(MSG)["variants"]]
    of = {n: b_and(got, is_v(msg, names.index(n), len(names))) for n in names}
    pay = {n: V(msg, names.index(n)) for n in names}
    texts = {}
    for n in names:
        if n in ("LazyMessage", "FlushingMessage"):
            texts[n] = {run(t, EVAL, args=[pay[n]]).ret}
        elif n == "StaticString":
            texts[n] = {pay[n], D(pay[n])}
    pushes = [e for e in r.events if e.kind == "push" and any(e.args[1] in s for s in texts.values())]
    kept = {e.args[2] for e in pushes}
    loops = [c for c in r.loops if any(m in c.next for m in kept)]
    if not ck.ob("thread:keeps", len(kept) == 1 and len(loops) == 1, f"texts are kept in {len(kept)} places", p):
        return
    M, c = list(kept)[0], loops[0]
    # the open file
    Ws = [m for m, v in c.init.items() if all(x.op == "agg" and x.a[0].endswith("Option") and x.a[1] == 0 for _, x in cases(v))]
    if not ck.ob("thread:file", len(Ws) == 1, "the file starts open, or there are several", p):
        return
    W = Ws[0]
    open_ = is_v(W, 1)
    writes = [e for e in r.events if e.kind == "call" and tail(e.name) in ("write_all", "write", "write_fmt", "write_str") and e.res is not None and "io::" in e.name]
    flushes = [e for e in r.events if e.kind == "call" and tail(e.name) == "flush"]
    fresh = {n: {mk("push", M, x) for x in texts[n]} for n in texts}
    for w in writes:
        k = content(w)
        ck.ob("write:what is kept", tail(w.name) == "write_all" and k is not None and (k is M or any(k in s for s in fresh.values())), f"what is written is {show(w.res)[:200]}", p)
        ck.ob("write:to the file", contains(w.res, lambda z: z is W), "it is written elsewhere", p)
        ck.count("writes")
    back = c.backguard
    for n in names:
        here = b_and(of[n], back)
        if n in texts:
            mine = FALSE
            for e in pushes:
                if e.args[1] in texts[n]:
                    mine = b_or(mine, e.guard)
            ck.ob(f"{n}:kept", never(b_and(of[n], b_not(mine))), "a message is not kept", p)
        for h, x in cases(c.next[M]):
            h = b_and(h, here)
            if h == FALSE or never(h):
                continue
            ck.count("outcomes")
            if n not in texts:
                ck.ob(f"{n}:leaves", x is M, f"what is kept becomes {show(x)[:150]}", p)
                continue
            cover = FALSE
            for w in writes:
                if content(w) in fresh[n]:
                    cover = b_or(cover, w.guard)
            if x in fresh[n]:
                ck.ob(f"{n}:once", never(b_and(h, cover)), "a message is written and kept", p)
                if n == "FlushingMessage":
                    ck.ob(f"{n}:at once", never(b_and(h, open_)), "a flushing message waits though a file is open", p)
            elif x is EMPTY:
                ck.ob(f"{n}:written", never(b_and(h, b_not(cover))), "what is kept is forgotten without having been written", p)
                for w in writes:
                    if content(w) in fresh[n]:
                        twice = [v for v in writes if v is not w and v.seq > w.seq and not any(z.op == "loopx" for l in b_lits(v.guard) for z in walk(l)) and not never(b_and(b_and(w.guard, v.guard), h))]
                        ck.ob(f"{n}:not twice", not twice, "it is written twice", p)
            else:
                ck.ob(f"{n}:next", False, f"what is kept becomes {show(x)[:200]}", p)
        if n != "SetFile":
            if n != "Close":
                for h, x in cases(c.next[W]):
                    y = x
                    while y is not W and y.op in ("upd", "with", "set") and isinstance(y.a[0], T):
                        y = y.a[0]
                    ck.ob(f"{n}:file stays", y is W and not contains(x, lambda z: z.op == "call" and tail(z.a[0]) == "open") or never(b_and(h, here)), f"the file becomes {x.op} {show(x)[:200]}", p)
    ck.floor("outcomes", 5)
    ck.floor("writes", 2)
    # a new file
    opens = [e for e in r.events if e.kind == "call" and tail(e.name) == "open"]
    for e in opens:
        ck.ob("SetFile:path", e.res is not None and contains(e.res, lambda z: z is pay["SetFile"]), "another file is opened", p)
        opts = {tail(z.a[0]): z for z in walk(e.res) if z.op == "call" and "OpenOptions" in z.a[0]}
        ck.ob("SetFile:appends", all(o in opts and show(opts[o].a[-1]) == "B(true)" for o in ("append", "create")) and "truncate" not in opts, f"the file is opened with {sorted(opts)}", p)
        ck.count("files")
    ck.ob("SetFile:opens", bool(opens) and not any(e.kind == "call" and "File::create" in e.name for e in r.events), "no file is opened to append", p)
    for h, x in cases(c.next[W]):
        h = b_and(h, b_and(of["SetFile"], back))
        if not never(h):
            ck.ob("SetFile:new file", contains(x, lambda z: z.op == "call" and tail(z.a[0]) == "open" and contains(z, lambda y: y is pay["SetFile"])), f"the file becomes {show(x)[:150]}", p)
    f = FALSE
    for e in flushes:
        f = b_or(f, e.guard)
    ck.ob("SetFile:old flushed", never(b_and(b_and(of["SetFile"], back), b_and(open_, b_not(f)))), "the old file is not flushed", p)
    # the end
    ck.ob("Close:ends", never(b_and(of["Close"], back)), "the logger goes on after closing", p)
    ends = []
    lx = {z for e in r.events for l in b_lits(e.guard) for z in walk(l) if z.op == "loopx"} | {z for l in b_lits(r.g) for z in walk(l) if z.op == "loopx"}
    oth = [i for i, (_, g) in enumerate(c.exits) if c.src is None or not never(b_and(g, c.more))]
    def after(i):
        """having left by the exit i, as told behind the loop"""
        dom = len(oth) + (c.src is not None)
        gs = [is_v(z, oth.index(i), dom) for z in lx]
        return gs + [lit(z) for e in r.events for z in b_lits(e.guard) if z.op == "exists" and z.a[0] is c.src and len(oth) == 1]
    for i, (_, g) in enumerate(c.exits):
        if never(b_and(g, of["Close"])) and not never(b_and(g, got)):
            ok_ = bool(lx) and all(never(b_and(r.g, x)) for x in after(i))
            ck.ob("thread:goes on", ok_, f"the logger ends when {b_show(g)[:200]}", p)
        elif not never(b_and(g, of["Close"])):
            ck.ob("Close:alone", never(b_and(g, b_and(got, b_not(of["Close"])))), f"the logger also ends when {b_show(g)[:200]}", p)
            ends.append(i)
    last = [w for w in writes if content(w) is M]
    if not ck.ob("Close:writes", len(ends) == 1 and len(last) >= 1, "what is kept is not written on closing", p):
        return
    closing = [of["Close"]] + after(ends[0])
    cover = FALSE
    for w in last:
        cover = b_or(cover, w.guard)
    ck.ob("Close:written", any(not never(b_and(g, cover)) and never(b_and(b_and(g, open_), b_not(cover))) for g in closing), f"what is kept is written on closing when {b_show(cover)[:200]}", p)
    for w in last:
        done = b_and(w.guard, is_v(w.res, 0))
        f = FALSE
        for e in flushes:
            if e.seq > w.seq:
                f = b_or(f, e.guard)
        ck.ob("Close:flushed", never(b_and(done, b_not(f))), "the file is not flushed on closing", p)
    start(ck, t, c, M)
    finish(ck, t, names)


def start(ck, t, c, M):
    p = THREAD
    if p not in t.by_path:
        return
    r = run(t, p)
    ck.fn(p)
    sp = [e for e in r.events if e.kind == "call" and tail(e.name) == "spawn"]
    ch = [e for e in r.events if e.kind == "call" and tail(e.name) == "unbounded"]
    if not ck.ob("start:thread", len(sp) == 1 and len(ch) == 1 and sp[0].guard == sp[0].guard, "not one thread on one unbounded channel", p):
        return
    cl = sp[0].args[0]
    ck.ob("start:sender", r.ret is project(ch[0].res, ("f", "0")), f"messages are sent to {show(r.ret)[:100]}", p)
    ck.ob("start:receiver", contains(cl, lambda z: z is project(ch[0].res, ("f", "1"))), "the thread takes from another channel", p)
    m = c.init[M]
    if m is not EMPTY:
        caps = [a for a in cl.a if isinstance(a, tuple)]
        i = m.a[1][1] if m.op == "prj" and m.a[1][0] == "f" else None
        ok_ = bool(caps) and i is not None and str(i).isdigit() and int(i) < len(caps[0]) and caps[0][int(i)] is EMPTY
        ck.ob("start:nothing kept", ok_, f"the thread starts with {show(m)[:80]}", p)


def finish(ck, t, names):
    close = names.index("Close")
    p = "logger::Logger::finalize"
    if ck.ob("finalize:there", p in t.by_path, "no such function", p):
        ck.fn(p)
        r = run(t, p)
        sent = [e for e in r.events if e.kind == "call" and tail(e.name) in ("send", "try_send") and e.args[1].op == "agg" and e.args[1].a[0].endswith("LogMessage")]
        ok_ = len(sent) == 1 and sent[0].args[1].a[1] == close
        ck.ob("finalize:closes", ok_ and never(b_and(r.g, b_not(sent[0].guard))), "the closing message is not sent", p)
        waits = [e for e in r.events if e.kind == "call" and tail(e.name) == "join" and "JoinHandle" in e.name]
        ck.ob("finalize:waits", len(waits) == 1 and ok_ and waits[0].seq > sent[0].seq, "the thread is not waited for after that", p)
    p = "<logger::LoggerGuard as std::ops::Drop>::drop"
    if ck.ob("guard:there", p in t.by_path, "dropping the guard does nothing", p):
        ck.fn(p)
        r = run(t, p, opaque=("Logger::finalize",))
        f = FALSE
        for e in r.events:
            if e.kind == "call" and e.name.endswith("Logger::finalize"):
                f = b_or(f, e.guard)
        ck.ob("guard:finalizes", f != FALSE and never(b_and(r.g, b_not(f))), "dropping the guard does not finalize", p)
    p = "logger::Logger::launch"
    if ck.ob("launch:there", p in t.by_path, "no such function", p):
        ck.fn(p)
        r = run(t, p)
        name = F(arg("self"), "file_name")
        sent = [e for e in r.events if e.kind == "call" and tail(e.name) in ("send", "try_send") and e.args[1].op == "agg" and e.args[1].a[1] == names.index("SetFile")]
        ok_ = len(sent) == 1 and contains(sent[0].args[1], lambda z: z is V(name, 1)) and never(b_and(b_and(r.g, is_v(name, 1)), b_not(sent[0].guard)))
        ck.ob("launch:file", ok_, "the file named is not opened", p)
    p = "logger::Logger::with_max_log_level"
    if ck.ob("level:there", p in t.by_path, "no such function", p):
        ck.fn(p)
        r = run(t, p)
        st = [e for e in r.events if e.kind == "call" and tail(e.name) == "store"]
        ok_ = len(st) == 1 and "MAX_LOG_LEVEL" in show(st[0].args[0])
        ck.ob("level:stored", ok_, "the level is not stored", p)
        lv = [v["name"] for v in t.adt("logger::LogLevel")["variants"]]
        for h, x in (cases(st[0].args[1]) if ok_ else ()):
            for i in range(len(lv)):
                if not never(b_and(h, is_v(arg("level"), i, len(lv)))):
                    ck.ob(f"level:{lv[i]}", x is num(i), f"the level {lv[i]} is stored as {show(x)[:40]}", p)
                    ck.count("levels")
        ck.floor("levels", 4)
