"""The spin queue: who may touch the shared value, for every interleaving."""
from spec import *
from interp import *
from models import map_has

MOD = "spinqueue::"
WID = MOD + "WorkerId"
QUE = MOD + "DataSpinQueue"
RELAXED, RELEASE, ACQUIRE, ACQREL, SEQCST = range(5)
TAKES = (ACQUIRE, ACQREL, SEQCST)
GIVES = (RELEASE, ACQREL, SEQCST)
WRITES = ("store", "swap", "fetch_and", "fetch_or", "fetch_xor", "fetch_add", "fetch_sub", "fetch_nand", "fetch_max", "fetch_min", "fetch_update",
          "compare_exchange", "compare_exchange_weak", "compare_and_swap", "get_mut", "as_ptr", "from_ptr", "from_mut", "into_inner")


def order(x):
    return x.a[1] if x.op == "agg" and x.a[0].endswith("Ordering") else None


def atomics(r, field):
    """the atomic operations on a field of the receiver: [(event, operation, ordering)]"""
    out = []
    at = mk("ref", mk("obj", arg("self")), (("f", field),))
    for e in r.events:
        if e.kind != "call" or "::atomic::" not in e.name or not e.args:
            continue
        if e.args[0].op == "ref" and e.args[0].a[1][:1] == (("f", field),):
            out.append((e, e.name.split("::")[-1], [o for o in (order(x) for x in e.args[1:]) if o is not None]))
    return out


def fences(r):
    return [(e, order(e.args[0])) for e in r.events if e.kind == "call" and e.name.endswith("atomic::fence")]


def bits(x):
    """one form for the bit a worker has: shl(1, id)"""
    def f(z):
        if z.op == "bit" and z.a[0] == "Shl" and z.a[1] is num(1):
            return mk("bitof", bits(z.a[2]))
        if z.op == "call" and z.a[0].endswith("Shl::shl") and z.a[1] is num(1):
            return mk("bitof", bits(z.a[2]))
        if z.op == "prj" and z.a[1] == ("f", "id_bit"):
            return mk("bitof", project(bits(z.a[0]), ("f", "id")))
        if z.op == "prj" and z.a[1] == ("f", "id_bit_neg"):
            return mk("bit", "Not", mk("bitof", project(bits(z.a[0]), ("f", "id"))), 16)
        if z.op == "bit" and z.a[0] == "Not" and len(z.a) == 3:
            y = bits(z.a[1])
            if y.op == "bit" and y.a[0] == "Not":
                return y.a[1]
            return mk("bit", "Not", y, 16)
        if z.op == "bit" and z.a[0] in ("BitAnd", "BitOr"):
            y = [bits(w) for w in z.a[1:3]]
            y.sort(key=lambda w: show(w))
            return mk("bit", z.a[0], *y)
        return None
    return subst(x, f)


def gbits(h):
    return subst_guard(h, lambda z: None if bits(z) is z else bits(z))


def both(op, a, b):
    return bits(mk("bit", op, a, b))


def T13(ck, q, t, meta):
    """The pointer to the shared value is only given out under a fresh reading of the work word that
    synchronises with the writes it reads (acquire): to the writer when the word is zero, to a worker when
    its own bit is set, and always then. The word is only changed by the notification, which stores all
    workers' bits (release), and by a completion, which is one indivisible clearing of the worker's own bit
    (release). All workers' bits are distinct bits of the word, the queue owns the value from construction
    to drop, and no other function changes the word or the pointer."""
    word, buf = "worker_status", "data_buffer"
    base = QUE + "::<T>::"
    fns = {}
    for p in t.by_path:
        if (QUE in p) and "{closure" not in p and "tests" not in p:
            fns[p] = run(t, p)
            ck.fn(p)
    dom = D(arg("id"))
    full = F(D(arg("self")), "full_status")
    # handing out
    for name, cond in (("get_mut", "free"), ("get", "mine")):
        p = base + name
        if not ck.ob(f"{name}:there", p in fns, "no such function", p):
            continue
        r = fns[p]
        loads = [e for e, op, o in atomics(r, word) if op == "load"]
        hard = all(o and o[0] in TAKES for e, op, o in atomics(r, word) if op == "load") or any(o in TAKES for _, o in fences(r))
        ck.ob(f"{name}:one reading", len(loads) == 1, f"the work word is read {len(loads)} times", p)
        if len(loads) != 1:
            continue
        L = loads[0].res
        ck.ob(f"{name}:acquire", hard, "the work word is read without acquiring what was done before it was written", p)
        if cond == "free":
            ok_ = [cmp("Eq", L, num(0)), gbits(cmp("Eq", both("BitAnd", L, full), num(0)))]
        else:
            mine = both("BitAnd", L, mk("bitof", F(dom, "id")))
            ok_ = [b_not(cmp("Eq", mine, num(0))), cmp("Gt", mine, num(0)), cmp("Eq", mine, mk("bitof", F(dom, "id"))),
                   b_not(cmp("Eq", both("BitAnd", mk("bit", "Shr", L, F(dom, "id")), num(1)), num(0)))]
        for h, x in cases(r.ret):
            h = gbits(h)
            ck.count("answers")
            given = x.op == "agg" and x.a[1] == 1
            if given:
                ck.ob(f"{name}:only then", any(never(b_and(h, b_not(o))) for o in ok_), "the value is handed out when " + b_show(h)[:300], p)
                ptr = project(x, ("f", "0"))
                src = [e.res for e, op, o in atomics(r, buf) if op == "load"]
                ck.ob(f"{name}:pointer", any(ptr is s for s in src), f"another pointer is handed out: {show(ptr)[:150]}", p)
                late = [e for e, op, o in atomics(r, buf) if op == "load"]
            else:
                ck.ob(f"{name}:always then", any(never(b_and(h, o)) for o in ok_), "the value is kept back when " + b_show(h)[:300], p)
    # changing the word
    for p, r in fns.items():
        name = p.split("::")[-1]
        ws = [(e, op, o) for e, op, o in atomics(r, word) if op in WRITES]
        bs = [(e, op, o) for e, op, o in atomics(r, buf) if op in WRITES]
        ck.ob(f"{name}:pointer kept", not bs, f"the shared value is replaced by {bs[0][1] if bs else ''}", p)
        if name == "notify_all_workers":
            if not ck.ob("notify:once", len(ws) == 1 and ws[0][1] in ("store", "swap", "fetch_or") and ws[0][0].guard == TRUE and not ws[0][0].loops, "the work word is not set exactly once", p):
                continue
            e, op, o = ws[0]
            ck.ob("notify:all", e.args[1] is full, f"the work word is set to {show(e.args[1])[:150]}", p)
            ck.ob("notify:release", o and o[0] in GIVES or any(f in GIVES and fe.seq < e.seq for fe, f in fences(r)), "the new value may be seen after the notification", p)
        elif name == "work_done":
            if not ck.ob("done:once", len(ws) == 1 and ws[0][1] == "fetch_and" and ws[0][0].guard == TRUE and not ws[0][0].loops,
                         "a completion is not one indivisible clearing of bits: " + ", ".join(x[1] for x in ws), p):
                continue
            e, op, o = ws[0]
            m = bits(e.args[1])
            ck.ob("done:own bit", m is mk("bit", "Not", mk("bitof", F(dom, "id")), 16), f"the bits kept are {show(m)[:150]}", p)
            ck.ob("done:release", o and o[0] in GIVES or any(f in GIVES and fe.seq < e.seq for fe, f in fences(r)), "the completion may be seen before the worker's last reading", p)
        else:
            ck.ob(f"{name}:word kept", not ws, f"the work word is also changed here by {ws[0][1] if ws else ''}", p)
        ck.count("functions")
    workers(ck, t)
    built(ck, t, fns)
    # ownership
    p = f"<{QUE}<T> as std::ops::Drop>::drop"
    if ck.ob("drop:there", p in fns, "the value is never given back", p):
        r = fns[p]
        src = [e.res for e, op, o in atomics(r, buf) if op == "load"]
        frees = [e for e in r.events if e.kind == "call" and e.name.endswith("Box::from_raw")]
        ck.ob("drop:once", len(frees) == 1 and frees[0].guard == TRUE and any(frees[0].args[0] is s for s in src), "the value is not given back exactly once", p)
    for p, r in fns.items():
        if not p.endswith("Drop>::drop"):
            fr = [e for e in r.events if e.kind == "call" and (e.name.endswith("from_raw") or e.name.endswith("drop_in_place"))]
            ck.ob(f"{p.split('::')[-1]}:value kept", not fr, "the shared value is given back while the queue lives", p)
    ck.floor("functions", 6)
    ck.floor("answers", 3)


def workers(ck, t):
    p = WID + "::new"
    r = run(t, p)
    ck.fn(p)
    g, v = ok_part(r)
    idn = arg("id")
    small = cmp("Le", idn, num(15))
    bad = b_valid(b_or(b_and(g, b_not(small)), b_and(b_not(g), small)))
    ck.ob("worker:numbers", never(bad, (cmp("Ge", idn, num(0)),)), "a worker's number is not accepted exactly from 0 to 15: " + b_show(bad)[:200], p)
    if v is not None:
        ck.ob("worker:number", project(v, ("f", "id")) is idn, "another number is kept", p)
        ck.ob("worker:bit", bits(project(v, ("f", "id_bit"))) is mk("bitof", idn), "the bit is " + show(project(v, ("f", "id_bit")))[:100], p)
        ck.ob("worker:mask", bits(project(v, ("f", "id_bit_neg"))) is mk("bit", "Not", mk("bitof", idn), 16), "the mask is " + show(project(v, ("f", "id_bit_neg")))[:100], p)
    p = f"<{WID} as std::default::Default>::default"
    if p in t.by_path:
        v = run(t, p).ret
        ck.fn(p)
        k = [project(v, ("f", f)) for f in ("id", "id_bit", "id_bit_neg")]
        try:
            k = [x.a[0] if x.op == "num" else None for x in k]
            ok_ = None not in k and 0 <= k[0] <= 15 and k[1] == 1 << int(k[0]) and k[2] == 0xFFFF ^ int(k[1])
        except Exception:
            ok_ = False
        ck.ob("worker:default", ok_, "the default worker does not have the bit of its number: " + show(v)[:150], p)


def built(ck, t, fns):
    p = QUE + "::<T>::new"
    r = fns.get(p)
    if not ck.ob("new:there", r is not None, "no constructor", p):
        return
    g, v = ok_part(r)
    if not ck.ob("new:answer", v is not None, "no queue is returned", p):
        return
    ws = arg("workers")
    wid = F(el(ws, ws), "id")
    own = mk("bitof", wid)
    # the ids gone through so far, as a list or as bits
    seen = []
    for c in r.loops:
        for m in c.init:
            i, n = c.init[m], c.next[m]
            if c.src is ws and i.op == "agg" and i.a[0] == "array" and not i.a[2] and all(x is mk("push", m, wid) or x is m for _, x in cases(n)) and any(x is not m for _, x in cases(n)):
                seen.append((c, m, "list"))
            elif i is num(0) and c.src is not None and all(is_or(bits(x), m, el(c.src, c.src), wid if c.src is ws else None) or x is m for _, x in cases(n)):
                seen.append((c, m, "bits"))
            elif c.src is ws and i.op in ("emptyset", "emptymap") and any(x.op == "ins" and x.a[0] is m and x.a[1] is wid for _, x in cases(n)):
                seen.append((c, m, "set"))
    dup = []
    for c, m, k in seen:
        if c.src is not ws:
            continue
        if k == "list":
            tests = [lit(mk("call", "contains", m, wid)), lit(mk("exists", m, bool_t(cmp("Eq", el(m, m), wid))))]
        elif k == "set":
            tests = [map_has(m, wid), lit(mk("call", "contains", m, wid))]
        else:
            w = both("BitAnd", m, own)
            tests = [b_not(cmp("Eq", w, num(0))), cmp("Gt", w, num(0)), cmp("Eq", w, own)]
        for tt in tests:
            out = FALSE
            for _, h in c.exits:
                out = b_or(out, gbits(b_and(h, c.more)))
            if out != FALSE and never(b_and(out, b_not(tt))) and never(b_and(gbits(c.backguard), tt)):
                dup.append((c, m))
    ck.ob("new:distinct", len(dup) >= 1, "a worker whose number was used before is not refused, or another is", p)
    early = [h for c in r.loops if c.src is ws for _, h in c.exits if not never(b_and(h, c.more))]
    ck.ob("new:accepted", g == TRUE or not never(g), "no workers are accepted", p)
    st = project(v, ("f", "full_status"))
    ok_ = False
    for c, m, k in seen:
        if k == "bits" and st is m:
            lists = [mm for cc, mm, kk in seen if kk in ("list", "set")]
            ok_ = c.src is ws or c.src in lists
            ok_ = ok_ and all(x is not m for _, x in cases(c.next[m])) and c.init[m] is num(0)
    ck.ob("new:all bits", ok_, f"the notification would set {show(st)[:150]}", p)
    for name, r in ((p, r), (f"<{QUE}<T> as std::default::Default>::default", fns.get(f"<{QUE}<T> as std::default::Default>::default"))):
        if r is None:
            continue
        v = ok_part(r)[1] if name == p else r.ret
        what = name.split("::")[-1]
        news = [e for e in r.events if e.kind == "call" and e.name.endswith("Atomic::new")]
        word = [e for e in news if project(v, ("f", "worker_status")) is e.res]
        ck.ob(f"{what}:no work", len(word) == 1 and word[0].args[0] is num(0), "work is pending before the first notification", name)
        buf = [e for e in news if project(v, ("f", "data_buffer")) is e.res]
        ok_ = len(buf) == 1 and buf[0].args[0].op == "call" and buf[0].args[0].a[0].endswith("Box::into_raw")
        if ck.ob(f"{what}:owned", ok_, "the queue does not own a boxed value", name):
            x = buf[0].args[0].a[1]
            if name == p:
                ck.ob("new:value", x is mk("boxed", arg("data")), f"the value is {show(x)[:100]}", name)
        if name != p:
            ck.ob("default:nobody", project(v, ("f", "full_status")) is num(0), "the default queue waits for workers", name)


def is_or(x, m, e, wid):
    """m with the bit of this pass's worker"""
    if not (x.op == "bit" and x.a[0] == "BitOr" and any(y is m for y in x.a[1:3])):
        return False
    o = [y for y in x.a[1:3] if y is not m]
    return len(o) == 1 and o[0].op == "bitof" and (o[0].a[0] is e or o[0].a[0] is wid)
