"""Small DSL for the fixed scenarios that demonstrate planted bugs."""
def N(x): return {"N": float(x)}
def S(x): return {"S": x}
def V(x): return {"V": x}
def T(x): return {"T": x}
def E(x): return {"Ent": x}
def ls(*xs): return {"L": list(xs)}
def op(k, *xs): return {k: list(xs)}
def add(a, b): return op("Add", a, b)
def gt(a, b): return op("Gt", a, b)
def lt(a, b): return op("Lt", a, b)
def clo(params, caps, *b): return {"Clo": {"params": params, "caps": caps, "body": body(b)}}
THIS, TIMER, MSG, RPCERR, SYSERR, ANSWER = "This", "Timer", "Msg", "RpcErr", "SysErr", "Answer"
def st(k): return {"id": 0, "k": k}
def body(xs): return [st(x) for x in xs]
def lit(x):
    if isinstance(x, dict): return x
    if isinstance(x, bool): return {"T": x}
    if isinstance(x, (int, float)): return {"N": float(x)}
    if isinstance(x, str): return {"S": x}
    return {"L": [lit(y) for y in x]}
# statements
def log(*xs): return {"Log": list(xs)}
def set_(v, e): return {"Set": [v, e]}
def chg(v, e): return {"Change": [v, e]}
def decl(*v): return {"Decl": list(v)}
def let(v, eff, *pre): return {"Let": {"var": v, "pre": list(pre), "eff": eff}}
def do(eff): return {"Do": eff}
def rep(n, *b): return {"Repeat": [N(n) if not isinstance(n, dict) else n, body(b)]}
def forever(*b): return {"Forever": body(b)}
def foreach(v, l, *b): return {"Foreach": [v, l, body(b)]}
def for_(v, a, z, *b): return {"For": [v, a, z, body(b)]}
def if_(c, *b): return {"If": [c, body(b)]}
def ife(c, a, b): return {"IfElse": [c, body(a), body(b)]}
def warp(*b): return {"Warp": body(b)}
def until(c): return {"WaitUntil": c}
def try_(b, var, h): return {"Try": {"body": body(b), "var": var, "handler": body(h)}}
def throw(e): return {"Throw": e}
def ret(e): return {"Ret": e}
def bcast(m, target=None, wait=False): return {"Bcast": {"msg": m, "target": target, "wait": wait}}
def stop(m): return {"Stop": m}
def sleep(e): return {"Sleep": e}
DELETE, RESET, PAUSE = "Delete", "ResetTimer", "Pause"
def fork(c, *a): return {"Fork": {"clo": c, "args": list(a)}}
def send(t, ty, **vals): return {"NetSend": {"target": S(t), "ty": ty, "vals": list(map(list, vals.items()))}}
def reply(e): return {"NetReply": e}
def say(e): return {"Say": {"think": False, "v": e, "dur": None}}
def show(v): return {"Show": v}
def push(l, v): return {"Push": [l, v]}
def remove(l, i): return {"Remove": [l, i]}
# effects
def rpc(service="s", name="f", *args): return {"Rpc": {"host": None, "service": service, "rpc": name, "args": [list(a) for a in args]}}
def sys_(name, *args): return {"Sys": {"name": name, "args": list(args)}}
def call(f, *args): return {"Call": {"f": f, "args": list(args)}}
def callc(c, *args, ent=None): return {"CallClo": {"ent": ent, "clo": c, "args": list(args)}}
def clone(e): return {"Clone": e}
def prop(n): return {"Prop": n}
# structure
FLAG, CLONE = "Flag", "Clone"
def key(k=None): return {"Key": k}
def local(m=None): return {"Local": m}
def net(ty, *f): return {"Net": {"ty": ty, "fields": list(f)}}
def custom(n, *f): return {"Custom": {"name": n, "fields": list(f)}}
def script(hat, *b): return {"hat": hat, "body": body(b)}
def func(name, params, *b): return {"name": name, "params": params, "body": body(b)}
def ent(name, *scripts, fields={}, funcs=[], costumes=0):
    return {"name": name, "fields": [[k, lit(v)] for k, v in fields.items()], "funcs": list(funcs), "scripts": list(scripts), "costumes": costumes}
def act(at, what, sub=0): return {"at": at, "sub": sub, "what": what}
START, STOP = "Start", "Stop"
def press(c): return {"Key": c}
def netin(ty, reply=False, **f): return {"Net": {"ty": ty, "fields": [[k, lit(v)] for k, v in f.items()], "reply": reply}}
def fire(name, interrupt=False, maxq=1000, **f): return {"Custom": {"name": name, "args": [[k, lit(v)] for k, v in f.items()], "interrupt": interrupt, "maxq": maxq}}
def out(delay=0, res="Num"): return {"delay": delay, "res": res}
def case(ents, actions, globals={}, funcs=[], outcomes=[], segs=80, tick=10, start=1000, depth=64, soft=False, clock="Arbitrary", pad=0, show=("log",), idle=1000, gc="Never", **kw):
    c = {"prog": {"globals": [[k, lit(v)] for k, v in globals.items()], "funcs": funcs, "ents": ents},
         "opts": {"max_depth": depth, "rpc_soft": soft, "sys_soft": soft, "clock": clock}, "actions": actions, "outcomes": outcomes,
         "start_ms": start, "tick": tick, "gc": gc, "segs": segs, "idle_thresh": idle, "burst": 0, "compare_every": 1, "pad": pad, "bounded": False}
    return {"case": c, "show": list(show), **kw}
# operators and commands by name, sprite properties
def O(name, *xs): return {"Op": [name, [lit(x) if not isinstance(x, str) or x not in ("This",) else x for x in xs]]}
def get(p): return {"Get": p}
def item(i, l): return {"Get": [l, lit(i)]}
def props(c): c["case"]["opts"]["props"] = True; return c
