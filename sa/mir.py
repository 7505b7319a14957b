"""Loading of the extracted MIR: bodies, call names, control-flow graphs and natural loops."""
import fcntl, json, os, re, subprocess, sys, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

class ExtractError(Exception): pass

def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock", VERIF + "/extractor/src"):
        fs = [root] if os.path.isfile(root) else sorted(glob.glob(root + "/**/*", recursive=True))
        for f in fs:
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def extract():
    """run the compiler driver over the current tree of /repo; -> directory with the MIR"""
    out = os.path.join(BUILD, "mir-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    stamp = os.path.join(out, "stamp")
    key = tree_hash()
    if os.environ.get("VERIF_CACHE") and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(out, exist_ok=True)
    for f in glob.glob(out + "/*"): os.remove(f)
    script = r'''
set -e
. /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=nightly
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib:$LD_LIBRARY_PATH"
cd "$V/extractor"
cargo build --offline --target-dir "$B/mirx" 1>&2
cd "$R"
rm -rf "$B"/target/debug/.fingerprint/die-e-* "$B"/target/debug/build/die-e "$B"/target/debug/build/die-e-*
CARGO_INCREMENTAL=0 MIRX_OUT="$O" RUSTC_WORKSPACE_WRAPPER="$B/mirx/debug/mirx" cargo check --lib --bins --offline --target-dir "$B/target" 1>&2
'''
    env = dict(os.environ, V=VERIF, B=BUILD, R=REPO, O=out)
    env.pop("RUSTC_WRAPPER", None)
    p = subprocess.run(["bash", "-c", script], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not os.path.exists(out + "/die_e.json"):
        raise ExtractError("extraction failed: " + p.stderr[-3000:])
    open(stamp, "w").write(key)
    return out

def strip_generics(s):
    """remove every <...> group that follows '::' and is not an impl or `as` segment"""
    out = []; i = 0
    while i < len(s):
        if s[i] == "<":
            d = 0; j = i
            while True:
                if s[j] == "<": d += 1
                elif s[j] == ">" and s[j-1] != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            inner = s[i+1:j]
            if inner.startswith("impl "):
                t = inner[5:]
                m = split_top(t, " for ")
                t = m[-1]
                t = strip_generics(t.strip())
                out.append(t.split("::")[-1].strip("[]& ") if not t.startswith("[") else "slice")
            elif split_top(inner, " as ")[1:]:
                a, b = split_top(inner, " as ")[:2]
                out.append(strip_generics(b).split("::")[-1])
            # plain generic arguments vanish
            elif i == 0 or s[i-2:i] != "::":
                pass
            i = j + 1
        else:
            out.append(s[i]); i += 1
    r = "".join(out)
    while "::::" in r: r = r.replace("::::", "::")
    return r.strip(":")

def split_top(s, sep):
    d = 0; parts = []; last = 0; i = 0
    while i < len(s):
        c = s[i]
        if c in "<([": d += 1
        elif c in ">)]" and s[i-1] != "-": d -= 1
        elif d == 0 and s.startswith(sep, i):
            parts.append(s[last:i]); last = i + len(sep); i += len(sep); continue
        i += 1
    parts.append(s[last:])
    return parts

_short = {}
def short(path):
    r = _short.get(path)
    if r is None:
        p = path.replace("main_die_e::", "").replace("die_e::", "")
        segs = strip_generics(p).split("::")
        segs = [x for x in segs if x]
        cl = [x for x in segs if x.startswith("{closure")]
        if cl:
            k = next(i for i, x in enumerate(segs) if x.startswith("{closure"))
            r = "::".join(segs[max(0, k-2):])
        else:
            r = "::".join(segs[-2:])
        if r.startswith("slice::") : pass
        _short[path] = r
    return r

class Body:
    def __init__(self, j, prog):
        self.j = j; self.path = j["path"]; self.name = short(self.path)
        self.argc = j["argc"]; self.locals = j["locals"]; self.blocks = j["blocks"]
        self.kind = j["kind"]; self.span = j["span"]; self.pub = j["pub"]; self.generics = j["generics"]
        self.prog = prog
        self._cfg = None
        self.dbg = {}
        for n, pl in j["dbg"]:
            if not pl[1]: self.dbg.setdefault(pl[0], n)
    def succs(self, b):
        t = self.blocks[b]["t"]; k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [x for _, x in t[3]] + ([t[4]] if t[4] is not None else [])
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[4]]
        return []
    def cfg(self):
        if self._cfg: return self._cfg
        n = len(self.blocks)
        order = []; seen = set()
        st = [(0, iter(self.succs(0)))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succs(s)))); break
            else:
                st.pop(); order.append(b)
        rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b): preds[s].append(b)
        # dominators (bitsets over rpo index)
        full = (1 << len(rpo)) - 1
        dom = {b: full for b in rpo}; dom[rpo[0]] = 1
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                d = full
                for p in preds[b]: d &= dom[p]
                d |= 1 << idx[b]
                if d != dom[b]: dom[b] = d; ch = True
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom[b] >> idx[s] & 1:      # back edge b -> s
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(preds[x])
        self._cfg = (rpo, idx, preds, loops)
        return self._cfg

class Program:
    def __init__(self, d):
        self.bodies = {}; self.prom = {}; self.adts = {}; self.consts = {}; self.impls = []
        self.files = []
        for f in ("die_e.json", "main_die_e.json"):
            p = os.path.join(d, f)
            if not os.path.exists(p): continue
            j = json.load(open(p)); self.files.append(f)
            for b in j["bodies"]:
                B = Body(b, self)
                if b["promoted"] is None: self.bodies.setdefault(B.path, B)
                else: self.prom[(B.path, b["promoted"])] = B
            self.adts.update((k, a) for k, a in j["adts"].items() if not (k in self.adts and self.adts[k]["local"]))
            for c in j["consts"]: self.consts[c["path"]] = c["value"]
            self.impls += j["impls"]
        self.by_short = {}
        for p, B in self.bodies.items(): self.by_short.setdefault(B.name, []).append(B)
    def find(self, suffix):
        """bodies whose path ends with `suffix` after removal of generic arguments"""
        r = [B for p, B in self.bodies.items() if (p == suffix or strip_generics(p).endswith("::" + suffix) or B.name == suffix) and B.kind != "Closure"]
        return r
    def callees(self, body):
        """short names of everything a body calls or mentions as a function"""
        r = set()
        for blk in body.blocks:
            t = blk["t"]
            if t[0] == "call" and "ind" not in t[1]:
                r.add(short(t[1]["path"]))
                if t[1].get("resolved"): r.add(short(t[1]["resolved"]))
        return r
    def callers(self, name):
        return [b for b in self.bodies.values() if name in self.callees(b)]
    def variants(self, adt):
        a = self.adts.get(adt)
        if not a or a["kind"] != "enum": return None
        return tuple(v["name"] for v in a["variants"])

_prog = None
def program():
    global _prog
    if _prog is None:
        os.makedirs(VERIF + "/.build", exist_ok=True)
        with open(VERIF + "/.build/lock", "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            _prog = Program(extract())
    return _prog

if __name__ == "__main__":
    P = program()
    print(len(P.bodies), "bodies", len(P.prom), "promoted")
