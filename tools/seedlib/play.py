"""Plays concrete transactions on the real program through the harness (built beside this file)."""
import copy, json, os, subprocess, sys, tempfile, shutil

BIN = os.environ["DEMO_BIN"]
U64 = 2**64 - 1
Q64 = 2**64


def enc(v):
    if isinstance(v, bool) or isinstance(v, str) or v is None:
        return v
    if isinstance(v, int):
        return "#%d" % v
    if isinstance(v, list):
        return [enc(x) for x in v]
    return {k: enc(x) for k, x in v.items()}


def dec(v):
    if isinstance(v, str):
        return int(v[1:]) if v.startswith("#") else v
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if "$map" in v:
            return {k: dec(x) for k, x in v["$map"]}
        if "$set" in v:
            return set(dec(x) for x in v["$set"])
        return {k: dec(x) for k, x in v.items()}
    return v


NOVEST = dict(pct=0, bps=0, n=0, freq=0, cliff=0)
CONFIG = dict(
    quote="mint.q", partner="partner", leftoverTo="leftover",
    base=dict(cliff=10000000, bmode=0, f1=0, f2=0, f3=0), hasDyn=False, dyn={}, pv=NOVEST, cv=NOVEST,
    collect=0, migOpt=1, actType=1, decimals=6, tokenType=0, pPerm=50, pLiq=0, cPerm=50, cLiq=0, migFeeOpt=2,
    hasSupply=False, preSupply=0, postSupply=0, creatorPct=50, tokAuth=1, migFeePct=0, creatorMigPct=0, migQuote=1000000000000,
    lv=dict(per=0, cliffDur=0, freq=0, n=0, cliffAmt=0), mCollect=0, mDyn=0, mFeeBps=0, mBaseMode=0, mComp=0,
    mSched=dict(n=0, step=0, expiry=0, red=0), firstMin=False, creationFee=0, start=Q64,
    curve=[dict(p=2 * Q64, l=10**12 * Q64)])
VENUE1 = dict(auth="authority", num=1, den=100, dur=0, partnerFee=0, vaultCfg="none")
MIN_SQRT, MAX_SQRT = 4295048016, 79226673521066979257578248091
VENUE2 = dict(auth="authority", feeNum=10000000, mode=0, n=0, freq=0, red=0, min=MIN_SQRT, max=MAX_SQRT, vaultCfg="none", act=1)


class Done:
    def __init__(self, t, ix):
        self.ok = t["res"]["ok"]
        self.err = t["res"]["err"]
        self.events = dec(t["res"]["events"])
        self.calls = dec(t["res"]["calls"])
        self.quote = dec(t["quote"])
        self.wire = t.get("wire")
        self.ix = ix

    def data(self):
        """the encoded instruction"""
        return bytes.fromhex(self.wire["data"]["$bytes"])

    def rec(self, name):
        """the bytes of an account of the program afterwards"""
        return bytes.fromhex(dict(self.wire["recs"]["$map"])[name]["$bytes"])

    def evs(self):
        """the encoded events"""
        return [bytes.fromhex(e["$bytes"]) for e in self.wire["events"]]

    def accts(self):
        return [a["k"] for a in self.wire["accts"]]

    def ev(self, name):
        return [e["n"] for e in self.events if e["name"] == name]

    def call(self, name):
        return [c for c in self.calls if c["name"] == name]


class Chain:
    def __init__(self, t22=False, quoteKind=0, slot=1000, ts=1_700_000_000, seed=1, wire=False):
        self.p = subprocess.Popen(["bash", "-c", 'exec 3>&1 >/dev/null; exec "$0"', BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.w = self.ask(cmd="new", seed=seed, t22=t22, quoteKind=quoteKind, slot=slot, ts=ts, wire=wire)["world"]

    def ask(self, **c):
        self.p.stdin.write((json.dumps(enc(c)) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise SystemExit("the harness stopped")
        r = json.loads(line)
        if "toolError" in r:
            raise SystemExit("harness: " + r["toolError"])
        r["world"] = dec(r.get("world"))
        return r

    def tx(self, *ixs):
        """a transaction; the executed instructions"""
        r = self.ask(cmd="tx", ixs=list(ixs))
        if r["failed"]:
            self.w = r["world"]
        else:
            self.w = dec(r["trans"][-1]["post"])
        return [Done(t, ix) for t, ix in zip(r["trans"], ixs)]

    def do(self, *a, **k):
        """a transaction of one instruction"""
        return self.tx(ix(*a, **k))[0]

    def must(self, *a, **k):
        d = self.do(*a, **k)
        if not d.ok:
            raise SystemExit("refused: %s %s" % (a, d.err))
        return d

    def launch(self, **change):
        c = copy.deepcopy(CONFIG)
        c.update(change)
        self.must("CreateConfig", **c)
        self.must("InitPool", t22=self.w["t22"], creator="creator", text=0)
        return self

    def swap(self, **k):
        return self.do("Swap", **swap(**k))

    def warp(self, slots=0, secs=0):
        self.must("Warp", slots=slots, secs=secs)

    def fill(self, referral="none"):
        """buys until the curve is complete"""
        for _ in range(4):
            if self.pool["quoteRes"] >= self.w["cfg"]["migQuote"]:
                return
            d = self.do("Swap", sv="real", **swap(mode=1, a0=2**62, referral=referral))
            if not d.ok:
                raise SystemExit("the curve was not completed: " + d.err)

    @property
    def pool(self):
        return self.w["pool"]

    def tok(self, name):
        return self.w["tok"].get(name, 0)


def swap(dir=1, mode=0, a0=1000, a1=None, who="trader0", referral="none", legacy=False):
    return dict(dir=dir, mode=mode, a0=a0, a1=(U64 if mode == 2 else 0) if a1 is None else a1, who=who, referral=referral, legacy=legacy)


def ix(tag, sv="no", via=0, join=False, sub=(), **x):
    return {"act": {"$v": tag, "x": x}, "via": via, "join": join, "sv": sv, "sub": [dict(slot=s, repl=r) for s, r in sub]}


def check(cond, text):
    if not cond:
        print("demonstration: " + text)
        sys.exit(1)
